// The C++ type that stands for a Rust enum, Option, Result or tuple has its layout
// and its variants; each value crosses as the variant it is, and its payload once.
#include "enums.h"
#include "vp.h"
#include <bit>
#include <cstddef>
#include <type_traits>
using namespace enums;
template <typename T> T any() { return vp_any<T>(); }
template <> bool any<bool>() { return vp_nd_bool(); }
static int32_t l0; static uint32_t d0;
static void start() { l0 = live(); d0 = drops(); }
static bool made(int n) { return live() == l0 + n; }

PROOF(layouts) {
  vp_check(sizeof(Holds) == sizes(0) && alignof(Holds) == aligns(0), "a struct of options and results");
  vp_check(sizeof(rs_std::Option<uint32_t>) == sizes(1) && sizeof(rs_std::Result<uint32_t, uint8_t>) == sizes(2) && sizeof(rs_std::Option<D>) == sizes(3), "options and results");
  vp_check(sizeof(Pay) == sizes(4) && alignof(Pay) == aligns(4) && sizeof(RC) == sizes(5) && alignof(RC) == aligns(5) && sizeof(RU) == sizes(6) && alignof(RU) == aligns(6), "enums with payloads");
  vp_check(sizeof(U8) == sizes(7) && sizeof(I16) == sizes(8) && sizeof(U64) == sizes(9) && sizeof(Plain) == sizes(10) && alignof(U8) == aligns(7) && alignof(I16) == aligns(8) && alignof(U64) == aligns(9) && alignof(Plain) == aligns(10), "enums without");
}
PROOF(discriminants) {
  vp_check(u8_of(U8::MakeA()) == 3 && u8_of(U8::MakeB()) == 200 && u8_of(U8::MakeC()) == 201, "repr(u8)");
  vp_check(i16_of(I16::MakeLow()) == -5 && i16_of(I16::MakeZero()) == 0 && i16_of(I16::MakeHigh()) == 300, "repr(i16)");
  vp_check(u64_of(U64::MakeBig()) == 0xffffffff00000001 && u64_of(U64::MakeSmall()) == 1, "repr(u64)");
  vp_check(plain_of(Plain::MakeA()) == 0 && plain_of(Plain::MakeB()) == 1 && plain_of(Plain::MakeC()) == 2, "no repr");
}
PROOF(unit_variants) {
  auto x = any<uint8_t>();
  U8 a = to_u8(x);
  vp_check((a == U8::MakeA()) == (x == 0) && (a == U8::MakeB()) == (x == 1) && (a == U8::MakeC()) == (x > 1), "the variant Rust made");
  U8 b = a;
  vp_check(b == a && u8_of(b) == u8_of(a), "copied");
  I16 c = to_i16(x);
  vp_check((c == I16::MakeLow()) == (x == 0) && (c == I16::MakeHigh()) == (x > 1), "the variant Rust made");
  U64 e = to_u64(x & 1);
  vp_check((e == U64::MakeBig()) == (x & 1), "the variant Rust made");
  Plain p = to_plain(x);
  vp_check(plain_of(p) == (x > 2 ? 2 : x) && plain_of(p.next()) == (plain_of(p) + 1) % 3 && p.is_a() == (x == 0), "methods of an enum");
}
PROOF(payloads) {
  auto w = any<uint8_t>(); auto v = any<uint32_t>(); auto x = any<uint8_t>();
  start();
  {
    Pay p = pay(w, v, x);
    vp_check(pay_sum(p) == (w == 0 ? v ^ std::rotl(~v, 1) : w == 1 ? x : 7) && made(w == 0), "the variant Rust made");
  }
  vp_check(made(0) && drops() == d0 + (w == 0), "its payload is dropped");
  {
    Pay p = Pay::MakeA(v, D::new_(x));
    vp_check(pay_sum(p) == (v ^ std::rotl(uint32_t{x}, 1)) && made(1), "a variant that C++ made");
  }
  vp_check(made(0), "its payload is dropped");
  { Pay p = Pay::MakeC(); vp_check(pay_sum(p) == 7 && made(0), "a variant without payload"); }
  vp_check(made(0), "nothing to drop");
}
PROOF(repr_c) {
  auto w = any<uint8_t>(); auto a = any<uint32_t>(); auto x = any<uint8_t>(); auto y = any<uint64_t>();
  RC r = rc(w, a, x, y);
  vp_check(r.tag == (w == 0 ? RC::Tag::A : w == 1 ? RC::Tag::B : RC::Tag::C), "the tag is that of the variant");
  if (w == 0) vp_check(r.A.__field0 == a, "its payload");
  if (w == 1) vp_check(r.B.x == x && r.B.y == y, "its fields");
  RC s = RC::MakeA(a);
  vp_check(rc_sum(s) == a && s.tag == RC::Tag::A && rc_sum(RC::MakeC()) == 9, "variants that C++ made");
  s.tag = RC::Tag::B; s.B.x = x; s.B.y = y;
  vp_check(rc_sum(s) == (x ^ std::rotl(y, 3)), "fields that C++ wrote");
  RU u = ru(w & 1, a, y, x);
  vp_check(u.tag == (w & 1 ? RU::Tag::A : RU::Tag::B), "the tag is that of the variant");
  if (w & 1) vp_check(u.A.__field0 == static_cast<uint16_t>(a), "its payload"); else vp_check(u.B.__field0 == y && u.B.__field1 == x, "its payload");
  vp_check(ru_sum(RU::MakeA(a)) == static_cast<uint16_t>(a) && ru_sum(RU::MakeB(y, x)) == (y ^ x), "variants that C++ made");
  vp_must("repr(C)");
}
PROOF(fields) {
  auto some = any<bool>(); auto v = any<uint32_t>(), w = any<uint32_t>();
  start();
  {
    Holds h = Holds::new_(some, v);
    vp_check(h.o_.has_value() == some && (!some || *h.o_ == v) && !h.p.has_value() && h.r_.has_value() == some && (some ? *h.r_ == v : h.r_.error() == static_cast<uint8_t>(v)), "C++ reads what Rust wrote");
    vp_check(h.d_.has_value() == some && (!some || h.d_->v() == v) && h.q_.has_value() == some && (!some || *h.q_ == static_cast<uint8_t>(v)) && made(some), "C++ reads what Rust wrote");
    h.o_ = w;
    vp_check(h.o() == w && h.r() == (some ? v : static_cast<uint8_t>(v) ^ 0x100), "Rust reads what C++ wrote");
    h.r_ = rs_std::unexpected<uint8_t>(static_cast<uint8_t>(w));
    vp_check(h.r() == (static_cast<uint8_t>(w) ^ 0x100), "an error");
    h.r_ = w;
    vp_check(h.r() == w && h.d() == (some ? v : 2), "a value");
    h.d_ = D::new_(w);
    vp_check(h.d() == w && made(1), "an object replaces the one before");
    h.o_ = std::optional<uint32_t>();
    h.q_ = std::optional<uint8_t>(7);
    vp_check(h.o() == 1 && h.q() == 7, "none and some");
  }
  vp_check(made(0), "what it holds is dropped");
}
PROOF(results) {
  auto ok = any<bool>(); auto v = any<uint32_t>();
  auto a = res_u(ok, v);
  vp_check(a.has_value() == ok && (ok ? *a == v : a.error() == static_cast<uint8_t>(v)), "a result of plain values");
  vp_check(res_by(a) == (ok ? v : static_cast<uint8_t>(v) ^ 0x100), "and back");
  uint32_t old = res_ref(a);
  vp_check(old == (ok ? v : static_cast<uint8_t>(v)) && a.has_value() == !ok && (ok ? a.error() == static_cast<uint8_t>(v) : *a == uint32_t{static_cast<uint8_t>(v)} + 5), "changed in place by Rust");
  auto u = res_unit(ok, v);
  vp_check(u.has_value() == ok && (ok || u.error() == v), "a result without a value");
  start();
  {
    auto d = res_d(ok, v);
    vp_check(d.has_value() == ok && made(ok) && (ok ? d->v() == v : d.error() == static_cast<uint8_t>(v)), "an object or an error");
    auto e = res_e(ok, v);
    vp_check(e.has_value() == ok && made(1) && (ok ? *e == static_cast<uint8_t>(v) : e.error().v() == v), "a value or an object");
  }
  vp_check(made(0), "what it holds is dropped");
  {
    auto d = res_d(ok, v);
    vp_check(res_d_by(std::move(d)) == (ok ? v : static_cast<uint8_t>(v)), "given to Rust");
  }
  vp_check(made(0), "what it held is dropped once");
  { rs_std::Result<D, uint8_t> d(D::new_(v)); auto e = d; vp_check(res_d_by(e) == v, "a copy is given"); vp_check(made(2), "and dropped"); }
  vp_check(made(0), "the copies are dropped");
  vp_must("results");
}
PROOF(niches) {
  auto x = any<uint8_t>(); auto c = any<uint32_t>();
  auto b = opt_niche(x);
  vp_check(b.has_value() == (x < 2) && (x > 1 || *b == (x == 1)), "an option of a bool");
  vp_check(opt_niche_by(b) == (x > 2 ? 2 : x), "and back");
  auto ch = opt_char(c);
  vp_check(ch.has_value() == (c < 0x110000 && (c < 0xd800 || c > 0xdfff)) && (!ch || uint32_t{*ch} == c), "an option of a char");
  auto p = opt_plain(x);
  vp_check(p.has_value() == (x < 3) && (!p || u8_of(*p) == (x == 0 ? 3 : x == 1 ? 200 : 201)), "an option of an enum");
  uint32_t v = c;
  auto r = opt_ref(&v, x & 1);
  vp_check(r.has_value() == (x & 1) && (!r || *r == &v), "an option of a reference");
  std::optional<const uint32_t*> q; if (x & 2) q = &v;
  vp_check(opt_ref_by(q) == (x & 2 ? c : 3), "and back");
}
PROOF(options) {
  auto some = any<bool>(); auto v = any<uint32_t>(); auto y = any<int64_t>(), z = any<int64_t>();
  std::optional<int64_t> o; if (some) o = y;
  vp_check(opt_i64(o, z) == (some ? y : z), "an option given to Rust");
  rs_std::Option<uint32_t> m = some ? std::optional<uint32_t>(v) : std::nullopt;
  uint32_t old = opt_mut(m, ~v);
  vp_check(old == (some ? v : 4) && m.has_value() == !some && (some || *m == ~v), "changed in place by Rust");
}
PROOF(options_of_objects) {
  auto some = any<bool>(); auto v = any<uint32_t>();
  start();
  {
    rs_std::Option<D> o = opt_d(some, v);
    vp_check(opt_d_see(o) == (some ? v : 6) && made(some), "Rust sees what C++ holds");
    opt_d_mut(o, ~v);
    vp_check(o.has_value() == !some && made(!some) && opt_d_see(o) == (some ? 6 : ~v), "changed in place by Rust");
    rs_std::Option<D> p = o;
    vp_check(opt_d_see(p) == (some ? 6 : ~v) && made(some ? 0 : 2), "a copy");
    rs_std::Option<D> q = std::move(o);
    vp_check(opt_d_see(q) == (some ? 6 : ~v), "moved");
    q = p;
    vp_check(opt_d_see(q) == (some ? 6 : ~v), "assigned");
  }
  vp_check(made(0), "what they hold is dropped once");
  { std::optional<D> o; if (some) o.emplace(D::new_(v)); vp_check(opt_d_by(std::move(o)) == (some ? v : 5), "given to Rust"); }
  vp_check(made(0), "what it held is dropped once");
}
PROOF(nested) {
  auto x = any<uint8_t>();
  auto n = enums::nested(x);
  vp_check(n.has_value() == (x > 0) && (!n || (n->has_value() == (x > 1) && (!*n || **n == x))), "an option of an option");
  vp_check(nested_by(n) == (x == 0 ? 0x100 : x == 1 ? 0x101 : x), "and back");
}
PROOF(tuples) {
  auto a = any<uint8_t>(); auto b = any<uint16_t>(); auto v = any<uint32_t>();
  start();
  {
    auto [x, d, y] = t3(std::tuple<uint8_t, D, uint16_t>(a, D::new_(v), b));
    vp_check(x == b && y == a && d.v() == v, "every element in its place");
  }
  vp_check(made(0), "the object in it is dropped once");
  auto [x, y] = t_nested({{a, b}, v});
  vp_check(x == v && std::get<0>(y) == b && std::get<1>(y) == a, "a tuple in a tuple");
}
PROOF(tuple_field) {
  auto a = any<uint8_t>(); auto v = any<uint32_t>();
  Holds h = Holds::new_(false, v);
  std::tuple<uint8_t, uint32_t> t = std::move(h.t);
  vp_check(std::get<0>(t) == static_cast<uint8_t>(v) && std::get<1>(t) == v, "the elements of a tuple field");
}
