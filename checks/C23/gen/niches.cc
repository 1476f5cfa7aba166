// Enums, options and results whose variants are told apart by niches, and tagged ones
// with unusual tags.
#include "niches.h"
#include "vp.h"
#include <bit>
#include <cstddef>
#include <type_traits>
using namespace niches;
template <typename T> T any() { return vp_any<T>(); }
template <> bool any<bool>() { return vp_nd_bool(); }
static int32_t l0;
static void start() { l0 = live(); }
static bool made(int n) { return live() == l0 + n; }
static constexpr uint64_t kNone = uint64_t{1} << 63;
template <typename T> bool fits(uint8_t w) { return sizeof(T) == sizes(w) && alignof(T) == aligns(w); }

PROOF(layouts) {
  vp_check(fits<Flag>(0) && fits<Late>(1) && fits<Ref>(2) && fits<Two>(3) && fits<Tu>(4) && fits<Ti>(5) && fits<Ci>(6), "enums with payloads");
  vp_check(fits<Neg>(7) && fits<Big>(8) && fits<Deep>(9) && fits<Gaps>(10) && fits<Sized2>(11) && fits<Own>(12), "other enums");
  vp_check(fits<F>(13), "options as fields");
}
PROOF(flag) {
  auto w = any<uint8_t>(); auto x = any<bool>();
  Flag f = flag(w, x);
  vp_check(flag_is(f) == (w == 0 ? x : w == 1 ? 2 : 3), "the variant Rust made");
  vp_check(flag_is(Flag::MakeA(x)) == x && flag_is(Flag::MakeB()) == 2 && flag_is(Flag::MakeC()) == 3, "variants that C++ made");
}
PROOF(late) {
  auto w = any<uint8_t>(); auto x = any<uint32_t>(); auto y = any<uint16_t>(); auto b = any<bool>();
  Late l = late(w, x, y, b), m = l;
  vp_check(late_is(m) == (w == 0 ? x ^ uint64_t{y} << 32 ^ uint64_t{b} << 48 : uint64_t{w > 2 ? uint8_t{3} : w} << 60), "the variant Rust made");
  vp_check(late_is(Late::MakeB()) == uint64_t{1} << 60 && late_is(Late::MakeC()) == uint64_t{2} << 60 && late_is(Late::MakeE()) == uint64_t{3} << 60, "variants that C++ made");
}
PROOF(ref) {
  auto w = any<bool>(); auto v = any<uint32_t>();
  Ref r = reference(&v, w);
  vp_check(ref_is(r) == (w ? v : 77), "the variant Rust made");
  vp_check(ref_is(Ref::MakeB()) == 77, "a variant that C++ made");
}
PROOF(two) {
  auto w = any<uint8_t>(), x = any<uint8_t>(), y = any<uint8_t>();
  Two t = two(w, x, y);
  vp_check(two_is(t) == (w == 0 ? x > 1 ? 0 : 1 + x : w == 1 ? 0x10000u + (x << 8) + y : 9), "the variant Rust made");
  vp_check(two_is(Two::MakeB(x, y)) == 0x10000u + (x << 8) + y && two_is(Two::MakeC()) == 9, "variants that C++ made");
}
PROOF(tagged) {
  auto w = any<uint8_t>(), y = any<uint8_t>(); auto x = any<uint32_t>(); auto z = any<uint64_t>();
  vp_check(tu_is(tu(w, x, y, z)) == (w == 0 ? x : w == 1 ? y ^ std::rotl(z, 7) : 5), "repr(u8)");
  vp_check(tu_is(Tu::MakeA(x)) == x && tu_is(Tu::MakeB(y, z)) == (y ^ std::rotl(z, 7)) && tu_is(Tu::MakeC()) == 5, "repr(u8) from C++");
  vp_check(ti_is(ti(w, x, y, z)) == (w == 0 ? x : w == 1 ? 6 : y ^ std::rotl(z, 7)), "repr(i8)");
  vp_check(ti_is(Ti::MakeA(x)) == x && ti_is(Ti::MakeB()) == 6 && ti_is(Ti::MakeC(y, z)) == (y ^ std::rotl(z, 7)), "repr(i8) from C++");
}
PROOF(visible_tags) {
  auto w = any<uint8_t>(), x = any<uint8_t>(); auto y = any<uint64_t>();
  Ci c = ci(w, x, y);
  vp_check(c.tag == (w == 0 ? Ci::Tag::A : w == 1 ? Ci::Tag::B : Ci::Tag::C) && ci_is(c) == (w == 0 ? x : w == 1 ? std::rotl(y, 1) : 8), "the variant Rust made");
  if (w == 0) vp_check(c.A.__field0 == x, "its payload");
  if (w == 1) vp_check(c.B.__field0 == y, "its payload");
  vp_check(static_cast<int16_t>(Ci::Tag::A) == -300 && static_cast<int16_t>(Ci::Tag::B) == 9 && static_cast<int16_t>(Ci::Tag::C) == 10, "the discriminants");
  vp_check(ci_is(Ci::MakeA(x)) == x && ci_is(Ci::MakeB(y)) == std::rotl(y, 1) && ci_is(Ci::MakeC()) == 8 && Ci::MakeC().tag == Ci::Tag::C, "variants that C++ made");
  vp_check(neg_is(Neg::MakeA()) == -1 && neg_is(Neg::MakeB()) == 70000 && neg_is(Neg::MakeC()) == 70001 && Neg::MakeC().tag == Neg::Tag::C, "discriminants of an enum without payloads");
  auto a = any<uint8_t>(); auto b = any<uint16_t>(); auto z = any<uint32_t>();
  Sized2 s = sized2(w, a, b, z);
  vp_check(sized2_is(s) == (w == 0 ? a ^ uint32_t{b} << 8 : w == 1 ? a + 3u : std::rotl(z, 2)), "payloads of different sizes");
  if (w == 0) vp_check(s.tag == Sized2::Tag::A && s.A.a == a && s.A.b == b, "their fields");
  if (w == 1) vp_check(s.tag == Sized2::Tag::B && s.B.__field0 == a, "their fields");
  if (w > 1) { vp_check(s.tag == Sized2::Tag::C && s.C.x == z, "their fields"); s.C.x = ~z; vp_check(sized2_is(s) == std::rotl(~z, 2), "as C++ wrote them"); }
  vp_must("visible tags");
}
PROOF(discriminants) {
  vp_check(big_is(Big::MakeA()) == 0xffffffff && big_is(Big::MakeB()) == 0x80000000 && big_is(Big::MakeC()) == 1, "repr(u32)");
  vp_check(deep_is(Deep::MakeA()) == INT64_MIN && deep_is(Deep::MakeB()) == INT64_MAX && deep_is(Deep::MakeC()) == -2, "repr(i64)");
  vp_check(gaps_is(Gaps::MakeA()) == 10 && gaps_is(Gaps::MakeB()) == 20 && gaps_is(Gaps::MakeC()) == 250 && gaps_is(Gaps::MakeE()) == 1000, "no repr");
  auto w = any<uint8_t>();
  Gaps g = gaps(w);
  vp_check(gaps_is(g) == (w == 0 ? 10 : w == 1 ? 20 : w == 2 ? 250 : 1000) && (g == Gaps::MakeE()) == (w > 2), "the variant Rust made");
  vp_check(big_is(big(w)) == (w == 0 ? 0xffffffff : w == 1 ? 0x80000000 : 1), "the variant Rust made");
}
PROOF(owners) {
  auto w = any<uint8_t>(), x = any<uint8_t>(); auto v = any<uint32_t>();
  start();
  {
    Own o = own(w, v, x);
    uint32_t is = w == 0 ? v : w == 1 ? v ^ x : 3;
    vp_check(own_is(o) == is && made(w < 2), "the variant Rust made");
    Own p = o;
    vp_check(own_is(p) == is && own_is(o) == is && made(w < 2 ? 2 : 0), "copied");
    Own q = std::move(o);
    vp_check(own_is(q) == is && made(w < 2 ? 2 : 0) && own_is(o) == 3, "moved");
    o = q;
    vp_check(own_is(o) == is && made(w < 2 ? 3 : 0), "assigned");
    o = Own();
    vp_check(own_is(o) == 3 && made(w < 2 ? 2 : 0), "another variant");
    o = Own::MakeB(D::new_(v), x);
    vp_check(own_is(o) == (v ^ x) && made(w < 2 ? 3 : 1), "a variant that C++ made");
    o = std::move(p);
    Own& same = o;
    o = same;
    vp_check(own_is(o) == is, "assigned to itself");
    vp_check(own_eat(std::move(q)) == is, "given to Rust");
  }
  vp_check(made(0), "each payload is dropped once");
}
PROOF(none_fields) {
  start();
  {
    F f = F::none();
    vp_check(!f.b.has_value() && !f.c.has_value() && !f.g.has_value() && !f.f.has_value() && !f.l.has_value() && !f.r.has_value() && !f.i.has_value(), "C++ reads none");
    vp_check(!f.bb.has_value() && !f.uu.has_value() && !f.d.has_value() && !f.z.has_value() && !f.p.has_value() && !f.rb.has_value() && f.rb.error() == 1 && !f.rr.has_value() && f.rr.error(), "C++ reads none");
  }
  vp_check(made(0), "nothing was made");
}
PROOF(some_fields) {
  auto v = any<uint64_t>();
  auto c = static_cast<uint32_t>(v);
  start();
  {
    F f = F::some(v);
    vp_check(f.b.has_value() && *f.b == (v & 1) && f.c.has_value() == (c < 0x110000 && (c < 0xd800 || c > 0xdfff)) && (!f.c.has_value() || uint32_t{*f.c} == c), "bool and char");
    vp_check(f.g.has_value() && gaps_is(*f.g) == f.see(2) && f.f.has_value() && flag_is(*f.f) == f.see(3) && f.l.has_value() && late_is(*f.l) == f.see(4), "enums");
    vp_check(f.i.has_value() && *f.i == static_cast<int64_t>(v) && f.p.has_value() && *f.p == v && f.z.has_value() && *f.z == 1.0f, "numbers");
    vp_check(f.bb.has_value() && f.bb->has_value() == !!(v & 2) && (!f.bb->has_value() || **f.bb == (v & 1)) && f.uu.has_value() && f.uu->has_value() == !!(v & 2) && (!f.uu->has_value() || **f.uu == static_cast<uint8_t>(v)), "options of options");
    vp_check(f.rb.has_value() && *f.rb == (v & 1) && f.rr.has_value() && *f.rr == static_cast<uint8_t>(v), "results");
    vp_check(f.d.has_value() && f.d->v() == c && made(1), "an object");
  }
  vp_check(made(0), "dropped once");
}
PROOF(write_fields) {
  auto v = any<uint64_t>(), w = any<uint64_t>(); auto x = any<bool>(); auto k = any<uint8_t>();
  vp_assume(k < 4);
  start();
  {
    F f = x ? F::some(v) : F::none();
    f.b = std::optional<bool>(w & 1); f.i = static_cast<int64_t>(w); f.p = std::optional<uintptr_t>(w); f.g = gaps(k);
    vp_check(f.see(0) == (w & 1) && f.see(6) == (w & ~kNone) && f.see(13) == (w & ~kNone) && f.see(2) == (k == 0 ? 10 : k == 1 ? 20 : k == 2 ? 250 : 1000), "some written by C++");
    f.rb = static_cast<bool>(w & 1);
    vp_check(f.see(9) == (w & 1), "a value written by C++");
    f.rb = rs_std::unexpected<uint8_t>(static_cast<uint8_t>(w));
    vp_check(f.see(9) == 0x100 + (w & 0xff), "an error written by C++");
    f.rr = rs_std::unexpected<bool>(static_cast<bool>(w & 1));
    vp_check(f.see(10) == 0x100 + (w & 1), "an error written by C++");
    f.rr = static_cast<uint8_t>(w);
    vp_check(f.see(10) == (w & 0xff), "a value written by C++");
    f.b = std::nullopt; f.c = std::nullopt; f.g = std::nullopt; f.i = std::nullopt; f.f = std::nullopt; f.l = std::nullopt; f.p = std::nullopt; f.z = std::nullopt; f.bb = std::nullopt; f.uu = std::nullopt;
    vp_check(f.see(0) == kNone && f.see(1) == kNone && f.see(2) == kNone && f.see(3) == kNone && f.see(4) == kNone && f.see(6) == kNone && f.see(7) == kNone && f.see(8) == kNone && f.see(12) == kNone && f.see(13) == kNone, "none written by C++");
    f.d = D::new_(static_cast<uint32_t>(w));
    vp_check(f.see(11) == static_cast<uint32_t>(w) && made(1), "an object written by C++");
    f.d = std::nullopt;
    vp_check(f.see(11) == kNone && made(0), "and dropped by it");
    f.d = std::optional<D>(D::new_(static_cast<uint32_t>(v)));
    vp_check(f.see(11) == static_cast<uint32_t>(v), "an optional object written by C++");
  }
  vp_check(made(0), "dropped once");
}
