// The C++ type that stands for a Rust type has its layout, its fields, and
// exactly the copying, moving, defaulting and destroying that Rust gives it.
#include "types.h"
#include "vp.h"
#include <bit>
#include <cstddef>
#include <type_traits>
using namespace types;
template <typename T> T any() { return vp_any<T>(); }
template <> bool any<bool>() { return vp_nd_bool(); }
static rs_std::char_ any_char() { auto c = rs_std::char_::from_u32(any<uint32_t>()); return c ? *c : *rs_std::char_::from_u32(65); }
template <typename T> void same_layout(uint8_t which) { vp_check(sizeof(T) == layout_size(which) && alignof(T) == layout_align(which), "size and alignment are Rust's"); }
PROOF(layouts) {
  same_layout<Plain>(0); same_layout<Mixed>(1); same_layout<Tuple>(2); same_layout<CRepr>(3); same_layout<Packed>(4); same_layout<Aligned>(5); same_layout<Hidden>(6); same_layout<Owner>(7);
  same_layout<Nested>(8); same_layout<Overlap>(9); same_layout<Wide>(10); same_layout<Refs>(11); same_layout<NoMove>(12); same_layout<Full>(13); same_layout<Transparent>(14); same_layout<WithZst>(15);
}
PROOF(offsets) {
  vp_check(offsetof(Hidden, b) == offsets(0) && offsetof(Hidden, d) == offsets(1) && offsetof(Hidden, e) == offsets(2), "public fields among private ones");
  vp_check(offsetof(Tuple, __field0) == offsets(3) && offsetof(Tuple, __field1) == offsets(4) && offsetof(Tuple, __field3) == offsets(5), "fields of a tuple struct");
  vp_check(offsetof(Wide, before) == offsets(6) && offsetof(Wide, inner) == offsets(7) && offsetof(Wide, after) == offsets(8), "an overaligned field");
  vp_check(offsetof(Nested, a) == offsets(9) && offsetof(Nested, k) == offsets(10) && offsetof(Nested, b) == offsets(11), "fields with destructors");
}
PROOF(plain) {
  auto a = any<uint8_t>(); auto b = any<uint32_t>();
  Plain x = types::plain(a, b);
  vp_check(x.a == a && x.b == b, "C++ reads what Rust wrote");
  auto c = any<uint8_t>(); auto d = any<uint32_t>();
  x.a = c; x.b = d;
  vp_check(plain_a(x) == c && plain_b(x) == d, "Rust reads what C++ wrote");
}
PROOF(mixed) {
  auto a = any<uint8_t>(); auto b = any<uint64_t>(); auto c = any<uint16_t>(); auto d = any<bool>(); std::array<uint16_t, 3> f = {any<uint16_t>(), any<uint16_t>(), any<uint16_t>()}; auto g = any<int64_t>(); uint8_t h; auto i = any_char();
  Mixed x = types::mixed(a, b, c, d, 2.5f, f, g, &h, i);
  vp_check(x.a == a && x.b == b && x.c == c && x.d == d && x.e == 2.5f && x.f == f && x.g == g && x.h == &h && x.i == i, "C++ reads what Rust wrote");
  auto r = [](auto v, int n) { return std::rotl(static_cast<uint64_t>(v), n); };
  auto sum = [&] { return r(x.a, 0) ^ r(x.b, 1) ^ r(x.c, 2) ^ r(x.d, 3) ^ r(std::bit_cast<uint32_t>(x.e), 4) ^ r(x.f[0], 5) ^ r(x.f[2], 6) ^ r(x.g, 7) ^ r(reinterpret_cast<uintptr_t>(x.h), 8) ^ r(uint32_t{x.i}, 9); };
  vp_check(mixed_sum(x) == sum(), "Rust reads it the same");
  x.a = any<uint8_t>(); x.b = any<uint64_t>(); x.c = any<uint16_t>(); x.d = any<bool>(); x.e = -7.0f; x.f[0] = any<uint16_t>(); x.f[2] = any<uint16_t>(); x.g = any<int64_t>(); x.h = nullptr; x.i = any_char();
  vp_check(mixed_sum(x) == sum(), "Rust reads what C++ wrote");
}
PROOF(tuple) {
  auto a = any<uint8_t>(); auto b = any<uint64_t>(); auto c = any<uint16_t>(); auto d = any<uint32_t>();
  Tuple x = types::tuple(a, b, c, d);
  vp_check(x.__field0 == a && x.__field1 == b && x.__field3 == d && tuple_2(x) == c, "fields of a tuple struct");
  x.__field0 = ~a; x.__field1 = ~b; x.__field3 = ~d;
  vp_check(tuple_2(x) == c, "writing public fields leaves the private one");
}
PROOF(c_repr) {
  auto a = any<uint8_t>(); auto b = any<uint32_t>(); auto c = any<uint8_t>(); auto d = any<uint64_t>(); auto e = any<uint16_t>();
  CRepr x = types::c_repr(a, b, c, d, e);
  vp_check(x.a == a && x.b == b && x.c == c && x.d == d && x.e == e, "repr(C)");
  Packed y = types::packed(a, b, e);
  vp_check(y.a == a && y.b == b && y.c == e && sizeof(Packed) == 7, "packed");
  Aligned z = types::aligned(a, b);
  vp_check(z.a == a && z.b == b && reinterpret_cast<uintptr_t>(&z) % 16 == 0, "aligned");
  Wide w = types::wide(a, c, b, e);
  vp_check(w.before == a && w.inner.a == c && w.inner.b == b && w.after == e, "an overaligned field");
  WithZst v = types::with_zst(a, b);
  vp_check(v.a == a && v.b == b, "fields beside fields without size");
}
PROOF(transparent) { auto x = any<uint32_t>(); Transparent t(x); vp_check(t.__field0 == x && types::transparent(t).__field0 == ~x, "transparent"); }
PROOF(hidden) {
  auto a = any<uint32_t>(); auto b = any<uint8_t>(); auto c = any<uint16_t>(); auto s = any<uint16_t>(); auto t = any<uint8_t>(); auto e = any<uint64_t>();
  Hidden x = Hidden::new_(a, b, c, s, t, e);
  vp_check(x.b == b && x.e == e && x.a() == a && x.c() == c && x.secret() == (s ^ uint32_t{t} << 16), "public and private fields");
  auto b2 = any<uint8_t>(); auto e2 = any<uint64_t>();
  x.set_b(b2); x.e = e2;
  vp_check(x.b == b2 && x.a() == a && x.c() == c && x.secret() == (s ^ uint32_t{t} << 16), "writing one field leaves the others");
  Hidden y = x;
  vp_check(sum_hidden(y) == (a ^ b2 ^ c ^ s ^ t ^ e2), "a copy has all fields");
  Hidden z = Hidden::new_(1, 2, 3, 4, 5, 6);
  z = y;
  vp_check(sum_hidden(z) == (a ^ b2 ^ c ^ s ^ t ^ e2), "so has an assigned one");
}
PROOF(names) {
  auto a = any<uint8_t>(); auto b = any<uint16_t>(); auto c = any<uint32_t>();
  Names x = Names::new_(a, b, c);
  vp_check(x.class_ == a && x.int_ == b && x.value_ == c && x.value() == ~c && x.template_() == a, "fields and methods keep apart");
}
PROOF(refs) {
  uint32_t v = any<uint32_t>(); uint16_t s[3] = {1, 2, 3};
  Refs r = Refs::new_(&v, rs_std::SliceRef<const uint16_t>(s));
  vp_check(&r.get() == &v && r.r == &v && r.len() == 3, "references are to the very objects");
}

static int32_t l0; static uint32_t d0, c0, f0;
static void start() { l0 = live(); d0 = drops(); c0 = clones(); f0 = defaults(); }
static bool made(int n) { return live() == l0 + n; }
PROOF(owner) {
  auto v = any<uint32_t>(), w = any<uint32_t>();
  start();
  {
    Owner a = Owner::new_(v);
    vp_check(a.v() == v && made(1) && drops() == d0, "made in Rust");
    Owner b(std::move(a));
    vp_check(b.v() == v && a.v() == 0xd0 && made(2) && drops() == d0 && defaults() == f0 + 1, "moved away: a default is left behind");
    Owner c = Owner::new_(w);
    c = std::move(b);
    vp_check(c.v() == v && made(3) && clones() == c0, "move-assigned");
    Owner e;
    vp_check(e.v() == 0xd0 && made(4) && defaults() == f0 + 2, "the default is Rust's");
    c = std::move(c);
    vp_check(c.v() == v && made(4), "assigned to itself");
  }
  vp_check(made(0) && drops() == d0 + 4, "every object is dropped once");
}
PROOF(destroyed) { auto v = any<uint32_t>(); start(); { Owner a = Owner::new_(v); } vp_check(drops() == d0 + 1 && last() == v, "the destructor drops the object"); }
PROOF(full) {
  auto v = any<uint32_t>(), w = any<uint32_t>();
  start();
  {
    Full a = Full::new_(v);
    Full b(a);
    vp_check(b.v == v && a.v == v && clones() == c0 + 1 && made(2), "a copy is a clone");
    Full c = Full::new_(w);
    c = b;
    vp_check(c.v == v && b.v == v && clones() != c0 + 1 && made(3), "copy assignment clones");
    uint32_t n = clones();
    Full& same = c;
    c = same;
    vp_check(c.v == v && made(3) && drops() <= d0 + 1, "assigned to itself");
    n = clones();
    Full e(std::move(a));
    vp_check(e.v == v && clones() == n && made(4), "a move is not a clone");
    e = std::move(c);
    vp_check(e.v == v && clones() == n && made(4), "nor is move assignment");
    vp_check(eat_full(e) == v && made(4), "a copy is passed");
    vp_check(eat_full(std::move(e)) == v, "passed by moving");
  }
  vp_check(made(0), "every object is dropped once");
}
PROOF(no_move) {
  auto v = any<uint32_t>();
  start();
  { NoMove a = NoMove::new_(v); vp_check(a.v() == v && made(1), "made in place"); }
  vp_check(made(0) && drops() == d0 + 1 && last() == v, "dropped once");
}
PROOF(nested) {
  auto a = any<uint32_t>(), b = any<uint32_t>(); auto k = any<uint8_t>();
  start();
  {
    Nested x = Nested::new_(a, k, b);
    vp_check(x.a.v() == a && x.b.v() == b && x.k == k && made(2), "fields with destructors");
    Nested y(std::move(x));
    vp_check(y.a.v() == a && y.b.v() == b && y.k == k && x.k == 9 && made(4), "moved");
    vp_check(eat_nested(std::move(y)) == (a ^ std::rotl(b, 1) ^ k), "passed");
  }
  vp_check(made(0), "every field is dropped once");
}
PROOF(replaced_field) {
  auto a = any<uint32_t>(), b = any<uint32_t>(), c = any<uint32_t>();
  start();
  { Nested x = Nested::new_(a, 1, b); x.a = Owner::new_(c); vp_check(x.a.v() == c && x.b.v() == b && made(2), "a field is replaced"); }
  vp_check(made(0), "every field is dropped once");
}
PROOF(only_clone) {
  auto v = any<uint32_t>();
  OnlyClone a = OnlyClone::new_(v), b(a);
  vp_check(b.v == v && a.v == v, "derived clone");
  start();
  OwnClone c = OwnClone::new_(v), d(c);
  vp_check(d.v == v && clones() == c0 + 1, "the clone is Rust's");
  OwnClone e(std::move(c));
  vp_check(e.v == v && clones() == c0 + 1, "a move is not a clone");
  e = d;
  vp_check(e.v == v && clones() > c0 + 1, "assignment clones");
}
PROOF(neither) { auto v = any<uint32_t>(); Neither a = Neither::new_(v), b(std::move(a)); a = Neither::new_(~v); vp_check(std::move(b).eat() == v && std::move(a).eat() == ~v, "moved bitwise"); }
PROOF(defaults) { start(); Derived d; Zeroed z; vp_check(d.a == 0 && d.b == 0 && !d.c && z.a == 77 && defaults() == f0 + 1, "Rust's defaults"); }
PROOF(unions) {
  auto c = any<uint64_t>(); auto i = any<uint8_t>();
  Overlap x = types::overlap(c);
  uint32_t a = x.a;
  vp_check(x.c == c && a == static_cast<uint32_t>(c) && overlap_b(x, i) == x.b[i & 3] && x.b[i & 3] == static_cast<uint8_t>(c >> 8 * (i & 3)), "the fields of a union overlap");
  x.c = ~c;
  vp_check(overlap_c(x) == ~c, "Rust reads what C++ wrote");
  RustUnion y = rust_union(a);
  vp_check(y.b.value == a && rust_union_b(y) == a, "a union of Rust's layout");
}
