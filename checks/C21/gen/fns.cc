// Every binding runs the function it stands for, once, with the values it was
// given, and brings back what that function returned.
#include "fns.h"
#include "vp.h"
#include <bit>
using namespace fns;
static uint32_t before;
static inline void start() { before = calls(); }
static inline void ran(uint32_t id) { vp_check(calls() == before + 1 && last() == id, "exactly this function has run, once"); }
template <typename T> T any() { return vp_any<T>(); }
template <> bool any<bool>() { return vp_nd_bool(); }
template <typename T, typename F> void sub(F f, uint32_t id) {
  T a = any<T>(), b = any<T>();
  start();
  T r = f(a, b);
  ran(id);
  vp_check(r == static_cast<T>(static_cast<uint64_t>(a) - static_cast<uint64_t>(b)), "called with these integers in this order");
}
PROOF(i8) { sub<int8_t>([](auto a, auto b) { return i8s(a, b); }, 1); }
PROOF(i16) { sub<int16_t>([](auto a, auto b) { return i16s(a, b); }, 2); }
PROOF(i32) { sub<int32_t>([](auto a, auto b) { return i32s(a, b); }, 3); }
PROOF(i64) { sub<int64_t>([](auto a, auto b) { return i64s(a, b); }, 4); }
PROOF(u8) { sub<uint8_t>([](auto a, auto b) { return u8s(a, b); }, 5); }
PROOF(u16) { sub<uint16_t>([](auto a, auto b) { return u16s(a, b); }, 6); }
PROOF(u32) { sub<uint32_t>([](auto a, auto b) { return u32s(a, b); }, 7); }
PROOF(u64) { sub<uint64_t>([](auto a, auto b) { return u64s(a, b); }, 8); }
PROOF(isize) { sub<intptr_t>([](auto a, auto b) { return static_cast<intptr_t>(isizes(a, b)); }, 9); }
PROOF(usize) { sub<uintptr_t>([](auto a, auto b) { return static_cast<uintptr_t>(usizes(a, b)); }, 10); }
PROOF(bools) { bool a = any<bool>(), b = any<bool>(); start(); bool r = fns::bools(a, b); ran(11); vp_check(r == (a && !b), "bool"); }
PROOF(chars) {
  uint32_t x = any<uint32_t>(), y = any<uint32_t>();
  auto a = rs_std::char_::from_u32(x), b = rs_std::char_::from_u32(y);
  if (!a || !b) return;
  start();
  rs_std::char_ r = fns::chars(*a, *b);
  ran(12);
  vp_check(uint32_t{r} == (x < y ? x : y), "char");
  vp_must("chars");
}
PROOF(f32) { uint32_t x = any<uint32_t>(); start(); float r = second_f32(1.5f, std::bit_cast<float>(x)); ran(13); vp_check(std::bit_cast<uint32_t>(r) == x || (x & 0x7fffffff) > 0x7f800000, "f32"); }
PROOF(f64) { uint64_t x = any<uint64_t>(); start(); double r = second_f64(1.5, std::bit_cast<double>(x)); ran(14); vp_check(std::bit_cast<uint64_t>(r) == x || (x & 0x7fffffffffffffff) > 0x7ff0000000000000, "f64"); }
PROOF(c_types) { int a = any<int>(); unsigned char b = any<unsigned char>(); long c = any<long>(); start(); long r = fns::c_types(a, b, c); ran(15); vp_check(r == (static_cast<long>(static_cast<unsigned long>(static_cast<long>(a)) - static_cast<unsigned long>(c)) ^ static_cast<long>(b)), "C types"); }
PROOF(mixed) {
  auto a = any<uint8_t>(); auto b = any<uint64_t>(); auto c = any<int16_t>(); bool d = any<bool>(); auto f = any<uint32_t>(); auto g = any<int64_t>(); auto h = any<uint16_t>(); auto i = any<int8_t>();
  start();
  uint64_t r = fns::mixed(a, b, c, d, 2.5f, f, g, h, i);
  ran(16);
  auto u = [](auto v, int n) { return std::rotl(static_cast<uint64_t>(v), n); };
  vp_check(r == (u(a, 0) ^ u(b, 1) ^ u(c, 2) ^ u(d, 3) ^ u(std::bit_cast<uint32_t>(2.5f), 5) ^ u(f, 9) ^ u(g, 13) ^ u(h, 17) ^ u(i, 21)), "every argument in its place");
}
PROOF(nothing) { start(); fns::nothing(); ran(17); }
PROOF(c_abi) { auto a = any<uint8_t>(); auto b = any<uint64_t>(); start(); uint64_t r = fns::c_abi(a, b); ran(18); vp_check(r == (b ^ a), "extern C"); }
PROOF(exported) { auto a = any<uint16_t>(); auto b = any<uint8_t>(); start(); uint32_t r = vp_fns_exported(a, b); ran(19); vp_check(r == ((uint32_t{a} << 8) | b), "exported"); }
PROOF(no_mangle) { auto a = any<uint16_t>(); auto b = any<uint8_t>(); start(); uint32_t r = vp_fns_no_mangle(a, b); ran(20); vp_check(r == ((uint32_t{a} << 8) | b), "no_mangle"); }
PROOF(unsafe_fn) { auto a = any<uint32_t>(); start(); uint32_t r = unsafe_read(&a); ran(21); vp_check(r == a, "unsafe"); }

PROOF(set) { uint32_t x = any<uint32_t>(), y = any<uint32_t>(); start(); fns::set(x, y); ran(30); vp_check(x == y, "a mutable reference is to the very object"); }
PROOF(get) { uint32_t x = any<uint32_t>(); start(); uint32_t r = fns::get(x); ran(31); vp_check(r == x, "a reference"); }
PROOF(same) { uint32_t x = any<uint32_t>(); start(); const uint32_t& r = fns::same(&x); ran(32); vp_check(&r == &x, "the same object comes back"); }
PROOF(same_mut) { uint32_t x = any<uint32_t>(); start(); uint32_t& r = fns::same_mut(&x); ran(33); vp_check(&r == &x, "the same object comes back"); }
PROOF(ptrs) { uint8_t x = 1; uint64_t y = 2; start(); uint64_t* r = second_ptr(&x, &y); ran(34); vp_check(r == &y && second_ptr(nullptr, nullptr) == nullptr, "pointers"); start(); const uint64_t* q = const_ptr(&y); ran(35); vp_check(q == &y, "pointers to const"); }
PROOF(slices) {
  uint16_t a[3] = {any<uint16_t>(), any<uint16_t>(), any<uint16_t>()};
  uint16_t v = any<uint16_t>(), a0 = a[0], a1 = a[1];
  start(); uint16_t r = first(rs_std::SliceRef<const uint16_t>(a)); ran(36); vp_check(r == a[0], "a slice");
  start(); set_last(rs_std::SliceRef<uint16_t>(a), v); ran(37); vp_check(a[2] == v && a[0] == a0 && a[1] == a1, "a mutable slice");
  start(); rs_std::SliceRef<const uint16_t> s = same_slice(rs_std::SliceRef<const uint16_t>(a, 2)); ran(39); vp_check(s.data() == a && s.size() == 2, "the same slice comes back");
}
PROOF(empty_slice) { start(); auto n = fns::len(rs_std::SliceRef<const uint64_t>()); ran(38); vp_check(n == 0, "an empty slice"); }
PROOF(str) { const char* t = "abc"; start(); rs_std::StrRef s = same_str(*rs_std::StrRef::FromUtf8("abc")); ran(40); vp_check(s.size() == 3 && s.data()[0] == 'a' && s.data()[2] == 'c', "text"); }
PROOF(two_references) { uint32_t x = 1, y = any<uint32_t>(); start(); fns::copy(x, y); ran(41); vp_check(x == y, "two objects"); start(); fns::twice(x, y); ran(42); vp_check(x == 1 && y == 2, "two objects"); }
PROOF(readers) { uint32_t x = any<uint32_t>(), y = any<uint32_t>(); start(); vp_check(fns::readers(x, x) == 0, "readers may share"); ran(43); start(); vp_check(fns::readers(x, y) == (x ^ y), "readers"); ran(43); }
PROOF(aliased_copy) { uint32_t x = 1; vp_expect_abort(true); fns::copy(x, x); vp_never("Rust gets a mutable reference to what it reads"); }
PROOF(aliased_twice) { uint32_t x = 1; vp_expect_abort(true); fns::twice(x, x); vp_never("Rust gets two mutable references to one object"); }
extern "C" uint32_t vp_callback(uint32_t x, uint8_t y) { return x - y; }
PROOF(callback) { uint32_t x = any<uint32_t>(); uint8_t y = any<uint8_t>(); start(); uint32_t r = fns::call(vp_callback, x, y); ran(44); vp_check(r == x - y, "a function pointer"); }

static bool is(const Pod& p, uint8_t a, uint64_t b, uint16_t c) { return p.a == a && p.b == b && p.c == c; }
PROOF(pod) {
  auto a = any<uint8_t>(); auto b = any<uint64_t>(), x = any<uint64_t>(); auto c = any<uint16_t>();
  start(); Pod p = Pod::new_(a, b, c); ran(50); vp_check(is(p, a, b, c), "a new value");
  start(); uint64_t s = p.sum(); ran(51); vp_check(s == (a ^ b ^ c) && is(p, a, b, c), "called on the object");
  start(); p.set(x); ran(52); vp_check(is(p, a, x, c), "changed in place");
  start(); s = p.take(b); ran(53); vp_check(s == (x ^ b) && is(p, a, x, c), "called with a copy");
  start(); Pod q = p.with(7); ran(54); vp_check(is(q, a, x, 7) && is(p, a, x, c), "changes a copy");
  start(); uint64_t& m = p.b_mut(); ran(55); vp_check(&m == &p.b, "a part of the object");
  start(); uint8_t f = Pod::fixed(); ran(56); vp_check(f == 56, "static");
  start(); Pod r = fns::pod(b, p, q, c ^ 3); ran(57); vp_check(is(r, static_cast<uint8_t>(static_cast<uint8_t>(b) ^ a), x, 3), "values in their places");
}
// Objects that are destroyed: none leaks, none is destroyed twice.
static bool all_gone() { return live() == 0; }
PROOF(made_and_dropped) { auto v = any<uint32_t>(); { start(); D d = D::make(v); ran(60); vp_check(live() == 1 && d.v == v, "made"); start(); auto r = d.value(); ran(61); vp_check(r == v && live() == 1, "borrowed"); } vp_check(all_gone() && dropped() == v, "destroyed with its value"); }
PROOF(changed) { auto v = any<uint32_t>(), w = any<uint32_t>(); { D d = D::make(v); start(); auto r = d.change(w); ran(62); vp_check(r == v && d.v == w, "changed in place"); } vp_check(all_gone() && dropped() == w, "destroyed"); }
PROOF(consumed) { auto v = any<uint32_t>(); { D d = D::make(v); start(); auto r = std::move(d).into_value(); ran(63); vp_check(r == v, "consumed by the method"); } vp_check(all_gone(), "destroyed once"); }
PROOF(renewed) { auto v = any<uint32_t>(), w = any<uint32_t>(); { D d = D::make(v); start(); D e = std::move(d).renew(w); ran(64); vp_check(e.v == (v ^ w), "consumed and made anew"); } vp_check(all_gone(), "destroyed once"); }
PROOF(swapped) { auto v = any<uint32_t>(), w = any<uint32_t>(); { D d = D::make(v), e = D::make(w); start(); d.swap(e); ran(65); vp_check(d.v == w && e.v == v, "both changed"); start(); const D& r = d.pick(&e, true); ran(66); vp_check(&r == &e && &d.pick(&e, false) == &d && &d.pick(&d, false) == &d, "the object that was picked"); } vp_check(all_gone(), "destroyed once"); }
PROOF(swap_with_itself) { D d = D::make(1); vp_expect_abort(true); d.swap(d); vp_never("Rust gets two mutable references to one object"); }
PROOF(eaten) { auto v = any<uint32_t>(); { D d = D::make(v); start(); auto r = eat(std::move(d)); ran(67); vp_check(r == v, "consumed by the function"); } vp_check(all_gone(), "destroyed once"); }
PROOF(eaten_between) { auto v = any<uint32_t>(), a = any<uint32_t>(); auto b = any<uint8_t>(); start(); D d = D::make(v); start(); auto r = eat_between(a, std::move(d), b); ran(68); vp_check(r == (v ^ a ^ b), "arguments in their places"); }
PROOF(eaten_two) { auto v = any<uint32_t>(), w = any<uint32_t>(), x = any<uint32_t>(); { D a = D::make(v), b = D::make(w), c = D::make(x); start(); auto r = eat_two(std::move(a), b, std::move(c)); ran(69); vp_check(r == (std::rotl(v, 1) ^ std::rotl(w, 2) ^ x) && b.v == w, "arguments in their places"); } vp_check(all_gone(), "destroyed once"); }
PROOF(temporary) { auto v = any<uint32_t>(); vp_check(eat(D::make(v)) == v && all_gone(), "a temporary is consumed"); }
PROOF(passed) { auto v = any<uint32_t>(); { D d = D::make(v); start(); D e = pass(std::move(d)); ran(70); vp_check(e.v == v, "passed through"); } vp_check(all_gone(), "destroyed once"); }
PROOF(swapped_out) { auto v = any<uint32_t>(), w = any<uint32_t>(); { D d = D::make(v), e = D::make(w); start(); D f = swap_out(d, std::move(e)); ran(71); vp_check(d.v == w && f.v == v, "replaced"); } vp_check(all_gone(), "destroyed once"); }

PROOF(pair) { auto a = any<uint8_t>(); auto b = any<uint32_t>(); start(); auto r = fns::pair({a, b}); ran(80); vp_check(std::get<0>(r) == b && std::get<1>(r) == a, "a tuple"); }
PROOF(triple) { auto b = any<uint16_t>(); start(); auto r = fns::triple(b); ran(81); vp_check(r == std::tuple<uint8_t, uint16_t, uint64_t>(1, b, 3), "a tuple"); }
PROOF(unpack) { auto v = any<uint32_t>(), w = any<uint32_t>(), y = any<uint32_t>(); { start(); D d = D::make(v); start(); auto r = fns::unpack(std::tuple<uint32_t, D>(w, std::move(d)), y); ran(82); vp_check(r == (w ^ v ^ std::rotl(y, 1)), "a tuple with an object"); } vp_check(all_gone(), "destroyed once"); }
PROOF(pack) { auto v = any<uint32_t>(); { start(); auto r = fns::pack(v); ran(83); vp_check(std::get<0>(r).v == v && std::get<1>(r) == static_cast<uint32_t>(~v), "a tuple with an object"); } vp_check(all_gone(), "destroyed once"); }
PROOF(array) { std::array<uint16_t, 3> x{any<uint16_t>(), any<uint16_t>(), any<uint16_t>()}; start(); auto r = fns::array(x); ran(84); vp_check(r[0] == x[2] && r[1] == x[0] && r[2] == x[1], "an array"); }

PROOF(opt) {
  auto v = any<uint32_t>();
  start(); auto r = fns::opt(v); ran(90); vp_check(v == 7 ? !r.has_value() : r.has_value() && *r == static_cast<uint32_t>(~v), "an option with a value");
  start(); auto s = fns::opt(std::nullopt); ran(90); vp_check(s.has_value() && *s == 7, "an option without");
}
PROOF(opt_u8) { auto v = any<uint8_t>(), y = any<uint8_t>(); start(); auto r = fns::opt_u8(v, y); ran(91); vp_check(r == v && fns::opt_u8(std::nullopt, y) == y, "an option and more"); }
PROOF(opt_d) { bool some = any<bool>(); auto v = any<uint32_t>(); { start(); auto r = fns::opt_d(some, v); ran(92); vp_check(r.has_value() == some && (!some || r->v == v) && live() >= some, "an option of an object"); } vp_check(all_gone(), "destroyed once"); }
PROOF(res) { bool ok = any<bool>(); auto v = any<uint32_t>(); start(); auto r = fns::res(ok, v); ran(95); vp_check(r.has_value() == ok && (ok ? *r == v : r.error() == static_cast<uint8_t>(v)), "a result"); }

PROOF(modules) {
  auto x = any<uint8_t>();
  start(); vp_check(m::inner(x) == (x ^ 1), "in a module"); ran(100);
  start(); vp_check(m::deep::inner(x) == (x ^ 2), "in a module of it"); ran(101);
  auto s = m::deep::s(x);
  start(); vp_check(s.inner() == (x ^ 3), "a method there"); ran(102);
  start(); vp_check(fns::outer(x) == (x ^ 1), "under another name"); ran(100);
}
PROOF(reserved_names) { auto x = any<uint8_t>(), y = any<uint8_t>(); start(); vp_check(delete_(x, y) == static_cast<uint8_t>(x ^ std::rotl(y, 1)), "names that C++ reserves"); ran(103); start(); vp_check(reinterpret_cast_(x) == (x ^ 4), "names that C++ reserves"); ran(104); }
