// An operator, conversion, trait method, constant or name of the C++ API means what
// it means in Rust.
#include "ops.h"
#include "vp.h"
#include <bit>
#include <compare>
#include <iterator>
using namespace ops;
template <typename T> T any() { return vp_any<T>(); }
template <> bool any<bool>() { return vp_nd_bool(); }
static int32_t l0;
static void start() { l0 = live(); }
static bool made(int n) { return live() == l0 + n; }
static uint32_t rol(uint32_t v, int n) { return std::rotl(v, n); }

PROOF(arithmetic) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  N x = N::new_(a), y = N::new_(b);
  vp_check((x + y).v == a + b && (x - y).v == a - b && x * b == (a ^ uint64_t{b} << 32), "+ - *");
  vp_check((x / y).v == (rol(a, 1) ^ b) && (x % y).v == (rol(a, 2) ^ b), "/ %");
  vp_check((x & y).v == (a & ~b) && (x | y).v == (a | ~b) && (x ^ y).v == (rol(a, 3) ^ b), "& | ^");
  vp_check((-x).v == 0 - a && !x == ~uint64_t{a}, "- !");
  vp_check(x.v == a && y.v == b, "the operands stay");
  auto s = any<uint8_t>();
  vp_check((x << s).v == a << (s & 31) && (x >> s).v == a >> (s & 31), "<< >>");
}
PROOF(assignments) {
  auto a = any<uint32_t>(), b = any<uint32_t>(); auto s = any<uint8_t>();
  N x = N::new_(a);
  x += N::new_(b); vp_check(x.v == a + b && last() == 1, "+=");
  x.v = a; x -= b; vp_check(x.v == a - b && last() == 2, "-=");
  x.v = a; x *= b; vp_check(x.v == (rol(a, 3) ^ b) && last() == 3, "*=");
  x.v = a; x /= b; vp_check(x.v == (rol(a, 4) ^ b) && last() == 4, "/=");
  x.v = a; x %= b; vp_check(x.v == (rol(a, 5) ^ b) && last() == 5, "%=");
  x.v = a; x &= b; vp_check(x.v == (a & b) && last() == 6, "&=");
  x.v = a; x |= b; vp_check(x.v == (a | b) && last() == 7, "|=");
  x.v = a; x ^= b; vp_check(x.v == (a ^ b) && last() == 8, "^=");
  x.v = a; x <<= s; vp_check(x.v == a << (s & 31) && last() == 9, "<<=");
  x.v = a; x >>= s; vp_check(x.v == a >> (s & 31) && last() == 10, ">>=");
}
PROOF(equality) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  N x = N::new_(a), y = N::new_(b);
  vp_check((x == y) == ((a & 0xff) == (b & 0xff)) && (x != y) == ((a & 0xff) != (b & 0xff)), "as PartialEq");
  vp_check((x == b) == (a == b) && (b == x) == (a == b) && (x != b) == (a != b), "as PartialEq with another type");
  start();
  { D d = D::new_(a), e = D::new_(b); vp_check((d == e) == (a == b) && made(2), "objects are compared where they are"); }
  vp_check(made(0), "and dropped once");
}
PROOF(order) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  N x = N::new_(a), y = N::new_(b);
  uint32_t l = a & 0xff, r = b & 0xff;
  auto c = x <=> y;
  if ((l == 0xff || r == 0xff) && l != r) vp_check(c == std::partial_ordering::unordered && !(x < y) && !(x > y) && !(x <= y) && !(x >= y), "not ordered");
  else vp_check((c < 0) == (l < r) && (c > 0) == (l > r) && (c == 0) == (l == r) && (x < y) == (l < r) && (x <= y) == (l <= r) && (x > y) == (l > r) && (x >= y) == (l >= r), "as PartialOrd");
  vp_must("order");
}
PROOF(total_order) {
  auto a = any<int8_t>(), c = any<int8_t>(); auto b = any<uint8_t>(), d = any<uint8_t>();
  Total x = total(a, b), y = total(c, d);
  vp_check((x < y) == (a < c || (a == c && b < d)) && (x > y) == (a > c || (a == c && b > d)) && (x == y) == (a == c && b == d) && (x <= y) == !(y < x), "as Ord");
  vp_check(((x <=> y) == 0) == (a == c && b == d) && ((x <=> y) < 0) == (x < y), "as Ord");
}
PROOF(object_operators) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  start();
  {
    D x = D::new_(a);
    D y = D::new_(b);
    D z = std::move(x) + std::move(y);
    vp_check(z.v() == (rol(a, 1) ^ b), "+ on objects");
    z += D::new_(a);
    vp_check(z.v() == (rol(rol(a, 1) ^ b, 1) ^ a), "+= with an object");
    vp_check(-std::move(z) == ~(rol(rol(a, 1) ^ b, 1) ^ a), "- on an object");
  }
  vp_check(made(0), "each object is dropped once");
}
PROOF(index) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  D x = D::new_(a);
  const D& y = x;
  vp_check(y[3] == a && last() == 23, "reads");
  vp_check(x[5] == a && last() == 45, "writes when it can");
  x[7] = b;
  vp_check(x.v() == b && last() == 47 && &y[1] == &x[1], "the place of the value");
}
PROOF(conversions) {
  auto a = any<uint32_t>();
  start();
  {
    D d(a);
    vp_check(d.v() == (a ^ 0x5555) && made(1), "from a number");
    vp_check(static_cast<uint32_t>(d) == (a ^ 0x5555 ^ 0xaaaa), "to a number");
  }
  vp_check(made(0), "each object is dropped once");
  {
    D e(N::new_(a));
    vp_check(e.v() == a && made(1), "from another type");
    N n = static_cast<N>(std::move(e));
    vp_check(n.v == a, "to another type");
    D f = static_cast<D>(n);
    vp_check(f.v() == a, "Into what has a From");
    N m(std::move(f));
    vp_check(m.v == a, "From");
  }
  vp_check(made(0), "each object is dropped once");
}
PROOF(iteration) {
  auto n = any<uint8_t>();
  vp_assume(n <= 4);
  Down d(n);
  uint32_t seen = 0; uint8_t next = n;
  for (uint8_t x : d) { vp_check(x == next - 1, "in order"); next = x; seen++; }
  vp_check(seen == n && next == 0, "every item once");
  Down e(n);
  auto f = rs_std::impl<Down, rs::core::iter::Iterator>::next(e);
  vp_check(f.has_value() == (n > 0) && (!f || *f == n - 1), "next");
}
PROOF(object_iteration) {
  auto n = any<uint8_t>();
  vp_assume(n <= 3);
  start();
  {
    Objects d = Objects::new_(n);
    uint32_t next = n;
    for (const D& x : d) { vp_check(x.v() == next - 1, "in order"); next = x.v(); }
    vp_check(next == 0, "every item once");
  }
  vp_check(made(0), "each object is dropped once");
}
PROOF(traits) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  Sq q; q.s = a;
  Tri t; t.u = a;
  using Q = Shape::impl<Sq>; using T = Shape::impl<Tri>;
  vp_check(Q::area(q, b) == (a ^ b) && T::area(t, b) == (rol(a, 1) ^ b), "methods of each implementation");
  Q::grow(q, b); T::grow(t, b);
  vp_check(q.s == a + b && t.u == a - b, "methods that change the object");
  vp_check(Q::unit() == 1 && T::unit() == 2, "functions without an object");
  vp_check(T::given(t) == 9, "a method with a default");
  vp_check(Q::consume(std::move(q), 5) == (a + b ^ rol(5, 1)) && T::consume(std::move(t), 5) == (a - b ^ rol(5, 2)), "methods that consume the object");
}
PROOF(names) {
  auto a = any<uint8_t>(), b = any<uint8_t>();
  vp_check(class_(a, b) == (a ^ std::rotl(b, 1)), "names that are words of C++");
  outer::Renamed x = outer::inner::f(a), y = outer::g(a), z = h(a);
  outer::inner::T* p = &x;
  vp_check(x.v == a && p->get() == (a ^ 1) && y.v == a && z.v == a, "an item has all its names");
  static_assert(std::is_same_v<Alias, D>);
}
PROOF(borrows) {
  auto a = any<uint32_t>(), b = any<uint32_t>();
  uint32_t v = a;
  Borrow x = Borrow::new_(&v);
  v = b;
  vp_check(&x.get() == &v && x.r == &v && x.value() == b, "a borrow refers to what it borrows");
}
