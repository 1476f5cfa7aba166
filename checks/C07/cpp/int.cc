// rs_std::usize and rs_std::isize behave as the integers they stand for.
#include <compare>
#include <cstdint>
#include "vp.h"
#include "support/rs_std/int.h"
#include "support/rs_std/unit.h"

using rs_std::isize;
using rs_std::usize;

template <typename I, typename N>
static void comparisons(N a, N b) {
  const I x = a, y = b;
  vp_check(static_cast<N>(x) == a, "converting there and back changes nothing");
  N back = x;
  vp_check(back == a, "the conversion back is implicit");
  vp_check((x == y) == (a == b) && (x != y) == (a != b), "equality is that of the integers");
  vp_check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "the order is that of the integers");
  vp_check(((x <=> y) < 0) == (a < b) && ((x <=> y) == 0) == (a == b) && ((x <=> y) > 0) == (a > b), "the three-way comparison is that of the integers");
  I z = x;
  vp_check(z == x, "a copy is equal");
  z = y;
  vp_check(z == y && static_cast<N>(z) == b, "an assigned copy is equal");
  I& same = (z = x);
  vp_check(&same == &z, "assignment denotes its target");
  I d;
  vp_check(static_cast<N>(d) == 0, "the default is zero");
}
PROOF(usize_compare) {
  comparisons<usize, std::uintptr_t>(vp_nd_u64(), vp_nd_u64());
  vp_must("end");
}
PROOF(isize_compare) {
  comparisons<isize, std::intptr_t>(static_cast<std::intptr_t>(vp_nd_u64()), static_cast<std::intptr_t>(vp_nd_u64()));
  vp_must("end");
}
PROOF(usize_arithmetic) {
  std::uintptr_t a = vp_nd_u64(), b = vp_nd_u64();
  usize x = a, y = b;
  vp_check(static_cast<std::uintptr_t>(x + y) == a + b, "sums are those of the integers, modulo the word");
  vp_check(static_cast<std::uintptr_t>(x - y) == a - b, "differences are those of the integers, modulo the word");
  vp_check(static_cast<std::uintptr_t>(x) == a && static_cast<std::uintptr_t>(y) == b, "the operands stay");
  usize z = x;
  usize& r = (z += y);
  vp_check(&r == &z && static_cast<std::uintptr_t>(z) == a + b && static_cast<std::uintptr_t>(y) == b, "adding in place");
  usize& s = (z -= y);
  vp_check(&s == &z && static_cast<std::uintptr_t>(z) == a, "subtracting in place");
  z += z;
  vp_check(static_cast<std::uintptr_t>(z) == a + a, "adding itself");
  vp_must("end");
}
PROOF(isize_arithmetic) {
  std::intptr_t a = static_cast<std::intptr_t>(vp_nd_u64()), b = static_cast<std::intptr_t>(vp_nd_u64());
  std::intptr_t sum = 0, diff = 0;
  bool so = __builtin_add_overflow(a, b, &sum), d_o = __builtin_sub_overflow(a, b, &diff);
  const isize x = a, y = b;
  // Overflow is undefined for the integers too: not part of the contract.
  if (!so) {
    vp_check(static_cast<std::intptr_t>(x + y) == sum, "sums are those of the integers");
    isize z = x;
    isize& r = (z += y);
    vp_check(&r == &z && static_cast<std::intptr_t>(z) == sum, "adding in place");
    vp_must("sum");
  }
  if (!d_o) {
    vp_check(static_cast<std::intptr_t>(x - y) == diff, "differences are those of the integers");
    isize z = x;
    isize& r = (z -= y);
    vp_check(&r == &z && static_cast<std::intptr_t>(z) == diff, "subtracting in place");
    vp_must("difference");
  }
  vp_check(static_cast<std::intptr_t>(x) == a && static_cast<std::intptr_t>(y) == b, "the operands stay");
}
