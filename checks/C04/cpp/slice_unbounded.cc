// Comparison contracts for views of any length, over the contract of memcmp
// (see ghost.h).
#include <algorithm>
#include <compare>
#include <string_view>

#include "vp.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"

using rs_std::SliceRef;
using rs_std::StrRef;
extern "C" int vp_ghost_order(const void* a, const void* b, uint64_t n);

static const uint64_t kMax = uint64_t{1} << 40;

template <typename L, typename R>
static void check_order(const L& x, const R& y, int want) {
  vp_check((x == y) == (want == 0) && (x != y) == (want != 0), "strings are equal iff their bytes are");
  vp_check((x < y) == (want < 0) && (x <= y) == (want <= 0) && (x > y) == (want > 0) && (x >= y) == (want >= 0), "strings are ordered by their bytes");
  auto o = x <=> y;
  vp_check((o < 0) == (want < 0) && (o == 0) == (want == 0) && (o > 0) == (want > 0), "three-way comparison agrees");
}
extern "C" void hu_string_order_any_length() {
  uint64_t n = vp_nd_u64(), m = vp_nd_u64();
  vp_assume(n <= kMax && m <= kMax);
  char* a = new char[n];
  char* b = new char[m];
  int want = n < m ? vp_ghost_order(a, b, n) : vp_ghost_order(a, b, m);
  if (want == 0) want = n < m ? -1 : n > m ? 1 : 0;
  StrRef x = StrRef::FromUtf8Unchecked(std::string_view(a, n)), y = StrRef::FromUtf8Unchecked(std::string_view(b, m));
  std::string_view vx(a, n), vy(b, m);
  check_order(x, y, want);
  check_order(x, vy, want);
  check_order(vx, y, want);
  vp_must("end");
}
extern "C" void hu_byte_slice_equality_any_length() {
  uint64_t n = vp_nd_u64(), m = vp_nd_u64();
  vp_assume(n <= kMax && m <= kMax);
  uint8_t* a = new uint8_t[n];
  uint8_t* b = new uint8_t[m];
  bool want = n == m && vp_ghost_order(a, b, n) == 0;
  SliceRef<uint8_t> x(a, n), y(b, m);
  SliceRef<const uint8_t> cx(a, n), cy(b, m);
  vp_check((x == y) == want && (y == x) == want && (x != y) == !want, "mutable slices are equal iff their elements are");
  vp_check((cx == cy) == want && (cx != cy) == !want && (cy == cx) == want, "const slices are equal iff their elements are");
  vp_check((cx == y) == want && (x == cy) == want && (cx != y) == !want && (x != cy) == !want, "mixed comparisons agree");
  if (n > 100 && want) vp_must("equal");
  if (n > 100 && !want) vp_must("different");
}
extern "C" void hu_word_slice_equality_any_length() {
  uint64_t n = vp_nd_u64(), m = vp_nd_u64();
  vp_assume(n <= kMax && m <= kMax);
  int64_t* a = new int64_t[n];
  int64_t* b = new int64_t[m];
  bool want = n == m && vp_ghost_order(a, b, n * 8) == 0;
  SliceRef<int64_t> x(a, n);
  SliceRef<const int64_t> cx(a, n), cy(b, m);
  vp_check((cx == cy) == want && (cx != cy) == !want && (cy == cx) == want, "const slices are equal iff their elements are");
  vp_check((x == cy) == want && (x != cy) == !want, "mixed comparisons agree");
  if (n > 100 && want) vp_must("equal");
  if (n > 100 && !want) vp_must("different");
}
