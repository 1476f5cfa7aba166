// Contract of the aliasing check that generated C++ thunks run before they hand
// references to Rust: with M mutable and N const arguments at arbitrary
// addresses, it fires iff a mutable argument shares a byte with another argument.
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <iterator>
#include <span>
#include <utility>

#include "vp.h"
#include "support/internal/check_no_mutable_aliasing.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"

// std::sort is a dependency: it is used by its contract (the result is the
// sorted permutation), realised by the simplest network that meets it.
namespace std {
template <typename It, typename Cmp = std::less<>>
void vp_contract_sort(It first, It last, Cmp cmp = Cmp()) {
  const std::size_t n = last - first;
  for (std::size_t i = 1; i < n; ++i)
    for (std::size_t j = i; j > 0; --j)
      if (cmp(first[j], first[j - 1])) {
        auto t = first[j];
        first[j] = first[j - 1];
        first[j - 1] = t;
      }
}
namespace ranges {
template <typename R, typename Cmp = std::less<>>
void vp_contract_sort(R&& r, Cmp cmp = Cmp()) { std::vp_contract_sort(std::begin(r), std::end(r), cmp); }
template <typename R, typename Cmp, typename Proj>
void vp_contract_sort(R&& r, Cmp, Proj proj) {
  std::vp_contract_sort(std::begin(r), std::end(r), [&](const auto& a, const auto& b) { return std::invoke(proj, a) < std::invoke(proj, b); });
}
}  // namespace ranges
}  // namespace std
#define sort vp_contract_sort
#include "support/internal/check_no_mutable_aliasing.cc"
#undef sort

using namespace crubit::internal;
using rs_std::SliceRef;

// A run of bytes as an argument can denote it: empty, or non-null and not
// wrapping around the end of the address space.
struct Region {
  uint64_t start, len;
};
static Region any_region() {
  Region r{vp_nd_u64(), vp_nd_u64()};
  if (r.len == 0) { r.start = 0; return r; }
  vp_assume(r.start != 0 && r.len <= ~uint64_t{0} - r.start);
  return r;
}
// They share the byte at max(start) - no overflow, no half-open interval trick.
static bool share(Region a, Region b) {
  if (a.len == 0 || b.len == 0) return false;
  uint64_t m = a.start < b.start ? b.start : a.start;
  return m - a.start < a.len && m - b.start < b.len;
}
static SliceRef<uint8_t> mut_slice(Region r) { return SliceRef<uint8_t>(reinterpret_cast<uint8_t*>(r.start), r.len); }
static SliceRef<const uint8_t> const_slice(Region r) { return SliceRef<const uint8_t>(reinterpret_cast<const uint8_t*>(r.start), r.len); }

template <size_t>
using MutT = SliceRef<uint8_t>;
template <size_t>
using ConstT = SliceRef<const uint8_t>;

template <size_t M, size_t N>
static bool spec(const Region (&m)[M + 1], const Region (&c)[N + 1]) {
  bool r = false;
  for (size_t i = 0; i < M; ++i) {
    for (size_t j = 0; j < M; ++j) if (i < j && share(m[i], m[j])) r = true;
    for (size_t j = 0; j < N; ++j) if (share(m[i], c[j])) r = true;
  }
  return r;
}
template <size_t... I>
static auto muts(const Region* m, std::index_sequence<I...>) { return AsMutPtrDatas<MutT<I>...>(mut_slice(m[I])...); }
template <size_t... I>
static auto consts(const Region* c, std::index_sequence<I...>) { return AsPtrDatas<ConstT<I>...>(const_slice(c[I])...); }

// A region on a 16 x 16 grid, of cells of 2^kShift bytes.
template <int kShift>
static Region grid_region() {
  uint64_t s = vp_nd_u8() & 15, l = vp_nd_u8() & 15;
  if (l == 0) return Region{0, 0};
  vp_assume(s != 0 && s + l < 16);
  return Region{s << kShift, l << kShift};
}
template <size_t M, size_t N, int kShift = -1>
static void contract() {
  Region m[M + 1], c[N + 1];
  for (size_t i = 0; i < M; ++i) { if constexpr (kShift >= 0) m[i] = grid_region<kShift>(); else m[i] = any_region(); }
  for (size_t i = 0; i < N; ++i) { if constexpr (kShift >= 0) c[i] = grid_region<kShift>(); else c[i] = any_region(); }
  bool want = spec<M, N>(m, c);
  bool got = HasMutableAliasing(muts(m, std::make_index_sequence<M>()), consts(c, std::make_index_sequence<N>()));
  vp_check(got == want, "aliasing is reported iff a mutable argument shares a byte with another argument");
  vp_expect_abort(want);
  CheckNoMutableAliasing(muts(m, std::make_index_sequence<M>()), consts(c, std::make_index_sequence<N>()));
  vp_expect_abort(false);
  if (want) vp_never("the check does not return when there is aliasing");
  vp_must("no aliasing");
}
PROOF(mut0_const2) { contract<0, 2>(); }
PROOF(mut1_const0) { contract<1, 0>(); }
PROOF(mut2_const0) { contract<2, 0>(); }
PROOF(mut1_const1) { contract<1, 1>(); }
PROOF(mut1_const2) { contract<1, 2>(); }
PROOF(mut1_const3) { contract<1, 3>(); }
PROOF(mut2_const1) { contract<2, 1>(); }
PROOF(mut2_const2) { contract<2, 2>(); }
PROOF(mut2_const3) { contract<2, 3>(); }
PROOF(mut3_const0) { contract<3, 0>(); }
PROOF(mut3_const1) { contract<3, 1>(); }
PROOF(mut3_const2) { contract<3, 2>(); }
PROOF(mut3_const3) { contract<3, 3>(); }
// More arguments (the sorting path): regions on a grid.
BOUNDED(mut4_const0) { contract<4, 0, 0>(); }
BOUNDED(mut4_const0_high) { contract<4, 0, 58>(); }
BOUNDED(mut4_const1) { contract<4, 1, 0>(); }
BOUNDED(mut1_const4) { contract<1, 4, 0>(); }
BOUNDED(mut1_const4_high) { contract<1, 4, 58>(); }
#ifdef VP_THOROUGH
BOUNDED(mut2_const4) { contract<2, 4, 0>(); }
BOUNDED(mut4_const4) { contract<4, 4, 0>(); }
#endif
BOUNDED(mut5_const0) { contract<5, 0, 0>(); }
PROOF(mut0_const4) { contract<0, 4>(); }

// The byte range of one argument, by kind of argument.
struct Big { uint8_t b[24]; };
template <typename T>
static void range_contract() {
  uint64_t at = vp_nd_u64();
  vp_assume(at != 0 && at <= ~uint64_t{0} - sizeof(T));
  T* p = reinterpret_cast<T*>(at);
  auto chk = [&](PtrData d) { vp_check(d.start == at && d.end == at + sizeof(T), "the range of an argument is the bytes of the object"); };
  chk(AsMutPtrData<T*>(p));
  chk(AsMutPtrData<T&>(*p));
  chk(AsPtrData<const T*>(p));
  chk(AsPtrData<const T&>(*p));
  auto a = AsMutPtrDatas<T*, T&>(p, *p);
  vp_check(a.size() == 2, "one range per argument");
  chk(a[0]); chk(a[1]);
  auto b = AsPtrDatas<const T&, const T*, const T*>(*p, p, p);
  vp_check(b.size() == 3, "one range per argument");
  chk(b[0]); chk(b[1]); chk(b[2]);
  static_assert(PtrLike<const T*>::kIsConst && PtrLike<const T&>::kIsConst && !PtrLike<T*>::kIsConst && !PtrLike<T&>::kIsConst);
  vp_must("end");
}
PROOF(range_u8) { range_contract<uint8_t>(); }
PROOF(range_u64) { range_contract<uint64_t>(); }
PROOF(range_struct) { range_contract<Big>(); }
PROOF(mixed_kinds) {
  uint64_t a = vp_nd_u64(), b = vp_nd_u64(), n = vp_nd_u64();
  vp_assume(a != 0 && a <= ~uint64_t{0} - 24 && b != 0 && b <= ~uint64_t{0} - 8 * (n % 1000) - 8);
  n = n % 1000;
  Region big{a, 24}, words{n ? b : 0, n * 8}, str{b, n};
  if (n == 0) str.start = 0;
  SliceRef<uint64_t> s(reinterpret_cast<uint64_t*>(b), n);
  rs_std::StrRef t = rs_std::StrRef::FromUtf8Unchecked(std::string_view(reinterpret_cast<char*>(b), n));
  bool got = HasMutableAliasing(AsMutPtrDatas<Big&>(*reinterpret_cast<Big*>(a)), AsPtrDatas<rs_std::StrRef>(t));
  vp_check(got == share(big, str), "reference against string");
  bool got2 = HasMutableAliasing(AsMutPtrDatas<Big*, SliceRef<uint64_t>>(reinterpret_cast<Big*>(a), s), AsPtrDatas<>());
  vp_check(got2 == share(big, words), "pointer against slice of words");
  if (got) vp_must("aliasing");
  if (!got2) vp_must("no aliasing");
}
