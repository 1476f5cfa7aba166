// Contract of the views rs_std::SliceRef and rs_std::StrRef.
#include <algorithm>
#include <array>
#include <compare>
#include <cstring>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <vector>

#include "vp.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"

using rs_std::SliceRef;
using rs_std::StrRef;

struct Two { uint16_t a, b; bool operator==(const Two& o) const { return a == o.a && b == o.b; } };
struct alignas(16) Wide { uint64_t x, y; };

template <typename T>
static void check_repr(const SliceRef<T>& s, T* ptr, size_t n) {
  static_assert(sizeof(SliceRef<T>) == 2 * sizeof(void*));
  vp_check(s.size() == n, "the slice has the given length");
  vp_check(s.data() == (n == 0 ? nullptr : ptr), "data is the given pointer, or null for an empty slice");
  std::span<T> sp = s;
  vp_check(sp.size() == n && sp.data() == s.data(), "conversion to span denotes the same elements");
  std::span<T> sp2 = s.to_span();
  vp_check(sp2.size() == n && sp2.data() == s.data(), "to_span denotes the same elements");
  uintptr_t w[2];
  std::memcpy(w, &s, sizeof w);
  vp_check(w[0] != 0 && w[0] % alignof(T) == 0, "the first word is never null and is aligned");
  vp_check(n == 0 || w[0] == reinterpret_cast<uintptr_t>(ptr), "the first word is the pointer");
  vp_check(w[1] == n, "the second word is the length");
}

template <typename T>
static void pointer_contract() {
  // A real object for non-null pointers; lengths are arbitrary: the view never dereferences.
  static std::remove_const_t<T> obj[4];
  bool null = vp_nd_bool();
  uint8_t at = vp_nd_u8() & 3;
  size_t n = vp_nd_u64();
  T* p = null ? nullptr : obj + at;
  SliceRef<T> s(p, n);
  check_repr<T>(s, p, null ? 0 : n);
  SliceRef<T> copy(s);
  check_repr<T>(copy, p, null ? 0 : n);
  SliceRef<T> other;
  check_repr<T>(other, nullptr, 0);
  other = s;
  check_repr<T>(other, p, null ? 0 : n);
  SliceRef<T> moved(std::move(other));
  check_repr<T>(moved, p, null ? 0 : n);
  moved = SliceRef<T>();
  check_repr<T>(moved, nullptr, 0);
  SliceRef<T> from_span = std::span<T>(p, null ? 0 : n);
  check_repr<T>(from_span, p, null ? 0 : n);
  SliceRef<const T> c = s;
  check_repr<const T>(c, p, null ? 0 : n);
  vp_must("end");
  if (!null && n > 100) vp_must("nonempty");
  if (!null && n == 0) vp_must("empty non-null");
}
PROOF(view_u8) { pointer_contract<uint8_t>(); }
PROOF(view_const_u8) { pointer_contract<const uint8_t>(); }
PROOF(view_u32) { pointer_contract<uint32_t>(); }
PROOF(view_double) { pointer_contract<const double>(); }
PROOF(view_struct) { pointer_contract<Two>(); }
PROOF(view_overaligned) { pointer_contract<Wide>(); }

PROOF(from_containers) {
  std::array<uint32_t, 3> a = {vp_nd_u32(), vp_nd_u32(), vp_nd_u32()};
  SliceRef<const uint32_t> s = a;
  check_repr<const uint32_t>(s, a.data(), 3);
  SliceRef<uint32_t> m(a);
  check_repr<uint32_t>(m, a.data(), 3);
  m.to_span()[1] = 7;
  vp_check(a[1] == 7 && s.to_span()[1] == 7, "a mutable view writes through");
  std::array<uint32_t, 0> z;
  SliceRef<const uint32_t> e = z;
  check_repr<const uint32_t>(e, nullptr, 0);
  uint16_t arr[2] = {1, 2};
  SliceRef<const uint16_t> t = std::span<const uint16_t>(arr);
  check_repr<const uint16_t>(t, arr, 2);
  vp_must("end");
}
PROOF(bytes_from_string_view) {
  static const char text[8] = {'a'};
  size_t n = vp_nd_u64();
  std::string_view v(text, n);
  SliceRef<const uint8_t> s = v;
  check_repr<const uint8_t>(s, reinterpret_cast<const uint8_t*>(text), n);
  SliceRef<const unsigned char> lit = "abc";
  vp_check(lit.size() == 3 && lit.data()[2] == 'c', "a literal is its characters");
  std::string_view none;
  SliceRef<const uint8_t> e = none;
  check_repr<const uint8_t>(e, nullptr, 0);
  vp_must("end");
}
PROOF(ptr_like_range) {
  static uint32_t obj[4];
  bool null = vp_nd_bool();
  size_t n = vp_nd_u64();
  vp_assume(n <= 4);
  uint32_t* p = null ? nullptr : obj;
  SliceRef<uint32_t> s(p, n);
  auto d = crubit::internal::PtrLike<SliceRef<uint32_t>>::AsPtrData(s);
  size_t eff = null ? 0 : n;
  vp_check(d.end - d.start == eff * 4, "the byte range has the byte length of the slice");
  vp_check(eff == 0 || d.start == reinterpret_cast<uintptr_t>(obj), "the byte range starts at the first element");
  vp_check(!crubit::internal::PtrLike<SliceRef<uint32_t>>::kIsConst && crubit::internal::PtrLike<SliceRef<const uint32_t>>::kIsConst &&
               crubit::internal::PtrLike<StrRef>::kIsConst, "constness of the view");
  static const char text[4] = "abc";
  StrRef r = StrRef::FromUtf8Unchecked(std::string_view(text, n < 3 ? n : 3));
  auto e = crubit::internal::PtrLike<StrRef>::AsPtrData(r);
  vp_check(e.end - e.start == r.size() && (r.empty() || e.start == reinterpret_cast<uintptr_t>(text)), "the byte range of a string");
  vp_must("end");
}

constexpr size_t N = 4;
template <typename T>
static T mk() {
  if constexpr (std::is_same_v<T, Two>) { return Two{vp_nd_u16(), vp_nd_u16()}; }
  else { return vp_any<T>(); }
}
template <typename T>
static void equality_contract() {
  T a[N], b[N];
  for (size_t i = 0; i < N; ++i) { a[i] = mk<T>(); b[i] = mk<T>(); }
  size_t n = vp_nd_u8(), m = vp_nd_u8();
  vp_assume(n <= N && m <= N);
  bool want = n == m;
  for (size_t i = 0; i < N; ++i) if (i < n && i < m && !(a[i] == b[i])) want = false;
  SliceRef<T> x(a, n), y(b, m);
  SliceRef<const T> cx(a, n), cy(b, m);
  vp_check((x == y) == want && (y == x) == want && (x != y) == !want, "mutable slices are equal iff their elements are");
  vp_check((cx == cy) == want && (cx != cy) == !want && (cy == cx) == want, "const slices are equal iff their elements are");
  vp_check((cx == y) == want && (x == cy) == want && (cx != y) == !want && (x != cy) == !want, "mixed comparisons agree");
  if (want) vp_must("equal"); else vp_must("different");
  if (want && n == 0) vp_must("empty");
}
BOUNDED(equality_u8) { equality_contract<uint8_t>(); }
BOUNDED(equality_i32) { equality_contract<int32_t>(); }
BOUNDED(equality_struct) { equality_contract<Two>(); }
BOUNDED(equality_with_container) {
  std::array<uint32_t, 2> c = {vp_nd_u32(), vp_nd_u32()};
  uint32_t a[3] = {vp_nd_u32(), vp_nd_u32(), vp_nd_u32()};
  size_t n = vp_nd_u8();
  vp_assume(n <= 3);
  bool want = n == 2 && a[0] == c[0] && a[1] == c[1];
  SliceRef<const uint32_t> s(a, n);
  vp_check((s == c) == want && (c == s) == want && (s != c) == !want && (c != s) == !want, "comparison with a container is elementwise");
  if (want) vp_must("equal"); else vp_must("different");
}

// StrRef: any prefix of some bytes (validation is C02's subject).
static int spec_cmp(const char* a, size_t n, const char* b, size_t m) {
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (size_t k = 0; k < N; ++k) {
    size_t i = N - 1 - k;
    if (i < n && i < m) {
      unsigned char x = a[i], y = b[i];
      if (x != y) r = x < y ? -1 : 1;
    }
  }
  return r;
}
template <typename L, typename R>
static void check_order(const L& x, const R& y, int want) {
  vp_check((x == y) == (want == 0) && (x != y) == (want != 0), "strings are equal iff their bytes are");
  vp_check((x < y) == (want < 0) && (x <= y) == (want <= 0) && (x > y) == (want > 0) && (x >= y) == (want >= 0), "strings are ordered by their bytes");
  auto o = x <=> y;
  vp_check((o < 0) == (want < 0) && (o == 0) == (want == 0) && (o > 0) == (want > 0), "three-way comparison agrees");
}
BOUNDED(str_comparison) {
  char a[N + 1], b[N + 1];
  for (size_t i = 0; i < N; ++i) { a[i] = vp_nd_u8(); b[i] = vp_nd_u8(); }
  size_t n = vp_nd_u8(), m = vp_nd_u8();
  vp_assume(n <= N && m <= N);
  int want = spec_cmp(a, n, b, m);
  StrRef x = StrRef::FromUtf8Unchecked(std::string_view(a, n));
  StrRef y = StrRef::FromUtf8Unchecked(std::string_view(b, m));
  std::string_view vx(a, n), vy(b, m);
  check_order(x, y, want);
  check_order(x, vy, want);
  check_order(vx, y, want);
  if (want < 0) vp_must("less");
  if (want == 0) vp_must("equal");
  if (want > 0) vp_must("greater");
}
BOUNDED(str_comparison_with_c_string) {
  char a[N + 1], b[N + 1];
  for (size_t i = 0; i < N; ++i) { a[i] = vp_nd_u8(); b[i] = vp_nd_u8(); }
  size_t n = vp_nd_u8(), m = vp_nd_u8();
  vp_assume(n <= N && m <= N);
  for (size_t i = 0; i < N; ++i) if (i < m) vp_assume(b[i] != 0);
  b[m] = 0;
  int want = spec_cmp(a, n, b, m);
  StrRef x = StrRef::FromUtf8Unchecked(std::string_view(a, n));
  const char* c = b;
  check_order(x, c, want);
  check_order(c, x, -want);
  vp_must("end");
}
struct Sink {
  std::string_view got;
  int calls = 0;
  void Append(std::string_view s) { ++calls; got = s; }
};
PROOF(str_view) {
  static const char text[8] = {'a'};
  bool null = vp_nd_bool();
  size_t n = vp_nd_u64();
  std::string_view v = null ? std::string_view() : std::string_view(text, n);
  StrRef s = StrRef::FromUtf8Unchecked(v);
  size_t eff = null ? 0 : n;
  const char* p = eff == 0 ? nullptr : text;
  vp_check(s.size() == eff && s.len() == eff && s.empty() == (eff == 0) && s.data() == p, "length and data of the view");
  std::string_view back = s, back2 = s.to_string_view();
  vp_check(back.size() == eff && back.data() == p && back2.size() == eff && back2.data() == p, "conversion to string_view denotes the same bytes");
  static_assert(sizeof(StrRef) == 2 * sizeof(void*));
  uintptr_t w[2];
  std::memcpy(w, &s, sizeof w);
  vp_check(w[0] != 0 && w[1] == eff && (eff == 0 || w[0] == reinterpret_cast<uintptr_t>(text)), "two words, the first never null");
  StrRef d;
  std::memcpy(w, &d, sizeof w);
  vp_check(w[0] != 0 && w[1] == 0 && d.data() == nullptr && d.empty(), "the default is the empty string, with a non-null first word");
  d = s;
  vp_check(d.data() == p && d.size() == eff, "assignment keeps the view");
  Sink sink;
  AbslStringify(sink, s);
  vp_check(sink.calls == 1 && sink.got.size() == eff && sink.got.data() == p, "stringification appends the bytes once");
  vp_must("end");
}
PROOF(str_literals) {
  StrRef a = "h\u00e9llo";
  vp_check(a.size() == 6 && a.data()[0] == 'h' && a.data()[5] == 'o', "a literal is its bytes");
  StrRef b = std::string_view("xyz", 2);
  vp_check(b.size() == 2 && b.data()[1] == 'y', "a constant string_view is its bytes");
  StrRef e = "";
  uintptr_t w[2];
  std::memcpy(w, &e, sizeof w);
  vp_check(e.empty() && e.data() == nullptr && w[0] != 0, "an empty literal is an empty string");
  vp_must("end");
}
