// Contracts of the bridge ABI (C++ side). The layout specification is the one
// of ../rust/src/lib.rs: parts from the end of the buffer to its start, in
// declaration order; a leaf is its object representation; an option is one
// bool byte, then the payload only if there is one.
#include <array>
#include <optional>
#include <tuple>
#include <utility>

#include "vp.h"
#include "support/bridge.h"

using namespace crubit;

namespace {

constexpr size_t kCap = 48, kPad = 3;

struct Img {
  size_t rem;
  bool set[kCap];
  unsigned char val[kCap];
  template <typename T>
  void leaf(const T& v) {
    rem -= sizeof(T);
    const unsigned char* p = reinterpret_cast<const unsigned char*>(&v);
    for (size_t i = 0; i < sizeof(T); ++i) {
      set[rem + i] = true;
      val[rem + i] = p[i];
    }
  }
};

// Spec<Abi>: size, layout, equality, symbolic value.
template <typename Abi>
struct Spec;

template <typename T>
struct Spec<TransmuteAbi<T>> {
  static constexpr size_t kSize = sizeof(T);
  static void layout(const T& v, Img& img) { img.leaf(v); }
  static bool same(const T& a, const T& b) { return a == b; }
  static TransmuteAbi<T> mk() { return {}; }
  static T any() {
    if constexpr (std::is_same_v<T, bool>) {
      return vp_nd_bool();
    } else if constexpr (std::is_floating_point_v<T>) {
      // any value that compares equal to itself
      return static_cast<T>(static_cast<int16_t>(vp_nd_u16())) / 4;
    } else {
      return vp_any<T>();
    }
  }
};
template <typename E, size_t N>
struct Spec<TransmuteAbi<std::array<E, N>>> {
  using T = std::array<E, N>;
  static constexpr size_t kSize = sizeof(T);
  static void layout(const T& v, Img& img) { img.leaf(v); }
  static bool same(const T& a, const T& b) {
    for (size_t i = 0; i < N; ++i)
      if (a[i] != b[i]) return false;
    return true;
  }
  static TransmuteAbi<T> mk() { return {}; }
  static T any() {
    T t;
    for (size_t i = 0; i < N; ++i) t[i] = vp_any<E>();
    return t;
  }
};
template <typename A>
struct Spec<OptionAbi<A>> {
  using V = std::optional<typename A::Value>;
  static constexpr size_t kSize = 1 + Spec<A>::kSize;
  static void layout(const V& v, Img& img) {
    img.leaf<unsigned char>(v.has_value() ? 1 : 0);
    if (v.has_value()) Spec<A>::layout(*v, img);
  }
  static bool same(const V& a, const V& b) {
    if (a.has_value() != b.has_value()) return false;
    return !a.has_value() || Spec<A>::same(*a, *b);
  }
  static OptionAbi<A> mk() { return OptionAbi<A>{Spec<A>::mk()}; }
  static V any() {
    if (vp_nd_bool()) return V(Spec<A>::any());
    return std::nullopt;
  }
};
template <typename A, typename B>
struct Spec<PairAbi<A, B>> {
  using V = std::pair<typename A::Value, typename B::Value>;
  static constexpr size_t kSize = Spec<A>::kSize + Spec<B>::kSize;
  static void layout(const V& v, Img& img) {
    Spec<A>::layout(v.first, img);
    Spec<B>::layout(v.second, img);
  }
  static bool same(const V& a, const V& b) {
    return Spec<A>::same(a.first, b.first) && Spec<B>::same(a.second, b.second);
  }
  static PairAbi<A, B> mk() { return PairAbi<A, B>(Spec<A>::mk(), Spec<B>::mk()); }
  static V any() {
    auto a = Spec<A>::any();
    auto b = Spec<B>::any();
    return V(a, b);
  }
};
template <typename... As>
struct Spec<TupleAbi<As...>> {
  using V = std::tuple<typename As::Value...>;
  static constexpr size_t kSize = (0 + ... + Spec<As>::kSize);
  template <size_t... I>
  static void layout_(const V& v, Img& img, std::index_sequence<I...>) {
    (Spec<As>::layout(std::get<I>(v), img), ...);
  }
  static void layout(const V& v, Img& img) { layout_(v, img, std::index_sequence_for<As...>()); }
  template <size_t... I>
  static bool same_(const V& a, const V& b, std::index_sequence<I...>) {
    return (true && ... && Spec<As>::same(std::get<I>(a), std::get<I>(b)));
  }
  static bool same(const V& a, const V& b) { return same_(a, b, std::index_sequence_for<As...>()); }
  static TupleAbi<As...> mk() { return TupleAbi<As...>{std::tuple<As...>(Spec<As>::mk()...)}; }
  static V any() { return V(Spec<As>::any()...); }
};

template <typename A>
void contract() {
  static_assert(is_crubit_abi<A>);
  vp_check(A::kSize == Spec<A>::kSize, "the encoded size is the sum of the parts");
  typename A::Value v = Spec<A>::any();
  Img img;
  img.rem = Spec<A>::kSize;
  for (size_t i = 0; i < kCap; ++i) img.set[i] = false;
  Spec<A>::layout(v, img);
  unsigned char before[kCap + 2 * kPad], buf[kCap + 2 * kPad], other[kCap + 2 * kPad], snap[kCap + 2 * kPad];
  for (size_t i = 0; i < kCap + 2 * kPad; ++i) buf[i] = before[i] = vp_nd_u8();
  internal::Encode(Spec<A>::mk(), buf + kPad, v);
  for (size_t i = 0; i < kCap + 2 * kPad; ++i) {
    if (i >= kPad && i < kPad + Spec<A>::kSize && img.set[i - kPad]) {
      vp_check(buf[i] == img.val[i - kPad], "encoded byte equals the layout specification");
    } else {
      vp_check(buf[i] == before[i], "bytes outside the encoding are untouched");
    }
  }
  for (size_t i = 0; i < kCap + 2 * kPad; ++i) {
    other[i] = vp_nd_u8();
    if (i >= kPad && i < kPad + Spec<A>::kSize && img.set[i - kPad]) other[i] = img.val[i - kPad];
    snap[i] = other[i];
  }
  typename A::Value back = internal::Decode(Spec<A>::mk(), other + kPad);
  vp_check(Spec<A>::same(v, back), "decode inverts the layout specification");
  for (size_t i = 0; i < kCap + 2 * kPad; ++i) vp_check(other[i] == snap[i], "decode leaves the buffer untouched");
  vp_must("end of contract");
}

template <typename X> using T = TransmuteAbi<X>;
template <typename X> using O = OptionAbi<X>;
template <typename... X> using Tup = TupleAbi<X...>;
template <typename X, typename Y> using Pair = PairAbi<X, Y>;

}  // namespace

PROOF(leaf_u8) { contract<T<uint8_t>>(); }
PROOF(leaf_u16) { contract<T<uint16_t>>(); }
PROOF(leaf_i32) { contract<T<int32_t>>(); }
PROOF(leaf_u64) { contract<T<uint64_t>>(); }
PROOF(leaf_bool) { contract<T<bool>>(); }
PROOF(leaf_double) { contract<T<double>>(); }
PROOF(leaf_odd_size) { contract<T<std::array<uint8_t, 7>>>(); }
PROOF(option_of_leaf) { contract<O<T<uint32_t>>>(); }
PROOF(option_of_byte) { contract<O<T<uint8_t>>>(); }
PROOF(option_of_option) { contract<O<O<T<uint16_t>>>>(); }
PROOF(option_of_tuple) { contract<O<Tup<T<uint8_t>, T<uint64_t>>>>(); }
PROOF(option_of_pair) { contract<O<Pair<T<uint8_t>, T<uint32_t>>>>(); }
PROOF(tuple0) { contract<Tup<>>(); }
PROOF(tuple1) { contract<Tup<T<uint32_t>>>(); }
PROOF(tuple2) { contract<Tup<T<uint8_t>, T<uint32_t>>>(); }
PROOF(tuple3) { contract<Tup<T<uint8_t>, T<uint16_t>, T<uint32_t>>>(); }
PROOF(tuple4) { contract<Tup<T<uint8_t>, O<T<uint16_t>>, T<uint8_t>, T<uint64_t>>>(); }
PROOF(tuple6) { contract<Tup<T<uint8_t>, T<uint16_t>, T<uint8_t>, T<uint8_t>, T<uint16_t>, T<uint32_t>>>(); }
PROOF(tuple12) {
  contract<Tup<T<uint8_t>, T<uint8_t>, T<uint8_t>, T<uint16_t>, T<uint8_t>, T<uint8_t>, T<uint8_t>, T<uint8_t>,
               T<uint16_t>, T<uint8_t>, T<uint8_t>, T<uint16_t>>>();
}
PROOF(pair_leaf) { contract<Pair<T<uint8_t>, T<uint64_t>>>(); }
PROOF(pair_of_options) { contract<Pair<O<T<uint16_t>>, O<T<uint32_t>>>>(); }
PROOF(nested) {
  contract<Tup<O<Tup<T<int64_t>, T<bool>>>, Tup<T<uint8_t>, T<float>>>>();
}
PROOF(nested_mixed) {
  contract<Tup<O<Pair<O<T<uint8_t>>, O<T<uint32_t>>>>, T<uint32_t>, Tup<T<uint16_t>, Tup<>>, O<T<std::array<uint8_t, 3>>>>>();
}

// ---- ownership -----------------------------------------------------------

namespace {
// Ghost ownership: every live token counts once; a moved-from token owns nothing.
int g_live = 0;   // tokens that own the resource
int g_bad = 0;    // use of a resource that is not owned
int g_objects = 0;  // objects, owning or moved-from (they may be left in possession of something else)
struct Owner {
  uint32_t id;
  bool owns;
  explicit Owner(uint32_t i) : id(i), owns(true) { ++g_live; ++g_objects; }
  Owner(Owner&& o) : id(o.id), owns(o.owns) {
    if (!o.owns) ++g_bad;
    o.owns = false;
    ++g_objects;
  }
  Owner(const Owner& o) : id(o.id), owns(o.owns) { if (owns) ++g_live; ++g_objects; }
  ~Owner() { if (owns) { --g_live; owns = false; } --g_objects; }
};
}  // namespace

PROOF(transmute_moves_ownership) {
  unsigned char buf[sizeof(Owner)];
  uint32_t id = vp_nd_u32();
  {
    Owner o(id);
    internal::Encode(T<Owner>(), buf, std::move(o));
    vp_check(!o.owns, "the source gave up the resource");
  }
  vp_check(g_live == 1, "the encoded value still owns the resource");
  {
    Owner p = internal::Decode(T<Owner>(), buf);
    vp_check(p.owns && p.id == id && g_live == 1, "the decoded value owns the resource");
  }
  vp_check(g_live == 0 && g_bad == 0 && g_objects == 0, "the resource is released exactly once");
  vp_must("end");
}

PROOF(option_moves_ownership) {
  unsigned char buf[sizeof(Owner) + 1];
  uint32_t id = vp_nd_u32();
  bool present = vp_nd_bool();
  {
    std::optional<Owner> o;
    if (present) o.emplace(id);
    internal::Encode(O<T<Owner>>(), buf, std::move(o));
  }
  vp_check(g_live == (present ? 1 : 0), "the encoded value owns the resource");
  {
    std::optional<Owner> p = internal::Decode(O<T<Owner>>(), buf);
    vp_check(p.has_value() == present, "presence is preserved");
    if (present) vp_check(p->owns && p->id == id, "the decoded value owns the resource");
  }
  vp_check(g_live == 0 && g_bad == 0 && g_objects == 0, "the resource is released exactly once");
  vp_must("end");
}

PROOF(pair_moves_ownership) {
  unsigned char buf[2 * sizeof(Owner)];
  uint32_t a = vp_nd_u32(), b = vp_nd_u32();
  {
    std::pair<Owner, Owner> o{Owner(a), Owner(b)};
    internal::Encode(Pair<T<Owner>, T<Owner>>({}, {}), buf, std::move(o));
  }
  vp_check(g_live == 2, "the encoded values own their resources");
  {
    std::pair<Owner, Owner> p = internal::Decode(Pair<T<Owner>, T<Owner>>({}, {}), buf);
    vp_check(p.first.owns && p.second.owns && p.first.id == a && p.second.id == b, "order and ownership are preserved");
  }
  vp_check(g_live == 0 && g_bad == 0 && g_objects == 0, "every resource is released exactly once");
  vp_must("end");
}

PROOF(tuple_keeps_resources_balanced) {
  unsigned char buf[sizeof(Owner) + 1];
  uint32_t a = vp_nd_u32();
  uint8_t b = vp_nd_u8();
  {
    std::tuple<Owner, uint8_t> o{Owner(a), b};
    internal::Encode(Tup<T<Owner>, T<uint8_t>>(), buf, std::move(o));
  }
  vp_check(g_live == 1, "the encoded tuple owns its resource");
  {
    std::tuple<Owner, uint8_t> p = internal::Decode(Tup<T<Owner>, T<uint8_t>>(), buf);
    vp_check(std::get<0>(p).owns && std::get<0>(p).id == a && std::get<1>(p) == b, "order and ownership are preserved");
  }
  vp_check(g_live == 0 && g_bad == 0 && g_objects == 0, "every resource is released exactly once");
  vp_must("end");
}

PROOF(boxed_moves_ownership) {
  unsigned char buf[sizeof(void*)];
  uint32_t id = vp_nd_u32();
  vp_check(BoxedAbi<Owner>::kSize == sizeof(void*), "a boxed value travels as one pointer");
  {
    Owner o(id);
    internal::Encode(BoxedAbi<Owner>(), buf, std::move(o));
    vp_check(!o.owns, "the source gave up the resource");
  }
  vp_check(g_live == 1 && vp_live_allocs() == 1, "one box owns the resource");
  {
    Owner p = internal::Decode(BoxedAbi<Owner>(), buf);
    vp_check(p.owns && p.id == id && g_live == 1, "the decoded value owns the resource");
    vp_check(vp_live_allocs() == 0, "the box is freed");
  }
  vp_check(g_live == 0 && g_bad == 0 && g_objects == 0, "the resource is released exactly once");
  vp_must("end");
}

PROOF(boxed_in_option) {
  unsigned char buf[sizeof(void*) + 1];
  uint32_t id = vp_nd_u32();
  bool present = vp_nd_bool();
  {
    std::optional<Owner> o;
    if (present) o.emplace(id);
    internal::Encode(O<BoxedAbi<Owner>>(), buf, std::move(o));
  }
  vp_check(vp_live_allocs() == (present ? 1 : 0), "a box exists exactly when there is a value");
  {
    std::optional<Owner> p = internal::Decode(O<BoxedAbi<Owner>>(), buf);
    vp_check(p.has_value() == present && (!present || (p->owns && p->id == id)), "value is preserved");
  }
  vp_check(g_live == 0 && g_bad == 0 && vp_live_allocs() == 0, "released exactly once");
  vp_must("end");
}

// Encoder/Decoder hand out disjoint, consecutive regions from the end.
PROOF(encoder_regions) {
  unsigned char buf[16];
  size_t n = vp_nd_u8(), a = vp_nd_u8(), b = vp_nd_u8();
  vp_assume(n <= 16 && a <= n && b <= n - a);
  Encoder e(n, buf);
  vp_check(e.Next(a) == buf + (n - a), "first region ends at the end of the buffer");
  vp_check(e.Next(b) == buf + (n - a - b), "second region ends where the first starts");
  Decoder d(n, buf);
  vp_check(d.Next(a) == buf + (n - a), "first region ends at the end of the buffer");
  vp_check(d.Next(b) == buf + (n - a - b), "second region ends where the first starts");
  vp_must("end");
}
