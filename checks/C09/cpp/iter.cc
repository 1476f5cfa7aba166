// Iterating a Rust iterator from C++ yields its items, in order, once.
#include <cstdint>
#include <iterator>
#include <optional>
#include <utility>

#include "vp.h"
#include "tracked.h"
#include "support/rs_std/iterator_adapter.h"
#include "support/rs_std/traits.h"

namespace rs::core::iter {
struct Iterator {};
}
using rs::IteratorAdapter;
using rs::IteratorEnd;
using namespace vp;

// A source with an arbitrary number of arbitrary items: those near the position
// under test are nondeterministic. It counts what is asked of it.
static uint64_t g_from;
static uint32_t g_items[4];
static uint32_t vp_uf_item(uint64_t n) { return n - g_from < 4 ? g_items[n - g_from] : 0; }
static void any_items(uint64_t from) {
  g_from = from;
  for (auto& i : g_items) i = vp_nd_u32();
}
struct Source {
  uint64_t pos, len;
  uint64_t* asked;
  bool* overrun;
  std::optional<uint32_t> step() {
    ++*asked;
    if (pos >= len) {
      if (*overrun) vp_never("a source is not asked again after it said it was at the end");
      *overrun = true;
      return std::nullopt;
    }
    return vp_uf_item(pos++);
  }
};
namespace rs_std {
template <>
struct impl<Source, rs::core::iter::Iterator> {
  static constexpr bool kIsImplemented = true;
  using Item = uint32_t;
  static std::optional<uint32_t> next(Source& s) { return s.step(); }
};
}  // namespace rs_std

template <typename S, typename Make>
static void steps(Make make) {
  uint64_t asked = 0;
  bool overrun = false;
  uint64_t pos = vp_nd_u64(), len = vp_nd_u64();
  vp_assume(pos <= len && len < ~uint64_t{0} - 4);
  any_items(pos);
  Source src{pos, len, &asked, &overrun};
  IteratorAdapter<S> it(make(src));
  vp_check(asked == 1, "one item is asked for to begin with");
  vp_check((it == IteratorEnd()) == (pos == len) && (it != IteratorEnd()) == (pos != len), "the end is reported iff there are no more items");
  if (pos != len) {
    vp_check(*it == vp_uf_item(pos), "the first item comes first");
    vp_check(*it == vp_uf_item(pos) && asked == 1, "looking does not advance");
    IteratorAdapter<S>& same = ++it;
    vp_check(&same == &it && asked == 2, "advancing asks for one item");
    // From any position to the next: by induction, the whole sequence.
    vp_check((it == IteratorEnd()) == (pos + 1 == len), "the end is reported iff there are no more items");
    if (pos + 1 != len) {
      vp_check(*it == vp_uf_item(pos + 1), "the next item comes next");
      vp_check(iter_move(it) == vp_uf_item(pos + 1), "the current item can be moved out");
      it++;
      vp_check(asked == 3, "advancing asks for one item");
      vp_check((it == IteratorEnd()) == (pos + 2 == len), "the end is reported iff there are no more items");
      if (pos + 2 != len) {
        vp_check(*it == vp_uf_item(pos + 2), "the next item comes next");
        vp_must("three items");
      }
    } else {
      vp_must("one item");
    }
  } else {
    vp_must("no items");
  }
}
PROOF(by_value) { steps<Source>([](Source& s) { return s; }); }
PROOF(by_pointer) { steps<Source*>([](Source& s) { return &s; }); }
PROOF(copy_and_move) {
  uint64_t asked = 0;
  bool overrun = false;
  uint64_t pos = vp_nd_u64(), len = vp_nd_u64();
  vp_assume(pos <= len && len - pos >= 2 && len < ~uint64_t{0} - 4);
  any_items(pos);
  IteratorAdapter<Source> a(Source{pos, len, &asked, &overrun});
  IteratorAdapter<Source> b(a);
  ++a;
  vp_check(*a == vp_uf_item(pos + 1) && *b == vp_uf_item(pos), "a copy advances on its own");
  IteratorAdapter<Source> c(std::move(b));
  vp_check(*c == vp_uf_item(pos), "moving keeps the position");
  ++c;
  vp_check(*c == vp_uf_item(pos + 1), "moving keeps the position");
  b = a;
  vp_check(*b == vp_uf_item(pos + 1), "assignment takes over the position");
  b = std::move(c);
  vp_check(*b == vp_uf_item(pos + 1) && asked == 3, "assignment takes over the position");
  vp_must("end");
}
// Items that own something.
struct Objects {
  uint32_t n;
  std::optional<Moving> step() {
    if (n == 0) return std::nullopt;
    --n;
    return Moving(n);
  }
};
namespace rs_std {
template <>
struct impl<Objects, rs::core::iter::Iterator> {
  static constexpr bool kIsImplemented = true;
  using Item = Moving;
  static std::optional<Moving> next(Objects& s) { return s.step(); }
};
}  // namespace rs_std
BOUNDED(items_are_owned) {
  ledger_reset();
  uint32_t n = vp_nd_u32() % 4;
  bool take = vp_nd_bool();
  {
    uint32_t seen = 0;
    for (IteratorAdapter<Objects> it(Objects{n}); it != IteratorEnd(); ++it) {
      vp_check(it.operator*().holds(n - 1 - seen), "each item is alive while it is current");
      vp_check(owned_total() == 1 && L.objects == 1, "one item lives at a time");
      if (take) {
        Moving m(iter_move(it));
        vp_check(m.holds(n - 1 - seen), "the item can be moved out");
      }
      ++seen;
    }
    vp_check(seen == n, "all items are seen");
    if (n == 3) vp_must("three");
  }
  check_balanced();
}
