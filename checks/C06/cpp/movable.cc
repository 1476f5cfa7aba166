// Ownership contracts of crubit::Slot and rs::Movable.
#include <array>
#include <cstring>
#include <memory>
#include <utility>

#include "vp.h"
#include "tracked.h"
#include "support/internal/slot.h"
#include "support/internal/move_assign.h"
#include "support/movable.h"
#include "support/internal/memswap.h"

using namespace vp;
using rs::Movable;

// ---- Slot
template <typename T>
static void slot_contract() {
  ledger_reset();
  uint32_t v = vp_nd_u32();
  {
    crubit::Slot<T> s;
    vp_check(L.objects == 0, "an uninitialized slot holds nothing");
    new (s.Get()) T(v);
    vp_check(s.Get()->holds(v), "Get denotes the storage");
    {
      T out = std::move(s).AssumeInitAndTakeValue();
      vp_check(out.holds(v), "the value is taken out");
      vp_check(L.objects == 1 && owned_total() == 1, "nothing is left in the slot");
    }
    check_balanced();
  }
  check_balanced();
  {
    crubit::Slot<T> t(T{v});
    vp_check(t.Get()->holds(v), "the value is moved in");
    vp_check(L.objects == 1, "one object lives, in the slot");
    crubit::Slot<T> u(std::move(t));
    vp_check(u.Get()->holds(v) && t.Get()->handle == 0, "moving a slot moves the value");
    vp_check(L.objects == 2, "the moved-from value still lives in the old slot");
    std::destroy_at(t.Get());
    T out = std::move(u).AssumeInitAndTakeValue();
    vp_check(out.holds(v) && L.objects == 1, "and can be taken from the new one");
  }
  check_balanced();
  vp_must("end");
}
PROOF(slot_moving) { slot_contract<Moving>(); }
PROOF(slot_quiet_moving) { slot_contract<QuietMoving>(); }
PROOF(slot_quiet_relocating) { slot_contract<QuietRelocating>(); }
PROOF(slot_copying) { slot_contract<Copying>(); }
PROOF(slot_small) { slot_contract<Small>(); }
PROOF(slot_wide) { slot_contract<WideTracked>(); }
PROOF(slot_relocating) { slot_contract<Relocating>(); }
PROOF(slot_unassignable) { slot_contract<Unassignable>(); }
PROOF(slot_scalar) {
  uint64_t v = vp_nd_u64();
  crubit::Slot<uint64_t> s;
  *s.Get() = v;
  vp_check(std::move(s).AssumeInitAndTakeValue() == v, "a scalar is taken out");
  crubit::Slot t(uint64_t{v});
  vp_check(*t.Get() == v && std::move(t).AssumeInitAndTakeValue() == v, "a scalar is moved in");
  vp_must("end");
}
PROOF(slot_never_destroys) {
  ledger_reset();
  {
    crubit::Slot<Moving> s(Moving(1));
    (void)s;
  }
  vp_check(L.objects == 1 && owned_total() == 1, "a slot that still holds a value does not destroy it");
  vp_must("end");
}
template <typename T>
static void slot_array_contract() {
  ledger_reset();
  uint32_t a = vp_nd_u32(), b = vp_nd_u32();
  {
    crubit::Slot<std::array<T, 2>> s;
    new (s.Get()) std::array<T, 2>{T(a), T(b)};
    {
      std::array<T, 2> out = std::move(s).AssumeInitAndTakeValue();
      vp_check(out[0].holds(a) && out[1].holds(b) && L.objects == 2, "an array is taken out, element by element");
    }
    check_balanced();
    crubit::Slot<std::array<T, 2>> u(std::array<T, 2>{T(a), T(b)});
    vp_check((*u.Get())[0].holds(a) && (*u.Get())[1].holds(b) && L.objects == 2, "an array is moved in");
    std::array<T, 2> out = std::move(u).AssumeInitAndTakeValue();
    vp_check(out[0].holds(a) && out[1].holds(b) && L.objects == 2, "and taken out again");
  }
  check_balanced();
  vp_must("end");
}
PROOF(slot_array_moving) { slot_array_contract<Moving>(); }
PROOF(slot_array_quiet) { slot_array_contract<QuietMoving>(); }
PROOF(slot_array_relocating) { slot_array_contract<Relocating>(); }
// A Rust type that can neither be moved nor default-constructed in C++.
struct Pinned : UnassignableReloc {
  explicit Pinned(uint32_t v) : UnassignableReloc(v) {}
  Pinned(crubit::UnsafeRelocateTag t, Pinned&& o) : UnassignableReloc(t, static_cast<UnassignableReloc&&>(o)) {}
  Pinned(Pinned&&) = delete;
};
PROOF(slot_pinned) {
  ledger_reset();
  uint32_t a = vp_nd_u32(), b = vp_nd_u32();
  {
    crubit::Slot<Pinned> s;
    new (s.Get()) Pinned(a);
    Pinned out = std::move(s).AssumeInitAndTakeValue();
    vp_check(out.holds(a) && L.objects == 1, "a value that cannot be moved is relocated out");
    crubit::Slot<std::array<Pinned, 2>> t;
    new (t.Get()) std::array<Pinned, 2>{Pinned(a), Pinned(b)};
    std::array<Pinned, 2> outs = std::move(t).AssumeInitAndTakeValue();
    vp_check(outs[0].holds(a) && outs[1].holds(b) && L.objects == 3, "an array that cannot be moved is relocated out");
  }
  check_balanced();
  vp_must("end");
}
PROOF(slot_array_pinned) {
  ledger_reset();
  uint32_t a = vp_nd_u32(), b = vp_nd_u32();
  crubit::Slot<std::array<Pinned, 2>> u(std::array<Pinned, 2>{Pinned(a), Pinned(b)});
  vp_check(owned_total() == 2 && L.objects == 2, "the elements of an array that cannot be moved live on in the slot");
  vp_must("end");
}

// ---- MoveAssignOrDestroyAndConstruct
template <typename T>
static void replace_contract() {
  ledger_reset();
  uint32_t a = vp_nd_u32(), b = vp_nd_u32();
  {
    T x(a), y(b);
    crubit::MoveAssignOrDestroyAndConstruct(&x, std::move(y));
    vp_check(x.holds(b) && y.handle == 0 && L.objects == 2 && L.released == 1, "the old value is released, the new one moved in");
  }
  check_balanced();
  vp_must("end");
}
PROOF(replace_assignable) { replace_contract<Moving>(); }
PROOF(replace_quiet) { replace_contract<QuietMoving>(); }
PROOF(replace_unassignable) { replace_contract<Unassignable>(); }

// ---- Movable: state is "valueless" or "holds v"
template <typename T>
static void check_state(const Movable<T>& m, bool full, uint32_t v) {
  vp_check(m.valueless_after_move() == !full && static_cast<bool>(m) == full, "the state is what the history says");
  if (full) vp_check((*m).holds(v) && m->holds(v) && &*m == m.operator->(), "the value is what the history says");
}
template <typename T>
static void empty_it(Movable<T>& m) {
  Movable<T> sink(std::move(m));
}
template <typename T>
static void move_contract() {
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32();
  bool full_a = vp_nd_bool(), full_b = vp_nd_bool();
  {
    Movable<T> a(std::in_place, v);
    Movable<T> b(std::in_place, w);
    check_state(a, true, v);
    vp_check(L.objects == 2, "in-place construction makes one object");
    if (!full_a) empty_it(a);
    if (!full_b) empty_it(b);
    check_state(a, full_a, v);
    check_state(b, full_b, w);
    vp_check(L.objects == full_a + full_b && owned_total() == full_a + full_b, "what was moved out is gone");
    // move construction
    Movable<T> c(std::move(a));
    check_state(c, full_a, v);
    check_state(a, false, 0);
    vp_check(L.objects == full_a + full_b && owned_total() == full_a + full_b, "moving neither makes nor loses anything");
    // move assignment, into any state from any state
    int rel = L.released;
    b = std::move(c);
    check_state(b, full_a, v);
    check_state(c, false, 0);
    vp_check(L.released == rel + full_b, "the old value is released at once");
    vp_check(L.objects == full_a, "moving neither makes nor loses anything");
    // self-assignment
    Movable<T>& self = b;
    b = std::move(self);
    check_state(b, full_a, v);
    // a valueless object can be used again
    c = Movable<T>(std::in_place, w);
    check_state(c, true, w);
    c = std::move(b);
    check_state(c, full_a, v);
    if (full_a && full_b) vp_must("both full");
    if (!full_a && !full_b) vp_must("both empty");
  }
  check_balanced();
}
PROOF(movable_moving) { move_contract<Moving>(); }
PROOF(movable_quiet_moving) { move_contract<QuietMoving>(); }
PROOF(movable_quiet_copying) { move_contract<QuietCopying>(); }
PROOF(movable_quiet_relocating) { move_contract<QuietRelocating>(); }
PROOF(movable_copying) { move_contract<Copying>(); }
PROOF(movable_small) { move_contract<Small>(); }
PROOF(movable_wide) { move_contract<WideTracked>(); }
PROOF(movable_relocating) { move_contract<Relocating>(); }
PROOF(movable_unassignable) { move_contract<Unassignable>(); }
PROOF(movable_unassignable_relocating) { move_contract<UnassignableReloc>(); }
PROOF(movable_constructors) {
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32();
  {
    Movable<Moving> d;
    check_state(d, true, 77);
    Movable<Moving> m(Moving{v});
    check_state(m, true, v);
    vp_check(L.objects == 2, "one object each");
    Movable<Moving> two(std::in_place, v, w);
    check_state(two, true, v ^ w);
    Movable<Moving> conv(v);
    check_state(conv, true, v);
    Moving out = *std::move(conv);
    vp_check(out.holds(v) && !conv.valueless_after_move(), "dereferencing an rvalue moves from the value");
    (*m).value = w;
    vp_check(m->value == w, "the value is accessible");
    m->value = v;
    vp_check((*m).value == v, "the value is accessible");
  }
  check_balanced();
  vp_must("end");
}
template <typename T>
static void from_slot_contract() {
  ledger_reset();
  uint32_t v = vp_nd_u32();
  {
    crubit::Slot<T> s;
    new (s.Get()) T(v);
    Movable<T> m = Movable<T>::TakeFromSlot(std::move(s));
    check_state(m, true, v);
    vp_check(L.objects == 1, "the slot is emptied");
  }
  check_balanced();
  vp_must("end");
}
PROOF(movable_from_slot) { from_slot_contract<Moving>(); }
PROOF(movable_from_slot_quiet) { from_slot_contract<QuietMoving>(); }
PROOF(movable_from_slot_relocating) { from_slot_contract<Relocating>(); }
PROOF(movable_from_slot_unassignable) { from_slot_contract<UnassignableReloc>(); }
template <typename T>
static void copy_contract() {
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32();
  bool full_a = vp_nd_bool(), full_b = vp_nd_bool();
  {
    Movable<T> a(std::in_place, v), b(std::in_place, w);
    if (!full_a) empty_it(a);
    if (!full_b) empty_it(b);
    {
      Movable<T> c(static_cast<const Movable<T>&>(a));
      check_state(c, full_a, v);
      check_state(a, full_a, v);
      if (full_a) vp_check(c->handle != a->handle, "a copy has a resource of its own");
    }
    int rel = L.released;
    b = static_cast<const Movable<T>&>(a);
    check_state(b, full_a, v);
    check_state(a, full_a, v);
    vp_check(L.released == rel + full_b, "the old value is released");
    vp_check(L.objects == 2 * full_a, "copying makes one object");
    if (full_a) vp_check(b->handle != a->handle, "a copy has a resource of its own");
    const Movable<T>& self = b;
    b = self;
    check_state(b, full_a, v);
    if (full_a && full_b) vp_must("both full");
    if (!full_a && full_b) vp_must("empty into full");
    if (full_a && !full_b) vp_must("full into empty");
  }
  check_balanced();
}
PROOF(movable_copy) { copy_contract<Copying>(); }
PROOF(movable_copy_quiet) { copy_contract<QuietCopying>(); }
PROOF(movable_copy_small) { copy_contract<Small>(); }
PROOF(movable_copy_wide) { copy_contract<WideTracked>(); }

// ---- MemSwap
struct Odd { uint8_t b[13]; };
struct alignas(16) Wide { uint64_t a; uint8_t c; uint64_t d; };
template <typename T>
static void swap_contract() {
  struct { unsigned char before[8]; T a, b; unsigned char after[8]; } s{};
  auto* pa = reinterpret_cast<unsigned char*>(&s.a);
  auto* pb = reinterpret_cast<unsigned char*>(&s.b);
  unsigned char xa[sizeof(T)], xb[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); ++i) { pa[i] = xa[i] = vp_nd_u8(); pb[i] = xb[i] = vp_nd_u8(); }
  for (size_t i = 0; i < 8; ++i) s.before[i] = s.after[i] = 0x5A;
  crubit::MemSwap(s.a, s.b);
  for (size_t i = 0; i < sizeof(T); ++i) vp_check(pa[i] == xb[i] && pb[i] == xa[i], "swapping exchanges every byte of the objects");
  for (size_t i = 0; i < 8; ++i) vp_check(s.before[i] == 0x5A && s.after[i] == 0x5A, "and no others");
  crubit::MemSwap(s.a, s.a);
  for (size_t i = 0; i < sizeof(T); ++i) vp_check(pa[i] == xb[i] && pb[i] == xa[i], "swapping an object with itself changes nothing");
  vp_must("end");
}
PROOF(memswap_byte) { swap_contract<uint8_t>(); }
PROOF(memswap_word) { swap_contract<uint64_t>(); }
PROOF(memswap_odd) { swap_contract<Odd>(); }
PROOF(memswap_wide) { swap_contract<Wide>(); }
PROOF(memswap_owning) {
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32();
  {
    Moving a(v), b(w);
    crubit::MemSwap(a, b);
    vp_check(a.holds(w) && b.holds(v) && L.objects == 2 && L.released == 0 && L.assigned == 0, "the values change places; nothing is made, destroyed or assigned");
  }
  check_balanced();
  vp_must("end");
}
