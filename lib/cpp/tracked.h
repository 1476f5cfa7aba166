// Payload types that account for every construction, destruction and transfer
// of a resource, so that ownership contracts become obligations:
//  - a resource is released exactly once (never twice, never leaked);
//  - every constructed object is destroyed or relocated exactly once;
//  - no object is assigned to or destroyed while it is not alive.
#ifndef VP_TRACKED_H_
#define VP_TRACKED_H_
#include <utility>

#include "vp.h"
#include "support/internal/slot.h"

namespace vp {
constexpr int kMax = 8;
struct Ledger {
  bool owned[kMax];
  int next;
  int objects;   // objects alive
  int released;  // resources released
  int assigned;  // assignments into a living object
};
inline Ledger L;
inline void ledger_reset() {
  for (int i = 0; i < kMax; ++i) L.owned[i] = false;
  L.next = 1;
  L.objects = L.released = L.assigned = 0;
}
inline int acquire() {
  int h = L.next++;
  if (h >= kMax) { vp_never("more resources than the harness has room for"); return 1; }
  L.owned[h] = true;
  return h;
}
inline void release(int h) {
  if (h == 0) return;
  if (h < 0 || h >= kMax || !L.owned[h]) { vp_never("a resource is released by an object that does not own it"); return; }
  L.owned[h] = false;
  L.released++;
}
inline int owned_total() {
  int n = 0;
  for (int i = 0; i < kMax; ++i) n += L.owned[i];
  return n;
}
// At the end of a history: everything is gone, exactly once.
inline void check_balanced() {
  vp_check(owned_total() == 0, "no resource leaks");
  vp_check(L.objects == 0, "every object that was constructed is destroyed or relocated exactly once");
}
constexpr uint32_t kAlive = 0x0A11FE11, kGone = 0xDEADDEAD;

// kCopy: copyable; kAssign: has assignment; kReloc: relocatable as Rust types are.
// kQuiet: declared noexcept.
template <bool kCopy, bool kAssign, bool kReloc, bool kQuiet = false>
struct Tracked {
  uint32_t life;
  int handle;
  uint32_t value;
  void enter() { life = kAlive; L.objects++; }
  void must_live() const { vp_check(life == kAlive, "only living objects are used"); }

  Tracked() : handle(acquire()), value(77) { enter(); }
  Tracked(uint32_t v) : handle(acquire()), value(v) { enter(); }
  Tracked(uint32_t a, uint32_t b) : handle(acquire()), value(a ^ b) { enter(); }
  Tracked(Tracked&& o) noexcept(kQuiet) : handle(o.handle), value(o.value) {
    o.must_live();
    o.handle = 0;
    o.value = 0;
    enter();
  }
  Tracked(const Tracked& o) noexcept(kQuiet) requires(kCopy) : handle(o.handle ? acquire() : 0), value(o.value) {
    o.must_live();
    enter();
  }
  Tracked(const Tracked&) requires(!kCopy) = delete;
  Tracked& operator=(Tracked&& o) noexcept(kQuiet) requires(kAssign) {
    must_live();
    o.must_live();
    L.assigned++;
    if (this != &o) {
      release(handle);
      handle = o.handle;
      value = o.value;
      o.handle = 0;
      o.value = 0;
    }
    return *this;
  }
  Tracked& operator=(const Tracked& o) noexcept(kQuiet) requires(kCopy && kAssign) {
    must_live();
    o.must_live();
    L.assigned++;
    if (this != &o) {
      release(handle);
      handle = o.handle ? acquire() : 0;
      value = o.value;
    }
    return *this;
  }
  Tracked& operator=(Tracked&&) requires(!kAssign) = delete;
  // Relocation: the object moves, bits and all; nothing lives at the source any more.
  Tracked(crubit::UnsafeRelocateTag, Tracked&& o) noexcept(kQuiet) requires(kReloc) : life(kAlive), handle(o.handle), value(o.value) {
    o.must_live();
    o.life = kGone;
  }
  ~Tracked() {
    vp_check(life == kAlive, "only living objects are destroyed");
    life = kGone;
    L.objects--;
    release(handle);
    handle = -1;
  }
  bool holds(uint32_t v) const { return life == kAlive && handle > 0 && handle < kMax && L.owned[handle] && value == v; }
};
using Moving = Tracked<false, true, false>;      // move-only
using Copying = Tracked<true, true, false>;      // copyable
using Relocating = Tracked<false, true, true>;   // relocatable
using Unassignable = Tracked<false, false, false>;
using QuietMoving = Tracked<false, true, false, true>;
using QuietCopying = Tracked<true, true, false, true>;
using QuietRelocating = Tracked<false, true, true, true>;
using UnassignableReloc = Tracked<false, false, true>;
// An over-aligned copyable payload.
struct alignas(32) WideTracked : Copying {
  using Copying::Copying;
  WideTracked() = default;
};
// A copyable payload of one byte; its value is kept on the side.
inline uint32_t small_values[kMax];
struct Small {
  signed char handle;
  static int check(int h) { if (h >= 0 && h < kMax) return h; return 0; }
  void must_live() const { vp_check(handle >= 0, "only living objects are used"); }
  Small() : Small(77) {}
  Small(uint32_t v) : handle(static_cast<signed char>(acquire())) { L.objects++; small_values[check(handle)] = v; }
  Small(uint32_t a, uint32_t b) : Small(a ^ b) {}
  Small(Small&& o) : handle(o.handle) { o.must_live(); o.handle = 0; L.objects++; }
  Small(const Small& o) : handle(0) {
    o.must_live();
    L.objects++;
    if (o.handle) { handle = static_cast<signed char>(acquire()); small_values[check(handle)] = small_values[check(o.handle)]; }
  }
  Small& operator=(Small&& o) {
    must_live();
    o.must_live();
    L.assigned++;
    if (this != &o) { release(handle); handle = o.handle; o.handle = 0; }
    return *this;
  }
  Small& operator=(const Small& o) {
    must_live();
    o.must_live();
    L.assigned++;
    if (this != &o) {
      release(handle);
      handle = 0;
      if (o.handle) { handle = static_cast<signed char>(acquire()); small_values[check(handle)] = small_values[check(o.handle)]; }
    }
    return *this;
  }
  ~Small() {
    vp_check(handle >= 0, "only living objects are destroyed");
    L.objects--;
    release(handle);
    handle = -1;
  }
  bool holds(uint32_t v) const { return handle > 0 && handle < kMax && L.owned[handle] && small_values[handle] == v; }
};
}  // namespace vp
#endif
