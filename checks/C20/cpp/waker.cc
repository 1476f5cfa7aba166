// Contracts of C++'s wakers as Rust calls them, and of a Rust future in C++.
#include "support/rs_std/waker.h"
#include "support/rs_std/cpp_waker.h"
#include "support/rs_std/dyn_erased_future.h"
#include "support/rs_std/waker.cc"
#include "support/rs_std/cpp_waker.cc"
#include <new>
#include <type_traits>
#include <utility>
#include "vp.h"

static int what[4];  // WakeByRef, WakeAndDestroy, Clone, Destroy
static const void* whose;
template <class Base>
struct Task final : Base {
  Base* other;
  void WakeByRef() override { what[0]++; whose = this; }
  void WakeAndDestroy() override { what[1]++; whose = this; }
  Base* Clone() override { what[2]++; whose = this; return other; }
  void Destroy() override { what[3]++; whose = this; }
};
static bool only(int k) {
  int n = 0;
  for (int i = 0; i < 4; i++) n += what[i];
  bool ok = n == 1 && what[k] == 1;
  what[k] = 0;
  return ok;
}
template <class Base, class C, class W, class R, class D>
static void wakers(C clone, W wake, R by_ref, D drop) {
  Task<Base> t, u;
  t.other = vp_nd_bool() ? &u : &t;
  u.other = nullptr;
  vp_check(clone(&t) == t.other && only(2) && whose == &t, "cloning a waker gives the clone that C++ made");
  by_ref(&t);
  vp_check(only(0) && whose == &t, "waking by reference wakes, and leaves the waker alone");
  wake(&u);
  vp_check(only(1) && whose == &u, "waking consumes the waker");
  drop(&t);
  vp_check(only(3) && whose == &t, "dropping destroys the waker without waking");
  vp_must("woken");
}
PROOF(waker) {
  using namespace rs_std::internal;
  wakers<rs_std::Waker>(rs_std_waker_clone, rs_std_waker_wake_and_destroy, rs_std_waker_wake_by_ref, rs_std_waker_drop);
}
PROOF(cpp_waker) {
  using namespace rs_std::internal;
  wakers<rs_std::CppWaker>(rs_std_cpp_waker_clone, rs_std_cpp_waker_wake_and_destroy, rs_std_cpp_waker_wake_by_ref, rs_std_cpp_waker_drop);
}

// Rust's side of a future: the first word is the future (0: one that is never
// ready), the second one its vtable.
static bool live[3];
static int inits, drops, polls;
static const void* polled_with;
static void* polled_into;
static std::size_t word(const void* s, int k) { std::size_t x; __builtin_memcpy(&x, static_cast<const unsigned char*>(s) + k * sizeof(x), sizeof(x)); return x; }
static void put(void* s, std::size_t a) { std::size_t b = a + 1000; __builtin_memcpy(s, &a, sizeof(a)); __builtin_memcpy(static_cast<unsigned char*>(s) + sizeof(b), &b, sizeof(b)); }
static std::size_t future(const void* s) {
  std::size_t i = word(s, 0);
  bool ok = i < 3 && word(s, 1) == i + 1000;
  vp_check(ok, "the future is the one that Rust gave, bit for bit");
  return ok ? i : 0;
}
static std::uint64_t result;
static bool ready;
extern "C" void rs_std_dyn_erased_future_init(void* s) { put(s, 0); inits++; }
extern "C" void rs_std_dyn_erased_future_drop(void* s) {
  std::size_t i = future(s);
  if (i) { vp_check(live[i], "a future is destroyed once"); live[i] = false; } else inits--;
  put(s, 77);
  drops++;
}
extern "C" bool rs_std_dyn_erased_future_poll(void* s, const rs_std::Waker* w, void* out) {
  std::size_t i = future(s);
  polls++;
  polled_with = w;
  polled_into = out;
  if (!i) return false;
  vp_check(live[i], "a living future is polled");
  if (ready) __builtin_memcpy(out, &result, sizeof(result));
  return ready;
}
using Future = crubit::DynErasedFuture<std::uint64_t>;
static_assert(sizeof(Future) == 2 * sizeof(void*) && alignof(Future) == alignof(void*));
union Given { unsigned char bytes[sizeof(Future)]; Future f; Given(std::size_t i) { put(bytes, i); live[i] = true; } ~Given() { f.~Future(); } };

PROOF(future_polled) {
  result = vp_any<std::uint64_t>();
  ready = vp_nd_bool();
  Task<rs_std::Waker> w;
  std::uint64_t before = vp_any<std::uint64_t>(), out = before;
  {
    Given g(1);
    vp_check(g.f.Poll(&w, &out) == ready && polls == 1, "polling says whether the future is ready");
    vp_check(polled_with == static_cast<rs_std::Waker*>(&w) && polled_into == &out, "with the caller's waker");
    vp_check(out == (ready ? result : before), "and its result is where the caller wants it");
    vp_check(live[1] && drops == 0, "the future stays");
    vp_must("polled");
  }
  vp_check(!live[1] && drops == 1, "until its owner goes");
}
PROOF(future_moved) {
  result = vp_any<std::uint64_t>();
  ready = true;
  std::uint64_t out = 0;
  {
    Given g(1);
    {
      Future h(std::move(g.f));
      vp_check(live[1] && drops == 0, "moving destroys nothing");
      vp_check(!g.f.Poll(nullptr, &out) && out == 0, "what is moved from is a future that is never ready");
      vp_check(h.Poll(nullptr, &out) && out == result, "and the future is where it was moved to");
      Future k(std::move(g.f));
      vp_must("moved");
    }
    vp_check(!live[1] && drops == 2, "where it is destroyed");
  }
  vp_check(drops == 3 && inits == 0, "once each");
}
PROOF(future_is_not_copied) {
  vp_check(!std::is_copy_constructible_v<Future> && !std::is_copy_assignable_v<Future> && !std::is_default_constructible_v<Future>, "a future is neither copied nor made of nothing");
  vp_must("static");
}
