// Contracts of Rust's callables in C++.
#include "support/rs_std/dyn_callable.h"
#include <new>
#include "vp.h"

namespace ic = rs_std::internal_dyn_callable;
using ic::FunctionToCall;
using ic::TypeErasedState;

// Rust's side: boxes are numbered; the first word of the state is the box, the
// second one its vtable.
constexpr int kBoxes = 4;
static bool live[kBoxes];
static int disposed, relocated, invoked;
static const TypeErasedState* seen;
static std::uint32_t arg;
static void* box(int i) { return reinterpret_cast<void*>(0x1000 + 16ull * i); }
static int number(const TypeErasedState* s) {
  std::size_t p = reinterpret_cast<std::size_t>(s->remote.target);
  bool ok = p >= 0x1000 && p < 0x1000 + 16ull * kBoxes && p % 16 == 0 && s->remote.size == p + 1;
  vp_check(ok, "the state is one that Rust gave, bit for bit");
  return ok ? static_cast<int>((p - 0x1000) / 16) : 0;
}
static int live_number(const TypeErasedState* s) {
  int i = number(s);
  vp_check(live[i], "a callable is not used after it was destroyed, consumed or moved");
  return i;
}
static void rust(FunctionToCall f, TypeErasedState* from, TypeErasedState* to) {
  live_number(from);
  if (f == FunctionToCall::dispose) { live[number(from)] = false; disposed++; return; }
  vp_check(f == FunctionToCall::relocate_from_to, "C++ only disposes and relocates");
  vp_check(from != to, "a callable is relocated somewhere else");
  *to = *from;
  from->remote.target = nullptr;
  relocated++;
}
template <bool kOnce>
static std::uint32_t invoke(TypeErasedState* s, std::uint32_t x) {
  int i = live_number(s);
  if (kOnce) live[i] = false;  // Rust consumes the box
  seen = s;
  arg = x;
  invoked++;
  return x + 5;
}
static int boxes() { int n = 0; for (int i = 0; i < kBoxes; i++) n += live[i]; return n; }

using Fn = std::uint32_t(std::uint32_t) const;
using FnMut = std::uint32_t(std::uint32_t);
using FnOnce = std::uint32_t(std::uint32_t) &&;
template <class Sig> constexpr bool kOnce = std::is_same_v<Sig, FnOnce>;

// A callable as it arrives from Rust.
template <class Sig>
static rs_std::DynCallable<Sig> given(int i) {
  unsigned char buf[24];
  void* w[2] = {box(i), reinterpret_cast<void*>(reinterpret_cast<std::size_t>(box(i)) + 1)};
  for (unsigned k = 0; k < sizeof(w); k++) buf[8 + k] = reinterpret_cast<unsigned char*>(w)[k];  // bridged values fill their buffer from the end
  live[i] = true;
  crubit::Decoder d(sizeof(buf), buf);
  return ic::DynCallableAbi<Sig>(rust, invoke<kOnce<Sig>>).Decode(d);
}
// And on its way back: the box that Rust gets, or -1.
template <class Sig>
static int sent(rs_std::DynCallable<Sig> v) {
  unsigned char buf[24];
  { crubit::Encoder e(sizeof(buf), buf); ic::DynCallableAbi<Sig>(rust, invoke<kOnce<Sig>>).Encode(std::move(v), e); }
  vp_check(buf[23] <= 1, "Rust reads a bool first");
  if (!buf[23]) return -1;
  TypeErasedState s;
  for (unsigned k = 0; k < 16; k++) reinterpret_cast<unsigned char*>(&s)[k] = buf[7 + k];
  return live_number(&s);
}
template <class Sig> static std::uint32_t call(rs_std::DynCallable<Sig>& f, std::uint32_t x) {
  if constexpr (kOnce<Sig>) return std::move(f)(x); else return f(x);
}

template <class Sig> static void lives() {
  {
    auto f = given<Sig>(1);
    vp_check(static_cast<bool>(f) && f != nullptr && nullptr != f && !(f == nullptr) && !(nullptr == f), "a callable from Rust is not empty");
    vp_check(boxes() == 1 && disposed == 0, "nothing is destroyed on the way");
    vp_must("lives");
  }
  vp_check(boxes() == 0 && disposed == 1, "and it is destroyed once, with its owner");
}
template <class Sig> static void called() {
  std::uint32_t x = vp_any<std::uint32_t>();
  {
    auto f = given<Sig>(2);
    vp_check(call(f, x) == x + 5 && invoked == 1 && arg == x, "a call passes its argument and returns the result");
    if (!kOnce<Sig>) { vp_check(call(f, x ^ 1) == (x ^ 1) + 5 && invoked == 2 && arg == (x ^ 1), "as often as it is called"); }
    vp_must("called");
  }
  vp_check(boxes() == 0 && disposed == (kOnce<Sig> ? 0 : 1), "it is destroyed once, by Rust if Rust consumed it");
}
template <class Sig> static void moved() {
  {
    auto f = given<Sig>(1);
    rs_std::DynCallable<Sig> g(std::move(f));
    vp_check(!f && f == nullptr && nullptr == f && !(f != nullptr) && g, "a move empties its source");
    vp_check(boxes() == 1 && disposed == 0, "and destroys nothing");
    {
      auto h = given<Sig>(2);
      h = std::move(g);
      vp_check(!g && h && boxes() == 1 && live[1] && disposed == 1, "an assignment destroys what was there");
      g = std::move(h);
      vp_check(g && !h && boxes() == 1, "and fills an empty callable");
    }
    vp_check(boxes() == 1 && call(g, 7) == 12, "the callable is where it was moved to");
    f = std::move(f);
    vp_check(!f, "an empty callable stays empty");
    vp_must("moved");
  }
  vp_check(boxes() == 0, "destroyed once");
}
template <class Sig> static void assigned_to_itself() {
  {
    auto f = given<Sig>(3);
    auto& g = f;
    f = std::move(g);
    if (f) { vp_check(boxes() == 1 && disposed == 0, "it still has its callable"); call(f, 1); }
    else vp_check(boxes() == 0 && disposed == 1, "or none at all");
    vp_must("assigned");
  }
  vp_check(boxes() == 0, "destroyed once");
}
template <class Sig> static void swapped() {
  {
    auto f = given<Sig>(1);
    auto g = given<Sig>(2);
    f.swap(g);
    vp_check(f && g && boxes() == 2, "both are there");
    swap(f, f);
    swap(f, g);
    f.swap(g);
    rs_std::DynCallable<Sig> e;
    swap(e, f);
    vp_check(e && !f, "an empty one is swapped as well");
    vp_check(sent<Sig>(std::move(e)) == 2 && sent<Sig>(std::move(g)) == 1 && disposed == 0, "each is where the other was");
    vp_must("swapped");
  }
  vp_check(boxes() == 2 && disposed == 0, "Rust owns what it got back");
}
template <class Sig> static void empty() {
  rs_std::DynCallable<Sig> e, n(nullptr);
  vp_check(!e && !n && e == nullptr, "made empty");
  rs_std::DynCallable<Sig> m(std::move(e));
  n = std::move(m);
  vp_check(!e && !m && !n, "moved empty");
  vp_check(sent<Sig>(std::move(n)) == -1 && sent<Sig>(rs_std::DynCallable<Sig>()) == -1, "Rust is told that there is none");
  vp_must("empty");
}
template <class Sig> static void returned() {
  {
    auto f = given<Sig>(3);
    vp_check(sent<Sig>(std::move(f)) == 3, "Rust gets back the very box it gave");
    vp_check(boxes() == 1 && disposed == 0 && !f, "which C++ has no more");
    vp_check(sent<Sig>(std::move(f)) == -1, "so that it is sent only once");
    vp_must("returned");
  }
  vp_check(boxes() == 1 && disposed == 0, "nor destroys");
}
template <class Sig> static void converted() {
  {
    auto f = given<Sig>(1);
    absl::AnyInvocable<Sig> a = std::move(f);
    vp_check(!f && boxes() == 1 && disposed == 0 && a.manager == rust && a.invoker == reinterpret_cast<void (*)()>(&invoke<kOnce<Sig>>), "an AnyInvocable takes the callable over");
    vp_check(number(&a.state) == 1, "bit for bit");
    absl::AnyInvocable<Sig> b = std::move(f);
    vp_check(b.invoker == nullptr, "an empty one gives an empty one");
    vp_must("converted");
  }
  vp_check(boxes() == 0 && disposed == 1, "and is destroyed once");
}
#define EACH(name) \
  PROOF(name##_fn) { name<Fn>(); } PROOF(name##_fn_mut) { name<FnMut>(); } PROOF(name##_fn_once) { name<FnOnce>(); }
EACH(lives) EACH(called) EACH(moved) EACH(assigned_to_itself) EACH(swapped) EACH(empty) EACH(returned) EACH(converted)

// After its one call a FnOnce is a moved-from value.
PROOF(consumed_sent) {
  {
    auto f = given<FnOnce>(1);
    std::move(f)(4);
    vp_check(boxes() == 0, "the call consumes it");
    vp_check(sent<FnOnce>(std::move(f)) == -1, "a consumed callable is not sent to Rust");
    vp_must("sent");
  }
  vp_check(disposed == 0, "nor destroyed again");
}
PROOF(consumed_moved) {
  {
    auto f = given<FnOnce>(1);
    std::move(f)(4);
    rs_std::DynCallable<FnOnce> g(std::move(f));
    auto h = given<FnOnce>(2);
    h = std::move(g);
    vp_check(disposed == 1 && boxes() == 0 && sent<FnOnce>(std::move(h)) == -1, "nor moved back to life");
    vp_must("moved");
  }
  vp_check(disposed == 1, "nor destroyed again");
}
PROOF(consumed_called) {
  auto f = given<FnOnce>(1);
  std::move(f)(4);
  vp_must("called once");
  vp_expect_abort(true);
  std::move(f)(5);
  vp_never("a consumed callable is called again");
}
PROOF(consumed_reassigned) {
  {
    auto f = given<FnOnce>(1);
    std::move(f)(4);
    f = given<FnOnce>(2);
    vp_check(f && boxes() == 1 && std::move(f)(6) == 11 && boxes() == 0 && invoked == 2, "it can be given a new callable");
    vp_must("again");
  }
  vp_check(disposed == 0, "which is consumed in turn");
}

// Arguments of class type are passed on by reference or moved, never copied twice.
struct Big { std::uint64_t a[4]; const Big* me; Big(std::uint64_t x) : a{x, x + 1, x + 2, x + 3}, me(this) {} Big(Big&& o) : a{o.a[0], o.a[1], o.a[2], o.a[3]}, me(this) { o.me = nullptr; } ~Big() {} };
static std::uint64_t total(TypeErasedState* s, Big&& b, std::uint64_t& r) { live_number(s); invoked++; vp_check(b.me == &b, "a living argument"); r = b.a[3]; return b.a[0] + 1; }
PROOF(class_arguments) {
  using Sig = std::uint64_t(Big, std::uint64_t&);
  std::uint64_t x = vp_any<std::uint64_t>(), r = 0;
  unsigned char buf[24];
  void* w[2] = {box(1), reinterpret_cast<void*>(reinterpret_cast<std::size_t>(box(1)) + 1)};
  for (unsigned k = 0; k < sizeof(w); k++) buf[8 + k] = reinterpret_cast<unsigned char*>(w)[k];  // bridged values fill their buffer from the end
  live[1] = true;
  crubit::Decoder d(sizeof(buf), buf);
  auto f = ic::DynCallableAbi<Sig>(rust, total).Decode(d);
  vp_check(f(Big(x), r) == x + 1 && r == x + 3 && invoked == 1, "arguments of class type and references reach the callable");
  vp_must("called");
}
