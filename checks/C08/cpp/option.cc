// State and ownership contracts of the bases of rs_std::Option and rs_std::Result.
#include <cstring>
#include <memory>
#include <optional>
#include <utility>

#include "vp.h"
#include "tracked.h"
#include "support/rs_std/option.h"
#include "support/rs_std/result.h"
#include "support/rs_std/unit.h"

using namespace vp;

// The two shapes that the generator gives to specializations: a tag next to the
// payload, or a value that the payload itself never has (a niche).
constexpr uint32_t kNiche = 0x4E494348;

template <typename T, bool niche>
struct Opt : public rs_std::OptionBase<Opt<T, niche>, T> {
  using base_type = rs_std::OptionBase<Opt, T>;
  Opt(const Opt&) = delete;
  constexpr Opt() = default;
  constexpr Opt(std::nullopt_t) noexcept : base_type(std::nullopt) {}
  constexpr Opt& operator=(std::nullopt_t) noexcept { base_type::operator=(std::nullopt); return *this; }
  template <typename U> requires(rs_std::OptionForwardConstructible<Opt, T, U>)
  Opt(U&& value) noexcept : base_type(std::forward<U>(value)) {}
  template <typename U> requires(rs_std::OptionForwardConstructible<Opt, T, U>)
  Opt& operator=(U&& value) noexcept { base_type::operator=(std::forward<U>(value)); return *this; }
  template <typename O> requires(rs_std::OptionFromStdOptional<T, O>)
  Opt(O&& value) noexcept : base_type(std::forward<O>(value)) {}
  template <typename O> requires(rs_std::OptionFromStdOptional<T, O>)
  Opt& operator=(O&& value) noexcept { base_type::operator=(std::forward<O>(value)); return *this; }
  template <typename... Args>
  explicit Opt(std::in_place_t ip, Args&&... args) noexcept : base_type(ip, std::forward<Args>(args)...) {}
  ~Opt() { this->reset(); }

 private:
  friend base_type;
  static constexpr size_t kOff = niche ? 0 : 4;
  static constexpr uint32_t kNoneVal = niche ? kNiche : 0;
  T* some_ptr() noexcept { return reinterpret_cast<T*>(storage_ + kOff); }
  T const* some_const_ptr() const noexcept { return reinterpret_cast<T const*>(storage_ + kOff); }
  void set_some_tag() noexcept { if constexpr (!niche) set_tag(1); }
  void set_none_tag() noexcept { set_tag(kNoneVal); }
  bool is_none() const noexcept { return tag() == kNoneVal; }
  uint32_t tag() const noexcept { return *reinterpret_cast<const uint32_t*>(storage_); }
  void set_tag(uint32_t t) noexcept { *reinterpret_cast<uint32_t*>(storage_) = t; }
  alignas(alignof(T) > 4 ? alignof(T) : 4) unsigned char storage_[kOff + sizeof(T)];
};

template <typename O>
static void check_opt(O& o, bool some, uint32_t v) {
  const O& c = o;
  vp_check(c.has_value() == some, "the option is what the history says: some or none");
  if (some) {
    vp_check((*o).holds(v) && (*c).holds(v) && o->holds(v) && c->holds(v), "the value is what the history says");
    vp_check(&*o == &*c && o.operator->() == &*o && c.operator->() == &*o, "all accesses denote the same object");
  }
}
template <typename T, bool niche>
static void option_states() {
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32();
  bool some = vp_nd_bool(), src = vp_nd_bool();
  using O = Opt<T, niche>;
  {
    O d;
    check_opt(d, false, 0);
    O n(std::nullopt);
    check_opt(n, false, 0);
    O p(std::in_place, v);
    check_opt(p, true, v);
    O q(T{v});
    check_opt(q, true, v);
    O r(v);
    check_opt(r, true, v);
    vp_check(L.objects == 3 && owned_total() == 3, "each some holds one object, each none holds nothing");
    q = std::nullopt;
    check_opt(q, false, 0);
    vp_check(L.objects == 2 && owned_total() == 2, "assigning none destroys the value");
    q = std::nullopt;
    check_opt(q, false, 0);
  }
  check_balanced();
  vp_must("construction");
  ledger_reset();
  {
    O o;
    if (some) o = T(v);
    check_opt(o, some, v);
    o = T(w);
    check_opt(o, true, w);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == some, "assigning a value replaces the old one");
    o = v;
    check_opt(o, true, v);
    vp_check(L.objects == 1 && owned_total() == 1, "assigning a value replaces the old one");
    if (!some) vp_must("value into none");
    if (some) vp_must("value into some");
  }
  check_balanced();
  ledger_reset();
  {
    O o;
    if (some) o = T(v);
    std::optional<T> s;
    if (src) s.emplace(w);
    o = std::move(s);
    check_opt(o, src, w);
    vp_check(owned_total() == src && L.released == some, "the old value is released, the new one is taken over");
    std::optional<T> s2;
    if (src) s2.emplace(w);
    O c(std::move(s2));
    check_opt(c, src, w);
    vp_check(owned_total() == 2 * src, "a value is taken over");
    if (src && some) vp_must("optional into some");
    if (src && !some) vp_must("optional into none");
    if (!src && some) vp_must("empty optional into some");
  }
  check_balanced();
  ledger_reset();
  {
    O o;
    if (some) o = T(v);
    {
      std::optional<T> t = std::move(o);
      vp_check(t.has_value() == some && (!some || (*t).holds(v)), "the value goes over into the optional");
      check_opt(o, false, 0);
      vp_check(L.objects == some && owned_total() == some, "and only there");
    }
    vp_check(L.objects == 0, "the optional owns the value");
    o = T(w);
    check_opt(o, true, w);
    {
      T t(*std::move(o));
      vp_check(t.holds(w) && o.has_value(), "an rvalue gives up its value, not its state");
    }
  }
  check_balanced();
  vp_must("end");
}
PROOF(option_moving) { option_states<Moving, false>(); }
PROOF(option_quiet) { option_states<QuietMoving, false>(); }
PROOF(option_copying) { option_states<Copying, false>(); }
PROOF(option_relocating) { option_states<Relocating, false>(); }
PROOF(option_unassignable) { option_states<Unassignable, false>(); }
PROOF(option_unassignable_relocating) { option_states<UnassignableReloc, false>(); }
PROOF(option_niche_moving) { option_states<Moving, true>(); }
PROOF(option_niche_quiet) { option_states<QuietMoving, true>(); }
PROOF(option_niche_relocating) { option_states<Relocating, true>(); }
PROOF(option_niche_unassignable) { option_states<Unassignable, true>(); }
PROOF(option_niche_unassignable_relocating) { option_states<UnassignableReloc, true>(); }
PROOF(option_scalar) {
  uint64_t v = vp_nd_u64(), w = vp_nd_u64();
  bool src = vp_nd_bool();
  Opt<uint64_t, false> o;
  vp_check(!o.has_value(), "none by default");
  o = v;
  vp_check(o.has_value() && *o == v && *o.operator->() == v, "holds the scalar");
  *o = w;
  vp_check(*o == w, "the scalar can be changed");
  std::optional<uint64_t> s;
  if (src) s = v;
  o = std::move(s);
  vp_check(o.has_value() == src && (!src || *o == v), "takes over an optional");
  std::optional<uint64_t> back = std::move(o);
  vp_check(back.has_value() == src && (!src || *back == v) && !o.has_value(), "and gives it back");
  Opt<uint64_t, false> i(std::in_place, w);
  vp_check(i.has_value() && *i == w, "in-place construction");
  vp_must("end");
}
PROOF(option_unit) {
  Opt<rs_std::unit_t, false> n, s(std::in_place), u(rs_std::unit);
  vp_check(!n.has_value() && s.has_value() && u.has_value(), "an option of unit is a flag");
  n = rs_std::unit;
  s = std::nullopt;
  vp_check(n.has_value() && !s.has_value(), "an option of unit is a flag");
  vp_must("end");
}
template <bool niche, typename F>
static void option_bad_access(F f) {
  ledger_reset();
  bool some = vp_nd_bool();
  uint32_t v = vp_nd_u32();
  Opt<Moving, niche> o;
  if (some) o = Moving(v);
  vp_expect_abort(!some);
  const bool ok = f(o, v);
  vp_expect_abort(false);
  if (!some) vp_never("accessing none does not return");
  vp_check(ok, "accessing some gives the value");
  vp_must("some");
}
PROOF(option_access_ref) { option_bad_access<false>([](auto& o, uint32_t v) { return (*o).holds(v); }); }
PROOF(option_access_const) { option_bad_access<false>([](const auto& o, uint32_t v) { return (*o).holds(v); }); }
PROOF(option_access_rvalue) { option_bad_access<true>([](auto& o, uint32_t v) { Moving&& m = *std::move(o); return m.holds(v); }); }
PROOF(option_access_arrow) { option_bad_access<true>([](auto& o, uint32_t v) { return o->holds(v); }); }
PROOF(option_access_arrow_const) { option_bad_access<false>([](const auto& o, uint32_t v) { return o->holds(v); }); }

// ---- Result
template <typename T, typename E, bool niche>
struct Res : public rs_std::ResultBase<Res<T, E, niche>, T, E> {
  using base_type = rs_std::ResultBase<Res, T, E>;
  Res(const Res&) = delete;
  template <typename U> requires(rs_std::ResultForwardConstructible<Res, T, U>)
  explicit constexpr Res(U&& ok) noexcept : base_type(std::forward<U>(ok)) {}
  template <typename U> requires(rs_std::ResultForwardConstructible<Res, T, U>)
  constexpr Res& operator=(U&& ok) noexcept { base_type::operator=(std::forward<U>(ok)); return *this; }
  template <typename F> requires(rs_std::ResultUnexpectedConstructible<E, F>)
  explicit constexpr Res(rs_std::unexpected<F>&& err) noexcept : base_type(std::move(err)) {}
  template <typename F> requires(rs_std::ResultUnexpectedConstructible<E, F>)
  constexpr Res& operator=(rs_std::unexpected<F>&& err) noexcept { base_type::operator=(std::move(err)); return *this; }
  template <typename... Args>
  explicit constexpr Res(std::in_place_t ip, Args&&... args) noexcept : base_type(ip, std::forward<Args>(args)...) {}
  template <typename... Args>
  explicit constexpr Res(rs_std::unexpect_t u, Args&&... args) noexcept : base_type(u, std::forward<Args>(args)...) {}
  ~Res() noexcept { this->Reset(); }

 private:
  friend base_type;
  // niche: an Ok is recognized by what is not the error's tag value in the first word.
  static constexpr size_t kOkOff = niche ? 0 : 4, kErrOff = 4;
  bool has_value_impl() const noexcept { return niche ? tag() != kNiche : tag() == 0; }
  T* ok_ptr() noexcept { return reinterpret_cast<T*>(__storage + kOkOff); }
  T const* ok_const_ptr() const noexcept { return reinterpret_cast<T const*>(__storage + kOkOff); }
  E* err_ptr() noexcept { return reinterpret_cast<E*>(__storage + kErrOff); }
  E const* err_const_ptr() const noexcept { return reinterpret_cast<E const*>(__storage + kErrOff); }
  void set_ok_tag() noexcept { if constexpr (!niche) set_tag(0); }
  void set_err_tag() noexcept { set_tag(niche ? kNiche : 1); }
  uint32_t tag() const noexcept { return *reinterpret_cast<const uint32_t*>(__storage); }
  void set_tag(uint32_t t) noexcept { *reinterpret_cast<uint32_t*>(__storage) = t; }
  alignas(4) unsigned char __storage[4 + (sizeof(T) > sizeof(E) ? sizeof(T) : sizeof(E))];
};
template <typename R>
static void check_res(R& r, bool ok, uint32_t v) {
  const R& c = r;
  vp_check(c.has_value() == ok && static_cast<bool>(c) == ok, "the result is what the history says: ok or error");
  if (ok) {
    vp_check(r.value().holds(v) && c.value().holds(v) && (*r).holds(v) && (*c).holds(v) && r->holds(v) && c->holds(v), "the value is what the history says");
    vp_check(&r.value() == &c.value() && &*r == &r.value() && &*c == &r.value() && r.operator->() == &r.value() && c.operator->() == &r.value(),
             "all accesses denote the same object");
  } else {
    vp_check(r.error().holds(v) && c.error().holds(v) && r.err().holds(v) && c.err().holds(v), "the error is what the history says");
    vp_check(&r.error() == &c.error() && &r.err() == &r.error() && &c.err() == &r.error(), "all accesses denote the same object");
  }
}
// A second kind of payload, so that the two sides cannot be mixed up.
template <typename Base>
struct Other : Base {
  Other(uint32_t v) : Base(v) {}
  Other(uint32_t a, uint32_t b) : Base(a, b) {}
  Other(Other&&) = default;
  Other& operator=(Other&&) = default;
};
template <typename T, typename E, bool niche>
static void result_states() {
  using R = Res<T, E, niche>;
  ledger_reset();
  uint32_t v = vp_nd_u32(), w = vp_nd_u32(), x = vp_nd_u32();
  bool ok = vp_nd_bool();
  {
    R a(T{v});
    check_res(a, true, v);
    R b(std::in_place, v, w);
    check_res(b, true, v ^ w);
    R c(rs_std::unexpect, v, w);
    check_res(c, false, v ^ w);
    rs_std::unexpected<E> u(std::in_place, w);
    vp_check(u.error().holds(w), "an unexpected carries the error");
    R d(std::move(u));
    check_res(d, false, w);
    R e(v);
    check_res(e, true, v);
    vp_check(L.objects == 6 && owned_total() == 5, "each result holds one object");
  }
  check_balanced();
  vp_must("construction");
  ledger_reset();
  {
    R r(std::in_place, v);
    if (!ok) r = rs_std::unexpected<E>(std::in_place, v);
    check_res(r, ok, v);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == !ok, "one object lives");
    int rel = L.released;
    r = T(w);
    check_res(r, true, w);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == rel + 1, "the old one is released, of whichever side");
    r = T(v);
    check_res(r, true, v);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == rel + 2, "the old value is released");
    r = rs_std::unexpected<E>(std::in_place, w);
    check_res(r, false, w);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == rel + 3, "the old value is released");
    r = rs_std::unexpected<E>(std::in_place, x);
    check_res(r, false, x);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == rel + 4, "the old error is released");
    r = v;
    check_res(r, true, v);
    vp_check(L.objects == 1 && owned_total() == 1 && L.released == rel + 5, "the old error is released");
    if (ok) vp_must("from ok");
    if (!ok) vp_must("from error");
  }
  check_balanced();
  ledger_reset();
  {
    R r(std::in_place, v);
    if (!ok) r = rs_std::unexpected<E>(std::in_place, v);
    if (ok) {
      T out(std::move(r).value());
      vp_check(out.holds(v) && r.has_value(), "an rvalue gives up its value, not its state");
    } else {
      E out(std::move(r).error());
      vp_check(out.holds(v) && !r.has_value(), "an rvalue gives up its error, not its state");
    }
  }
  check_balanced();
  ledger_reset();
  {
    R r(std::in_place, v);
    if (!ok) r = rs_std::unexpected<E>(std::in_place, v);
    if (ok) {
      T out(*std::move(r));
      vp_check(out.holds(v), "an rvalue gives up its value");
    } else {
      E out(std::move(r).err());
      vp_check(out.holds(v), "an rvalue gives up its error");
    }
  }
  check_balanced();
  vp_must("end");
}
PROOF(result_moving) { result_states<Moving, Other<Moving>, false>(); }
PROOF(result_quiet) { result_states<QuietMoving, Other<QuietMoving>, false>(); }
PROOF(result_quiet_error) { result_states<Moving, Other<QuietMoving>, false>(); }
PROOF(result_relocating) { result_states<Relocating, Other<Copying>, false>(); }
PROOF(result_unassignable_ok) { result_states<Unassignable, Other<Moving>, false>(); }
PROOF(result_unassignable_error) { result_states<Moving, Other<Unassignable>, false>(); }
PROOF(result_niche) { result_states<Moving, Other<Moving>, true>(); }
PROOF(result_niche_unassignable) { result_states<Unassignable, Other<UnassignableReloc>, true>(); }
PROOF(result_scalar) {
  uint64_t v = vp_nd_u64();
  uint8_t e = vp_nd_u8();
  Res<uint64_t, uint8_t, false> r(v);
  vp_check(r.has_value() && *r == v, "ok");
  r = rs_std::unexpected<uint8_t>(e);
  vp_check(!r.has_value() && r.error() == e && r.err() == e, "error");
  *&r.error() = uint8_t(e + 1);
  vp_check(r.error() == uint8_t(e + 1), "the error can be changed");
  r = v;
  vp_check(r.has_value() && r.value() == v, "ok again");
  vp_must("end");
}
PROOF(result_unit) {
  uint32_t e = vp_nd_u32();
  Res<rs_std::unit_t, uint32_t, false> r(std::in_place);
  vp_check(r.has_value(), "ok");
  r = rs_std::unexpected<uint32_t>(e);
  vp_check(!r.has_value() && r.error() == e, "error");
  r = rs_std::unit;
  vp_check(r.has_value(), "ok again");
  vp_must("end");
}
template <bool want_ok, typename F>
static void result_bad_access(F f) {
  ledger_reset();
  bool ok = vp_nd_bool();
  uint32_t v = vp_nd_u32();
  Res<Moving, Other<Moving>, false> r(std::in_place, v);
  if (!ok) r = rs_std::unexpected<Other<Moving>>(std::in_place, v);
  vp_expect_abort(ok != want_ok);
  const bool good = f(r, v);
  vp_expect_abort(false);
  if (ok != want_ok) vp_never("accessing the side that is not there does not return");
  vp_check(good, "accessing the side that is there gives the object");
  vp_must("returned");
}
PROOF(result_access_value) { result_bad_access<true>([](auto& r, uint32_t v) { return r.value().holds(v); }); }
PROOF(result_access_value_const) { result_bad_access<true>([](const auto& r, uint32_t v) { return r.value().holds(v); }); }
PROOF(result_access_value_rvalue) { result_bad_access<true>([](auto& r, uint32_t v) { auto&& m = std::move(r).value(); return m.holds(v); }); }
PROOF(result_access_value_const_rvalue) { result_bad_access<true>([](const auto& r, uint32_t v) { auto&& m = std::move(r).value(); return m.holds(v); }); }
PROOF(result_access_star) { result_bad_access<true>([](auto& r, uint32_t v) { return (*r).holds(v); }); }
PROOF(result_access_star_const) { result_bad_access<true>([](const auto& r, uint32_t v) { return (*r).holds(v); }); }
PROOF(result_access_star_rvalue) { result_bad_access<true>([](auto& r, uint32_t v) { auto&& m = *std::move(r); return m.holds(v); }); }
PROOF(result_access_star_const_rvalue) { result_bad_access<true>([](const auto& r, uint32_t v) { auto&& m = *std::move(r); return m.holds(v); }); }
PROOF(result_access_arrow) { result_bad_access<true>([](auto& r, uint32_t v) { return r->holds(v); }); }
PROOF(result_access_arrow_const) { result_bad_access<true>([](const auto& r, uint32_t v) { return r->holds(v); }); }
PROOF(result_access_error) { result_bad_access<false>([](auto& r, uint32_t v) { return r.error().holds(v); }); }
PROOF(result_access_error_const) { result_bad_access<false>([](const auto& r, uint32_t v) { return r.error().holds(v); }); }
PROOF(result_access_error_rvalue) { result_bad_access<false>([](auto& r, uint32_t v) { auto&& m = std::move(r).error(); return m.holds(v); }); }
PROOF(result_access_error_const_rvalue) { result_bad_access<false>([](const auto& r, uint32_t v) { auto&& m = std::move(r).error(); return m.holds(v); }); }
PROOF(result_access_err) { result_bad_access<false>([](auto& r, uint32_t v) { return r.err().holds(v); }); }
PROOF(result_access_err_const) { result_bad_access<false>([](const auto& r, uint32_t v) { return r.err().holds(v); }); }
PROOF(result_access_err_rvalue) { result_bad_access<false>([](auto& r, uint32_t v) { auto&& m = std::move(r).err(); return m.holds(v); }); }
PROOF(result_access_err_const_rvalue) { result_bad_access<false>([](const auto& r, uint32_t v) { auto&& m = std::move(r).err(); return m.holds(v); }); }
