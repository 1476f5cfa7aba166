// Harness interface for the C++ checks. Under the verifier these calls become
// assumptions, obligations and nondeterministic inputs; in a native replay they
// read the verifier's counterexample.
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t vp_nd_u8();
uint16_t vp_nd_u16();
uint32_t vp_nd_u32();
uint64_t vp_nd_u64();
void vp_assume(bool c);
void vp_check(bool c, const char* what);
void vp_must(const char* what);        // vacuity guard: control must be able to get here
void vp_never(const char* what);       // control must not get here
void vp_expect_abort(bool expected);   // from now on abort() is the specified outcome
uint64_t vp_live_allocs();             // heap blocks currently owned
}
inline bool vp_nd_bool() { return vp_nd_u8() & 1; }
template <typename T>
T vp_any() {
  static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
  if constexpr (sizeof(T) == 1) return static_cast<T>(vp_nd_u8());
  else if constexpr (sizeof(T) == 2) return static_cast<T>(vp_nd_u16());
  else if constexpr (sizeof(T) == 4) return static_cast<T>(vp_nd_u32());
  else return static_cast<T>(vp_nd_u64());
}
#define PROOF(name) extern "C" void h_##name()
// A bounded stand-in; the driver reports the bound given in the check file.
#define BOUNDED(name) extern "C" void hb_##name()
#endif
