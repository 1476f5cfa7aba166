/* Models of the few external functions the verified code may call. */
#include <stdlib.h>
uint8_t __VERIFIER_nondet_uchar(void);
uint16_t __VERIFIER_nondet_ushort(void);
uint32_t __VERIFIER_nondet_uint(void);
uint64_t __VERIFIER_nondet_ulong(void);
uint8_t x_vp_nd_u8(void) { uint8_t vp_in = __VERIFIER_nondet_uchar(); __CPROVER_input("u8", vp_in); return vp_in; }
uint16_t x_vp_nd_u16(void) { uint16_t vp_in = __VERIFIER_nondet_ushort(); __CPROVER_input("u16", vp_in); return vp_in; }
uint32_t x_vp_nd_u32(void) { uint32_t vp_in = __VERIFIER_nondet_uint(); __CPROVER_input("u32", vp_in); return vp_in; }
uint64_t x_vp_nd_u64(void) { uint64_t vp_in = __VERIFIER_nondet_ulong(); __CPROVER_input("u64", vp_in); return vp_in; }
void x_vp_assume(_Bool c) { __CPROVER_assume(c); }
static _Bool vp_abort_expected = 0;
void x_vp_expect_abort(_Bool e) { vp_abort_expected = e; }
static void vp_stop(void) {
  if (!vp_abort_expected) __CPROVER_assert(0, "the program does not abort");
  __CPROVER_assume(0);
}
void x_abort(void) { vp_stop(); }
void x__ZSt9terminatev(void) { vp_stop(); }
static uint64_t vp_live = 0;
uint64_t x_vp_live_allocs(void) { return vp_live; }
static PTR vp_new(uint64_t n) { PTR p = malloc(n); __CPROVER_assume(p != 0); vp_live++; return p; }
static void vp_delete(PTR p) { if (p) { vp_live--; free(p); } }
PTR x__Znwm(uint64_t n) { return vp_new(n); }
PTR x__Znam(uint64_t n) { return vp_new(n); }
PTR x__ZnwmSt11align_val_t(uint64_t n, uint64_t a) { return vp_new(n); }
PTR x__ZnamSt11align_val_t(uint64_t n, uint64_t a) { return vp_new(n); }
void x__ZdlPv(PTR p) { vp_delete(p); }
void x__ZdlPvm(PTR p, uint64_t n) { vp_delete(p); }
void x__ZdaPv(PTR p) { vp_delete(p); }
void x__ZdaPvm(PTR p, uint64_t n) { vp_delete(p); }
void x__ZdlPvSt11align_val_t(PTR p, uint64_t a) { vp_delete(p); }
void x__ZdlPvmSt11align_val_t(PTR p, uint64_t n, uint64_t a) { vp_delete(p); }
void vp_memcpy(PTR d, PTR s, uint64_t n) { for (uint64_t i = 0; i < n; i++) d[i] = s[i]; }
void vp_memmove(PTR d, PTR s, uint64_t n) {
  if ((uint64_t)d < (uint64_t)s) { for (uint64_t i = 0; i < n; i++) d[i] = s[i]; }
  else { for (uint64_t i = n; i > 0; i--) d[i - 1] = s[i - 1]; }
}
void vp_memset(PTR d, uint8_t c, uint64_t n) { for (uint64_t i = 0; i < n; i++) d[i] = c; }
PTR x_memcpy(PTR d, PTR s, uint64_t n) { vp_memcpy(d, s, n); return d; }
PTR x_memmove(PTR d, PTR s, uint64_t n) { vp_memmove(d, s, n); return d; }
PTR x_memset(PTR d, uint32_t c, uint64_t n) { vp_memset(d, (uint8_t)c, n); return d; }
#ifdef VP_GHOST_MEMCMP
uint32_t x_memcmp(PTR a, PTR b, uint64_t n) { return vp_ghost_memcmp(a, b, n); }
#else
uint32_t x_memcmp(PTR a, PTR b, uint64_t n) {
  for (uint64_t i = 0; i < n; i++)
    if (a[i] != b[i]) return a[i] < b[i] ? (uint32_t)-1 : 1u;
  return 0;
}
#endif
uint32_t x_bcmp(PTR a, PTR b, uint64_t n) { return x_memcmp(a, b, n); }
uint64_t x_strlen(PTR a) { uint64_t n = 0; while (a[n]) n++; return n; }
uint32_t x_fprintf(PTR f, PTR m) { return 0; }
uint32_t x_printf(PTR m) { return 0; }
uint32_t x_fputs(PTR m, PTR f) { return 0; }
uint32_t x_puts(PTR m) { return 0; }
uint32_t x_fflush(PTR f) { return 0; }
uint32_t x___cxa_guard_acquire(PTR g) { if (*g) return 0; return 1; }
void x___cxa_guard_release(PTR g) { *g = 1; }
uint32_t x___cxa_atexit(PTR f, PTR a, PTR d) { return 0; }
