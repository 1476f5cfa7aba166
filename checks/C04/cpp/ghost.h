/* Ghost state for comparisons of any length: memcmp is replaced by its contract.
   vp_order(a, b, n): the sign of the lexicographic comparison of two byte strings of
   length n, an uninterpreted function; assumed about it: it is -1, 0 or 1, 0 when n is
   0, and exchanging the strings negates it. memcmp returns some number of that sign. */
#define VP_GHOST_MEMCMP
uint8_t __CPROVER_uninterpreted_order(uint64_t, uint64_t, uint64_t);
uint32_t __VERIFIER_nondet_uint(void);
static int32_t vp_order(PTR a, PTR b, uint64_t n) {
  uint8_t x = __CPROVER_uninterpreted_order((uint64_t)a, (uint64_t)b, n);
  uint8_t y = __CPROVER_uninterpreted_order((uint64_t)b, (uint64_t)a, n);
  __CPROVER_assume(x <= 2 && y == 2 - x);
  if (n == 0) __CPROVER_assume(x == 1);
  return (int32_t)x - 1;
}
uint32_t vp_ghost_memcmp(PTR a, PTR b, uint64_t n) {
  int32_t want = vp_order(a, b, n);
  int32_t r = (int32_t)__VERIFIER_nondet_uint();
  __CPROVER_assume((r < 0) == (want < 0) && (r > 0) == (want > 0));
  return (uint32_t)r;
}
uint32_t x_vp_ghost_order(PTR a, PTR b, uint64_t n) { return (uint32_t)vp_order(a, b, n); }
