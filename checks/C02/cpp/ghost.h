/* Ghost state for the unbounded proof.
   vp_base/vp_len: the byte string under validation.
   VP_G(i): "the suffix that starts at byte i is valid UTF-8", an uninterpreted
   function whose only properties are instances of its recursive definition
   (vp_unfold), which are assumed at the positions the loops reach. */
static PTR vp_base; static uint64_t vp_len;
uint8_t __CPROVER_uninterpreted_suffix_valid(uint64_t);
static _Bool VP_G(uint64_t i) { uint8_t g = __CPROVER_uninterpreted_suffix_valid(i); return (g & 1) != 0; }
static uint64_t vp_lead(uint8_t b) { return (b & 0x80) == 0 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0; }
static uint64_t vp_wf(uint64_t i) {
  uint64_t n = vp_lead(vp_base[i]);
  if (n == 0 || n > vp_len - i) return 0;
  uint32_t c = n == 1 ? vp_base[i] : vp_base[i] & (0xFFu >> (n + 1));
  if (n >= 2) { if ((vp_base[i + 1] & 0xC0) != 0x80) return 0; c = (c << 6) | (vp_base[i + 1] & 0x3F); }
  if (n >= 3) { if ((vp_base[i + 2] & 0xC0) != 0x80) return 0; c = (c << 6) | (vp_base[i + 2] & 0x3F); }
  if (n >= 4) { if ((vp_base[i + 3] & 0xC0) != 0x80) return 0; c = (c << 6) | (vp_base[i + 3] & 0x3F); }
  if (c < (n == 1 ? 0u : n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u)) return 0;
  if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return 0;
  return n;
}
static void vp_unfold(uint64_t i) {
  if (i >= vp_len) { _Bool here = VP_G(i); __CPROVER_assume(i != vp_len || here); return; }
  uint64_t n = vp_wf(i);
  _Bool here = VP_G(i), rest = VP_G(i + n);
  __CPROVER_assume(here == (n != 0 ? rest : 0));
}
/* the loop invariant: the whole is valid iff the rest from i is */
static _Bool VP_INV(uint64_t i) { _Bool whole = VP_G(0), rest = VP_G(i); return i <= vp_len && whole == rest; }
void x_vp_ghost_region(PTR p, uint64_t n) { vp_base = p; vp_len = n; vp_unfold(0); }
_Bool x_vp_ghost_at(uint64_t i) { return VP_G(i); }
