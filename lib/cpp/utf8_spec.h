// Independent specification of UTF-8 (RFC 3629 / Unicode D92), written as
// "decode the code point, then check its range", not as the byte-range table
// that the implementation uses.
#ifndef VP_UTF8_SPEC_H_
#define VP_UTF8_SPEC_H_
#include <cstddef>
#include <cstdint>
namespace utf8_spec {
// Length of the sequence a lead byte announces, 0 if it is no lead byte.
inline size_t lead_len(uint8_t b) {
  if ((b & 0x80) == 0) return 1;
  if ((b & 0xE0) == 0xC0) return 2;
  if ((b & 0xF0) == 0xE0) return 3;
  if ((b & 0xF8) == 0xF0) return 4;
  return 0;
}
inline bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
inline uint32_t min_for(size_t len) { return len == 1 ? 0 : len == 2 ? 0x80 : len == 3 ? 0x800 : 0x10000; }
// Length of the well-formed sequence that starts at p (avail bytes), 0 if none.
inline size_t well_formed(const unsigned char* p, size_t avail) {
  if (avail == 0) return 0;
  size_t n = lead_len(p[0]);
  if (n == 0 || n > avail) return 0;
  uint32_t c = n == 1 ? p[0] : p[0] & (0xFFu >> (n + 1));
  if (n >= 2) { if ((p[1] & 0xC0) != 0x80) return 0; c = (c << 6) | (p[1] & 0x3F); }
  if (n >= 3) { if ((p[2] & 0xC0) != 0x80) return 0; c = (c << 6) | (p[2] & 0x3F); }
  if (n >= 4) { if ((p[3] & 0xC0) != 0x80) return 0; c = (c << 6) | (p[3] & 0x3F); }
  if (c < min_for(n) || !scalar(c)) return 0;
  return n;
}
// The code point that the n bytes at p encode (n = 1..4).
inline uint32_t decode(const unsigned char* p, size_t n) {
  uint32_t c = n == 1 ? p[0] : p[0] & (0xFFu >> (n + 1));
  for (size_t i = 1; i < 4; ++i)
    if (i < n) c = (c << 6) | (p[i] & 0x3F);
  return c;
}
// valid(p, n): the recursive definition, evaluated from the back so that it
// needs no early exit: v[i] = "the suffix from i is valid".
template <size_t N>
inline bool valid(const unsigned char (&p)[N], size_t n) {
  bool v[N + 1];
  for (size_t k = 0; k <= N; ++k) {
    size_t i = N - k;
    if (i >= n) { v[i] = (i == n); continue; }
    size_t l = well_formed(p + i, n - i);
    v[i] = l != 0 && v[i + l];
  }
  return v[0];
}
}  // namespace utf8_spec
#endif
