// Contract of UTF-8 validation: a byte string becomes a StrRef exactly when it
// is well-formed UTF-8, and then denotes the same bytes.
#include <optional>
#include <string_view>

#include "vp.h"
#include "utf8_spec.h"
#include "support/rs_std/str_ref.h"

static std::string_view sv(const unsigned char* p, size_t n) {
  return std::string_view(reinterpret_cast<const char*>(p), n);
}
template <size_t N>
static void check_contract(const unsigned char (&b)[N], size_t n) {
  bool want = utf8_spec::valid(b, n);
  std::optional<rs_std::StrRef> r = rs_std::StrRef::FromUtf8(sv(b, n));
  vp_check(r.has_value() == want, "a StrRef is produced iff the bytes are valid UTF-8");
  if (r.has_value()) {
    vp_check(r->size() == n && r->len() == n && r->empty() == (n == 0), "the StrRef has the same length");
    std::string_view s = r->to_string_view();
    vp_check(s.size() == n && (n == 0 || s.data() == reinterpret_cast<const char*>(b)), "the StrRef denotes the same bytes");
    vp_must("accepted");
  } else {
    vp_must("rejected");
  }
}
// Every byte string of up to seven bytes.
BOUNDED(from_utf8_short) {
  constexpr size_t N = 7;
  unsigned char b[N];
  for (size_t i = 0; i < N; ++i) b[i] = vp_nd_u8();
  size_t n = vp_nd_u8();
  vp_assume(n <= N);
  check_contract(b, n);
}
// Longer strings: an arbitrary window of four bytes at an arbitrary place
// between bytes that all are one arbitrary ASCII character.
BOUNDED(from_utf8_window) {
  constexpr size_t N = 20;
  unsigned char b[N];
  unsigned char fill = vp_nd_u8() & 0x7F;
  for (size_t i = 0; i < N; ++i) b[i] = fill;
  size_t at = vp_nd_u8();
  vp_assume(at <= N - 4);
  for (size_t i = 0; i < 4; ++i) b[at + i] = vp_nd_u8();
  size_t n = vp_nd_u8();
  vp_assume(n <= N);
  check_contract(b, n);
}
// Strings without ASCII between: five two-byte characters, one of them replaced
// by arbitrary bytes.
BOUNDED(from_utf8_multibyte_run) {
  constexpr size_t N = 14;
  unsigned char b[N];
  for (size_t i = 0; i < N; i += 2) { b[i] = 0xC3; b[i + 1] = 0xA9; }
  size_t at = vp_nd_u8();
  vp_assume(at <= N - 4);
  for (size_t i = 0; i < 4; ++i) b[at + i] = vp_nd_u8();
  size_t n = vp_nd_u8();
  vp_assume(n <= N);
  check_contract(b, n);
}
