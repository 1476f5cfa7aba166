// The same contract for byte strings of any length (see ghost.h).
#include <optional>
#include <string_view>

#include "vp.h"
#include "support/rs_std/str_ref.h"

extern "C" void vp_ghost_region(const unsigned char* p, uint64_t n);
extern "C" bool vp_ghost_at(uint64_t i);  // "the suffix from i is valid UTF-8"

extern "C" void hu_from_utf8_any_length() {
  uint64_t n = vp_nd_u64();
  vp_assume(n <= (uint64_t{1} << 46));
  unsigned char* b = new unsigned char[n];
  vp_ghost_region(b, n);
  std::optional<rs_std::StrRef> r = rs_std::StrRef::FromUtf8(std::string_view(reinterpret_cast<char*>(b), n));
  vp_check(r.has_value() == vp_ghost_at(0), "a StrRef is produced iff the bytes are valid UTF-8");
  if (r.has_value()) {
    vp_check(r->size() == n && r->len() == n && r->empty() == (n == 0), "the StrRef has the same length");
    std::string_view s = r->to_string_view();
    vp_check(s.size() == n && (n == 0 || s.data() == reinterpret_cast<char*>(b)), "the StrRef denotes the same bytes");
    if (n > 100) vp_must("long strings are accepted");
  } else {
    if (n > 100) vp_must("long strings are rejected");
  }
}
