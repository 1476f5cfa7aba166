// Contract of rs_std::char_: it holds exactly the Unicode scalar values and
// encodes them as UTF-8.
#include <compare>
#include <optional>
#include <span>
#include <string_view>

#include "vp.h"
#include "utf8_spec.h"
#include "support/rs_std/char.h"
#include "support/rs_std/char.cc"

using rs_std::char_;

static bool scalar(uint32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }
static size_t utf8_len(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static char_ any_char(uint32_t* code) {
  uint32_t c = vp_nd_u32();
  vp_assume(scalar(c));
  std::optional<char_> r = char_::from_u32(c);
  vp_assume(r.has_value());
  *code = c;
  return *r;
}

PROOF(from_u32_accepts_exactly_scalar_values) {
  uint32_t c = vp_nd_u32();
  std::optional<char_> r = char_::from_u32(c);
  vp_check(r.has_value() == scalar(c), "from_u32 yields a character iff the number is a Unicode scalar value");
  if (r.has_value()) {
    vp_check(static_cast<uint32_t>(*r) == c, "the character has the code point it was made from");
    vp_must("valid");
  } else {
    vp_must("invalid");
  }
}
PROOF(default_max_and_literals) {
  vp_check(static_cast<uint32_t>(char_()) == 0, "the default character is NUL");
  vp_check(static_cast<uint32_t>(char_::MAX) == 0x10FFFF, "MAX is U+10FFFF");
  constexpr char_ a = 'z';
  constexpr char_ b = u'\u20AC';
  constexpr char_ c = U'\U0001F980';
  constexpr char_ d = U'\U0010FFFF';
  constexpr char_ e = u'\uD7FF';
  constexpr char_ f = u'\uE000';
  constexpr char_ g = u8'~';
  vp_check(static_cast<uint32_t>(a) == 'z' && static_cast<uint32_t>(b) == 0x20AC && static_cast<uint32_t>(c) == 0x1F980 &&
               static_cast<uint32_t>(d) == 0x10FFFF && static_cast<uint32_t>(e) == 0xD7FF && static_cast<uint32_t>(f) == 0xE000 &&
               static_cast<uint32_t>(g) == '~', "literals keep their code point");
  static_assert(sizeof(char_) == 4 && alignof(char_) == 4, "layout of Rust's char");
  vp_must("end");
}
PROOF(len_utf8) {
  uint32_t c;
  char_ ch = any_char(&c);
  vp_check(ch.len_utf8() == utf8_len(c), "len_utf8 is the length of the UTF-8 encoding");
  vp_must("end");
}
PROOF(encode_utf8) {
  uint32_t c;
  char_ ch = any_char(&c);
  uint8_t buf[6], old[6];
  for (int i = 0; i < 6; ++i) old[i] = buf[i] = vp_nd_u8();
  size_t cap = vp_nd_u8();
  vp_assume(cap <= 6);
  size_t n = utf8_len(c);
  vp_expect_abort(cap < n);
  rs_std::StrRef s = ch.encode_utf8(std::span<uint8_t>(buf, cap));
  vp_expect_abort(false);
  if (cap < n) { vp_never("encode_utf8 does not return when the buffer is too small"); return; }
  vp_check(s.size() == n && s.data() == reinterpret_cast<const char*>(buf), "the result denotes the encoded bytes in the buffer");
  uint8_t want[4];
  if (n == 1) { want[0] = c; }
  else if (n == 2) { want[0] = 0xC0 + (c / 64); want[1] = 0x80 + c % 64; }
  else if (n == 3) { want[0] = 0xE0 + c / 4096; want[1] = 0x80 + c / 64 % 64; want[2] = 0x80 + c % 64; }
  else { want[0] = 0xF0 + c / 262144; want[1] = 0x80 + c / 4096 % 64; want[2] = 0x80 + c / 64 % 64; want[3] = 0x80 + c % 64; }
  for (size_t i = 0; i < n; ++i) vp_check(buf[i] == want[i], "the bytes are the UTF-8 encoding of the character");
  for (size_t i = n; i < 6; ++i) vp_check(buf[i] == old[i], "bytes beyond the encoding are left alone");
  vp_must("encoded");
  if (n == 4 && cap == 4) vp_must("exact fit");
}
struct Sink {
  std::string_view got;
  char copy[8];
  int calls = 0;
  void Append(std::string_view s) {
    ++calls;
    got = s;
    for (size_t i = 0; i < s.size() && i < 8; ++i) copy[i] = s[i];
  }
};
PROOF(stringify) {
  uint32_t c;
  char_ ch = any_char(&c);
  Sink sink;
  AbslStringify(sink, ch);
  vp_check(sink.calls == 1 && sink.got.size() == utf8_len(c), "stringification appends the encoding once");
  uint8_t b[4];
  for (size_t i = 0; i < 4; ++i) b[i] = i < sink.got.size() ? static_cast<uint8_t>(sink.copy[i]) : 0;
  vp_check(utf8_spec::decode(b, sink.got.size()) == c, "stringification appends the UTF-8 encoding of the character");
  vp_must("end");
}
PROOF(comparison_is_by_code_point) {
  uint32_t a, b;
  char_ x = any_char(&a), y = any_char(&b);
  vp_check((x == y) == (a == b) && (x != y) == (a != b), "equality is equality of code points");
  vp_check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "order is the order of code points");
  char_ z = x;
  z = y;
  vp_check(static_cast<uint32_t>(z) == b && static_cast<uint32_t>(x) == a, "copies keep the code point");
  vp_must("end");
}
