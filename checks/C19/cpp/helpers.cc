// Contracts of the C++ functions that Rust's strings are made of.
#include "support/cc_std_impl/conversion_function_helpers.h"
#include "vp.h"
namespace h = crubit_cc_std_internal::conversion_function_helpers;
using std::string;
alignas(64) static unsigned char heap[sizeof(string)];
static int news, deletes;
static std::size_t asked;
void* operator new(std::size_t n) { news++; asked = n; return heap; }
void operator delete(void* p) noexcept { deletes++; vp_check(p == heap, "the string that was made is deleted"); }
void operator delete(void* p, std::size_t) noexcept { deletes++; vp_check(p == heap, "the string that was made is deleted"); }

alignas(64) static unsigned char room[sizeof(string)];
static char text[4];
static const string* is(const void* p) { return static_cast<const string*>(p); }
static void check(const void* p, int how, const void* from, std::size_t n) {
  vp_check(is(p)->me == p, "a living std::string");
  vp_check(is(p)->how == how && is(p)->from == from && is(p)->n == n, "made of what was given, as it was asked for");
}

PROOF(read) {
  std::size_t n = vp_any<std::size_t>();
  string s(text, n);
  int made = string::made;
  vp_check(h::StringGetSize(&s) == n && h::StringGetData(&s) == text && h::StringGetMutData(&s) == text, "size and data of the string");
  vp_check(h::SizeOfString() == sizeof(string) && string::made == made && string::live == 1, "without a copy");
  vp_must("read");
}
PROOF(equal) {
  string s, t;
  std::answer = vp_nd_bool();
  vp_check(h::StringEqual(&s, &t) == std::answer && ((std::lhs == &s && std::rhs == &t) || (std::lhs == &t && std::rhs == &s)), "strings are equal as C++ compares them");
  vp_check(string::live == 2 && string::made == 2, "without a copy");
  vp_must("compared");
}
PROOF(owned_from_buffer) {
  std::size_t n = vp_any<std::size_t>();
  void* p = h::StringCreateFromBuffer(text, n);
  vp_check(p == heap && news == 1 && asked == sizeof(string) && string::live == 1 && string::made == 1, "one new string");
  check(p, std::kBuffer, text, n);
  h::StringDelete(p);
  vp_check(string::live == 0 && deletes == 1 && news == 1, "destroyed and freed once");
  vp_must("deleted");
}
PROOF(owned_by_move) {
  std::size_t n = vp_any<std::size_t>();
  string s(text, n);
  void* p = h::StringMoveOwnedPtr(&s);
  vp_check(p == heap && news == 1 && string::live == 2 && string::made == 2 && s.n == 0, "one new string");
  check(p, std::kMove, &s, n);
  vp_must("moved");
}
PROOF(owned_by_copy) {
  std::size_t n = vp_any<std::size_t>();
  string s(text, n);
  void* p = h::StringCopyOwnedPtr(&s);
  vp_check(p == heap && news == 1 && string::live == 2 && string::made == 2 && s.n == n, "one new string, the old one as it was");
  check(p, std::kCopy, &s, n);
  vp_must("copied");
}
PROOF(in_place) {
  std::size_t n = vp_any<std::size_t>();
  string s(text, n);
  unsigned k = vp_nd_u8() & 3;
  if (k == 0) { h::StringCreateInPlace(room, &s); check(room, std::kMove, &s, n); vp_check(s.n == 0, "moved from"); }
  if (k == 1) { h::StringCreateDefaultInPlace(room); check(room, std::kDefault, nullptr, 0); }
  if (k == 2) { h::StringCreateFromBufferInPlace(room, text, n); check(room, std::kBuffer, text, n); }
  if (k == 3) { h::StringCreateCopyInPlace(room, &s); check(room, std::kCopy, &s, n); }
  vp_check(k == 0 || s.n == n, "the source is as it was");
  vp_check(news == 0 && string::live == 2 && string::made == 2, "one new string, where it was asked for");
  h::StringDestroyInPlace(room);
  vp_check(string::live == 1 && deletes == 0 && string::made == 2 && is(room)->me == nullptr && s.me == &s, "that string is destroyed, its memory is its owner's");
  vp_must("destroyed");
}
