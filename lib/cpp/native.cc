// Native replay runtime: feeds a verifier counterexample to the real code.
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "vp.h"
static std::vector<unsigned long long> vals;
static size_t pos = 0;
static bool expect_abort = false;
static unsigned long long nextv() { return pos < vals.size() ? vals[pos++] : 0; }
static long long live = 0;
extern "C" {
uint8_t vp_nd_u8() { return nextv(); }
uint16_t vp_nd_u16() { return nextv(); }
uint32_t vp_nd_u32() { return nextv(); }
uint64_t vp_nd_u64() { return nextv(); }
void vp_assume(bool c) { if (!c) { printf("REPLAY: assumption not met\n"); fflush(stdout); _Exit(0); } }
void vp_check(bool c, const char* what) {
  if (!c) { printf("REPLAY-VIOLATION: %s\n", what); fflush(stdout); _Exit(1); }
}
void vp_must(const char*) {}
void vp_never(const char* what) { vp_check(false, what); }
void vp_expect_abort(bool e) { expect_abort = e; }
uint64_t vp_live_allocs() { return live; }
void abort() {
  if (!expect_abort) { printf("REPLAY-VIOLATION: the program does not abort\n"); fflush(stdout); _Exit(1); }
  _Exit(0);
}
void VP_HARNESS();
}
void* operator new(size_t n) { live++; return malloc(n); }
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
int main(int argc, char** argv) {
  {
    FILE* f = fopen(argv[1], "r");
    unsigned long long v;
    while (f && fscanf(f, "%llu", &v) == 1) vals.push_back(v);
    if (f) fclose(f);
  }
  live = 0;
  VP_HARNESS();
  printf("REPLAY: completed without a violation\n");
  fflush(stdout);
  _Exit(0);
}
