// Contracts of the C++ side of cc_std's allocator and control blocks.
#include "support/cc_std_impl/std_allocator.h"
#include "vp.h"
#include <cstddef>
#include <new>

struct Call { int kind; std::size_t n, align; void* p; };  // kind: 1 plain, 2 aligned
static Call news, deletes;
static int made, freed;
alignas(64) static unsigned char heap[64];
void* operator new(std::size_t n) { news = {1, n, 0, nullptr}; made++; return heap; }
void* operator new(std::size_t n, std::align_val_t a) { news = {2, n, static_cast<std::size_t>(a), nullptr}; made++; return heap; }
void operator delete(void* p) noexcept { deletes = {1, ~std::size_t{0}, 0, p}; freed++; }
void operator delete(void* p, std::size_t n) noexcept { deletes = {1, n, 0, p}; freed++; }
void operator delete(void* p, std::align_val_t a) noexcept { deletes = {2, ~std::size_t{0}, static_cast<std::size_t>(a), p}; freed++; }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { deletes = {2, n, static_cast<std::size_t>(a), p}; freed++; }

namespace a = crubit_cc_std_internal::std_allocator;

static std::size_t any_align() {
  unsigned k = vp_nd_u8();
  vp_assume(k < 32);
  return std::size_t{1} << k;
}

PROOF(allocate) {
  std::size_t n = vp_any<std::size_t>(), al = any_align();
  void* p = a::cpp_new(n, al);
  vp_check(made == 1 && freed == 0 && p == heap, "one call of operator new, whose block is the result");
  vp_check(news.n == n, "with the size that was asked for");
  vp_check(al <= __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? news.kind == 1 : news.kind == 2 && news.align == al, "with the alignment that was asked for, as new-expressions choose the overload");
  vp_must("allocated");
}
PROOF(deallocate) {
  std::size_t n = vp_any<std::size_t>(), al = any_align();
  a::cpp_delete(heap, n, al);
  vp_check(freed == 1 && made == 0 && deletes.p == heap, "one call of operator delete, for that block");
#ifdef __cpp_sized_deallocation
  vp_check(deletes.n == n, "with the block's size");
#endif
  vp_check(al <= __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? deletes.kind == 1 : deletes.kind == 2 && deletes.align == al, "and the overload that matches its operator new");
  vp_must("freed");
}

static int calls;
static a::FunctionToCall asked[2];
static a::DynControlBlock* asked_of;
extern "C" void __crubit_invoke_dyn_control_block_deleter(a::FunctionToCall f, a::DynControlBlock* c) {
  vp_check(calls < 2, "the deleter is called once for each of its two tasks");
  if (calls < 2) asked[calls] = f;
  calls++;
  vp_check(asked_of == nullptr || asked_of == c, "for this control block");
  asked_of = c;
}
static void deleter(a::FunctionToCall, a::DynControlBlock*) {}

alignas(16) static unsigned char room[sizeof(a::DynControlBlock) + 16];
static a::DynControlBlock* at() { return reinterpret_cast<a::DynControlBlock*>(room); }
static std::__shared_weak_count* counts() { return (std::__shared_weak_count*)at(); }

PROOF(emplace) {
  a::shared_weak_count* c = a::DynControlBlock::Emplace(at(), deleter);
  vp_check((void*)c == (void*)room && made == 0, "the control block is made where it was asked for");
  vp_check(at()->deleter == deleter, "it has its deleter");
  vp_check(a::shared_ptr_use_count(c) == 1 && counts()->weak == 0, "and one owner");
  a::shared_ptr_unref(c);
  vp_check(calls == 2 && asked_of == at() && asked[0] == a::FunctionToCall::kDestroyValue && asked[1] == a::FunctionToCall::kDeleteControlBlock,
           "the last owner destroys the value, and then the control block");
  vp_must("emplaced");
}
PROOF(owners) {
  a::shared_weak_count* c = a::DynControlBlock::Emplace(at(), deleter);
  long n = vp_any<std::uint32_t>();
  counts()->owners = n;
  long w = vp_any<std::uint32_t>();
  counts()->weak = w;
  vp_check(a::shared_ptr_use_count(c) == static_cast<std::size_t>(n) + 1, "use_count is the number of owners");
  a::shared_ptr_ref(c);
  vp_check(counts()->owners == n + 1 && counts()->weak == w && calls == 0, "a reference is one owner more");
  a::shared_ptr_unref(c);
  vp_check(counts()->owners == n && counts()->weak == w && calls == 0, "and gives it up again");
  a::shared_ptr_unref(c);
  if (n > 0) vp_check(counts()->owners == n - 1 && counts()->weak == w && calls == 0, "nothing happens while there are owners");
  else if (w > 0) { vp_check(calls == 1 && asked[0] == a::FunctionToCall::kDestroyValue, "the last owner destroys the value"); vp_must("watched"); }
  else { vp_check(calls == 2 && asked[0] == a::FunctionToCall::kDestroyValue && asked[1] == a::FunctionToCall::kDeleteControlBlock, "and the control block if nobody watches"); vp_must("last"); }
}
PROOF(weak) {
  a::DynControlBlock::Emplace(at(), deleter);
  counts()->weak = 0;
  counts()->owners = -1;
  counts()->__release_weak();
  vp_check(calls == 1 && asked[0] == a::FunctionToCall::kDeleteControlBlock && asked_of == at(), "the last watcher frees the control block");
  vp_must("freed");
}
PROOF(null) {
  a::shared_ptr_ref(nullptr);
  a::shared_ptr_unref(nullptr);
  vp_check(a::shared_ptr_use_count(nullptr) == 0, "a null pointer has no owners");
  vp_must("null");
}
