// The contract of libc++'s control block: counts start at one owner, stored
// minus one; the last owner goes with __on_zero_shared, then gives up the
// owners' weak reference, and the last of those goes with __on_zero_shared_weak.
#ifndef VP_FAKE_SHARED_COUNT_
#define VP_FAKE_SHARED_COUNT_
namespace std {
class __shared_weak_count {
 public:
  long owners, weak;
  explicit __shared_weak_count(long refs = 0) noexcept : owners(refs), weak(refs) {}
  virtual void __on_zero_shared() noexcept = 0;
  virtual void __on_zero_shared_weak() noexcept = 0;
  void __add_shared() noexcept { ++owners; }
  void __add_weak() noexcept { ++weak; }
  void __release_weak() noexcept { if (weak-- == 0) __on_zero_shared_weak(); }
  void __release_shared() noexcept { if (owners-- == 0) { __on_zero_shared(); __release_weak(); } }
  long use_count() const noexcept { return owners + 1; }
 protected:
  ~__shared_weak_count() {}
};
}  // namespace std
#endif
