// The parts of abseil's contract that DynCallable relies on.
#ifndef VP_FAKE_ANY_INVOCABLE_
#define VP_FAKE_ANY_INVOCABLE_
#include <cstddef>
#include <type_traits>
namespace absl {
namespace internal_any_invocable {
enum class FunctionToCall : unsigned char { dispose, relocate_from_to, relocate_from_to_and_query_rust };
union TypeErasedState {
  struct { void* target; std::size_t size; } remote;
  alignas(std::max_align_t) unsigned char storage[2 * sizeof(void*)];
};
using ManagerType = void(FunctionToCall, TypeErasedState*, TypeErasedState*);
inline void EmptyManager(FunctionToCall, TypeErasedState*, TypeErasedState*) {}
template <class T>
using ForwardedParameterType = std::conditional_t<std::is_trivially_copyable_v<T> && sizeof(T) <= 16, T, T&&>;
}  // namespace internal_any_invocable
// Takes over the state; an invoker that is null means empty.
template <class Sig>
struct AnyInvocable {
  internal_any_invocable::TypeErasedState state;
  internal_any_invocable::ManagerType* manager;
  void (*invoker)();
  template <class I>
  AnyInvocable(internal_any_invocable::TypeErasedState* s, internal_any_invocable::ManagerType* m, I* i) : manager(m), invoker(reinterpret_cast<void (*)()>(i)) {
    m(internal_any_invocable::FunctionToCall::relocate_from_to, s, &state);
  }
  ~AnyInvocable() { manager(internal_any_invocable::FunctionToCall::dispose, &state, &state); }
};
}  // namespace absl
#endif
