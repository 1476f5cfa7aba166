From dd11335811c05d5c3bec93e656517c5c2824185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 01/18] fix: make PairAbi::Decode compile (std::pair is not an
 aggregate)

std::pair has no designated initializers, so any use of PairAbi::Decode
failed to compile. Braced initialization keeps the left-to-right order of
the two reads.
---
 support/bridge.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..babbe33 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -296,9 +296,10 @@ struct PairAbi {
     std::move(abis.second).Encode(std::move(value.second), encoder);
   }
   Value Decode(Decoder& decoder) && {
-    return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+    // Braced initialization evaluates its operands in order.
+    return Value{
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From ff7f8c6cddec4be7c866226fdf12d77b2d1b650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 02/18] fix: make the mixed SliceRef comparisons compile

EqualImpl takes SliceRef<const T>, from which T cannot be deduced when an
argument is a mutable slice or a container, so every advertised comparison
except const-slice == const-slice failed to compile.
---
 support/rs_std/slice_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/support/rs_std/slice_ref.h b/support/rs_std/slice_ref.h
index 7e2b5b7..dd9d2e3 100644
--- a/support/rs_std/slice_ref.h
+++ b/support/rs_std/slice_ref.h
@@ -180,25 +180,25 @@ constexpr bool EqualImpl(SliceRef<const T> a, SliceRef<const T> b) {
 
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<const T> a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T>
 constexpr bool operator==(SliceRef<T> a, SliceRef<const T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(const U& a, SliceRef<T> b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 template <typename T, typename U>
   requires(std::convertible_to<U, SliceRef<const T>>)
 constexpr bool operator==(SliceRef<T> a, const U& b) {
-  return internal::EqualImpl(a, b);
+  return internal::EqualImpl<std::remove_const_t<T>>(a, b);
 }
 
 template <typename T>
-- 
2.43.0


From 8b2986afb20393a94a95ff53900b5c9f57622206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 03/18] fix: construct, do not assign, the uninitialized value
 in Slot's move constructor

---
 support/internal/slot.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..767b6c5 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -105,7 +105,7 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
 
   // Does not destroy the contained value.
   //
@@ -149,7 +149,7 @@ class Slot<std::array<UT, S>> {
     if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
       memcpy(value_.data(), x.data(), sizeof(UT) * S);
     } else {
-      value_ = std::move(x);
+      std::construct_at(&value_, std::move(x));
     }
   }
   T* Get() { return &value_; }
@@ -163,7 +163,7 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) : value_(std::move(other.value_)) {}
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From 4f866c006bd603a99b8e895575d970cf7832302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 04/18] fix: move, do not relocate, movable array elements into
 a Slot

Slot's constructor from a std::array relocated the elements out of its
argument, whose owner still destroys them: a double destruction.
---
 support/internal/slot.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 767b6c5..d7905b3 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -10,6 +10,7 @@
 #include <array>
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace crubit {
@@ -146,10 +147,13 @@ class Slot<std::array<UT, S>> {
   using T = std::array<UT, S>;
   Slot() {}
   explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
-    } else {
+    // The caller destroys `x`, so its elements must be left in a moved-from
+    // state whenever they have one. Only elements which can't be moved are
+    // relocated.
+    if constexpr (std::is_move_constructible_v<UT>) {
       std::construct_at(&value_, std::move(x));
+    } else {
+      memcpy(value_.data(), x.data(), sizeof(UT) * S);
     }
   }
   T* Get() { return &value_; }
-- 
2.43.0


From ebb83f3abbb790f23179589eb092f5ad7c8d92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 05/18] fix: drop the constructed value when a ctor_then
 continuation fails

CtorThen constructed *dest and then returned the continuation's error, after
which callers treat dest as uninitialized: the pinned value's memory was freed
without its destructor running.
---
 support/ctor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..1a4861a 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -314,8 +314,12 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
         unsafe {
             self.ctor.ctor(dest)?;
         }
-        let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        // If `f` fails or panics, `*dest` must be dropped: the caller will treat `dest` as
+        // uninitialized, and would otherwise free the memory of a pinned value without dropping it.
+        let guard = macro_internal::UnsafeDropGuard(dest);
+        (self.f)(unsafe { Pin::new_unchecked(&mut *dest) })?;
+        core::mem::forget(guard);
+        Ok(())
     }
 }
 
@@ -1247,8 +1251,8 @@ pub mod macro_internal {
     /// Safety: this will drop the pointer, so this is only safe if no other
     /// code will access the pointer afterwards. This includes drop: the
     /// pointer must itself be in a ManuallyDrop.
-    pub struct UnsafeDropGuard<T>(*mut T);
-    impl<T> Drop for UnsafeDropGuard<T> {
+    pub struct UnsafeDropGuard<T: ?Sized>(pub(crate) *mut T);
+    impl<T: ?Sized> Drop for UnsafeDropGuard<T> {
         fn drop(&mut self) {
             unsafe { core::ptr::drop_in_place(self.0) };
         }
-- 
2.43.0


From a3a950affc3f2517f9a02ace2943ee42510ed78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 06/18] fix: do not drop a slot's value twice if its destructor
 panics

Slot::clear marked the slot as empty only after drop_in_place returned, so a
panicking destructor was run again when the slot itself was dropped.
---
 support/ctor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index 1a4861a..f440600 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1111,10 +1111,11 @@ impl<T> Slot<T> {
     pub fn clear(self: Pin<&mut Self>) {
         if self.is_initialized {
             let Self { is_initialized, maybe_uninit } = unsafe { Pin::into_inner_unchecked(self) };
+            // Clear the flag first: if the destructor panics, the value must not be dropped again.
+            *is_initialized = false;
             unsafe {
                 core::ptr::drop_in_place(maybe_uninit.as_mut_ptr());
             }
-            *is_initialized = false;
         }
     }
 
-- 
2.43.0


From c183ad43b9892a4775981a7526f400e26fdcbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 07/18] fix: tell an empty interned slice from the one stored
 at its address

---
 common/interner.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/interner.rs b/common/interner.rs
index 0ad052c..f5f859c 100644
--- a/common/interner.rs
+++ b/common/interner.rs
@@ -29,9 +29,11 @@ impl<'arena, T: ?Sized + 'arena> Interned<'arena, T> {
         self.0
     }
 
+    /// The pointer of a slice includes its length, which is compared as well: an empty slice may be
+    /// stored at the address of another one.
     #[inline(always)]
-    fn ptr(&self) -> *const () {
-        self.0 as *const T as *const ()
+    fn ptr(&self) -> *const T {
+        self.0
     }
 }
 
@@ -50,7 +52,7 @@ impl<'arena, T: ?Sized + 'arena> std::ops::Deref for Interned<'arena, T> {
 
 impl<T: ?Sized> PartialEq for Interned<'_, T> {
     fn eq(&self, other: &Self) -> bool {
-        self.ptr() == other.ptr()
+        std::ptr::eq(self.ptr(), other.ptr())
     }
 }
 
@@ -63,6 +65,7 @@ impl<T: ?Sized> std::cmp::PartialOrd for Interned<'_, T> {
 }
 
 impl<T: ?Sized> std::cmp::Ord for Interned<'_, T> {
+    #[allow(ambiguous_wide_pointer_comparisons)]
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
         self.ptr().cmp(&other.ptr())
     }
-- 
2.43.0


From 241360e5d7f19d80dbe2169ed607ad4605d70a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 08/18] fix: do not reuse the memoization tables of another
 database after 256 databases

---
 common/memoized.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 9860ebf..33f88d4 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -205,7 +205,7 @@ macro_rules! query_group {
     // The database struct, which contains the lookup tables.
     $vis struct $database_struct $(<$($type_param),*>)? {
       pub __unwinding_cycles: ::core::cell::Cell<u32>,
-      pub __db_index: u8,
+      pub __db_index: usize,
       $(
         $input_function: $input_type,
       )*
@@ -346,7 +346,7 @@ macro_rules! memoized {
     }
     $vis fn $memoized_ident(db: $db_type, $($arg: $arg_type),*) -> $return_type {
       $memoized_ident::TABLES.with(|tables| {
-        let db_index = db.__db_index as usize;
+        let db_index = db.__db_index;
         if tables.borrow().len() <= db_index {
           tables.borrow_mut().resize_with(db_index + 1, Default::default);
         }
@@ -453,8 +453,8 @@ pub mod internal {
         }
     }
 
-    pub fn db_index() -> u8 {
-        static DB_INDEX: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
+    pub fn db_index() -> usize {
+        static DB_INDEX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
         DB_INDEX.fetch_add(1, std::sync::atomic::Ordering::AcqRel)
     }
 }
-- 
2.43.0


From 962cf41ea10595b5a7350793ac5dc1d2db0d4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 09/18] fix: shared_ptr::from_ptr_and_deleter does not make a
 reference from a null pointer

---
 support/cc_std_impl/shared_ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/support/cc_std_impl/shared_ptr.rs b/support/cc_std_impl/shared_ptr.rs
index 27b726a..8049bf7 100644
--- a/support/cc_std_impl/shared_ptr.rs
+++ b/support/cc_std_impl/shared_ptr.rs
@@ -221,8 +221,10 @@ impl<T: Sized> shared_ptr<T> {
         let delete_on_drop =
             shared_ptr::new(DeleteOnDrop { ptr, deleter: MaybeUninit::new(deleter) });
 
-        // SAFETY: We only project away the deleter FnOnce object, which we guaranteed was 'static.
-        unsafe { shared_ptr::project_unchecked(delete_on_drop, |d| &*d.ptr) }
+        // This does not use `project_unchecked`, because `ptr` may be null. We only project away the
+        // deleter FnOnce object, which we guaranteed was 'static.
+        let (_, cntrl) = shared_ptr::into_raw_parts(delete_on_drop);
+        shared_ptr { ptr, cntrl }
     }
 
     /// Creates a `shared_ptr` from a raw pointer and a control block pointer.
-- 
2.43.0


From 72bdfb6a5916de87f5fbb1da9969704e1abd097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 10/18] fix: vector gives up its elements while it runs code
 that may panic

---
 support/cc_std_impl/vector.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/support/cc_std_impl/vector.rs b/support/cc_std_impl/vector.rs
index 89047e9..ede5e38 100644
--- a/support/cc_std_impl/vector.rs
+++ b/support/cc_std_impl/vector.rs
@@ -297,18 +297,17 @@ impl<T: Unpin> vector<T> {
     where
         F: FnOnce(&mut Vec<T, cpp_std_allocator::StdAllocator>) -> R,
     {
-        unsafe {
-            self.asan_unpoison_tail();
-            let mut v = ManuallyDrop::new(create_vec_from_raw_parts(
-                self.begin as *mut _,
-                self.len(),
-                self.capacity(),
-            ));
-            let result = mutate_self(v.deref_mut());
-            self.set_begin_len_capacity(v.as_mut_ptr(), v.len(), v.capacity());
-            self.asan_poison_tail();
-            result
-        }
+        self.asan_unpoison_tail();
+        // `mutate_self` may run code of the caller, and that may panic. Only `v` owns the
+        // elements while it runs, so that `self`, which is empty, can be dropped.
+        let taken = ManuallyDrop::new(core::mem::take(self));
+        // SAFETY: the elements and their memory were owned by `self`, and `taken` is not dropped.
+        let mut v = unsafe {
+            create_vec_from_raw_parts(taken.begin as *mut _, taken.len(), taken.capacity())
+        };
+        let result = mutate_self(&mut v);
+        *self = vector::from(v);
+        result
     }
 
     // Methods for changing the capacity of the vector.
-- 
2.43.0


From 69e439c8aff083eeadd16cc93f2776dbf11e6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 11/18] fix: new_string destroys its std::string when it is
 dropped

---
 support/cc_std_impl/string.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/support/cc_std_impl/string.rs b/support/cc_std_impl/string.rs
index 9939040..0cddfaf 100644
--- a/support/cc_std_impl/string.rs
+++ b/support/cc_std_impl/string.rs
@@ -387,6 +387,14 @@ unsafe impl Send for new_string {}
 // SAFETY: the string is owned, and mutation is only allowed via `Pin<&mut Self>`.
 unsafe impl Sync for new_string {}
 
+impl Drop for new_string {
+    fn drop(&mut self) {
+        // SAFETY: `new_string` is `!Unpin` and only ever constructed pinned, and it is not used again
+        // after it is dropped.
+        unsafe { PinnedDrop::pinned_drop(core::pin::Pin::new_unchecked(self)) }
+    }
+}
+
 impl PinnedDrop for new_string {
     unsafe fn pinned_drop(self: core::pin::Pin<&mut Self>) {
         // SAFETY: `self` is a valid, pinned reference to a `new_string`.
-- 
2.43.0


From 820a71592840d12405f6f3b6e71d00c7bee34f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 12/18] fix: self-move-assignment of a DynCallable does not
 relocate a disposed callable

---
 support/rs_std/dyn_callable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..168ed3c 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -59,6 +59,8 @@ class ManagedCallable {
   ManagedCallable& operator=(ManagedCallable&& other) {
     // Dispose this.
     manager_(FunctionToCall::dispose, &this->storage_, &this->storage_);
+    // Nothing is left to relocate if `other` is `*this`.
+    manager_ = EmptyManager;
 
     // Move other into this.
     other.manager_(FunctionToCall::relocate_from_to, /*from=*/&other.storage_,
-- 
2.43.0


From c0616b54c25f2f3f480f440c3e5c125adabaaa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 13/18] fix: a consumed FnOnce has no value

---
 support/rs_std/dyn_callable.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 168ed3c..70fbf18 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -135,7 +135,11 @@ inline ReturnType InvokedAfterMove(TypeErasedState*,
       }                                                                        \
     }                                                                          \
                                                                                \
-    bool HasValue() const { return invoker_ != nullptr; }                      \
+    /* A consumed `FnOnce` has no value either. */                             \
+    bool HasValue() const {                                                    \
+      return invoker_ != nullptr &&                                            \
+             invoker_ != &InvokedAfterMove<ReturnType, P...>;                  \
+    }                                                                          \
                                                                                \
    protected:                                                                  \
     InvokerType* invoker_ = nullptr;                                           \
-- 
2.43.0


From 02c6dfb79e74cab5911eea7b1781c8d664bb986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 14/18] fix: TransmuteAbi::Decode destroys the moved-from value
 in its buffer

---
 support/bridge.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index babbe33..fd261f3 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +253,12 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, and destroy the moved-from value
+    // that is left there.
+    Value* encoded = reinterpret_cast<Value*>(buf);
+    Value value(std::move(*encoded));
+    std::destroy_at(encoded);
+    return value;
   }
 };
 
-- 
2.43.0


From da69716be217b6ba6cf2e9d2c12e7c61c4c5da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 15/18] fix: the clone of an Option is written in its own
 layout

The copy constructor of the C++ rs_std::Option<T> passes a pointer to the
object it constructs, but the thunk of Clone::clone wrote the Crubit ABI form
of the option there.
---
 .../generate_bindings/generate_function_thunk.rs            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..24a87c7 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,7 +446,11 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
-    Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
+    Ok(if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // A constructor of the layout-compatible C++ type initializes that type itself, not its
+        // Crubit ABI form (see also `generate_thunk_decl`).
+        write_directly()?
+    } else if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
                 BridgedTypeConversionInfo::PointerLikeTransmute { .. } => write_directly()?,
-- 
2.43.0


From 6a883d54402269507c630126ee39d87c2d7ce59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 16/18] fix: floating-point constants are floating-point
 literals

A constant like 1.0f32 became the invalid literal 1f, -0.0 became the integer
0, and infinities and NaNs became undeclared identifiers.
---
 .../generate_struct_and_union.rs              | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index 772368b..d4536eb 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -108,6 +108,21 @@ pub(crate) fn cpp_enum_cpp_underlying_type<'tcx>(
     db.format_ty_for_cc(field_type, TypeLocation::Field)
 }
 
+/// Returns the digits of a C++ floating-point literal with the given value.
+fn finite_float_to_string(value: impl std::fmt::Display) -> Result<String> {
+    let mut digits = value.to_string();
+    ensure!(
+        !digits.contains(['N', 'n']),
+        "Infinities and NaNs cannot be expressed with literals: {digits}"
+    );
+    // Without a fraction or an exponent this would be an integer literal, which has no negative
+    // zero, a limited range, and no `f` suffix.
+    if !digits.contains(['.', 'E']) {
+        digits.push_str(".0");
+    }
+    Ok(digits)
+}
+
 /// Returns a string representation of the value of a given numeric Scalar having a given TyKind.
 pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Result<String> {
     let scalar = match scalar {
@@ -138,8 +153,8 @@ pub fn scalar_value_to_string(tcx: TyCtxt, scalar: Scalar, kind: TyKind) -> Resu
         TyKind::Uint(U16) => format!("UINT16_C({})", scalar.to_u16()),
         TyKind::Uint(U32) => format!("UINT32_C({})", scalar.to_u32()),
         TyKind::Uint(U64) => format!("UINT64_C({})", scalar.to_u64()),
-        TyKind::Float(F32) => format!("{}f", scalar.to_f32()),
-        TyKind::Float(F64) => format!("{}L", scalar.to_f64()),
+        TyKind::Float(F32) => format!("{}f", finite_float_to_string(scalar.to_f32())?),
+        TyKind::Float(F64) => format!("{}L", finite_float_to_string(scalar.to_f64())?),
         TyKind::Uint(Usize) => format!("UINT64_C({})", scalar.to_target_usize(tcx)),
 
         // Signed integer minimums cannot be expressed with literals, as `-<int>` parses as a unary
-- 
2.43.0


From b6debaee4c4202277101bc555e2f396f8bebcb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 17/18] fix: layouts of packed(N) structs and of zero-length
 arrays

The C++ class of a packed(2) or wider struct left out padding that Rust has,
and std::array<T, 0> takes a byte: the generated headers did not compile.
---
 .../generate_bindings/generate_struct_and_union.rs     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
index d4536eb..16e2daf 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs
@@ -2296,7 +2296,13 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
 
         match self.adt_def.adt_kind() {
             ty::AdtKind::Struct => {
+                // `__attribute__((packed))` lets C++ omit padding that `packed(N)` requires.
+                let is_packed = self
+                    .repr_attrs
+                    .iter()
+                    .any(|repr| matches!(repr, rustc_hir::attrs::ReprPacked { .. }));
                 let always_omit_padding = self.repr_attrs.contains(&rustc_hir::attrs::ReprC)
+                    && !is_packed
                     && variants_fields.iter().flatten().all(|field| field.type_info.is_ok());
                 let fields = variants_fields.into_iter().next().unwrap_or_default();
                 Ok(AdtLayout::Struct { fields, always_omit_padding })
@@ -2334,6 +2340,10 @@ impl<'a, 'tcx> AdtFieldGenerator<'a, 'tcx> {
         let ty = crate::normalize_ty(tcx, tcx.param_env(field_def.did), ty);
         let size = get_layout(tcx, ty).map(|layout| layout.size().bytes())?;
 
+        if size == 0 && ty.is_array() {
+            bail!("Zero-sized arrays are not supported: `std::array<T, 0>` is not empty");
+        }
+
         if is_bridged_type(self.db, ty).is_ok_and(|bridged_type| {
             bridged_type.is_some_and(|bridged_type| !bridged_type.is_layout_compatible())
         }) && !ty
-- 
2.43.0


From 82e5f0bcb48befb8585fd24ea43b4ee159ded54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:13 +0000
Subject: [PATCH 18/18] fix: an Option<bool> is not made from whether an
 optional has a value

A std::optional<bool> converts explicitly to bool, so that Option<bool> took an
lvalue for Some(has_value()), and assigning an rvalue was ambiguous.
---
 support/rs_std/option.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/rs_std/option.h b/support/rs_std/option.h
index a8d59a3..07b7696 100644
--- a/support/rs_std/option.h
+++ b/support/rs_std/option.h
@@ -23,6 +23,10 @@ inline constexpr bool OptionForwardConstructible = std::negation_v<
     std::disjunction<std::is_base_of<OptionType, std::decay_t<U>>,
                      std::is_same<std::decay_t<U>, std::nullopt_t>,
                      std::is_same<std::decay_t<U>, std::in_place_t>,
+                     // Whether an optional or a pointer holds a value is not
+                     // a value of type `bool`.
+                     std::conjunction<std::is_same<T, bool>,
+                                      std::negation<std::is_convertible<U, T>>>,
                      std::negation<std::is_constructible<T, U>>>>;
 
 template <typename ArgType, typename Opt>
-- 
2.43.0

