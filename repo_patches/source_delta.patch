From d3623aedf9a48538f6e9e554875c69910b643fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/18] fix: remove and swap_remove accepted index == len,
 reading past the last element

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..bb9af18 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1520,7 +1520,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         let len = self.len();
 
         debug_assert!(
-            index <= len,
+            index < len,
             "Tried to remove an element at index {} from a {} length vector! This is UB in release mode",
             index,
             len,
-- 
2.43.0


From 75fa13649a5cd27b65cae3546503755aa708b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 02/18] fix: try_remove accepted index == len, reading past the
 last element

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb9af18..5c7962f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if self.len() <= index {
             None
         } else {
             // Safety
-- 
2.43.0


From 224f1ff00684d02c2225c79c8a17ea078be8f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 03/18] fix: try_pop_array only checked for an empty vector,
 not for fewer than N elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7962f..46276a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
-- 
2.43.0


From 08f599ab21c5a54b8bf1900cfd6037a719aaa251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 04/18] fix: pop_array/remove_array of exactly the remaining
 elements failed a debug assertion

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46276a8..c7e491e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 264906395b3eba9da11b4c5ee55e3c34736ca693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 05/18] fix: ArrayVec::from_array built an empty vector and
 leaked the array's elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e491e..124c34d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From 34dd9d483d4b9ad9b66d3f05841a429148eae7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 06/18] fix: Cursor::try_write_front wrote exactly when there
 was no unfilled slot

---
 src/iter/cursor.rs     | 8 ++++----
 src/iter/raw_cursor.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..42274f9 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -31,12 +31,12 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn is_write_empty(&self) -> bool { self.raw.is_write_empty() }
 
-    /// Returns true if there is an unfilled slot at the front
+    /// Returns true if there is no unfilled slot at the front
     /// of the `Cursor`
     #[inline]
     pub fn is_write_front_empty(&self) -> bool { self.raw.is_write_front_empty() }
 
-    /// Returns true if there is an unfilled slot at the back
+    /// Returns true if there is no unfilled slot at the back
     /// of the `Cursor`
     #[inline]
     pub fn is_write_back_empty(&self) -> bool { self.raw.is_write_back_empty() }
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..a2943dd 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -125,13 +125,13 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     #[inline]
     pub fn is_write_empty(&self) -> bool { self.write_back == self.write_front }
 
-    /// Returns true if there is an unfilled slot at the front
+    /// Returns true if there is no unfilled slot at the front
     /// of the `RawCursor`
     pub fn is_write_front_empty(&self) -> bool {
         self.is_write_empty() || (self.write_front == self.read_front && !self.is_empty())
     }
 
-    /// Returns true if there is an unfilled slot at the back
+    /// Returns true if there is no unfilled slot at the back
     /// of the `RawCursor`
     pub fn is_write_back_empty(&self) -> bool {
         self.is_write_empty() || (self.write_back == self.read_back && !self.is_empty())
-- 
2.43.0


From 6fea9a75aaff07b7f357ab6255429d60ec9a6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 07/18] fix: grow for Copy types overwrote the start of the
 vector instead of appending

---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..562631a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.storage.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From ea07db77984ff180f3b8eb9080c92eacdc9aac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 08/18] fix: capacity conversion truncated to usize, so an
 impossible reserve succeeded

---
 src/raw/capacity.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..2e51bf9 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,12 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
-    // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
-    //
-    (size / (size_other as PointerNext)) as usize
+    // this can be larger than `usize::MAX`, if `size_other < size_self`
+    let capacity = size / (size_other as PointerNext);
+
+    if capacity > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        capacity as usize
+    }
 }
-- 
2.43.0


From cde642e7a8fe763b5a9d92cf3ce20d4e2722a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 09/18] fix: Heap deallocated memory it never allocated when it
 was empty or zero-sized

---
 src/raw/heap/nightly.rs | 7 ++++++-
 src/raw/heap/stable.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..fa540b1 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -34,6 +34,11 @@ enum OnFailure {
 
 impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
     fn drop(&mut self) {
+        // an empty or zero-sized `Heap` never allocated anything
+        if size_of::<T>() == 0 || self.capacity == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -155,7 +160,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..6a129bb 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -29,6 +29,11 @@ enum OnFailure {
 
 impl<T> Drop for Heap<T> {
     fn drop(&mut self) {
+        // an empty or zero-sized `Heap` never allocated anything
+        if size_of::<T>() == 0 || self.capacity == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -135,7 +140,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From 2457de243cfa8fa1fb7641b15079f3a55a92cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 10/18] fix: Heap::try_reserve panicked on capacities that
 can't be allocated instead of failing

---
 src/raw/heap/nightly.rs |  8 ++++++--
 src/raw/heap/stable.rs  | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index fa540b1..22bc3ce 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -196,9 +196,13 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (Layout::new::<T>().repeat(new_capacity), &on_failure) {
+            (Ok(layout), _) => layout.0,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 6a129bb..d27e42e 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -133,6 +133,11 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
+    // no allocation may be larger than `isize::MAX`, when rounded up to `align`
+    if alloc_size > isize::MAX as usize - (layout.align() - 1) {
+        return Err(())
+    }
+
     // SAFETY: self.align is already known to be valid and alloc_size has been
     // padded already.
     unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
@@ -174,9 +179,13 @@ impl<T> Heap<T> {
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) => layout,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
-- 
2.43.0


From 8285964239c7775b2ec78898f5ea9fd5654abe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 11/18] fix: storages of zero-sized units claimed to have
 reserved space for sized elements

---
 src/raw/heap/nightly.rs | 23 ++++++++++++++++++-----
 src/raw/heap/stable.rs  | 23 ++++++++++++++++++-----
 src/raw/slice.rs        |  6 +++---
 3 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 22bc3ce..c0a5774 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -142,15 +142,15 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -184,7 +184,12 @@ impl<T, A: Default + Allocator> Heap<T, A> {
 
 unsafe impl<T, U, A: Default + Allocator> StorageWithCapacity<U> for Heap<T, A> {
     fn with_capacity(cap: usize) -> Self {
-        Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
+        let heap = Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up));
+        assert!(
+            Storage::<U>::capacity(&heap) >= cap,
+            "Cannot allocate memory in zero-sized types"
+        );
+        heap
     }
 }
 
@@ -192,6 +197,14 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
+        // a zero-sized `T` can't provide any memory
+        if size_of::<T>() == 0 {
+            match on_failure {
+                OnFailure::Abort => panic!("Cannot allocate memory in zero-sized types"),
+                OnFailure::Error => return false,
+            }
+        }
+
         assert!(new_capacity > self.capacity);
 
         // grow by at least doubling
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index d27e42e..d485fb0 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -83,15 +83,15 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -167,7 +167,12 @@ impl<T> Heap<T> {
 
 unsafe impl<T, U> StorageWithCapacity<U> for Heap<T> {
     fn with_capacity(cap: usize) -> Self {
-        Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
+        let heap = Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up));
+        assert!(
+            Storage::<U>::capacity(&heap) >= cap,
+            "Cannot allocate memory in zero-sized types"
+        );
+        heap
     }
 }
 
@@ -175,6 +180,14 @@ impl<T> Heap<T> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
+        // a zero-sized `T` can't provide any memory
+        if size_of::<T>() == 0 {
+            match on_failure {
+                OnFailure::Abort => panic!("Cannot allocate memory in zero-sized types"),
+                OnFailure::Error => return false,
+            }
+        }
+
         assert!(new_capacity > self.capacity);
 
         // grow by at least doubling
diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From 6783961617549694ddff12f82a3c38f6d9246545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 12/18] fix: vectors of zero-sized types in an array panicked
 although they report spare capacity

---
 src/raw/array/nightly.rs | 2 +-
 src/raw/array/stable.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index d26abef..5170ee8 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -26,7 +26,7 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(N);
+    const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { N });
     const IS_ALIGNED: bool = true;
 
     fn capacity(&self) -> usize { N }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 18daa4b..42d9653 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -28,7 +28,7 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some($N);
+            const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { $N });
             const IS_ALIGNED: bool = true;
 
             fn capacity(&self) -> usize { $N }
-- 
2.43.0


From 6a1309eb8f8e20108ac9fecb44699435c2bc006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 13/18] fix: vectors of zero-sized types could grow past their
 capacity and wrap their length

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 124c34d..787b8ed 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -782,8 +782,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         if self.remaining_capacity() < additional {
             self.storage.reserve(match self.len().checked_add(additional) {
-                Some(new_capacity) => new_capacity,
-                None => allocation_failure(additional),
+                // the capacity of zero-sized types can't grow
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => new_capacity,
+                _ => allocation_failure(additional),
             })
         }
     }
@@ -794,8 +795,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     pub fn try_reserve(&mut self, additional: usize) -> bool {
         if self.remaining_capacity() < additional {
             match self.len().checked_add(additional) {
-                Some(new_capacity) => self.storage.try_reserve(new_capacity),
-                None => false,
+                // the capacity of zero-sized types can't grow
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => self.storage.try_reserve(new_capacity),
+                _ => false,
             }
         } else {
             true
-- 
2.43.0


From 6f1243bb5c6b0f7d0b662696f828740b5829956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 14/18] fix: RawCursor::reserve wrapped around on large
 requests in release builds

---
 src/iter/raw_cursor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index a2943dd..359525a 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -658,6 +658,12 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    let capacity = self.vec.as_ref().capacity();
+                    assert!(
+                        increase_by <= capacity.wrapping_sub(self.old_vec_len),
+                        "Tried to reserve more space than a `GenericVec` can hold"
+                    );
+
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
                     self.old_vec_len += increase_by;
                 }
@@ -675,15 +681,18 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let front_len = self.write_front.offset_from(range.start) as usize;
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
+                let new_len = len
+                    .checked_add(space)
+                    .expect("Tried to reserve more space than a `GenericVec` can hold");
 
-                if len + space > capacity {
+                if new_len > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(new_len);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From d0ddc63a2bc724a317a1d88f98bc220e688b52cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 15/18] fix: finishing a RawCursor twice lost or duplicated
 elements, as did a splice at the back

---
 src/iter/raw_cursor.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 359525a..6b12c50 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -9,6 +9,7 @@ pub struct RawCursor<'a, T, S: ?Sized + Storage<T>> {
     read_front: *mut T,
     read_back: *mut T,
     write_back: *mut T,
+    finished: bool,
     mark: PhantomData<&'a mut GenericVec<T, S>>,
 }
 
@@ -40,6 +41,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                     read_front: start as _,
                     read_back: end as _,
                     write_back: end as _,
+                    finished: false,
                     mark: PhantomData,
                 }
             } else {
@@ -54,6 +56,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                     read_front: range.start,
                     read_back: range.end,
                     write_back: range.end,
+                    finished: false,
                     mark: PhantomData,
                 }
             }
@@ -62,7 +65,15 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
 
     /// Skip all the remaining elements, and ensure that the [`GenericVec`] is
     /// valid
+    ///
+    /// After this call the `RawCursor` is empty, has no unfilled slots, and
+    /// can't be used to [`reserve`](Self::reserve) any more, finishing it again
+    /// does nothing
     pub fn finish(&mut self) {
+        if core::mem::replace(&mut self.finished, true) {
+            return
+        }
+
         unsafe {
             if self.old_vec_len == 0 {
                 return
@@ -89,6 +100,11 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
 
                 self.vec.as_mut().set_len_unchecked(len);
             }
+
+            // the gap is closed, so there are no more unfilled slots
+            self.read_front = self.write_front;
+            self.read_back = self.write_front;
+            self.write_back = self.write_front;
         }
     }
 
@@ -653,6 +669,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     ///   reserve more space
     pub fn reserve(&mut self, space: usize) {
         assert!(self.is_empty(), "You can only call `reserve` on a empty `RawCursor`");
+        assert!(!self.finished, "You can't call `reserve` on a finished `RawCursor`");
         unsafe {
             if Self::IS_ZS {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
-- 
2.43.0


From 6563647c0f2cff351ddb047d247aaf241ed800c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 16/18] fix: from_raw_parts did not panic on a storage that
 can't hold the type, as documented

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 787b8ed..4feeb1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From 914fef4460080f03de0bca86ef1223a951b47538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 17/18] fix: array storages can hold any number of zero-sized
 elements

Cloning or converting a vector of more than N zero-sized elements into a
vector over [T; N] panicked, although such a vector's capacity is isize::MAX.
---
 src/raw/array.rs         |  9 +++++++++
 src/raw/array/nightly.rs | 16 ++++++++--------
 src/raw/array/stable.rs  | 16 ++++++++--------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/raw/array.rs b/src/raw/array.rs
index 8bd12fa..3d1c93f 100644
--- a/src/raw/array.rs
+++ b/src/raw/array.rs
@@ -3,3 +3,12 @@ mod nightly;
 
 #[cfg(not(feature = "nightly"))]
 mod stable;
+
+/// the capacity of an array of length `len`, zero-sized elements don't take up any space
+const fn capacity<T>(len: usize) -> usize {
+    if core::mem::size_of::<T>() == 0 {
+        usize::MAX
+    } else {
+        len
+    }
+}
diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index 5170ee8..f8af790 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -6,8 +6,8 @@ where
     Self: Default,
 {
     fn with_capacity(capacity: usize) -> Self {
-        if capacity > N {
-            crate::raw::capacity::fixed_capacity_reserve_error(N, capacity)
+        if capacity > super::capacity::<T>(N) {
+            crate::raw::capacity::fixed_capacity_reserve_error(super::capacity::<T>(N), capacity)
         }
 
         Self::default()
@@ -18,7 +18,7 @@ where
     #[allow(non_snake_case)]
     fn __with_capacity__const_capacity_checked(capacity: usize, old_capacity: Option<usize>) -> Self {
         match old_capacity {
-            Some(old_capacity) if old_capacity <= N => Self::default(),
+            Some(old_capacity) if old_capacity <= super::capacity::<T>(N) => Self::default(),
             _ => Self::with_capacity(capacity),
         }
     }
@@ -26,20 +26,20 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { N });
+    const CONST_CAPACITY: Option<usize> = Some(super::capacity::<T>(N));
     const IS_ALIGNED: bool = true;
 
-    fn capacity(&self) -> usize { N }
+    fn capacity(&self) -> usize { super::capacity::<T>(N) }
 
     fn as_ptr(&self) -> *const T { self[..].as_ptr().cast() }
 
     fn as_mut_ptr(&mut self) -> *mut T { self[..].as_mut_ptr().cast() }
 
     fn reserve(&mut self, capacity: usize) {
-        if capacity > N {
-            crate::raw::capacity::fixed_capacity_reserve_error(N, capacity)
+        if capacity > super::capacity::<T>(N) {
+            crate::raw::capacity::fixed_capacity_reserve_error(super::capacity::<T>(N), capacity)
         }
     }
 
-    fn try_reserve(&mut self, capacity: usize) -> bool { capacity <= N }
+    fn try_reserve(&mut self, capacity: usize) -> bool { capacity <= super::capacity::<T>(N) }
 }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 42d9653..f194b68 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -8,8 +8,8 @@ macro_rules! array {
             Self: Default,
         {
             fn with_capacity(capacity: usize) -> Self {
-                if capacity > $N {
-                    crate::raw::capacity::fixed_capacity_reserve_error($N, capacity)
+                if capacity > super::capacity::<T>($N) {
+                    crate::raw::capacity::fixed_capacity_reserve_error(super::capacity::<T>($N), capacity)
                 }
 
                 Self::default()
@@ -20,7 +20,7 @@ macro_rules! array {
             #[allow(non_snake_case)]
             fn __with_capacity__const_capacity_checked(capacity: usize, old_capacity: Option<usize>) -> Self {
                 match old_capacity {
-                    Some(old_capacity) if old_capacity <= $N => Self::default(),
+                    Some(old_capacity) if old_capacity <= super::capacity::<T>($N) => Self::default(),
                     _ => Self::with_capacity(capacity),
                 }
             }
@@ -28,23 +28,23 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { $N });
+            const CONST_CAPACITY: Option<usize> = Some(super::capacity::<T>($N));
             const IS_ALIGNED: bool = true;
 
-            fn capacity(&self) -> usize { $N }
+            fn capacity(&self) -> usize { super::capacity::<T>($N) }
 
             fn as_ptr(&self) -> *const T { self[..].as_ptr().cast() }
 
             fn as_mut_ptr(&mut self) -> *mut T { self[..].as_mut_ptr().cast() }
 
             fn reserve(&mut self, capacity: usize) {
-                if capacity > $N {
-                    crate::raw::capacity::fixed_capacity_reserve_error($N, capacity)
+                if capacity > super::capacity::<T>($N) {
+                    crate::raw::capacity::fixed_capacity_reserve_error(super::capacity::<T>($N), capacity)
                 }
             }
 
             fn try_reserve(&mut self, capacity: usize) -> bool {
-                capacity <= $N
+                capacity <= super::capacity::<T>($N)
             }
         }
     )*};
-- 
2.43.0


From 536efed7923158cd24d3a77c3342ec66c71327fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 18/18] fix: save_spare! evaluated the vector expression twice
 and could extend another vector

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4feeb1c..2173522 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,7 @@ macro_rules! save_spare {
         let orig: &mut $crate::GenericVec<_, _> = $orig;
         $crate::validate_spare(ptr, orig);
         let len = len + orig.len();
-        $orig.set_len_unchecked(len);
+        orig.set_len_unchecked(len);
     }};
 }
 
-- 
2.43.0

