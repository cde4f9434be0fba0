From 195a8a1826ea06ae1ed8c257fa43da7ddb474f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 01/18] fix: remove, try_remove and swap_remove accept an index
 equal to the length

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..5c7962f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if self.len() <= index {
             None
         } else {
             // Safety
@@ -1520,7 +1520,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         let len = self.len();
 
         debug_assert!(
-            index <= len,
+            index < len,
             "Tried to remove an element at index {} from a {} length vector! This is UB in release mode",
             index,
             len,
-- 
2.43.0


From e31cc70e81ea44c351fc22e55d69441b190fd58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 02/18] fix: try_pop_array and the array removals check for at
 least N elements

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7962f..c7e491e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 755173265971f1f0a77cec70034eac52849bb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/18] fix: ArrayVec::from_array keeps the elements of the
 array

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e491e..124c34d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From c63d55b387922f4d4a45a009a7081b0e2328f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 04/18] fix: ArrayVec::into_array accepts exactly N elements of
 any size

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 124c34d..42ff93e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     ///
     /// Panics if the the collection is not full
     pub fn into_array(self) -> [T; N] {
-        assert!(self.is_full());
+        assert!(self.len() == N);
         let this = core::mem::ManuallyDrop::new(self);
         unsafe { Storage::<[T; N]>::as_ptr(&this.storage).read() }
     }
-- 
2.43.0


From 709cb01732eda0e343785b90e1f279102fce7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 05/18] fix: grow for Copy types writes after the existing
 elements

---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..562631a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.storage.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From fb1673ea1e36ee0770eee374a6333aff5e6678f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 06/18] fix: Cursor::try_write_front writes only if there is an
 unfilled slot

---
 src/iter/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..77f658c 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
-- 
2.43.0


From 4c448be00806dfca4da35bd5ba134c7f0e279eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 07/18] fix: Heap only deallocates memory that it allocated

---
 src/raw/heap/nightly.rs | 7 ++++++-
 src/raw/heap/stable.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..12b50c7 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -34,6 +34,11 @@ enum OnFailure {
 
 impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
     fn drop(&mut self) {
+        // nothing is allocated for zero-sized types, or if the capacity is 0
+        if size_of::<T>() == 0 || self.capacity == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -155,7 +160,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..b5e3723 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -29,6 +29,11 @@ enum OnFailure {
 
 impl<T> Drop for Heap<T> {
     fn drop(&mut self) {
+        // nothing is allocated for zero-sized types, or if the capacity is 0
+        if size_of::<T>() == 0 || self.capacity == 0 {
+            return
+        }
+
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
@@ -135,7 +140,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From 03bec4579b6a87bf5ab67f842be896005d038344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 08/18] fix: RawCursor::finish can be called more than once

---
 src/iter/raw_cursor.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..714d3cc 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -75,6 +75,8 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
                 let len = front_len + back_len;
                 self.vec.as_mut().set_len_unchecked(len);
+
+                self.collapse(len as _, len);
             } else {
                 let start = self.vec.as_mut().as_mut_ptr();
                 let range = start..start.add(self.old_vec_len);
@@ -88,10 +90,22 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 }
 
                 self.vec.as_mut().set_len_unchecked(len);
+
+                self.collapse(start.add(len), len);
             }
         }
     }
 
+    /// Turn this into an empty `RawCursor` at the end of the finished vector,
+    /// so that finishing it again does nothing
+    fn collapse(&mut self, end: *mut T, len: usize) {
+        self.old_vec_len = len;
+        self.write_front = end;
+        self.read_front = end;
+        self.read_back = end;
+        self.write_back = end;
+    }
+
     /// Check if the both write pointers are and the end of the vector
     pub(crate) fn at_back_of_vec(&self) -> bool {
         unsafe {
-- 
2.43.0


From eb9dbac5a3d88eb501556883411d3dbaa5e47593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 09/18] fix: Splice keeps the items that it appends at the end
 of the vector

---
 src/iter/raw_cursor.rs | 3 ---
 src/iter/splice.rs     | 8 ++++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 714d3cc..4623127 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -115,9 +115,6 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
         }
     }
 
-    /// Get a mutable reference to the underlying vector
-    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> { unsafe { self.vec.as_mut() } }
-
     /// The number of remaining elements in range of this `RawCursor`
     ///
     /// The `RawCursor` is empty when there are 0 remaining elements
diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 658764b..ea4acd8 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -37,8 +37,12 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
         }
 
         if raw.at_back_of_vec() {
-            self.raw.finish();
-            unsafe { self.raw.vec_mut().extend(replace_with) }
+            // The cursor stays in charge of the vector, so that the vector
+            // is valid when the cursor gets dropped, even on panic
+            replace_with.for_each(|item| unsafe {
+                raw.reserve(1);
+                raw.write_front(item);
+            });
             return
         }
 
-- 
2.43.0


From 2bea308e12e8d4a0c57e418a097704fc1d8f0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 10/18] fix: RawCursor::reserve checks that the new length does
 not overflow

---
 src/iter/raw_cursor.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 4623127..07c7a80 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -663,14 +663,23 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     /// * May panic if the underlying [`GenericVec`] cannot
     ///   reserve more space
     pub fn reserve(&mut self, space: usize) {
+        #[cold]
+        #[inline(never)]
+        fn reserve_fail(space: usize) -> ! {
+            panic!("Tried to reserve {} unfilled slots and failed", space)
+        }
+
         assert!(self.is_empty(), "You can only call `reserve` on a empty `RawCursor`");
         unsafe {
             if Self::IS_ZS {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    self.old_vec_len = match self.old_vec_len.checked_add(increase_by) {
+                        Some(len) if len <= isize::MAX as usize => len,
+                        _ => reserve_fail(space),
+                    };
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
-                    self.old_vec_len += increase_by;
                 }
             } else {
                 let write_space = self.write_back.offset_from(self.write_front) as usize;
@@ -687,14 +696,19 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
 
-                if len + space > capacity {
+                let new_len = match len.checked_add(space) {
+                    Some(new_len) => new_len,
+                    None => reserve_fail(space),
+                };
+
+                if new_len > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(new_len);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From 67f105db63559a79e4a15b9b08f19b63ac8c547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 11/18] fix: reserving in a storage of differently sized
 elements is exact, and Heap::try_reserve fails without panicking

---
 src/raw/capacity.rs     | 13 ++++++++-----
 src/raw/heap/nightly.rs | 37 ++++++++++++++++++++++++++++---------
 src/raw/heap/stable.rs  | 31 +++++++++++++++++++++----------
 src/raw/slice.rs        |  6 +++---
 4 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..aff986e 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,14 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
+    let size = size / (size_other as PointerNext);
+
     // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
     //
-    (size / (size_other as PointerNext)) as usize
+    // If the result doesn't fit in a pointer, then it's larger than any possible capacity
+    if size > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        size as usize
+    }
 }
diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 12b50c7..1d348dd 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -142,15 +142,15 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -158,13 +158,24 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     }
 }
 
+fn layout_of<T>(capacity: usize) -> Option<Layout> {
+    let (layout, _) = Layout::new::<T>().repeat(capacity).ok()?;
+
+    // allocations can't be larger than `isize::MAX` bytes
+    if layout.size() > isize::MAX as usize {
+        None
+    } else {
+        Some(layout)
+    }
+}
+
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
         if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
-        let layout = Layout::new::<T>().repeat(capacity).expect("Invalid layout").0;
+        let layout = layout_of::<T>(capacity).expect("Invalid layout");
         let allocator = A::default();
 
         let ptr = unsafe { allocator.allocate(layout) };
@@ -184,6 +195,10 @@ impl<T, A: Default + Allocator> Heap<T, A> {
 
 unsafe impl<T, U, A: Default + Allocator> StorageWithCapacity<U> for Heap<T, A> {
     fn with_capacity(cap: usize) -> Self {
+        assert!(
+            cap == 0 || size_of::<T>() != 0 || size_of::<U>() == 0,
+            "Cannot store non-zero-sized values in zero-sized memory"
+        );
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
@@ -192,19 +207,23 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
-        assert!(new_capacity > self.capacity);
+        assert!(size_of::<T>() == 0 || new_capacity > self.capacity);
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (layout_of::<T>(new_capacity), &on_failure) {
+            (Some(layout), _) if size_of::<T>() != 0 => layout,
+            (_, OnFailure::Abort) => panic!("Invalid layout"),
+            (_, OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
         } else {
             let new_layout = layout;
-            let old_layout = Layout::new::<T>().repeat(self.capacity).expect("Invalid layout").0;
+            let old_layout = layout_of::<T>(self.capacity).expect("Invalid layout");
 
             unsafe { self.allocator.grow(self.ptr.cast(), old_layout, new_layout) }
         };
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index b5e3723..bb74217 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -83,15 +83,15 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
         }
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if self.capacity < new_capacity {
+        if Storage::<U>::capacity(self) < new_capacity {
+            let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
             self.reserve_slow(new_capacity, OnFailure::Error)
         } else {
             true
@@ -133,9 +133,12 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
-    // SAFETY: self.align is already known to be valid and alloc_size has been
-    // padded already.
-    unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
+    // allocations can't be larger than `isize::MAX` bytes
+    if alloc_size > isize::MAX as usize {
+        return Err(())
+    }
+
+    Layout::from_size_align(alloc_size, layout.align()).map_err(drop)
 }
 
 impl<T> Heap<T> {
@@ -162,6 +165,10 @@ impl<T> Heap<T> {
 
 unsafe impl<T, U> StorageWithCapacity<U> for Heap<T> {
     fn with_capacity(cap: usize) -> Self {
+        assert!(
+            cap == 0 || size_of::<T>() != 0 || size_of::<U>() == 0,
+            "Cannot store non-zero-sized values in zero-sized memory"
+        );
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
@@ -170,13 +177,17 @@ impl<T> Heap<T> {
     #[cold]
     #[inline(never)]
     fn reserve_slow(&mut self, new_capacity: usize, on_failure: OnFailure) -> bool {
-        assert!(new_capacity > self.capacity);
+        assert!(size_of::<T>() == 0 || new_capacity > self.capacity);
 
         // grow by at least doubling
         let new_capacity = new_capacity
-            .max(self.capacity.checked_mul(2).expect("Could not grow further"))
+            .max(self.capacity.saturating_mul(2))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) if size_of::<T>() != 0 => layout,
+            (_, OnFailure::Abort) => panic!("Invalid layout"),
+            (_, OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From b69105e3bb4773dc1a0b965e09fb752f0af6daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 12/18] fix: set_len never exposes zero-sized elements that the
 storage doesn't have

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42ff93e..cfedeb9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -701,7 +701,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         // the given length is smaller than the capacity
         unsafe {
             assert!(
-                len <= self.capacity(),
+                len <= self.capacity() && len <= self.storage.capacity(),
                 "Tried to set the length to larger than the capacity"
             );
             self.set_len_unchecked(len);
-- 
2.43.0


From cc660f4955194a69ed2c7ad89b9fd2bc5561882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 13/18] fix: reserve fails past the capacity of a vector of
 zero-sized elements

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfedeb9..0d50d62 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -782,8 +782,8 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         if self.remaining_capacity() < additional {
             self.storage.reserve(match self.len().checked_add(additional) {
-                Some(new_capacity) => new_capacity,
-                None => allocation_failure(additional),
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => new_capacity,
+                _ => allocation_failure(additional),
             })
         }
     }
@@ -794,8 +794,8 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     pub fn try_reserve(&mut self, additional: usize) -> bool {
         if self.remaining_capacity() < additional {
             match self.len().checked_add(additional) {
-                Some(new_capacity) => self.storage.try_reserve(new_capacity),
-                None => false,
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => self.storage.try_reserve(new_capacity),
+                _ => false,
             }
         } else {
             true
-- 
2.43.0


From 45c162e7ba0074668a1e048008b0036223f016c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 14/18] fix: gvec! and save_spare! don't evaluate user
 expressions in an unsafe block or twice

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d50d62..e8c7543 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -303,9 +303,9 @@ macro_rules! gvec {
     }};
     ($($expr:expr),*) => {{
         let mut vec = $crate::GenericVec::with_capacity($crate::count!($(($expr))*));
-        unsafe {
-            $(vec.push_unchecked($expr);)*
-        }
+        $(match $expr {
+            value => unsafe { vec.push_unchecked(value); }
+        })*
         vec
     }};
 }
@@ -347,7 +347,7 @@ macro_rules! save_spare {
         let orig: &mut $crate::GenericVec<_, _> = $orig;
         $crate::validate_spare(ptr, orig);
         let len = len + orig.len();
-        $orig.set_len_unchecked(len);
+        orig.set_len_unchecked(len);
     }};
 }
 
-- 
2.43.0


From 2ed402a50f1fb94b8a06707e56f326d8a2e59120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 15/18] fix: array storage doesn't limit the constant capacity
 of zero-sized elements

---
 src/raw/array/nightly.rs | 2 +-
 src/raw/array/stable.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index d26abef..5170ee8 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -26,7 +26,7 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(N);
+    const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { N });
     const IS_ALIGNED: bool = true;
 
     fn capacity(&self) -> usize { N }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 18daa4b..42d9653 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -28,7 +28,7 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some($N);
+            const CONST_CAPACITY: Option<usize> = Some(if core::mem::size_of::<T>() == 0 { usize::MAX } else { $N });
             const IS_ALIGNED: bool = true;
 
             fn capacity(&self) -> usize { $N }
-- 
2.43.0


From 0e6075ec96618455e2a7a6102c54581537d25604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 16/18] fix: Splice leaked the zero-sized replacement elements
 when its iterator panicked

---
 src/iter/splice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index ea4acd8..689b31c 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -1,7 +1,5 @@
 use crate::{iter::RawCursor, Storage};
 
-use core::mem::ManuallyDrop;
-
 /// This struct is created by [`GenericVec::splice`](crate::GenericVec::splice).
 /// See its documentation for more.
 pub struct Splice<'a, T, S, I>
@@ -27,11 +25,12 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         if let Some(storage) = crate::raw::ZeroSized::TRY_NEW {
             unsafe {
-                let mut vec = ManuallyDrop::new(crate::ZSVec::with_storage(storage));
+                let mut vec = crate::ZSVec::with_storage(storage);
                 vec.extend(replace_with);
                 let len = vec.len();
                 raw.reserve(len);
                 raw.write_slice_front(vec.as_slice());
+                core::mem::forget(vec);
                 return
             }
         }
-- 
2.43.0


From 25142722923ddc5e43b61026bbc0ceefb43d58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 17/18] fix: from_raw_parts panics for a storage that isn't
 aligned for T, as documented

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e8c7543..25ddbb3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From 38c9be8ea11f543c27cd67f4157a8df38cb86bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 18/18] fix: save_spare! panics instead of making a vector of
 zero-sized values longer than its capacity

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 25ddbb3..ebb2f49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,6 +347,8 @@ macro_rules! save_spare {
         let orig: &mut $crate::GenericVec<_, _> = $orig;
         $crate::validate_spare(ptr, orig);
         let len = len + orig.len();
+        // only a spare vector of zero-sized values can get longer than the spare capacity
+        $crate::core::assert!(len <= orig.capacity(), "Tried to save more values than fit into the vector");
         orig.set_len_unchecked(len);
     }};
 }
-- 
2.43.0

