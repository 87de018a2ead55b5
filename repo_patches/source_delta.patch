From 17563c5ecb2a10bafbe4db1b11858b01e6a4c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 01/48] fix: ScopePtr::alloc dropped uninitialised memory as if
 it held a value

---
 src/ptr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..4db3fb9 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,9 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // The memory is not initialized yet so there is no previous value to drop here.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From c472f9979314062076b238c3f5e0de4c12189a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 02/48] fix: ScopePtr::into_inner dropped the moved-out value
 and freed its memory twice

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index 4db3fb9..54d7571 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -204,6 +204,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // The value is moved out and memory is freed so the destructor must not run.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From 41d1e9d8ac6fbfb8fd6af31dfca3a4cf86a3012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 03/48] fix: zero-sized requests were passed on to allocators,
 which is undefined behaviour

---
 src/ptr.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 54d7571..7c6b5a6 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -189,7 +189,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Allocators do not support zero-sized requests, no memory is needed for these.
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -243,8 +248,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // No memory was ever requested for zero-sized layouts.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
@@ -272,12 +280,20 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
-        );
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let old_layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+        let new_size = new_capacity * size_of::<T>();
+        // Allocators do not support zero-sized requests, no memory is needed for these.
+        let ptr = if new_size == 0 {
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if old_layout.size() == 0 {
+            self.alloc
+                .alloc(Layout::from_size_align_unchecked(new_size, old_layout.align()))
+        } else {
+            self.alloc
+                .realloc(self.ptr.as_ptr() as _, old_layout, new_size)
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From e8d2b65691163b3a2604b2370478c67ded47780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 04/48] fix: ScopePtr::realloc_array wrapped around on sizes
 that cannot be represented

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 7c6b5a6..6787ffa 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -282,7 +282,9 @@ impl<T> ScopePtr<[T]> {
         trace!("realloc array");
         // SAFETY: we already constructed such Layout before to allocate - it will not fail.
         let old_layout = Layout::array::<T>(self.len()).unwrap_unchecked();
-        let new_size = new_capacity * size_of::<T>();
+        let new_size = Layout::array::<T>(new_capacity)
+            .map_err(|_| CapacityOverflow)?
+            .size();
         // Allocators do not support zero-sized requests, no memory is needed for these.
         let ptr = if new_size == 0 {
             self.dealloc();
-- 
2.43.0


From 1a321c746f79a5fb3c2a26435a12e6c322f485bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 05/48] fix: an empty Vec forgot the allocation marker it was
 created with

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From 8539379e6735b4c3c38a10ce8332c7f4506f4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 06/48] fix: Vec::from(&[T]) panicked on any non-empty slice

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..2e47623 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -992,7 +992,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From 2084a77bc45c78100ef048a970fd94643c4c97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 07/48] fix: Vec::split_off left the moved elements in the old
 vector and none in the new one

---
 src/vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2e47623..55706c4 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -405,7 +405,11 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                self.set_len(at);
+                vec.set_len(count);
+            }
             vec
         }
     }
-- 
2.43.0


From fb8eb7ad3dbe990fd07176cbae38ac42aeb0a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 08/48] fix: Vec::leak dropped the elements and freed the
 storage it returned

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 55706c4..0b31d71 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -314,7 +314,9 @@ impl<T: 'static> Vec<T> {
     pub fn leak(mut self) -> &'static mut [T] {
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        let slice: &'static mut [T] = unsafe { impose_lifetime_mut(&mut self) };
+        mem::forget(self);
+        slice
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From 359d30d652597c31859731ec9228504fb3bf84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 09/48] fix: Vec::dealloc_without_drop still dropped the
 elements and freed the storage twice

---
 src/vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec.rs b/src/vec.rs
index 0b31d71..4d78055 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -323,6 +323,7 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From 8b762116c71e6c504bada28d6406071e0594fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 10/48] fix: Vec::clear dropped elements twice when a
 destructor panicked

---
 src/vec.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 4d78055..ebe32a1 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -268,15 +268,7 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        self.truncate(0);
     }
 
     #[inline]
-- 
2.43.0


From 1ac7e792828bfd28dcd90945f288c2dab1a63497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 11/48] fix: retain and dedup skipped the second element,
 losing or repeating elements

---
 src/vec.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index ebe32a1..e36e6e0 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -729,7 +729,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -784,7 +784,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 
     /// Retain read element and move to next.
     fn keep_next(&mut self) {
-        unsafe { self.copy() };
+        if self.read != self.write {
+            unsafe { self.copy() };
+        }
         unsafe { self.increment_vec_len() };
         self.read += 1;
         self.write += 1;
@@ -819,7 +821,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
+                // The element was moved to its final place.
+                let last = iter.write - 1;
+                keeped = unsafe { iter.get_unchecked_mut(last) };
             }
         }
     }
-- 
2.43.0


From 959901c2aefb19d601f02996edcb78f68b9e7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 12/48] fix: Vec::drain always panicked, and would have lost or
 repeated elements

---
 src/vec.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index e36e6e0..3d14027 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -531,25 +531,29 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        let vec_ptr: *mut V = vec;
+        // Incorrect range panics here, before anything is changed.
+        let slice = unsafe { &(*vec_ptr).as_slice_with_len(original_len)[start..end] };
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
         // located after the slice will be leaked.
-        unsafe { vec.set_len(start) };
+        unsafe { (*vec_ptr).set_len(start) };
 
         DrainInner {
-            vec_ptr: vec,
+            vec_ptr,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            slice,
+            original_len,
         }
     }
 
@@ -569,10 +573,11 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
+            let vec_start = vec.as_mut_ptr();
+            let slice_start: *mut T = vec_start.add(self.start);
+            let slice_end: *const T = vec_start.add(self.end);
             let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            ptr::copy(slice_end, slice_start, self.original_len - self.end);
 
             // Restore valid length of Vec.
             vec.set_len(self.original_len - count);
@@ -606,7 +611,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From 561e391a209d4a44c6158a6abbf0286673f7a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 13/48] fix: vec::IntoIter yielded elements twice from the back
 and reported wrong lengths

---
 src/vec.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 3d14027..cde7573 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1103,13 +1103,18 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
@@ -1141,7 +1146,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1149,7 +1154,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From 555af1bae1e0d05e84ae587d073f5f8ddf452a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 14/48] fix: Vec::into_boxed_slice lost all elements of
 zero-sized types

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index cde7573..29184ae 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -382,7 +382,8 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
-        let access = unsafe { self.ptr.clone() };
+        // Vec of zero-sized elements does not have its length stored in the pointer.
+        let access = unsafe { self.ptr.clone().cast::<T>().cast_to_slice(self.len()) };
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 6dfca1ae0471d523c816011897dbae3a0a8ac99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 15/48] fix: dropping a Vec leaked its storage when a
 destructor panicked

---
 src/vec.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 29184ae..cd9f008 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -4,7 +4,7 @@ use super::*;
 use crate::test_log::trace;
 use crate::{
     boxed::Box,
-    marker::impose_lifetime_mut,
+    marker::{clone_scope_access, impose_lifetime_mut},
     scope::{AllocMarker, AllocSelector},
 };
 
@@ -987,10 +987,17 @@ impl<T: 'static> Drop for Vec<T> {
     fn drop(&mut self) {
         if self.capacity() > 0 {
             trace!("dropping Vec");
+            /// Frees the storage even if a destructor of some element panics.
+            struct Dealloc<T: 'static>(ManuallyDrop<ScopePtr<[T]>>);
+            impl<T: 'static> Drop for Dealloc<T> {
+                fn drop(&mut self) {
+                    unsafe { self.0.dealloc() }
+                }
+            }
+            let _dealloc = Dealloc(clone_scope_access(&self.ptr));
             for i in 0..self.len() {
                 unsafe { drop_in_place(self.get_unchecked_mut(i)) };
             }
-            unsafe { self.ptr.dealloc() };
         } else {
             trace!("dropped Vec (unallocated)");
             // Not allocated. Nothing to drop.
-- 
2.43.0


From 78981dbf7b84db51e957bb0bb3af989d1bad0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 16/48] fix: SmallVec::insert at the end or out of bounds
 accessed the inline storage out of bounds

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..f798e8d 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -194,9 +194,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     }
 
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
-        debug_assert!(self.len() >= index);
+        assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        let write: *mut T = self.as_mut_ptr().add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
-- 
2.43.0


From 2c928859f2bb6e2db2c1a9dc9e7aa035b19cebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 17/48] fix: SmallVec::truncate never dropped the elements
 removed from inline storage

---
 src/small_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index f798e8d..e55fa99 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,9 +250,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
+            for to_drop in len..old_len {
                 unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
+                    let to_drop = self.as_mut_ptr().add(to_drop);
                     drop_in_place(to_drop);
                 }
             }
-- 
2.43.0


From 9dec6f2af3556bac777a54bb5caaf3c7c374b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 18/48] fix: SmallVec::swap_remove of the last element did an
 overlapping nonoverlapping copy

---
 src/small_vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e55fa99..f3619df 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -268,8 +268,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             let value = ptr::read(remove);
 
             // Copy last element in place of removed one.
-            let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            // It may be the removed element itself.
+            let last: *const T = self.get_unchecked(self.len() - 1);
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
-- 
2.43.0


From c6ab37215b67eaaa953bed7a967bee999bb46eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 19/48] fix: SmallVec::resize and resize_with panicked instead
 of moving to the heap

---
 src/small_vec.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index f3619df..e08a72d 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -375,7 +375,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -405,9 +404,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve(len - self.len());
         }
 
         use Storage::*;
@@ -417,6 +416,20 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve(len - self.len());
+        }
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From 6e96d6c8aec3fec3d23654e92861923f04db44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 20/48] fix: SmallVec::from([T; L]) lost all elements that fit
 inline

---
 src/small_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index e08a72d..4551de4 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -958,6 +958,7 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     L,
                 )
             };
+            unsafe { vec.set_len(L) };
             SmallVec {
                 storage: Storage::Stack(vec),
                 marker: Default::default(),
-- 
2.43.0


From c32754109744705c931f69ae052abb4c52d87fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 21/48] fix: SmallVec::try_move_to_heap_and_reserve_exact
 panicked instead of reporting an allocation failure

---
 src/small_vec.rs | 2 +-
 src/vec.rs       | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 4551de4..fa94d76 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -472,7 +472,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional)?,
         }
         Ok(())
     }
diff --git a/src/vec.rs b/src/vec.rs
index cd9f008..98c28e2 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -884,6 +884,12 @@ impl From<ArrayAllocError> for TryReserveError {
     }
 }
 
+impl From<TryReserveError> for ArrayAllocError {
+    fn from(e: TryReserveError) -> Self {
+        e.0
+    }
+}
+
 impl<T: 'static> Default for Vec<T> {
     #[inline]
     fn default() -> Self {
-- 
2.43.0


From 1cab79e3978a3b08ea22c6cad211a782daf1bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 22/48] fix: moving a SmallVec to the heap wrapped around on
 capacities that cannot be represented

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index fa94d76..c425545 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -457,7 +457,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = old_vec.len().overflow_guarded_add(additional);
+                let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
-- 
2.43.0


From bbfa46f5aacbd318f442efe7c5414564e7a667fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 23/48] fix: growing a SmallVec of zero-sized elements on the
 heap panicked with a capacity overflow

---
 src/small_vec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c425545..ba24113 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -495,6 +495,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
+        if self.len().overflow_guarded_add(additional) <= self.capacity() {
+            return Ok(());
+        }
         let new_capacity = self.capacity().overflow_guarded_add(additional);
         let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
 
-- 
2.43.0


From 3c010965ec4e85bc28a8f1dff0852cc83ba617f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 24/48] fix: SmallVec::remove read one element past the end of
 the inline storage

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index ba24113..c329f16 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -219,7 +219,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From 37528d96504d48f6ebfb6a22da6fa42f8d83f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 25/48] fix: SmallVec::split_off panicked when splitting at the
 end

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index c329f16..784a538 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -644,7 +644,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
+        let slice = unsafe { self.as_ptr().add(at) };
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
-- 
2.43.0


From f0f9e8b0961633a0881933a221b666e8c904fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 26/48] fix: Rc::new leaked the value when there was no memory
 for it

---
 src/ptr.rs | 19 ++++++++++++++++++-
 src/rc.rs  |  6 +++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 6787ffa..6e051da 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, transmute};
+use core::mem::{self, transmute, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -185,6 +185,14 @@ impl<T> ScopePtr<T> {
         Ok(ptr)
     }
 
+    /// Allocate memory for the value but do not initialize it yet. This allows to ensure there is
+    /// enough memory before the value gets moved anywhere.
+    pub(crate) fn alloc_uninit(
+        selector: AllocSelector,
+    ) -> Result<ScopePtr<MaybeUninit<T>>, AllocError> {
+        ScopePtr::alloc_layout(Layout::new::<T>(), selector)
+    }
+
     /// Allocate memory using given `Layout` and `AllocQuery`.
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
@@ -241,6 +249,15 @@ impl<T> ScopePtr<T> {
     }
 }
 
+impl<T> ScopePtr<MaybeUninit<T>> {
+    /// Initialize allocated memory with the value.
+    pub(crate) fn init(mut self, value: T) -> ScopePtr<T> {
+        self.write(value);
+        // SAFETY: we have just initialized the value.
+        unsafe { self.cast() }
+    }
+}
+
 impl<T: ?Sized> ScopePtr<T> {
     /// Deallocate memory.
     ///
diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..f4f84ee 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,14 +108,14 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
+        // If there is no memory then `val` gets dropped.
+        let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
         let b = RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
             val: val.into(),
         };
-        Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
-        ))
+        Rc(ManuallyDrop::new(ptr.init(b)))
     }
 
     pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
-- 
2.43.0


From 890103d04855fc2c2862f00602f505f7bce137b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 27/48] fix: Rc never dropped its value nor freed its storage,
 and Weak never freed it either

---
 src/rc.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f4f84ee..f6db83c 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,16 +160,14 @@ impl Rc<dyn core::any::Any + 'static> {
 
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
-        if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
-        } else {
-            self.inner().dec_strong();
-        }
+        if self.inner().dec_strong() == 1 {
+            // Destructor of the value may drop its Weaks, or may panic. Keep RcBox until the end of
+            // it by this Weak, which will also release RcBox if nothing refers to it then.
+            self.inner().inc_weak();
+            let _weak = Weak(Some(clone_scope_access(&self.0)));
 
-        if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
-            // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+            // This was the last `Rc` so drop the value.
+            unsafe { drop_in_place(self.as_mut()) }
         }
     }
 }
@@ -345,9 +343,10 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if let Some(v) = self.inner() {
             let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
+            if weak == 1 && self.strong_count() == 0 {
+                // This was the last `Weak` and there are no `Rc` so nothing refers to RcBox now.
+                if let Some(ptr) = &mut self.0 {
+                    unsafe { ManuallyDrop::drop(ptr) };
                 }
             }
         }
-- 
2.43.0


From a45a176eeacdb2fa07a071f0f7884a4f5e5798a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 28/48] fix: Rc::try_unwrap left the moved-out value reachable
 and dropped it twice

---
 src/rc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rc.rs b/src/rc.rs
index f6db83c..4f065e0 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -120,7 +120,14 @@ impl<T: 'static> Rc<T> {
 
     pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
+            let mut this = ManuallyDrop::new(this);
             let val = unsafe { ptr::read(&this.0.val) };
+            // The value is moved out so Weaks should not give access to it.
+            this.inner().set_zero_strong();
+            if Rc::weak_count(&this) == 0 {
+                // Nothing refers to RcBox now so release it.
+                unsafe { ManuallyDrop::drop(&mut this.0) };
+            }
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From 2ddba83e02e22bd026091eaca7a8d7d503e95899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 29/48] fix: Rc::make_mut corrupted the counters of the old
 storage and lost the value when out of memory

---
 src/rc.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 4f065e0..0fafa7a 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -6,7 +6,7 @@ use core::cell::Cell;
 use core::cmp::Ordering;
 use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
-use core::mem::ManuallyDrop;
+use core::mem::{self, ManuallyDrop};
 use core::ptr::drop_in_place;
 use core::{fmt, ptr};
 
@@ -141,11 +141,19 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
+                // If there is no memory then nothing should change so allocate it first.
+                let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
                 let data = unsafe { ptr::read(this.as_ref()) };
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                let b = RcBox {
+                    strong: Cell::new(1),
+                    weak: Cell::new(0),
+                    val: data.into(),
+                };
+                // Weaks will release the old RcBox.
+                mem::forget(mem::replace(this, Rc(ManuallyDrop::new(ptr.init(b)))));
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From e41ed855c7594437880c91f4c90445ca0a92a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 30/48] fix: Arc::try_new leaked the value when there was no
 memory for it

---
 src/arc.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..df6bb64 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -138,15 +138,14 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
+        // If there is no memory then `data` gets dropped.
+        let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>())?;
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(0),
             data: data.into(),
         };
-        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
-            inner,
-            AllocSelector::new::<T>(),
-        )?)))
+        Ok(Arc(ManuallyDrop::new(ptr.init(inner))))
     }
 
     #[inline]
-- 
2.43.0


From df644902f8c04bab9a2d0715a2b786733d6914fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 31/48] fix: Arc::downgrade never finished once another thread
 changed the weak count under it

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index df6bb64..b695cc8 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -259,8 +259,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From b8aaeaf20ddff6e3d29d81c405a335fd91793ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 32/48] fix: dropping an Arc's Weak did nothing, so counts
 stayed, storage leaked, and make_mut underflowed counters and lost its value
 when out of memory

---
 src/arc.rs | 67 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index b695cc8..219e93e 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // Count of `Weak`s plus one that is owned by all strong references together. The last of
+    // these to be given up releases `ArcInner`.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -142,7 +144,7 @@ impl<T: 'static> Arc<T> {
         let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>())?;
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ptr.init(inner))))
@@ -173,32 +175,38 @@ impl<T: 'static> Arc<T> {
         T: Clone,
     {
         let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
-                let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
+                // Allocate memory for a new Arc first. If there is none then nothing should change.
+                let new = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
                 match strong.try_set_zero(Acquire) {
                     Ok(_) => {
+                        // This now owns the weak reference of all strong references. It prevents
+                        // ArcInner from deallocating while we use it here, even if all other
+                        // Weaks will be Dropped in the other threads.
+                        // This binding also will automatically clean resources afterwards.
+                        let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
                         // Move out the data.
                         let data = unsafe { ptr::read(this.as_ref()) };
                         // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
+                        let inner = ArcInner {
+                            strong: AtomicUsize::new(1),
+                            weak: AtomicUsize::new(1),
+                            data: data.into(),
+                        };
+                        let new = Arc(ManuallyDrop::new(new.init(inner)));
+                        // Old Arc does not own anything no more.
+                        mem::forget(mem::replace(this, new));
                     }
                     Err(_) => {
                         // Probably, `Arc` was cloned before we have disassociated.
@@ -220,7 +228,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -235,10 +243,9 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // If nothing refers to the ArcInner no more then release it. This is done by the
+            // drop of the weak reference that was owned by all strong references.
+            let _weak = Weak(ManuallyDrop::new(this.0.clone()));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -271,7 +278,8 @@ impl<T: ?Sized> Arc<T> {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
         // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        // One more is owned by all strong references.
+        cnt.get().unwrap_or(1) - 1
     }
 
     #[inline]
@@ -321,7 +329,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -332,7 +340,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -347,14 +355,13 @@ impl<T: ?Sized> Arc<T> {
     // Non-inlined part of `drop`.
     #[inline(never)]
     unsafe fn drop_slow(&mut self) {
+        // Release the storage afterwards if Weaks are not alive, even if destructor panics. This
+        // is done by the drop of the weak reference that was owned by all strong references.
+        let _weak = Weak(ManuallyDrop::new(self.0.clone()));
+
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
-
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
     }
 }
 
@@ -540,6 +547,16 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    fn drop(&mut self) {
+        // See `Drop` of `Arc` for the details about the orderings here.
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+            unsafe { ManuallyDrop::drop(&mut self.0) };
+        }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 852526e00abdc34c7228d90f90354ee430e2e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 33/48] fix: ScopePtr leaked its memory when the destructor of
 the value panicked

---
 src/ptr.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 6e051da..2717229 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -33,10 +33,15 @@ impl<T: ?Sized> DerefMut for ScopePtr<T> {
 impl<T: ?Sized> Drop for ScopePtr<T> {
     fn drop(&mut self) {
         trace!("dropping ScopeAccess ({:#?})", self.ptr.as_ptr());
-        unsafe {
-            self.ptr.as_ptr().drop_in_place();
-            self.dealloc();
+        /// Frees the memory even if the destructor of the value panics.
+        struct Dealloc<'a, T: ?Sized>(&'a mut ScopePtr<T>);
+        impl<T: ?Sized> Drop for Dealloc<'_, T> {
+            fn drop(&mut self) {
+                unsafe { self.0.dealloc() }
+            }
         }
+        let access = Dealloc(self);
+        unsafe { access.0.ptr.as_ptr().drop_in_place() };
     }
 }
 
-- 
2.43.0


From 8c5bc236141fe23db50d9e3be217f8939a3cfa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 34/48] fix: a refused Urc::try_unwrap reset the count of
 strong fences

---
 src/urc.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..9d34342 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -256,6 +256,11 @@ impl<T> Urc<T> {
     }
 
     pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,11 +272,6 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
-- 
2.43.0


From 0bf412880ee1b57ec6c30ffd4dc723132088962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 35/48] fix: Urc::get_mut left the weak fence count locked when
 refused and gave access despite weak references

---
 src/urc.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 9d34342..65781d8 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -395,26 +395,16 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
-
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        // Since there is only one strong Fence then only this thread owns the data
+        // so it is safe to proceed without locking. New references can appear only by using
+        // this one: weak fences of the other threads cannot become strong again.
+        //
+        // `strong_fence` should be loaded first. Fence that becomes weak is counted
+        // in `weak_fence` before its strong reference is given up.
+        self.master().strong_fence.load(Acquire) == 1
+            && self.fence().strong_count() == 1
+            && self.fence().weak_count() == 0
+            && self.master().weak_fence.load(Acquire) == 0
     }
 }
 
-- 
2.43.0


From 2d7136b614fee4fc03e610664b88df8ade5c5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 36/48] fix: Urc released its data and storage while still in
 use, or never, and make_mut ignored other strong references

---
 src/urc.rs | 180 ++++++++++++++++++++++++++---------------------------
 1 file changed, 87 insertions(+), 93 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 65781d8..f937f5a 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,8 +10,7 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
-use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
+use crate::marker::{clone_scope_access, MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
 use core::any::Any;
@@ -91,6 +90,20 @@ impl<T: ?Sized> Fence<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Fence<T> {
+    /// Give up the share of the `Master` that is owned by this `Fence`.
+    fn drop(&mut self) {
+        let master = clone_scope_access(&self.master);
+        unsafe {
+            if self.is_strong() {
+                Master::release_strong(master);
+            } else {
+                Master::release_weak(master);
+            }
+        }
+    }
+}
+
 impl<T> Fence<T> {
     /// Create `Urc` for this `Fence`.
     pub fn into_urc(self) -> Urc<T> {
@@ -109,6 +122,8 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// One more is counted for all strong fences together. The last of these to be given up
+    /// releases `Master`.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -116,6 +131,43 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+impl<T: ?Sized> Master<T> {
+    /// Give up the share of one strong fence.
+    ///
+    /// # Safety
+    /// The share should be owned by the caller and not used afterwards.
+    unsafe fn release_strong(mut master: ManuallyDrop<ScopePtr<Self>>) {
+        if master.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop the data as this was the last strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            /// Releases the share of all strong fences, even if destructor of the data panics.
+            struct ReleaseWeak<T: ?Sized>(ManuallyDrop<ScopePtr<Master<T>>>);
+            impl<T: ?Sized> Drop for ReleaseWeak<T> {
+                fn drop(&mut self) {
+                    unsafe { Master::release_weak(clone_scope_access(&self.0)) }
+                }
+            }
+            let _release_weak = ReleaseWeak(clone_scope_access(&master));
+
+            // Destroy the data at this time, even though we must not free the box
+            // allocation itself (there might still be weak pointers lying around).
+            drop_in_place(MaybeDropped::as_mut(&mut master.data));
+        }
+    }
+
+    /// Give up the share of one weak fence, or the one of all strong fences.
+    ///
+    /// # Safety
+    /// The share should be owned by the caller and not used afterwards.
+    unsafe fn release_weak(mut master: ManuallyDrop<ScopePtr<Self>>) {
+        if master.weak_fence.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+            ManuallyDrop::drop(&mut master);
+        }
+    }
+}
+
 pub struct Urc<T: ?Sized + 'static> {
     /// A fence of this Urc.
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
@@ -125,10 +177,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -164,11 +213,8 @@ impl<T: ?Sized> Urc<T> {
     #[must_use = "this returns a new `Weak` pointer, without modifying the original `Urc`"]
     pub fn downgrade(this: &Self) -> Weak<T> {
         this.fence().inc_weak();
-        unsafe {
-            Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
-            }
+        Weak {
+            fence: clone_scope_access(&this.fence),
         }
     }
 
@@ -218,7 +264,7 @@ impl<T> Urc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
+            weak_fence: 1.into(),
             data: data.into(),
         };
         let fence = Fence {
@@ -276,15 +322,12 @@ impl<T> Urc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
+            // The Fence becomes weak. It now owns the share of Master that strong fences had.
+            this.fence_mut().strong.set(0);
+
             // If nothing refers to the Fence no more then release it.
             if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
                 ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
             }
 
             // Prevent normal Drop execution - we already managed resources here.
@@ -311,57 +354,29 @@ impl<T> Urc<T> {
             () => {{
                 let data = unsafe { ptr::read(this.as_ref()) };
                 // Set strong to zero to indicate this Fence/Master
-                // does not own any data no more.
+                // does not own any data no more. The Fence becomes weak and it now owns the share
+                // of Master that strong fences had.
                 this.fence_mut().strong.set(0);
                 this.master_mut().strong_fence.store(0, Release);
 
-                *this = Self::new(data);
+                let mut old = ManuallyDrop::new(mem::replace(this, Self::new(data)));
+                // If nothing refers to the old Fence no more then release it.
+                if old.fence().weak_count() == 0 {
+                    unsafe { ManuallyDrop::drop(&mut old.fence) };
+                }
                 unsafe { Urc::get_mut_unchecked(this) }
             }};
         );
 
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
-                }
-            } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
+        if this.master().strong_fence.load(Acquire) == 1 && this.fence().strong_count() == 1 {
+            // This is the only strong reference, in all threads.
 
+            if this.fence().weak_count() == 0 && this.master().weak_fence.load(Acquire) == 1 {
+                // There are no weak references. We own the data and no other thread
+                // cannot possibly clone the data.
+                unsafe { Urc::get_mut_unchecked(this) }
+            } else {
+                // Disassociate weak pointers of this or the other threads from the data.
                 move_out!()
             }
         } else {
@@ -404,7 +419,7 @@ impl<T> Urc<T> {
         self.master().strong_fence.load(Acquire) == 1
             && self.fence().strong_count() == 1
             && self.fence().weak_count() == 0
-            && self.master().weak_fence.load(Acquire) == 0
+            && self.master().weak_fence.load(Acquire) == 1
     }
 }
 
@@ -433,11 +448,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -489,26 +499,19 @@ impl<T: ?Sized> Drop for Urc<T> {
         if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
             // The fence is no more referenced so drop it.
             trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
             unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
         } else {
             // There are still either other strong or some weak references.
             // Just decrement the counter and keep the Fence.
-            self.fence().dec_strong()
+            self.fence().dec_strong();
+
+            if self.fence().is_weak() {
+                // There are only weak references now so this is a weak fence. It is not accessed
+                // after its strong share is given up as data destructor may drop the Weaks.
+                let master = clone_scope_access(&self.fence.master);
+                master.weak_fence.fetch_add(1, Relaxed);
+                unsafe { Master::release_strong(master) };
+            }
         }
     }
 }
@@ -517,16 +520,7 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         } else {
             // There are still either some strong or other weak references.
             // Just decrement the counter and keep the Fence.
-- 
2.43.0


From c3dcd83eb08983350b0f8084cc13b73cb593018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 37/48] fix: Urc::try_new leaked, and Urc::make_mut lost the
 data of, a Urc when there was no memory

---
 src/urc.rs | 55 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index f937f5a..7ee0110 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -176,6 +176,39 @@ pub struct Urc<T: ?Sized + 'static> {
     data: Scoped<T>,
 }
 
+/// Memory for a new `Urc`. It is allocated in advance so that no data is lost if there is none.
+struct UrcMemory<T> {
+    master: ScopePtr<MaybeUninit<Master<T>>>,
+    fence: ScopePtr<MaybeUninit<Fence<T>>>,
+}
+
+impl<T> UrcMemory<T> {
+    fn try_alloc() -> Result<Self, AllocError> {
+        Ok(UrcMemory {
+            master: ScopePtr::alloc_uninit(AllocSelector::new::<Master<T>>())?,
+            fence: ScopePtr::alloc_uninit(AllocSelector::new::<T>())?,
+        })
+    }
+
+    fn init(self, data: T) -> Urc<T> {
+        let master = Master {
+            strong_fence: 1.into(),
+            weak_fence: 1.into(),
+            data: data.into(),
+        };
+        let fence = Fence {
+            strong: 1.into(),
+            weak: 0.into(),
+            master: ManuallyDrop::new(self.master.init(master)),
+        };
+        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
+        Urc {
+            fence: ManuallyDrop::new(self.fence.init(fence)),
+            data,
+        }
+    }
+}
+
 pub struct Weak<T: ?Sized + 'static> {
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
@@ -262,23 +295,7 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let master = Master {
-            strong_fence: 1.into(),
-            weak_fence: 1.into(),
-            data: data.into(),
-        };
-        let fence = Fence {
-            strong: 1.into(),
-            weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
-        };
-        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
-        let urc = Urc {
-            fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>())?),
-            data,
-        };
-
-        Ok(urc)
+        Ok(UrcMemory::try_alloc()?.init(data))
     }
 
     #[inline]
@@ -352,6 +369,8 @@ impl<T> Urc<T> {
         // Move out the data to another completely new Master.
         macro_rules! move_out(
             () => {{
+                // If there is no memory then nothing should change so allocate it first.
+                let memory = UrcMemory::try_alloc().unwrap();
                 let data = unsafe { ptr::read(this.as_ref()) };
                 // Set strong to zero to indicate this Fence/Master
                 // does not own any data no more. The Fence becomes weak and it now owns the share
@@ -359,7 +378,7 @@ impl<T> Urc<T> {
                 this.fence_mut().strong.set(0);
                 this.master_mut().strong_fence.store(0, Release);
 
-                let mut old = ManuallyDrop::new(mem::replace(this, Self::new(data)));
+                let mut old = ManuallyDrop::new(mem::replace(this, memory.init(data)));
                 // If nothing refers to the old Fence no more then release it.
                 if old.fence().weak_count() == 0 {
                     unsafe { ManuallyDrop::drop(&mut old.fence) };
-- 
2.43.0


From 7ba3833f687eb018844115a191a8aeb70ce147aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 38/48] fix: scope::spawn set a garbage pointer as the current
 scope and did not restore it after a panic

---
 src/scope.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..1206834 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,6 +1,7 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
-use core::mem::transmute_copy;
+use core::mem::{transmute, transmute_copy};
+use core::ptr::write_volatile;
 use std::any::type_name;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -132,22 +133,42 @@ impl Env {
     where
         S: Scope,
     {
-        use crate::marker::UnsafeFrom;
+        /// Restores the previous scope after the new one is done or has panicked.
+        struct Restore<'env> {
+            env: &'env mut Env,
+            prev: *mut (dyn Scope + 'static),
+        }
+        impl Drop for Restore<'_> {
+            fn drop(&mut self) {
+                // SAFETY: we give up execution to previous scope so restore previous
+                // scope's lifetime by unsafe_into.
+                unsafe { self.env.set_current(&mut *self.prev) };
+            }
+        }
+
         unsafe {
             // SAFETY: we definitely know the lifetime will be valid during scope execution.
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
+            let restore = Restore { env: self, prev };
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            let scope: &mut dyn Scope = &mut new_scope;
+            restore.env.set_current(transmute(scope));
 
-            let t = f(&mut new_scope);
-            // SAFETY: we will give up execution to previous scope so restore previous
-            // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            f(&mut new_scope)
         }
     }
 
+    /// Set current scope.
+    ///
+    /// # Safety
+    /// The scope should be valid until the other one is set.
+    unsafe fn set_current(&mut self, scope: &mut (dyn Scope + 'static)) {
+        // The scope will be read through the other references to this `Env` that are given out by
+        // the `ENV` function. Volatile write ensures it is not optimized out.
+        write_volatile(&mut self.cur, scope.unsafe_into());
+    }
+
     /// Get current scope. The scope's lifetime is bound to the lifetime of current function
     /// (or more exactly, to the value passed to create a bound to). The lifetime
     /// is required so that the scope reference will not be returned outside of the
-- 
2.43.0


From ea72873c0edcfb3d34376bb94e49a48ac60b0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 39/48] sim: guarded seam for atomics and per-thread counters
 (--cfg lokky_sim)

---
 src/arc.rs |   2 +
 src/lib.rs |   6 +
 src/sim.rs | 336 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 src/urc.rs |   2 +
 4 files changed, 346 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/arc.rs b/src/arc.rs
index 219e93e..7682bc8 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -1,3 +1,5 @@
+#[cfg(lokky_sim)]
+use crate::sim::simcore as core;
 use crate::{marker::MaybeDropped, scope::AllocSelector, AllocError, ScopePtr};
 use core::sync::atomic::Ordering::{Acquire, Relaxed, Release, SeqCst};
 use core::{
diff --git a/src/lib.rs b/src/lib.rs
index be0678e..0decfcf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,10 +1,16 @@
 #![no_std]
+// `lokky_sim` flag builds the crate for deterministic simulation.
+#![allow(unexpected_cfgs)]
 
 #[cfg(not(feature = "no_std"))]
 extern crate std;
 
 mod test_log;
 
+#[cfg(lokky_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 mod ptr;
 pub use ptr::*;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..81e253e
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,336 @@
+//! Hooks for deterministic simulation. This module only exists when the crate is built
+//! with `--cfg lokky_sim`, ordinary builds do not contain any of this.
+//!
+//! Modules that synchronize threads do `use crate::sim::simcore as core` under that flag. This
+//! makes every atomic operation, spin hint and access to unsynchronized counters in them be
+//! decided by the registered [Hooks]. While no hooks are registered everything behaves
+//! as the real `core` does.
+
+use ::core::ptr::null_mut;
+use ::core::sync::atomic as real;
+use real::Ordering;
+
+/// Decides outcomes of the operations. The real value of an atomic is always kept
+/// in its own memory location too.
+pub struct Hooks {
+    pub load: fn(&real::AtomicUsize, Ordering) -> usize,
+    pub store: fn(&real::AtomicUsize, usize, Ordering),
+    /// Read-modify-write. Closure receives current value and returns the new one, if any. The last
+    /// argument is whether the operation may fail spuriously.
+    pub rmw: fn(
+        &real::AtomicUsize,
+        &mut dyn FnMut(usize) -> Option<usize>,
+        Ordering,
+        Ordering,
+        bool,
+    ) -> Result<usize, usize>,
+    /// Access to an atomic by the exclusive reference.
+    pub exclusive: fn(&real::AtomicUsize),
+    pub fence: fn(Ordering),
+    pub spin: fn(),
+    /// Access to the cell of given address and size. Last argument is whether it is a write.
+    pub cell: fn(usize, usize, bool),
+}
+
+static HOOKS: real::AtomicPtr<Hooks> = real::AtomicPtr::new(null_mut());
+
+/// Set hooks that will decide all operations from now on.
+pub fn set_hooks(hooks: Option<&'static Hooks>) {
+    let ptr = hooks.map_or(null_mut(), |h| h as *const Hooks as *mut Hooks);
+    HOOKS.store(ptr, Ordering::SeqCst);
+}
+
+#[inline]
+fn hooks() -> Option<&'static Hooks> {
+    unsafe { HOOKS.load(Ordering::Relaxed).as_ref() }
+}
+
+/// Replacement of the `core` crate.
+pub mod simcore {
+    pub use ::core::*;
+
+    pub mod hint {
+        pub use ::core::hint::*;
+
+        pub fn spin_loop() {
+            match super::super::hooks() {
+                Some(h) => (h.spin)(),
+                None => ::core::hint::spin_loop(),
+            }
+        }
+    }
+
+    pub mod cell {
+        pub use ::core::cell::*;
+
+        /// [Cell](::core::cell::Cell) that reports accesses to it.
+        #[derive(Default)]
+        #[repr(transparent)]
+        pub struct Cell<T>(::core::cell::Cell<T>);
+
+        impl<T> Cell<T> {
+            pub const fn new(val: T) -> Self {
+                Cell(::core::cell::Cell::new(val))
+            }
+
+            fn access(&self, write: bool) {
+                if let Some(h) = super::super::hooks() {
+                    let size = ::core::mem::size_of::<T>();
+                    (h.cell)(self as *const Self as usize, size, write);
+                }
+            }
+
+            pub fn get(&self) -> T
+            where
+                T: Copy,
+            {
+                self.access(false);
+                self.0.get()
+            }
+
+            pub fn set(&self, val: T) {
+                self.access(true);
+                self.0.set(val)
+            }
+
+            pub fn replace(&self, val: T) -> T {
+                self.access(true);
+                self.0.replace(val)
+            }
+
+            pub fn take(&self) -> T
+            where
+                T: Default,
+            {
+                self.replace(Default::default())
+            }
+
+            pub fn update(&self, f: impl FnOnce(T) -> T)
+            where
+                T: Copy,
+            {
+                self.set(f(self.get()))
+            }
+
+            pub fn swap(&self, other: &Self) {
+                self.access(true);
+                other.access(true);
+                self.0.swap(&other.0)
+            }
+
+            pub fn get_mut(&mut self) -> &mut T {
+                self.access(true);
+                self.0.get_mut()
+            }
+
+            pub fn as_ptr(&self) -> *mut T {
+                self.0.as_ptr()
+            }
+
+            pub fn into_inner(self) -> T {
+                self.0.into_inner()
+            }
+        }
+
+        impl<T> From<T> for Cell<T> {
+            fn from(val: T) -> Self {
+                Cell::new(val)
+            }
+        }
+
+        impl<T: Copy> Clone for Cell<T> {
+            fn clone(&self) -> Self {
+                Cell::new(self.get())
+            }
+        }
+
+        impl<T: Copy + ::core::fmt::Debug> ::core::fmt::Debug for Cell<T> {
+            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+    }
+
+    pub mod sync {
+        pub use ::core::sync::*;
+
+        pub mod atomic {
+            use super::super::super::hooks;
+            use ::core::sync::atomic as real;
+            pub use ::core::sync::atomic::*;
+
+            pub fn fence(order: Ordering) {
+                match hooks() {
+                    Some(h) => (h.fence)(order),
+                    None => real::fence(order),
+                }
+            }
+
+            /// [AtomicUsize](real::AtomicUsize) that lets hooks decide operations on it.
+            #[derive(Default)]
+            #[repr(transparent)]
+            pub struct AtomicUsize(real::AtomicUsize);
+
+            impl AtomicUsize {
+                pub const fn new(val: usize) -> Self {
+                    AtomicUsize(real::AtomicUsize::new(val))
+                }
+
+                pub fn load(&self, order: Ordering) -> usize {
+                    match hooks() {
+                        Some(h) => (h.load)(&self.0, order),
+                        None => self.0.load(order),
+                    }
+                }
+
+                pub fn store(&self, val: usize, order: Ordering) {
+                    match hooks() {
+                        Some(h) => (h.store)(&self.0, val, order),
+                        None => self.0.store(val, order),
+                    }
+                }
+
+                fn rmw(
+                    &self,
+                    mut f: impl FnMut(usize) -> Option<usize>,
+                    success: Ordering,
+                    failure: Ordering,
+                    weak: bool,
+                ) -> Result<usize, usize> {
+                    match hooks() {
+                        Some(h) => (h.rmw)(&self.0, &mut f, success, failure, weak),
+                        None => self.0.try_update(success, failure, f),
+                    }
+                }
+
+                fn fetch(&self, mut f: impl FnMut(usize) -> usize, order: Ordering) -> usize {
+                    let failure = Ordering::Relaxed;
+                    match self.rmw(|v| Some(f(v)), order, failure, false) {
+                        Ok(val) | Err(val) => val,
+                    }
+                }
+
+                pub fn swap(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|_| val, order)
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: usize,
+                    new: usize,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<usize, usize> {
+                    let f = |v| (v == current).then_some(new);
+                    self.rmw(f, success, failure, false)
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: usize,
+                    new: usize,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<usize, usize> {
+                    let f = |v| (v == current).then_some(new);
+                    self.rmw(f, success, failure, true)
+                }
+
+                pub fn fetch_update(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: impl FnMut(usize) -> Option<usize>,
+                ) -> Result<usize, usize> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            Ok(val) => return Ok(val),
+                            Err(val) => prev = val,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn try_update(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    f: impl FnMut(usize) -> Option<usize>,
+                ) -> Result<usize, usize> {
+                    self.fetch_update(set_order, fetch_order, f)
+                }
+
+                pub fn update(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: impl FnMut(usize) -> usize,
+                ) -> usize {
+                    match self.fetch_update(set_order, fetch_order, |v| Some(f(v))) {
+                        Ok(val) | Err(val) => val,
+                    }
+                }
+
+                pub fn fetch_add(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v.wrapping_add(val), order)
+                }
+
+                pub fn fetch_sub(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v.wrapping_sub(val), order)
+                }
+
+                pub fn fetch_and(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v & val, order)
+                }
+
+                pub fn fetch_nand(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| !(v & val), order)
+                }
+
+                pub fn fetch_or(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v | val, order)
+                }
+
+                pub fn fetch_xor(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v ^ val, order)
+                }
+
+                pub fn fetch_max(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v.max(val), order)
+                }
+
+                pub fn fetch_min(&self, val: usize, order: Ordering) -> usize {
+                    self.fetch(|v| v.min(val), order)
+                }
+
+                pub fn get_mut(&mut self) -> &mut usize {
+                    if let Some(h) = hooks() {
+                        (h.exclusive)(&self.0);
+                    }
+                    self.0.get_mut()
+                }
+
+                pub fn as_ptr(&self) -> *mut usize {
+                    self.0.as_ptr()
+                }
+
+                pub fn into_inner(self) -> usize {
+                    self.0.into_inner()
+                }
+            }
+
+            impl From<usize> for AtomicUsize {
+                fn from(val: usize) -> Self {
+                    AtomicUsize::new(val)
+                }
+            }
+
+            impl ::core::fmt::Debug for AtomicUsize {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+        }
+    }
+}
diff --git a/src/urc.rs b/src/urc.rs
index 7ee0110..1a684db 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,6 +10,8 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
+#[cfg(lokky_sim)]
+use crate::sim::simcore as core;
 use crate::marker::{clone_scope_access, MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
-- 
2.43.0


From ee6a592bc68bef89f857eb6d0ef153bb2b15a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 40/48] fix: Vec::swap_remove of the last element did an
 overlapping nonoverlapping copy

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 98c28e2..9944568 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -365,10 +365,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are the same if the last element is removed.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From a907dedb479e7994f63a3e23ab3a60ada1099bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 41/48] fix: extending an empty String by Strings forgot the
 marker it was created with

---
 src/string.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..64d1434 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -502,10 +502,15 @@ impl Extend<String> for String {
     fn extend<T: IntoIterator<Item = String>>(&mut self, iter: T) {
         let mut iter = iter.into_iter();
 
-        // Use already allocated String if current one is not.
+        // Use already allocated String if current one is not. It should be of the same marker, as
+        // otherwise this String would forget the one it was created with.
         if self.capacity() == 0 {
             if let Some(s) = iter.next() {
-                self.vec = s.vec;
+                if s.vec.marker() == self.vec.marker() {
+                    self.vec = s.vec;
+                } else {
+                    self.push_str(&s);
+                }
             }
         }
 
-- 
2.43.0


From 9f2f6946f869d5d661ae73a69f5976f6882ca98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 42/48] fix: markers and selectors made for one type in
 different places could be unequal

---
 src/scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 1206834..80043ad 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -28,8 +28,8 @@ pub enum AllocMarker {
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
     // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // The strings themselves are compared, as the name of the same type may be placed at different
+    // addresses in different codegen units.
     Type(&'static str),
 }
 
@@ -37,7 +37,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -47,7 +47,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -70,14 +70,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From 4978051c126c1753b29d14e65e4c6c73a004af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 43/48] sim: use the guarded seam in every module, for core and
 std paths alike

---
 src/arc.rs       |  3 ++-
 src/boxed.rs     |  3 +++
 src/marker.rs    |  3 +++
 src/ptr.rs       |  3 +++
 src/rc.rs        |  3 +++
 src/scope.rs     |  3 +++
 src/sim.rs       | 32 +++++++++++++++++++++++++++++++-
 src/small_vec.rs |  3 +++
 src/string.rs    |  3 +++
 src/urc.rs       |  3 ++-
 src/vec.rs       |  3 +++
 11 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 7682bc8..98a2325 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -1,5 +1,6 @@
 #[cfg(lokky_sim)]
-use crate::sim::simcore as core;
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::{marker::MaybeDropped, scope::AllocSelector, AllocError, ScopePtr};
 use core::sync::atomic::Ordering::{Acquire, Relaxed, Release, SeqCst};
 use core::{
diff --git a/src/boxed.rs b/src/boxed.rs
index 2e5a93c..1c3af5b 100644
--- a/src/boxed.rs
+++ b/src/boxed.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::scope::{AllocMarker, AllocSelector};
 use crate::*;
 use core::cmp::Ordering;
diff --git a/src/marker.rs b/src/marker.rs
index bc7e7eb..5984ded 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -1,5 +1,8 @@
 #![allow(dead_code)]
 
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::ScopePtr;
 use core::mem::ManuallyDrop;
 
diff --git a/src/ptr.rs b/src/ptr.rs
index 2717229..568bdaf 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::marker::Scoped;
 use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
diff --git a/src/rc.rs b/src/rc.rs
index 0fafa7a..152a7ca 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::boxed::Box;
 use crate::marker::{clone_scope_access, MaybeDropped};
 use crate::scope::AllocSelector;
diff --git a/src/scope.rs b/src/scope.rs
index 80043ad..64d6b19 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
 use core::mem::{transmute, transmute_copy};
diff --git a/src/sim.rs b/src/sim.rs
index 81e253e..cd84c88 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1,7 +1,7 @@
 //! Hooks for deterministic simulation. This module only exists when the crate is built
 //! with `--cfg lokky_sim`, ordinary builds do not contain any of this.
 //!
-//! Modules that synchronize threads do `use crate::sim::simcore as core` under that flag. This
+//! Modules use [simcore] and [simstd] as `core` and `std` under that flag. This
 //! makes every atomic operation, spin hint and access to unsynchronized counters in them be
 //! decided by the registered [Hooks]. While no hooks are registered everything behaves
 //! as the real `core` does.
@@ -138,6 +138,14 @@ pub mod simcore {
             }
         }
 
+        impl<T: PartialEq + Copy> PartialEq for Cell<T> {
+            fn eq(&self, other: &Self) -> bool {
+                self.get() == other.get()
+            }
+        }
+
+        impl<T: Eq + Copy> Eq for Cell<T> {}
+
         impl<T: Copy> Clone for Cell<T> {
             fn clone(&self) -> Self {
                 Cell::new(self.get())
@@ -315,6 +323,11 @@ pub mod simcore {
                     self.0.as_ptr()
                 }
 
+                #[allow(clippy::missing_safety_doc)]
+                pub unsafe fn from_ptr<'a>(ptr: *mut usize) -> &'a AtomicUsize {
+                    &*(ptr as *const AtomicUsize)
+                }
+
                 pub fn into_inner(self) -> usize {
                     self.0.into_inner()
                 }
@@ -334,3 +347,20 @@ pub mod simcore {
         }
     }
 }
+
+/// Replacement of the `std` crate.
+#[cfg(not(feature = "no_std"))]
+pub mod simstd {
+    pub use super::simcore::{cell, hint};
+    pub use ::std::*;
+
+    pub mod sync {
+        pub use super::super::simcore::sync::atomic;
+        pub use ::std::sync::*;
+    }
+
+    pub mod thread {
+        pub use super::super::simcore::hint::spin_loop as yield_now;
+        pub use ::std::thread::*;
+    }
+}
diff --git a/src/small_vec.rs b/src/small_vec.rs
index 784a538..f7d21f7 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use core::borrow::{Borrow, BorrowMut};
 use core::fmt::{self, Display};
 use core::hash::Hash;
diff --git a/src/string.rs b/src/string.rs
index 64d1434..87e784c 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use core::slice;
 use core::{char::decode_utf16, convert::Infallible, mem::MaybeUninit, ptr, str::Utf8Error};
 
diff --git a/src/urc.rs b/src/urc.rs
index 1a684db..3a8cf50 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -11,7 +11,8 @@
 //! synchronize such data with each another.
 
 #[cfg(lokky_sim)]
-use crate::sim::simcore as core;
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use crate::marker::{clone_scope_access, MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
diff --git a/src/vec.rs b/src/vec.rs
index 9944568..1531c32 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1,3 +1,6 @@
+#[cfg(lokky_sim)]
+#[allow(unused_imports)]
+use crate::sim::{simcore as core, simstd as std};
 use core::{borrow::{Borrow, BorrowMut}, cmp, fmt, hash::{Hash, Hasher}, iter::FusedIterator, mem::{self, size_of, ManuallyDrop, MaybeUninit}, ops::{Deref, DerefMut, Index, IndexMut, RangeBounds}, ptr::{self, copy_nonoverlapping, drop_in_place}, slice::{self, SliceIndex}};
 
 use super::*;
-- 
2.43.0


From 3bae15ec2a135fa23be2bb031361b28931302c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 44/48] fix: Debug of String printed the text without quotes
 and escapes, unlike str

---
 src/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.rs b/src/string.rs
index 87e784c..5a829e3 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -408,7 +408,7 @@ impl core::fmt::Display for String {
 impl core::fmt::Debug for String {
     #[inline]
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
-        core::fmt::Display::fmt(&**self, f)
+        core::fmt::Debug::fmt(&**self, f)
     }
 }
 
-- 
2.43.0


From f8d1621391774794631367a5e147aa3ba7abfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 45/48] fix: value could be dropped in the middle of formatting
 it through rc::Weak

---
 src/rc.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 152a7ca..9a5e810 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -339,11 +339,12 @@ impl<T: ?Sized> Clone for Weak<T> {
 
 impl<T: fmt::Debug + ?Sized> fmt::Debug for Weak<T> {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        if let Some(v) = self.inner() {
-            if v.is_dealloc() {
-                write!(f, "(Weak deallocated)")
+        if self.inner().is_some() {
+            // Formatting may drop the last other `Rc` so own the value meanwhile.
+            if let Some(rc) = self.upgrade() {
+                write!(f, "(Weak({:?}))", rc)
             } else {
-                unsafe { write!(f, "(Weak({:?}))", MaybeDropped::as_ref(&v.val)) }
+                write!(f, "(Weak deallocated)")
             }
         } else {
             write!(f, "(Weak null)")
-- 
2.43.0


From fb36c84d8ef9db2243f9488359a0cffa7bc4fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 46/48] fix: counters of Rc overflowed when too many handles
 were forgotten

---
 src/rc.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 9a5e810..5d4ca80 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -13,6 +13,9 @@ use core::mem::{self, ManuallyDrop};
 use core::ptr::drop_in_place;
 use core::{fmt, ptr};
 
+/// Limit of the counters. More references than this can only exist if these are `mem::forget`ed.
+const MAX_REFCOUNT: usize = isize::MAX as _;
+
 /// Internal allocated holder for value and counters of Rc.
 struct RcBox<T: ?Sized> {
     strong: Cell<usize>,
@@ -42,8 +45,13 @@ impl<T: ?Sized> RcBox<T> {
     }
 
     /// Increase strong counter.
+    ///
+    /// # Panics
+    /// If there are too many references. The counter would overflow otherwise.
     fn inc_strong(&self) -> usize {
-        self.strong.replace(self.strong.get() + 1)
+        let count = self.strong.get();
+        assert!(count < MAX_REFCOUNT, "Rc exceeded MAX_REFCOUNT of {MAX_REFCOUNT}");
+        self.strong.replace(count + 1)
     }
 
     /// Decrease weak counter.
@@ -52,8 +60,13 @@ impl<T: ?Sized> RcBox<T> {
     }
 
     /// Increase weak counter.
+    ///
+    /// # Panics
+    /// If there are too many references. The counter would overflow otherwise.
     fn inc_weak(&self) -> usize {
-        self.weak.replace(self.weak.get() + 1)
+        let count = self.weak.get();
+        assert!(count < MAX_REFCOUNT, "Weak exceeded MAX_REFCOUNT of {MAX_REFCOUNT}");
+        self.weak.replace(count + 1)
     }
 }
 
@@ -180,8 +193,10 @@ impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
         if self.inner().dec_strong() == 1 {
             // Destructor of the value may drop its Weaks, or may panic. Keep RcBox until the end of
-            // it by this Weak, which will also release RcBox if nothing refers to it then.
-            self.inner().inc_weak();
+            // it by this Weak, which will also release RcBox if nothing refers to it then. This one
+            // is not subject to the limit as there is no place for a panic here.
+            let weak_count = self.inner().weak.get();
+            self.inner().weak.set(weak_count + 1);
             let _weak = Weak(Some(clone_scope_access(&self.0)));
 
             // This was the last `Rc` so drop the value.
-- 
2.43.0


From 0e27f33544c4689badde39f027f6ff3dec8e113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 47/48] fix: counters of Urc overflowed when too many handles
 were forgotten

---
 src/urc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/urc.rs b/src/urc.rs
index 3a8cf50..793c17a 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -28,6 +28,10 @@ use core::{fmt, mem, ptr};
 use std::panic::{RefUnwindSafe, UnwindSafe};
 use crate::test_log::trace;
 
+/// Limit of the counters of `Fence`. More references than this can only exist if these
+/// are `mem::forget`ed.
+const MAX_REFCOUNT: usize = isize::MAX as _;
+
 // TODO update this docs, it seems we wont share Fence directly, instead use Envelopes!!!
 /// `Fence` allows to share the data behind `Urc` between threads.
 /// Each `Urc` in a single thread points to it's corresponding `Fence`.
@@ -66,15 +70,21 @@ impl<T: ?Sized> Fence<T> {
         self.weak.get()
     }
 
+    /// # Panics
+    /// If there are too many references. The counter would overflow otherwise.
     #[inline]
     fn inc_weak(&self) {
         let v = self.weak.get();
+        assert!(v < MAX_REFCOUNT, "Weak exceeded MAX_REFCOUNT of {MAX_REFCOUNT}");
         self.weak.set(v + 1);
     }
 
+    /// # Panics
+    /// If there are too many references. The counter would overflow otherwise.
     #[inline(always)]
     fn inc_strong(&self) {
         let v = self.strong.get();
+        assert!(v < MAX_REFCOUNT, "Urc exceeded MAX_REFCOUNT of {MAX_REFCOUNT}");
         self.strong.set(v + 1);
     }
 
-- 
2.43.0


From 680c72e768ac787ee5ace7a926ab1d00aff506dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 48/48] fix: Arc::downgrade hung or wrapped the count when too
 many Weaks were forgotten

---
 src/arc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arc.rs b/src/arc.rs
index 98a2325..9d32396 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -269,6 +269,11 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
+            // See the `clone` for why this is checked. Here it also keeps the count from
+            // reaching the value that means it is locked.
+            if weak.val > MAX_REFCOUNT {
+                panic!("Arc downgrade exceeded MAX_REFCOUNT of {}", MAX_REFCOUNT);
+            }
             match weak.try_increment(Acquire) {
                 Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
                 Err(val) => weak.val = val,
-- 
2.43.0

