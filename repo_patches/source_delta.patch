From cdc0c9b7de154da82e5fd1a24dc81009eb9e35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 01/22] fix: insert at the byte offset of the index, not at the
 index (aligned)

---
 src/inner/aligned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From bd11150389e804eecd21e4cf8daf0c54c1f1530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 02/22] fix: insert at the byte offset of the index, not at the
 index (unaligned)

---
 src/inner/unaligned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 8692f751aca0c8ae330f59caa42fcd628ecf4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 03/22] fix: don't underflow when inserting at or removing the
 end after a padded element

---
 src/inner/unaligned.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..8556c7f 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -604,7 +604,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            // The padded length: `start_offset` is past the unpadded one
+            // when inserting after an element that needs padding.
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -691,10 +693,12 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                // The padded length: `start_offset` is past the unpadded one
+                // when inserting after an element that needs padding.
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -827,10 +831,12 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        // The padded length: `start_offset` is past the unpadded one
+        // when the last element is removed and the one before it needs padding.
+        let aligned_len = self.aligned_byte_len();
 
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        // SAFETY: new padded end of vec can't be to the left of old start of elem at `index`
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 39f438f6f304cedccec3121d9d2caf4ff395255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 04/22] fix: record where each element ends, not where it
 starts, when unsizing a whole vec

---
 src/inner/aligned.rs   | 4 +++-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..02efe01 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,9 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked(
+                        index.unchecked_add(1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 8556c7f..4733991 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1058,7 +1058,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        index.unchecked_add(1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 16845b18f123d209d71973ed272e3ac2e80bc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 05/22] fix: don't leak the vec being unsized when allocating
 its metadata fails

---
 src/inner/aligned.rs   | 6 ++++--
 src/inner/unaligned.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 02efe01..83a6bcf 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -636,11 +636,10 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     #[inline]
-    fn from_sized<S>(vec: ::alloc::vec::Vec<S>) -> Self
+    fn from_sized<S>(mut vec: ::alloc::vec::Vec<S>) -> Self
     where
         S: Unsize<T>,
     {
-        let mut vec = ManuallyDrop::new(vec);
         let len_elems = vec.len();
         let cap_elems = vec.capacity();
         let heap_ptr = vec.as_mut_ptr();
@@ -670,6 +669,9 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
 
         let elems_info = ManuallyDrop::new(elems_info);
 
+        // Collecting above can unwind, so only give up ownership now.
+        mem::forget(vec);
+
         Self {
             ptr: heap_ptr_thin,
             byte_capacity,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 4733991..51b073a 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1033,11 +1033,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     #[inline]
-    fn from_sized<S>(vec: ::alloc::vec::Vec<S>) -> Self
+    fn from_sized<S>(mut vec: ::alloc::vec::Vec<S>) -> Self
     where
         S: Unsize<T>,
     {
-        let mut vec = ManuallyDrop::new(vec);
         let len_elems = vec.len();
         let cap_elems = vec.capacity();
         let heap_ptr = vec.as_mut_ptr();
@@ -1067,6 +1066,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
 
         let elems_info = ManuallyDrop::new(elems_info);
 
+        // Collecting above can unwind, so only give up ownership now.
+        mem::forget(vec);
+
         Self {
             ptr: heap_ptr_thin,
             byte_capacity,
-- 
2.43.0


From ff0c6ab0ae7df558acbdb32a6e902edbbec87499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/22] fix: compute correct offsets when re-padding elements
 to a smaller alignment

---
 src/inner/unaligned.rs | 56 +++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 51b073a..c447f3e 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -251,54 +251,38 @@ impl<T: ?Sized> UnalignedVecInner<T> {
 
         debug_assert!(self.len() > 1 && new_align < old_align);
 
-        // We compute the new offset of each element, along with the difference from the old offset.
-        // Then, we copy the eement over.
+        // We compute the new offset of each element, and copy the element over.
         //
-        // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
-
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
+        // This is a lot simpler than `realign_up`, we can do everyting in a single pass,
+        // as no element ever moves to the right.
 
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
+        let ptr = self.ptr.as_ptr().cast::<u8>();
+        let mut old_start_offset = ValidSizeUnaligned::ZERO;
+        let mut new_start_offset = ValidSizeUnaligned::ZERO;
 
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            let old_end_offset = *end_offset;
 
             // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
+            let size_of_val = unsafe { old_end_offset.unchecked_sub(old_start_offset) };
 
-            // SAFETY: moving element to new correct position, as computed above
+            // SAFETY: moving element to new correct position.
+            // `new_start_offset <= old_start_offset`, so this doesn't overwrite
+            // any element that has not been moved yet.
             unsafe {
                 ptr::copy(
-                    self.ptr.as_ptr().cast::<u8>().add(old_start_offset.get()),
-                    self.ptr.as_ptr().cast::<u8>().add(new_start_offset.get()),
+                    ptr.add(old_start_offset.get()),
+                    ptr.add(new_start_offset.get()),
                     size_of_val.get(),
                 );
             }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+            // SAFETY: can't overflow, or else old offsets would have overflowed
+            unsafe {
+                *end_offset = new_start_offset.unchecked_add(size_of_val);
+                new_start_offset = end_offset.unchecked_pad_to(new_align);
+                old_start_offset = old_end_offset.unchecked_pad_to(old_align);
+            }
         }
     }
 }
-- 
2.43.0


From 34dbec275404918a19795f76bfa81fd8aaacb91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 07/22] fix: keep byte capacity a multiple of the alignment
 when shrinking

---
 src/inner/unaligned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index c447f3e..382f63f 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -485,12 +485,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let new_byte_capacity = cmp::max(
             // SAFETY: `old_byte_capacity` is a valid
             // `ValidSizeUnaligned`, and result of `cmp::min`
-            // can't be bigger than it
+            // can't be bigger than it. As `old_byte_capacity` is a multiple of `old_align`,
+            // and so of `new_align`, this is true even after padding.
             unsafe {
                 ValidSizeUnaligned::new_unchecked(cmp::min(
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From 5787529ff191cb5254daf720b36bc6cdf606666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 08/22] fix: remember an alignment reserved while no bytes are
 allocated

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 382f63f..f98c402 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -454,6 +454,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From 61a05b2768255b156e1b09ce6685794b3f521179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 09/22] fix: reserve and shrink bytes of sized vectors
 correctly, zero-sized elements included

---
 src/inner/sized.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..309cb81 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -1,5 +1,6 @@
 //! The implementation of `UnsizedVec<T>` for `T: Sized`.
 
+use ::alloc::collections::TryReserveErrorKind;
 use core::{
     alloc::Layout,
     cmp,
@@ -69,12 +70,23 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        if additional_bytes == 0 {
+            return Ok(());
+        }
+
+        let additional = match mem::size_of::<T>() {
+            // No number of zero-sized elements makes up any byte capacity.
+            0 => {
+                return Err(TryReserveError {
+                    kind: TryReserveErrorKind::CapacityOverflow,
+                });
+            }
+            size => additional_bytes.div_ceil(size),
+        };
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        Ok(self.try_reserve_exact(free.saturating_add(additional))?)
     }
 
     #[inline]
@@ -84,11 +96,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         min_byte_capacity: usize,
         _align: (),
     ) {
-        let min_capacity = cmp::max(
-            min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
-        );
-        self.shrink_to(min_capacity);
+        let min_capacity_for_bytes = match mem::size_of::<T>() {
+            0 => 0,
+            size => min_byte_capacity.div_ceil(size),
+        };
+        self.shrink_to(cmp::max(min_capacity, min_capacity_for_bytes));
     }
 
     #[inline]
-- 
2.43.0


From d32f918edac3cc4f82dc8b6be031a9f9e91454ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 10/22] fix: don't assert success of a byte reservation that
 failed

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 203b052..7e2ec31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,9 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        debug_assert!(
+            result.is_err() || self.byte_capacity() - self.byte_len() >= additional_bytes
+        );
 
         result
     }
-- 
2.43.0


From 7dadeb5db69db888c7925157d337f23c745f4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 11/22] fix: don't reserve exact capacity on top of what is
 already spare

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e2ec31..c9f8aa6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,11 +662,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From 7f3374d42da5d059afbf7a60ec6a1b9c12d2dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 12/22] fix: use spare byte capacity for elements inserted
 through an emplacable

---
 src/inner/aligned.rs   | 21 +++++++++++++++------
 src/inner/unaligned.rs | 18 ++++++++++++------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 83a6bcf..462f855 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -55,6 +55,13 @@ impl<T: ?Sized + Aligned> AlignedVecInner<T> {
             .map_or(ValidSize::ZERO, |last| last.end_offset)
     }
 
+    /// The number of bytes that are allocated, but not in use.
+    #[inline]
+    fn unused_byte_cap(&self) -> usize {
+        // SAFETY: len <= cap
+        unsafe { self.byte_capacity.unchecked_sub(self.byte_len()) }.get()
+    }
+
     /// Returns the offset of the start of this element in the vec.
     ///
     /// # Safety
@@ -317,9 +324,10 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve(1).and_then(|()| {
+                    let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
+                    self.try_reserve_additional_bytes_align(needed_bytes, ())
+                });
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -503,9 +511,10 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve(1).and_then(|()| {
+                    let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
+                    self.try_reserve_additional_bytes_align(needed_bytes, ())
+                });
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index f98c402..951aaf3 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -74,6 +74,13 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         unsafe { self.unaligned_byte_len().unchecked_pad_to(self.align) }
     }
 
+    /// The number of bytes that are allocated, but not in use.
+    #[inline]
+    fn unused_byte_cap(&self) -> usize {
+        // SAFETY: len <= cap
+        unsafe { self.byte_capacity.unchecked_sub(self.aligned_byte_len()) }.get()
+    }
+
     /// Returns the offset of the start of this element in the vec.
     ///
     /// # Safety
@@ -659,14 +666,12 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let emplacable_closure = value.into_fn();
 
         let emplacer_closure =
-            &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
+            &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
+                    let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
@@ -873,7 +878,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 let (size_of_val, align_of_val) = decompose(layout);
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
+                    let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
-- 
2.43.0


From f8a90119f57c9b723f863b861f09a332b6266d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 13/22] fix: on removal, give an element up exactly once even
 if its destructor or receiver unwinds

---
 src/inner/aligned.rs   |  95 ++++++++++++++++++++++++++-----------
 src/inner/sized.rs     |  58 ++++++++++++++++-------
 src/inner/unaligned.rs | 103 ++++++++++++++++++++++++++++-------------
 3 files changed, 178 insertions(+), 78 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 462f855..77efe46 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -389,6 +389,61 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure the element is removed as soon as it has been given up,
+        /// and only then, even if its destructor or the emplacer panics.
+        struct ElementRemover<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSize<T>,
+            size_of_val: ValidSize<T>,
+            is_gone: bool,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.is_gone {
+                    return;
+                }
+
+                let Self {
+                    ref mut vec,
+                    index,
+                    start_offset,
+                    size_of_val,
+                    ..
+                } = *self;
+
+                // FIXME elide bounds check
+                vec.elems_info.remove(index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { vec.elems_info.get_unchecked_mut(index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(size_of_val);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { vec.byte_len().unchecked_sub(start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = vec.ptr.as_ptr().cast::<u8>().add(start_offset.get());
+
+                    ptr::copy(
+                        ptr_to_elem.add(size_of_val.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -424,9 +479,19 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            size_of_val,
+            is_gone: false,
+        };
+
         // The emplacer can choose never to run the inner closure at all! In this case, the removed value
         // is simply forgotten.
         emplacer_closure(size_of_val.as_layout(), metadata, &mut |out_ptr| {
+            remover.is_gone = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -441,38 +506,12 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 let wide_ptr: *mut T =
                     ptr::from_raw_parts_mut(thin_ptr_to_elem.cast_mut(), metadata);
 
-                // SAFETY: We forget the element right after by copying over it and adjusting vec metadata
+                // SAFETY: `remover` forgets the element right after by copying over it and adjusting vec metadata
                 unsafe { wide_ptr.drop_in_place() }
             }
         });
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        remover.is_gone = true;
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 309cb81..99c7f7e 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -187,29 +187,58 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
-        debug_assert!(index < self.len());
+        /// Helper to ensure the element is removed as soon as it has been given up,
+        /// and only then, even if its destructor or the emplacer panics.
+        struct ElementRemover<'a, T> {
+            vec: &'a mut ::alloc::vec::Vec<T>,
+            index: usize,
+            is_gone: bool,
+        }
 
-        // SAFETY: precondition of function
-        let new_len = unsafe { self.len().unchecked_sub(1) };
+        impl<T> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.is_gone {
+                    return;
+                }
 
-        // Set new length of vector
+                // SAFETY: `index < len` by precondition of function, so
+                // `index <= new_len`. Copy elements back where they belong,
+                // over the one that is gone.
+                unsafe {
+                    let new_len = self.vec.len().unchecked_sub(1);
+                    let ptr_to_elem = self.vec.as_mut_ptr().add(self.index);
 
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
+                    ptr::copy(
+                        ptr_to_elem.add(1),
+                        ptr_to_elem,
+                        new_len.unchecked_sub(self.index),
+                    );
+                    self.vec.set_len(new_len);
+                }
+            }
+        }
+
+        debug_assert!(index < self.len());
 
         // Get pointer to the element we are popping out of the vec
         // SAFETY: offset comes from vec
         let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
 
-        // SAFETY: old_len > index, so old_len - 1 == new_len >= index
-        let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
-
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            is_gone: false,
+        };
+
         emplacer_closure(Layout::new::<T>(), (), &mut |out_ptr| {
+            remover.is_gone = true;
+
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of::<T>()` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -219,20 +248,13 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
             } else {
                 let typed_ptr_to_elem: *mut T = thin_ptr_to_elem.cast_mut().cast();
 
-                // SAFETY: we adusted vec metadata earlier, and copy elements back right after,
+                // SAFETY: `remover` copies elements back and adjusts vec metadata right after,
                 // so this won't be double-dropped
                 unsafe { typed_ptr_to_elem.drop_in_place() }
             }
         });
 
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
+        remover.is_gone = true;
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 951aaf3..a0c2960 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -742,6 +742,65 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure the element is removed as soon as it has been given up,
+        /// and only then, even if its destructor or the emplacer panics.
+        struct ElementRemover<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSizeUnaligned,
+            aligned_size_of_val: ValidSizeUnaligned,
+            is_gone: bool,
+        }
+
+        impl<T: ?Sized> Drop for ElementRemover<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                if !self.is_gone {
+                    return;
+                }
+
+                let Self {
+                    ref mut vec,
+                    index,
+                    start_offset,
+                    aligned_size_of_val,
+                    ..
+                } = *self;
+
+                // FIXME elide bounds check
+                vec.elems_info.remove(index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { vec.elems_info.get_unchecked_mut(index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
+                    }
+                }
+
+                // The padded length: `start_offset` is past the unpadded one
+                // when the last element is removed and the one before it needs padding.
+                let aligned_len = vec.aligned_byte_len();
+
+                // SAFETY: new padded end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = vec.ptr.as_ptr().cast::<u8>().add(start_offset.get());
+
+                    ptr::copy(
+                        ptr_to_elem.add(aligned_size_of_val.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // We can't remove the metadata yet, as `emplacer_closure` might unwind,
@@ -785,11 +844,21 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
+        let mut remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            aligned_size_of_val,
+            is_gone: false,
+        };
+
         emplacer_closure(
             // SAFETY: `size_of_val` comes from the vec
             unsafe { unaligned_size_of_val.as_layout_with_align_unchecked(align_of_val) },
             metadata,
             &mut |out_ptr| {
+                remover.is_gone = true;
+
                 if !out_ptr.is_null() {
                     // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                     // by the preconditions of `Emplacer::new`
@@ -801,43 +870,13 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                         );
                     }
                 } else {
-                    // SAFETY: we adjust vec metadata right after, so this won't be double-dropped
+                    // SAFETY: `remover` adjusts vec metadata right after, so this won't be double-dropped
                     unsafe { wide_ptr_to_elem.cast_mut().drop_in_place() }
                 }
             },
         );
 
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        // The padded length: `start_offset` is past the unpadded one
-        // when the last element is removed and the one before it needs padding.
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new padded end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
+        remover.is_gone = true;
     }
 
     #[inline]
-- 
2.43.0


From 7f2d1dbd8d89bac46ea7c554d608ba23f1df362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 14/22] fix: find elements correctly in iterators that were
 already advanced from the front

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 77efe46..db36ddb 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -786,7 +786,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -828,7 +828,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a0c2960..979f16b 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1172,7 +1172,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1221,7 +1221,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 9a945751769beb11a581ed9a0ae84e88859f1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 15/22] fix: use the alignment of CStr, not that of a reference
 to it

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From f3734b45d3a85b00077eb505d4da713647fb09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 16/22] fix: shrink_to shrinks vectors of sized values

---
 src/inner.rs       | 6 ++++++
 src/inner/sized.rs | 5 +++++
 src/lib.rs         | 7 ++-----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..b12a1a3 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -145,6 +145,12 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         min_align: Self::Align,
     );
 
+    /// Shrinks only the elementwise capacity.
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize, max_align: Self::Align) {
+        self.shrink_capacity_bytes_align_to(min_capacity, usize::MAX, max_align);
+    }
+
     /// # Safety
     ///
     /// Does no capacity or bounds checks.
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 99c7f7e..1f50893 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -103,6 +103,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         self.shrink_to(cmp::max(min_capacity, min_capacity_for_bytes));
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize, _max_align: ()) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     unsafe fn insert_unchecked(&mut self, index: usize, element: T, _size: ()) {
         debug_assert!(self.capacity() > self.len());
diff --git a/src/lib.rs b/src/lib.rs
index c9f8aa6..ddb5cb1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -691,11 +691,8 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner
+            .shrink_capacity_to(min_capacity, to_align::<T>(1 << (usize::BITS - 1)));
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 27cacdb9dd074895d68db9f6d1cfaf96cf2fb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 17/22] fix: with_emplacable_for doesn't drop the value twice
 when its callback unwinds

---
 emplacable/src/lib.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..904857b 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -360,7 +360,7 @@ pub use with_emplacable_for::WithEmplacableForFn;
 /// ```
 #[cfg(not(all(doctest, any(miri, not(feature = "alloc")))))]
 #[inline]
-pub fn with_emplacable_for<T, F, R>(mut val: T, mut f: F) -> R
+pub fn with_emplacable_for<T, F, R>(val: T, mut f: F) -> R
 where
     T: ?Sized + 'static,
     F: FnMut(Emplacable<T, WithEmplacableForFn<'_, T>>) -> R,
@@ -377,10 +377,27 @@ where
         f(emplacable)
     }
 
-    // SAFETY: we `forget_unsized` val immediately after this call
-    let ret = unsafe { with_emplacable_for_inner(&mut val, &mut f) };
-    mem::forget_unsized(val);
-    ret
+    // Lends out `val`, but never drops it, not even if `f` unwinds.
+    #[inline]
+    fn lend_undropped<T: ?Sized, R>(val: T, f: &mut dyn FnMut(&mut T) -> R) -> R {
+        type Lend<V, T, R> = fn(V, &mut dyn FnMut(&mut T) -> R) -> R;
+
+        fn lend<T: ?Sized, R>(mut val: ManuallyDrop<T>, f: &mut dyn FnMut(&mut T) -> R) -> R {
+            f(&mut val)
+        }
+
+        // SAFETY: `ManuallyDrop<T>` is `repr(transparent)`, so the two function pointer
+        // types are ABI-compatible. (There is no other way to wrap an unsized value.)
+        let lend =
+            unsafe { mem::transmute::<Lend<ManuallyDrop<T>, T, R>, Lend<T, T, R>>(lend::<T, R>) };
+
+        lend(val, f)
+    }
+
+    lend_undropped(val, &mut |val| {
+        // SAFETY: `lend_undropped` doesn't drop `val`
+        unsafe { with_emplacable_for_inner(val, &mut f) }
+    })
 }
 
 /// Alias of [`for<'a> FnOnce(&'a mut Emplacer<T>)`](Emplacer<T>).
-- 
2.43.0


From 987d8e36a6d456c8d2fc4c78df28305e1093fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 18/22] fix: announce the layout of the slice, not of the vec's
 allocation, to the emplacer

---
 emplacable/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 904857b..59aeab2 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1097,8 +1097,9 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
             let ptr = vec.as_mut_ptr();
             let len = vec.len();
             let capacity = vec.capacity();
+            let slice_layout = Layout::for_value::<[T]>(&vec);
             // SAFETY: values come from the vec
-            let layout = unsafe {
+            let alloc_layout = unsafe {
                 Layout::from_size_align_unchecked(
                     capacity.unchecked_mul(mem::size_of::<T>()),
                     mem::align_of::<T>(),
@@ -1107,7 +1108,7 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
 
             // SAFETY: we fulfill the preconditions
             let emplacer_closure = unsafe { emplacer.into_fn() };
-            emplacer_closure(layout, len, &mut |out_ptr| {
+            emplacer_closure(slice_layout, len, &mut |out_ptr| {
                 if !out_ptr.is_null() {
                     // SAFETY: checked for null, copying correct number of bytes.
                     // `Vec` is in a `ManuallyDrop`, so no double drop
@@ -1124,10 +1125,10 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
                 }
             });
 
-            if layout.size() > 0 {
+            if alloc_layout.size() > 0 {
                 // SAFETY: deallocating what the `Vec` allocated. The `Vec` is in a `ManuallyDrop`,
                 // so no double-drop
-                unsafe { alloc::dealloc(ptr.cast(), layout) }
+                unsafe { alloc::dealloc(ptr.cast(), alloc_layout) }
             }
         };
 
-- 
2.43.0


From aaee7ca615955a35dc768f4fc8df320caa201975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 19/22] fix: copy the slice's elements, not the reference to it

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index 59aeab2..e72950e 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -791,7 +791,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 6707821a91c38d3eecf19df351980c89fc58298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 20/22] fix: grow the byte capacity geometrically when pushing
 emplacables

push_with reserved exactly the bytes each value needed, so repeated pushes
reallocated every time instead of taking amortized constant time.
---
 src/inner.rs           | 22 ++++++++++++++++++++++
 src/inner/aligned.rs   |  2 +-
 src/inner/unaligned.rs |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index b12a1a3..182db66 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -138,6 +138,28 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Like `try_reserve_additional_bytes_align`, but doubles the byte capacity
+    /// when memory allows, so that repeated pushes take amortized constant time.
+    #[inline]
+    fn try_reserve_additional_bytes_align_amortized(
+        &mut self,
+        additional_bytes: usize,
+        align: Self::Align,
+    ) -> Result<(), TryReserveError> {
+        let byte_cap = self.byte_capacity();
+
+        if additional_bytes > 0
+            && byte_cap > additional_bytes
+            && self
+                .try_reserve_additional_bytes_align(byte_cap, align)
+                .is_ok()
+        {
+            return Ok(());
+        }
+
+        self.try_reserve_additional_bytes_align(additional_bytes, align)
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index db36ddb..c10723e 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -552,7 +552,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
                     let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
-                    self.try_reserve_additional_bytes_align(needed_bytes, ())
+                    self.try_reserve_additional_bytes_align_amortized(needed_bytes, ())
                 });
                 unwrap_try_reserve_result(reserve_result);
 
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 979f16b..44f7110 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -918,7 +918,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
 
                 let reserve_result = self.try_reserve(1).and_then(|()| {
                     let needed_bytes = layout.size().saturating_sub(self.unused_byte_cap());
-                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
+                    self.try_reserve_additional_bytes_align_amortized(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
-- 
2.43.0


From 8bfaea9379c5d945491e67e1e2189c4c03b48fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 21/22] fix: don't record an inserted element before its
 emplacable has returned

---
 src/inner/aligned.rs   | 74 +++++++++++++++++++++++-----------------
 src/inner/sized.rs     | 77 +++++++++++++++++++++++-------------------
 src/inner/unaligned.rs | 74 +++++++++++++++++++++++-----------------
 3 files changed, 129 insertions(+), 96 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index c10723e..b1a86a0 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -317,6 +317,8 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
 
         let emplacable_closure = value.into_fn();
 
+        let mut inserted: Option<(ElementShifterBacker<T>, ElementInfo<T>)> = None;
+
         let emplacer_closure =
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, _) = decompose(layout);
@@ -345,6 +347,15 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                     shift_by_bytes: size_of_val,
                 };
 
+                inserted = Some((
+                    shifter_backer,
+                    ElementInfo {
+                        metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
+                        // SAFETY: reserved memory above, so this can't overflow
+                        end_offset: unsafe { start_offset.unchecked_add(size_of_val) },
+                    },
+                ));
+
                 // SAFETY: copying elements right to make room
                 unsafe {
                     ptr::copy(
@@ -354,38 +365,34 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                     );
                 }
 
-                // If this unwinds, `shifter_backer` will be dropped
-                // and the elements will be moved back where they belong.
                 inner_closure(ptr_to_elem.cast());
-
-                // `inner_closure` succeeded, so don't want to move elements back now!
-                mem::forget(shifter_backer);
-
-                // SAFETY: by precondition of function
-                let elems_to_move_back = unsafe { self.elems_info.get_unchecked_mut(index..) };
-
-                for ElementInfo { end_offset, .. } in elems_to_move_back {
-                    // SAFETY: make the offsets correct again
-                    *end_offset = unsafe { end_offset.unchecked_add(size_of_val) };
-                }
-
-                // SAFETY: reserved memory earlier
-                unsafe {
-                    self.elems_info.insert_unchecked(
-                        index,
-                        ElementInfo {
-                            metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
-                            end_offset: start_offset.unchecked_add(size_of_val),
-                        },
-                        (),
-                    );
-                }
             };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to `index`
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // If this unwinds, the `ElementShifterBacker` will be dropped
+        // and the elements will be moved back where they belong.
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        if let Some((shifter_backer, elem_info)) = inserted {
+            let shift_by_bytes = shifter_backer.shift_by_bytes;
+
+            // The new element is in place, so don't want to move elements back now!
+            mem::forget(shifter_backer);
+
+            // SAFETY: by precondition of function
+            let elems_to_move_back = unsafe { self.elems_info.get_unchecked_mut(index..) };
+
+            for ElementInfo { end_offset, .. } in elems_to_move_back {
+                // SAFETY: make the offsets correct again
+                *end_offset = unsafe { end_offset.unchecked_add(shift_by_bytes) };
+            }
+
+            // SAFETY: reserved memory earlier
+            unsafe { self.elems_info.insert_unchecked(index, elem_info, ()) };
+        }
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
@@ -543,6 +550,8 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     fn push_with(&mut self, value: Emplacable<T, impl EmplacableFn<T>>) {
         let emplacable_closure = value.into_fn();
 
+        let mut new_elem_info: Option<ElementInfo<T>> = None;
+
         let emplacer_closure =
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, _) = decompose(layout);
@@ -563,22 +572,25 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
 
                 inner_closure(ptr_to_elem.cast());
 
-                let elem_info: ElementInfo<T> = ElementInfo {
+                new_elem_info = Some(ElementInfo {
                     metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
                     // SAFETY: neither operand can overflow `isize`, so sum
                     // can't overflow `usize`
                     end_offset: unsafe { start_offset.unchecked_add(size_of_val) },
-                };
-
-                // SAFETY: `emplacable` wrote new element at end of vec,
-                // and we have reserved the needed space
-                unsafe { self.elems_info.push_unchecked(elem_info, ()) };
+                });
             };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to the end of the vec
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        if let Some(elem_info) = new_elem_info {
+            // SAFETY: `emplacable_closure` wrote new element at end of vec,
+            // and we have reserved the needed space
+            unsafe { self.elems_info.push_unchecked(elem_info, ()) };
+        }
     }
 
     unsafe fn pop_into_unchecked(&mut self, emplacer: &mut Emplacer<'_, T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 1f50893..894eaf1 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -154,41 +154,45 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         let emplacable_closure = value.into_fn();
 
-        let emplacer_closure =
-            &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
-                unwrap_try_reserve_result(reserve_result);
+        let mut shifter_backer: Option<ElementShifterBacker<T>> = None;
 
-                // SAFETY: by precondition of function
-                let ptr_to_elem = unsafe { self.as_mut_ptr().add(index) };
+        let emplacer_closure = &mut |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
+            let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
+            unwrap_try_reserve_result(reserve_result);
 
-                // SAFETY: by precondition of function
-                let num_elems_to_shift = unsafe { self.len().unchecked_sub(index) };
+            // SAFETY: by precondition of function
+            let ptr_to_elem = unsafe { self.as_mut_ptr().add(index) };
 
-                let shifter_backer: ElementShifterBacker<T> = ElementShifterBacker {
-                    ptr_to_index: ptr_to_elem,
-                    num_elems_to_shift,
-                };
+            // SAFETY: by precondition of function
+            let num_elems_to_shift = unsafe { self.len().unchecked_sub(index) };
 
-                // SAFETY: copying back elements to make room
-                unsafe { ptr::copy(ptr_to_elem, ptr_to_elem.add(1), num_elems_to_shift) }
+            shifter_backer = Some(ElementShifterBacker {
+                ptr_to_index: ptr_to_elem,
+                num_elems_to_shift,
+            });
 
-                // If this unwinds, `shifter_backer` will be dropped
-                // and the elements will be moved back where they belong.
-                inner_closure(ptr_to_elem.cast());
+            // SAFETY: copying back elements to make room
+            unsafe { ptr::copy(ptr_to_elem, ptr_to_elem.add(1), num_elems_to_shift) }
 
-                // `inner_closure` succeeded, so don't want to move elements back now!
-                mem::forget(shifter_backer);
-
-                // SAFETY: `inner_closure` wrote new element at the correct index,
-                // elems to the right were shifted back
-                unsafe { self.set_len(self.len().unchecked_add(1)) };
-            };
+            inner_closure(ptr_to_elem.cast());
+        };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to `index`
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // If this unwinds, `shifter_backer` will be dropped
+        // and the elements will be moved back where they belong.
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        if let Some(shifter_backer) = shifter_backer {
+            // The new element is in place, so don't want to move elements back now!
+            mem::forget(shifter_backer);
+
+            // SAFETY: `emplacable_closure` wrote new element at the correct index,
+            // elems to the right were shifted back
+            unsafe { self.set_len(self.len().unchecked_add(1)) };
+        }
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
@@ -277,23 +281,28 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     fn push_with(&mut self, value: Emplacable<T, impl EmplacableFn<T>>) {
         let emplacable_closure = value.into_fn();
 
-        let emplacer_closure =
-            &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
-                unwrap_try_reserve_result(reserve_result);
-                // SAFETY: getting pointer to end of allocation
-                let ptr_to_elem = unsafe { self.as_mut_ptr().add(self.len()) };
+        let mut new_len = self.len();
 
-                inner_closure(ptr_to_elem.cast());
+        let emplacer_closure = &mut |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
+            let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
+            unwrap_try_reserve_result(reserve_result);
+            // SAFETY: getting pointer to end of allocation
+            let ptr_to_elem = unsafe { self.as_mut_ptr().add(self.len()) };
 
-                // SAFETY: `inner_closure` wrote new element at end of vec
-                unsafe { self.set_len(self.len().unchecked_add(1)) };
-            };
+            inner_closure(ptr_to_elem.cast());
+
+            // SAFETY: `try_reserve` would have failed if this could overflow
+            new_len = unsafe { self.len().unchecked_add(1) };
+        };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to the end of the vec
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        // SAFETY: `emplacable_closure` wrote new element at end of vec
+        unsafe { self.set_len(new_len) };
     }
 
     unsafe fn pop_into_unchecked(&mut self, emplacer: &mut Emplacer<'_, T>) {
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 44f7110..22bd974 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -665,6 +665,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
 
         let emplacable_closure = value.into_fn();
 
+        let mut inserted: Option<(ElementShifterBacker, ElementInfo<T>)> = None;
+
         let emplacer_closure =
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
@@ -698,6 +700,15 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                     shift_by_bytes: aligned_size_of_val,
                 };
 
+                inserted = Some((
+                    shifter_backer,
+                    ElementInfo {
+                        metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
+                        // SAFETY: reserved memory above, so this can't overflow
+                        end_offset: unsafe { start_offset.unchecked_add(unaligned_size_of_val) },
+                    },
+                ));
+
                 // SAFETY: copying elements right to make room
                 unsafe {
                     ptr::copy(
@@ -707,38 +718,34 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                     );
                 }
 
-                // If this unwinds, `shifter_backer` will be dropped
-                // and the elements will be moved back where they belong.
                 inner_closure(ptr_to_elem.cast());
-
-                // `inner_closure` succeeded, so don't want to move elements back now!
-                mem::forget(shifter_backer);
-
-                // SAFETY: by precondition of function
-                let elems_to_move_back = unsafe { self.elems_info.get_unchecked_mut(index..) };
-
-                for ElementInfo { end_offset, .. } in elems_to_move_back {
-                    // SAFETY: make the offsets correct again
-                    *end_offset = unsafe { end_offset.unchecked_add(aligned_size_of_val) };
-                }
-
-                // SAFETY: reserved memory earlier
-                unsafe {
-                    self.elems_info.insert_unchecked(
-                        index,
-                        ElementInfo {
-                            metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
-                            end_offset: start_offset.unchecked_add(unaligned_size_of_val),
-                        },
-                        (),
-                    );
-                }
             };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to `index`
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // If this unwinds, the `ElementShifterBacker` will be dropped
+        // and the elements will be moved back where they belong.
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        if let Some((shifter_backer, elem_info)) = inserted {
+            let shift_by_bytes = shifter_backer.shift_by_bytes;
+
+            // The new element is in place, so don't want to move elements back now!
+            mem::forget(shifter_backer);
+
+            // SAFETY: by precondition of function
+            let elems_to_move_back = unsafe { self.elems_info.get_unchecked_mut(index..) };
+
+            for ElementInfo { end_offset, .. } in elems_to_move_back {
+                // SAFETY: make the offsets correct again
+                *end_offset = unsafe { end_offset.unchecked_add(shift_by_bytes) };
+            }
+
+            // SAFETY: reserved memory earlier
+            unsafe { self.elems_info.insert_unchecked(index, elem_info, ()) };
+        }
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
@@ -912,6 +919,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     fn push_with(&mut self, value: Emplacable<T, impl EmplacableFn<T>>) {
         let emplacable_closure = value.into_fn();
 
+        let mut new_elem_info: Option<ElementInfo<T>> = None;
+
         let emplacer_closure =
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
@@ -929,22 +938,25 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
 
                 inner_closure(ptr_to_elem.cast());
 
-                let elem_info: ElementInfo<T> = ElementInfo {
+                new_elem_info = Some(ElementInfo {
                     metadata: <T as SplitMetadata>::Remainder::from_metadata(metadata),
                     // SAFETY: neither operand can overflow `isize`, so sum
                     // can't overflow `usize`
                     end_offset: unsafe { start_offset.unchecked_add(size_of_val) },
-                };
-
-                // SAFETY: `emplacable` wrote new element at end of vec,
-                // and we have reserved the needed space
-                unsafe { self.elems_info.push_unchecked(elem_info, ()) };
+                });
             };
 
         // SAFETY: `emplacer_closure` runs the closure with a valid pointer to the end of the vec
         let emplacer = unsafe { Emplacer::from_fn(emplacer_closure) };
 
+        // The new element isn't ours until this returns.
         emplacable_closure(emplacer);
+
+        if let Some(elem_info) = new_elem_info {
+            // SAFETY: `emplacable_closure` wrote new element at end of vec,
+            // and we have reserved the needed space
+            unsafe { self.elems_info.push_unchecked(elem_info, ()) };
+        }
     }
 
     #[inline]
-- 
2.43.0


From 7a8a44114c1354cded66d25721e1a9d8ce370bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:03 +0000
Subject: [PATCH 22/22] fix: drop the other elements and the memory when an
 element's destructor panics

Dropping a vector of unsized values leaked all elements after one whose
destructor unwound, as well as both allocations, unlike Vec.
---
 src/inner/aligned.rs   | 60 ++++++++++++++++++++++----------------
 src/inner/unaligned.rs | 65 ++++++++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 53 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index b1a86a0..caba2c5 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -81,40 +81,50 @@ impl<T: ?Sized + Aligned> AlignedVecInner<T> {
 
 impl<T: ?Sized + Aligned> Drop for AlignedVecInner<T> {
     fn drop(&mut self) {
-        let mut start_offset: ValidSize<T> = ValidSize::ZERO;
+        /// Helper to ensure the allocations are dropped
+        /// even if the destructor of an element panics.
+        struct AllocationDropper<'a, T: ?Sized + Aligned>(&'a mut AlignedVecInner<T>);
 
-        // SAFETY: we are in `drop`, nobody will access the `ManuallyDrop` after us
-        let elems_info = unsafe { ManuallyDrop::take(&mut self.elems_info) };
+        impl<T: ?Sized + Aligned> Drop for AllocationDropper<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                let vec = &mut *self.0;
 
-        // Drop remaining elements
-        for ElementInfo {
-            metadata,
-            end_offset,
-        } in elems_info
-        {
-            // SAFETY: end of element can't be smaller than start
-            let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
-            let metadata = metadata.as_metadata(size_of_val.as_unaligned());
+                // SAFETY: capacity and align come from the vec.
+                // We are in `drop`, nobody will access the `ManuallyDrop` after us
+                unsafe {
+                    let alloc_layout = vec.byte_capacity.as_layout();
+                    alloc::Global.deallocate(vec.ptr.cast(), alloc_layout);
 
-            let start_of_alloc = self.ptr.as_ptr().cast::<u8>();
-            // SAFETY: offset is within allocation
-            let thin_ptr_to_elem = unsafe { start_of_alloc.add(start_offset.get()) };
-            let wide_ptr_to_elem: *mut T = ptr::from_raw_parts_mut(thin_ptr_to_elem, metadata);
+                    ManuallyDrop::drop(&mut vec.elems_info);
+                }
+            }
+        }
 
-            start_offset = end_offset;
+        /// Helper to ensure the remaining elements are dropped
+        /// even if the destructor of one of them panics.
+        struct ElementDropper<'a, T: ?Sized + Aligned>(AlignedIterMut<'a, T>);
 
-            // SAFETY: nobody will access this after us
-            unsafe { wide_ptr_to_elem.drop_in_place() }
+        impl<T: ?Sized + Aligned> ElementDropper<'_, T> {
+            #[inline]
+            fn drop_remaining(&mut self) {
+                for elem in &mut self.0 {
+                    // SAFETY: nobody will access this after us
+                    unsafe { ptr::drop_in_place(elem) }
+                }
+            }
         }
 
-        // Drop allocation
+        impl<T: ?Sized + Aligned> Drop for ElementDropper<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                self.drop_remaining();
+            }
+        }
 
-        let alloc_layout = self.byte_capacity.as_layout();
+        let allocation_dropper = AllocationDropper(self);
 
-        // SAFETY: capacity and align come from the vec.
-        unsafe {
-            alloc::Global.deallocate(self.ptr.cast(), alloc_layout);
-        }
+        ElementDropper(allocation_dropper.0.iter_mut()).drop_remaining();
     }
 }
 
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 22bd974..1e0573c 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -296,41 +296,50 @@ impl<T: ?Sized> UnalignedVecInner<T> {
 
 impl<T: ?Sized> Drop for UnalignedVecInner<T> {
     fn drop(&mut self) {
-        let mut start_offset: ValidSizeUnaligned = ValidSizeUnaligned::ZERO;
+        /// Helper to ensure the allocations are dropped
+        /// even if the destructor of an element panics.
+        struct AllocationDropper<'a, T: ?Sized>(&'a mut UnalignedVecInner<T>);
 
-        // SAFETY: we are in `drop`, nobody will access the `ManuallyDrop` after us
-        let elems_info = unsafe { ManuallyDrop::take(&mut self.elems_info) };
+        impl<T: ?Sized> Drop for AllocationDropper<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                let vec = &mut *self.0;
 
-        // Drop remaining elements
-        for ElementInfo {
-            metadata,
-            end_offset,
-        } in elems_info
-        {
-            // SAFETY: end of element can't be smaller than start
-            let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
-            let metadata = metadata.as_metadata(size_of_val);
-            let start_of_alloc = self.ptr.as_ptr().cast::<u8>();
-            // SAFETY: offset is within allocation
-            let thin_ptr_to_elem = unsafe { start_of_alloc.add(start_offset.get()) };
-            let wide_ptr_to_elem: *mut T = ptr::from_raw_parts_mut(thin_ptr_to_elem, metadata);
+                // SAFETY: capacity and align come from the vec.
+                // We are in `drop`, nobody will access the `ManuallyDrop` after us
+                unsafe {
+                    let alloc_layout = vec.byte_capacity.as_layout_with_align_unchecked(vec.align);
+                    alloc::Global.deallocate(vec.ptr.cast(), alloc_layout);
+
+                    ManuallyDrop::drop(&mut vec.elems_info);
+                }
+            }
+        }
 
-            // SAFETY: align comes from the vec
-            start_offset = unsafe { end_offset.unchecked_pad_to(self.align) };
+        /// Helper to ensure the remaining elements are dropped
+        /// even if the destructor of one of them panics.
+        struct ElementDropper<'a, T: ?Sized>(UnalignedIterMut<'a, T>);
 
-            // SAFETY: nobody will access this after us
-            unsafe { wide_ptr_to_elem.drop_in_place() }
+        impl<T: ?Sized> ElementDropper<'_, T> {
+            #[inline]
+            fn drop_remaining(&mut self) {
+                for elem in &mut self.0 {
+                    // SAFETY: nobody will access this after us
+                    unsafe { ptr::drop_in_place(elem) }
+                }
+            }
         }
 
-        // Drop allocation
-        //
-        // SAFETY: capacity and align come from the vec.
-        unsafe {
-            let alloc_layout = self
-                .byte_capacity
-                .as_layout_with_align_unchecked(self.align);
-            alloc::Global.deallocate(self.ptr.cast(), alloc_layout);
+        impl<T: ?Sized> Drop for ElementDropper<'_, T> {
+            #[inline]
+            fn drop(&mut self) {
+                self.drop_remaining();
+            }
         }
+
+        let allocation_dropper = AllocationDropper(self);
+
+        ElementDropper(allocation_dropper.0.iter_mut()).drop_remaining();
     }
 }
 
-- 
2.43.0

