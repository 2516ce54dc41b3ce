From 1a7b1e178e7a97b04ee631f21d2425058b50e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 1/9] fix: push whole elements in VecVoid::push

VecVoid::push copied a single alignment chunk, so pushing an untyped value
whose size exceeds its alignment (e.g. [f64; 3] or String) panicked, and
aborted the process for VecDyn.
---
 src/vec_void.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..930adaa 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -263,18 +263,28 @@ impl VecVoid {
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
+            let size = buf.elem.size;
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy. The
-                    // following is effectively a move and doesn't rely on the
+                    // An element may span more than one alignment chunk `T`, so all `size` chunks
+                    // must be appended.
+                    v.reserve(size);
+                    let len = v.len();
+                    // SAFETY: `val` holds exactly one element (asserted below) for which space was
+                    // reserved above. The following is effectively a move and doesn't rely on the
                     // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    std::ptr::copy_nonoverlapping(
+                        val.as_ptr(),
+                        v.as_mut_ptr().add(len) as *mut MaybeUninit<u8>,
+                        val.len(),
+                    );
+                    v.set_len(len + size);
                 });
             }
         }
 
+        assert_eq!(val.len(), self.elem.num_bytes());
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
 
-- 
2.43.0


From b736f88d9edde4cbfced9daa0e63b873138d2918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:54 +0000
Subject: [PATCH 2/9] fix: grow VecVoid capacity by whole elements

Growing the underlying Vec of alignment chunks implicitly can yield a capacity
that is not a multiple of the element size (e.g. [u8; 3] with capacity 1),
which trips the assertion in from_vec_override.
---
 src/vec_void.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 930adaa..6515162 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -211,17 +211,31 @@ impl VecVoid {
     }
 
     /// Reserve `additional` extra elements.
+    ///
+    /// The capacity always grows by a whole number of elements, which is required by
+    /// `from_vec_override`. In contrast, growing a `Vec` of alignment chunks implicitly could
+    /// produce a capacity that is not a multiple of the element size.
     #[inline]
     pub(crate) fn reserve(&mut self, additional: usize) {
         fn reserve<T: 'static>(buf: &mut VecVoid, additional: usize) {
-            let size = buf.elem.size;
+            let additional = additional
+                .checked_mul(buf.elem.size)
+                .expect("capacity overflow");
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    v.reserve_exact(additional);
                 })
             };
         }
+
+        if additional <= self.cap - self.len {
+            return;
+        }
+        // Amortize the cost of frequent calls to `reserve` by at least doubling the capacity.
+        let required = self.len.checked_add(additional).expect("capacity overflow");
+        let additional = required.max(self.cap.saturating_mul(2)) - self.len;
+
         eval_align!(self.elem.alignment; reserve::<_>(self, additional));
     }
 
@@ -257,6 +271,7 @@ impl VecVoid {
         debug_assert_eq!(self.elem.alignment, other.elem.alignment);
         debug_assert_eq!(self.elem.size, other.elem.size);
 
+        self.reserve(other.len());
         eval_align!(self.elem.alignment; append::<_>(self, other));
     }
 
@@ -269,7 +284,6 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // An element may span more than one alignment chunk `T`, so all `size` chunks
                     // must be appended.
-                    v.reserve(size);
                     let len = v.len();
                     // SAFETY: `val` holds exactly one element (asserted below) for which space was
                     // reserved above. The following is effectively a move and doesn't rely on the
@@ -285,6 +299,7 @@ impl VecVoid {
         }
 
         assert_eq!(val.len(), self.elem.num_bytes());
+        self.reserve(1);
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
 
@@ -319,6 +334,7 @@ impl VecVoid {
             }
         }
 
+        self.reserve(len.saturating_sub(self.len()));
         eval_align!(self.elem.alignment; resize_with::<_, I>(self, len, init));
     }
 
-- 
2.43.0


From be5876986a30816968619907f791316d3091e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 3/9] fix: compare lengths in PartialEq of VecDyn, Slice and
 SliceMut

A sequence compared equal to any other sequence it is a prefix of.
---
 src/slice.rs   | 13 ++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..3cb7437 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,7 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.reborrow() == other.reborrow()
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..0bfc318 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From 683cc64d53dc90a46e47b95cbe8addba370348cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 4/9] fix: scale inclusive ranges to whole elements

subslice(a..=b) produced a view that cut the last element short.
---
 src/index_slice.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..a790319 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -43,14 +43,17 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        // The end is inclusive, so it must include the whole last chunk.
+        let (start, end) = self.into_inner();
+        start * scale..=(end + 1) * scale - 1
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        // The end is inclusive, so it must include the whole last chunk.
+        self.end = (self.end + 1) * scale - 1;
         self
     }
 }
-- 
2.43.0


From 3ca20c810c1da78608fce3da56b02e1d58e04ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:42 +0000
Subject: [PATCH 5/9] fix: check untyped indices and ranges without wrapping in
 release builds

---
 src/index_slice.rs | 29 +++++++++++++++++++++--------
 src/lib.rs         | 15 +++++++++++----
 src/slice_copy.rs  | 10 +++++++---
 src/vec_copy.rs    |  7 +++----
 4 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index a790319..869d920 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -7,11 +7,26 @@ pub trait ScaleRange {
     fn scale_range(self, scale: usize) -> Self;
 }
 
+/// Scale a single range bound.
+///
+/// Wrapping around here would silently select a different range of elements.
+#[inline]
+fn scale_bound(bound: usize, scale: usize) -> usize {
+    bound.checked_mul(scale).expect("range out of bounds")
+}
+
+/// Scale an inclusive end bound, such that it includes the whole last chunk.
+#[inline]
+fn scale_inclusive_end(end: usize, scale: usize) -> usize {
+    let next = end.checked_add(1).expect("range out of bounds");
+    scale_bound(next, scale) - 1
+}
+
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_bound(self.start, scale);
+        self.end = scale_bound(self.end, scale);
         self
     }
 }
@@ -19,7 +34,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_bound(self.end, scale);
         self
     }
 }
@@ -27,7 +42,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_bound(self.start, scale);
         self
     }
 }
@@ -43,17 +58,15 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        // The end is inclusive, so it must include the whole last chunk.
         let (start, end) = self.into_inner();
-        start * scale..=(end + 1) * scale - 1
+        scale_bound(start, scale)..=scale_inclusive_end(end, scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        // The end is inclusive, so it must include the whole last chunk.
-        self.end = (self.end + 1) * scale - 1;
+        self.end = scale_inclusive_end(self.end, scale);
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..ddb6339 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,13 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        // Wrapping around here would silently select a different element.
+        let element_size = self.element_size();
+        let end = i
+            .checked_add(1)
+            .and_then(|next| next.checked_mul(element_size))
+            .expect("index out of bounds");
+        end - element_size..end
     }
 
     /// Index into an immutable slice of bytes.
@@ -226,19 +232,20 @@ pub(crate) trait ElementBytesMut: ElementBytes {
         if i == j {
             return;
         }
-        let element_size = self.element_size();
         let r_rng = self.index_byte_range(0);
         if i < j {
             let l_rng = self.index_byte_range(i);
+            let mid = self.index_byte_range(j).start;
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self.bytes_mut().split_at_mut(mid);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
+            let mid = self.index_byte_range(i).start;
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self.bytes_mut().split_at_mut(mid);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..1c56686 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,11 +279,12 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
     pub fn split_at(&self, mid: usize) -> (SliceCopy<V>, SliceCopy<V>) {
+        assert!(mid <= self.len());
         let &SliceCopy {
             data,
             elem,
@@ -624,6 +625,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
+        assert!(mid <= self.len());
         self.data.rotate_left(mid * self.element_size());
     }
 
@@ -642,6 +644,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
+        assert!(k <= self.len());
         self.data.rotate_right(k * self.element_size());
     }
 
@@ -687,7 +690,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,11 +701,12 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
     pub fn split_at(&mut self, mid: usize) -> (SliceCopyMut<V>, SliceCopyMut<V>) {
+        assert!(mid <= self.len());
         let &mut SliceCopyMut {
             ref mut data,
             elem,
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
-- 
2.43.0


From ce965cdf946aa2e5521c5cde9a245a9266b30714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:43 +0000
Subject: [PATCH 6/9] fix: check rotation bounds before moving out of VecVoid

---
 src/vec_void.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 6515162..f0d4a40 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -350,6 +350,8 @@ impl VecVoid {
             }
         }
 
+        // Panicking while the contents are moved out would leave this vector in an invalid state.
+        assert!(n <= self.len);
         eval_align!(limited_stack, self.elem.alignment; rotate_left::<_>(self, n));
     }
 
@@ -365,6 +367,8 @@ impl VecVoid {
             }
         }
 
+        // Panicking while the contents are moved out would leave this vector in an invalid state.
+        assert!(n <= self.len);
         eval_align!(limited_stack, self.elem.alignment; rotate_right::<_>(self, n));
     }
 
-- 
2.43.0


From 425413b0162f64b695bde3fe85dcdaf3335a49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 7/9] fix: drop values on mismatched types instead of leaking
 them

---
 src/value.rs   | 29 +++++++++++++++--------------
 src/vec_dyn.rs |  2 ++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..fcc8328 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -114,9 +114,10 @@ impl<V: HasDrop> SmallValue<V> {
     where
         V: VTable<T>,
     {
-        // Prevent drop of value when it goes out of scope.
-        let val = ManuallyDrop::new(value);
-        val.try_into_usize().map(|usized_value| Value {
+        let usized_value = value.try_into_usize()?;
+        // Prevent drop of value when it goes out of scope, since it was moved above.
+        let _ = ManuallyDrop::new(value);
+        Some(Value {
             bytes: ManuallyDrop::new(usized_value),
             type_id: TypeId::of::<T>(),
             alignment: std::mem::align_of::<T>(),
@@ -367,15 +368,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // Drop the contents along with everything else.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we check that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +391,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // Drop the contents along with everything else.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
         // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 0bfc318..8030d2e 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -351,6 +351,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // If the types don't match, self is dropped here along with its elements.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 9cd4d9272952459c3a858fd4455795354fd6dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 8/9] fix: deallocate pushed box values with their original
 alignment

---
 src/vec_dyn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 8030d2e..eb57e63 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -436,8 +436,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
-            self.data.data.push(&*bytes);
+            let (bytes, _, alignment, _) = value.into_raw_parts();
+            let mut bytes = ManuallyDrop::new(bytes);
+            self.data.data.push(&**bytes);
+            // The bytes must be deallocated with the same alignment they were allocated with.
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From 7be7bfe9ee9740fffacec931b973bb00e60fed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 9/9] fix: tie the lifetime of untyped slices to the borrowed
 data

---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 3cb7437..c29f7d2 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 1c56686..86f97f2 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0

