From 6b1cd3862cdd06efeb6811ae8df8b4ffda98572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 01/14] fix: Chunk::from_front/from_back check count in release
 builds too

The bound was a debug_assert, so an oversized count read uninitialised
memory and overran the new chunk in optimised builds.
---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..9556663 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From 57dc6a1b486be4eaa3737e0d8a41366a0ab01933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 02/14] fix: Chunk::insert_from asks the iterator for its
 length only once

The hole is sized by the first answer; an ExactSizeIterator giving a
larger second answer could write past the hole and past the chunk.
---
 src/sized_chunk/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 9556663..89f4a9c 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, len: usize, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -615,14 +614,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right += insert_size;
         } else {
@@ -630,7 +629,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 54e58ee73b7f63b5bf44fcdaa9b59a5432bc176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 03/14] fix: insert_from capacity check cannot overflow

An iterator reporting a length close to usize::MAX wrapped the sum and
passed the check in release builds.
---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..8f96c80 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -652,7 +652,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 89f4a9c..0cdb6cd 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -598,7 +598,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 28ad113d56dd758b001f14435666945d3cac49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 04/14] fix: indexing a ring buffer slice stays inside the
 slice

Index and IndexMut only checked the bounds of the underlying buffer, so
elements outside the window (including those of the other half after
SliceMut::split_at) were reachable.
---
 src/ring_buffer/slice.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..4284795 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("Slice::index: index out of bounds {} >= {}", index, self.len());
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +445,9 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!("SliceMut::index: index out of bounds {} >= {}", index, self.len());
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +456,13 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!(
+                "SliceMut::index_mut: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From a6f650800d82613ade96ca16db0afe421c6b1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 05/14] fix: RingBuffer io::Write may wrap around in debug
 builds

copy_from_slice handles a copy that wraps around the end, but asserted
first that there is none.
---
 src/ring_buffer/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 8f96c80..833bda3 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,6 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 8bed7393457c7e3d70289763f8f8fd9333404263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 06/14] fix: a panicking destructor in
 clear/drop_left/drop_right causes no double drop

The elements stayed owned by the container while their destructors ran,
so a panic in one of them made the container drop all of them again.
---
 src/inline_array/mod.rs |  4 +++-
 src/ring_buffer/mod.rs  | 22 ++++++++++++++--------
 src/sized_chunk/mod.rs  | 12 +++++++++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..c595a20 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -394,9 +394,11 @@ impl<A, T> InlineArray<A, T> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
+        let len = self.len();
         unsafe {
-            self.drop_contents();
+            // Panic safety: give the elements up before their destructors run.
             *self.len_mut() = 0;
+            ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.data_mut(), len));
         }
     }
 
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 833bda3..c7b5d03 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -466,11 +466,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let range = self.range();
+            // Panic safety: give the elements up before their destructors run.
             self.origin += index;
             self.length -= index;
+            for i in range.take(index) {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -486,10 +488,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let range = self.range();
+        // Panic safety: give the elements up before their destructors run.
+        self.length = index;
+        for i in range.skip(index) {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -749,11 +753,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let range = self.range();
+        // Panic safety: give the elements up before their destructors run.
         self.origin = 0.into();
         self.length = 0;
+        for i in range {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 0cdb6cd..38928a2 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -405,8 +405,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let dropped: *mut [A] = &mut self[..index];
+            // Panic safety: give the elements up before their destructors run.
             self.left += index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -417,8 +419,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let dropped: *mut [A] = &mut self[index..];
+            // Panic safety: give the elements up before their destructors run.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -672,9 +676,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let dropped: *mut [A] = self.as_mut_slice();
+        // Panic safety: give the elements up before their destructors run.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(dropped) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 3683d1ff17dc71d3b9fbe079af778991b4498755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 07/14] fix: Chunk and InlineArray hash like the slice they
 borrow as

Both implement Borrow<[A]>, which requires equal hashes; hashing without
the slice's length prefix made HashMap lookups by slice miss.
---
 src/inline_array/mod.rs | 5 ++---
 src/sized_chunk/mod.rs  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index c595a20..d53ae47 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // `Borrow<[A]>` requires the same hash as the slice's.
+        self.deref().hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 38928a2..3311266 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // `Borrow<[A]>` requires the same hash as the slice's.
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From c2f9c5e2bbaec3d85dc3bbf5a0c10b7e20f93bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 08/14] fix: a RingBuffer of capacity 0 can be created and used

RawIndex arithmetic asserted index < N in debug builds and looped forever
in release builds when N is 0.
---
 src/ring_buffer/index.rs | 6 +++---
 src/ring_buffer/mod.rs   | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..cf84bd5 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,7 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        debug_assert!(index < N || (N == 0 && index == 0));
         RawIndex(index)
     }
 }
@@ -76,7 +76,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +87,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index c7b5d03..a013ed3 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,6 +189,9 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
+        if count == 0 {
+            return;
+        }
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 6b7010f892d63e9a76d02175d79514f3d039b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 09/14] fix: ring buffer range bounds close to usize::MAX do
 not wrap around

In release builds ..=usize::MAX wrapped to an empty range instead of
being refused as out of bounds.
---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a013ed3..141c64b 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -353,7 +353,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 4284795..b6d3dc3 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,15 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -360,13 +362,15 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From 8128241a2571a925f4b050ec047cd0a1c44e02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 10/14] fix: SparseChunk's mutable iterators do not invalidate
 references handed out

---
 src/sparse_chunk/iter.rs | 31 +++++++++++++++++--------------
 src/sparse_chunk/mod.rs  | 12 +++++++++---
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/sparse_chunk/iter.rs b/src/sparse_chunk/iter.rs
index a9cb392..6dcdf60 100644
--- a/src/sparse_chunk/iter.rs
+++ b/src/sparse_chunk/iter.rs
@@ -1,3 +1,6 @@
+use core::mem::MaybeUninit;
+use core::slice::IterMut as SliceIterMut;
+
 use bitmaps::{Bitmap, Bits, BitsImpl, Iter as BitmapIter};
 
 use super::SparseChunk;
@@ -32,7 +35,8 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) bitmap: Bitmap<N>,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    /// The slots not visited yet.
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for IterMut<'a, A, N>
@@ -44,10 +48,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(index) = self.bitmap.first_index() {
             self.bitmap.set(index, false);
-            unsafe {
-                let p: *mut A = &mut self.chunk.values_mut()[index];
-                Some(&mut *p)
-            }
+            let skip = index - (N - self.slots.len());
+            self.slots
+                .nth(skip)
+                .map(|slot| unsafe { &mut *slot.as_mut_ptr() })
         } else {
             None
         }
@@ -130,7 +134,9 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) index: usize,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    pub(crate) bitmap: Bitmap<N>,
+    /// The slots not visited yet.
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for OptionIterMut<'a, A, N>
@@ -140,17 +146,14 @@ where
     type Item = Option<&'a mut A>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index < N {
-            let result = if self.chunk.map.get(self.index) {
-                unsafe {
-                    let p: *mut A = &mut self.chunk.values_mut()[self.index];
-                    Some(Some(&mut *p))
-                }
+        if let Some(slot) = self.slots.next() {
+            let result = if self.bitmap.get(self.index) {
+                Some(unsafe { &mut *slot.as_mut_ptr() })
             } else {
-                Some(None)
+                None
             };
             self.index += 1;
-            result
+            Some(result)
         } else {
             None
         }
diff --git a/src/sparse_chunk/mod.rs b/src/sparse_chunk/mod.rs
index b0ac43b..4a5fdcb 100644
--- a/src/sparse_chunk/mod.rs
+++ b/src/sparse_chunk/mod.rs
@@ -12,7 +12,7 @@ use core::mem::{self, MaybeUninit};
 use core::ops::Index;
 use core::ops::IndexMut;
 use core::ptr;
-use core::slice::{from_raw_parts, from_raw_parts_mut};
+use core::slice::{from_raw_parts, from_raw_parts_mut, IterMut as SliceIterMut};
 
 #[cfg(feature = "std")]
 use std::collections::{BTreeMap, HashMap};
@@ -100,6 +100,11 @@ where
         unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut A, N) }
     }
 
+    #[inline]
+    fn slots_mut(&mut self) -> SliceIterMut<'_, MaybeUninit<A>> {
+        unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut MaybeUninit<A>, N) }.iter_mut()
+    }
+
     /// Copy the value at an index, discarding ownership of the copied value
     #[inline]
     unsafe fn force_read(index: usize, chunk: &Self) -> A {
@@ -256,7 +261,7 @@ where
     pub fn iter_mut(&mut self) -> IterMut<'_, A, N> {
         IterMut {
             bitmap: self.map,
-            chunk: self,
+            slots: self.slots_mut(),
         }
     }
 
@@ -288,8 +293,9 @@ where
     /// returning an `Option<&mut A>` for each index.
     pub fn option_iter_mut(&mut self) -> OptionIterMut<'_, A, N> {
         OptionIterMut {
-            chunk: self,
             index: 0,
+            bitmap: self.map,
+            slots: self.slots_mut(),
         }
     }
 
-- 
2.43.0


From 27a7ac1a75fcb3ce2a86207cfb8de7fecd87efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 11/14] fix: size hints of generated containers count the byte
 read before each element

---
 src/arbitrary.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..3aea43e 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,12 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// The most bytes `capacity` elements can take: each is preceded by a byte that
+/// tells whether to go on.
+fn upper_bound(element: Option<usize>, capacity: usize) -> Option<usize> {
+    element?.checked_add(1)?.checked_mul(capacity)
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -27,7 +33,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -49,7 +55,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -71,7 +77,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
@@ -92,7 +98,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper_bound(upper, Self::CAPACITY))
         })
     }
 }
-- 
2.43.0


From e14b04fd2378679057ac5adf0ee3c2575a3a7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 12/14] fix: RingBuffer::remove shifts the shorter side, not
 counting the removed element

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 141c64b..b98a56f 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -723,7 +723,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             panic!("RingBuffer::remove: index out of bounds");
         }
         let value = unsafe { self.force_read(self.raw(index)) };
-        let right_count = self.len() - index;
+        let right_count = self.len() - index - 1;
         // Check which side has fewer elements to shift.
         if right_count < index {
             // Shift from the right.
-- 
2.43.0


From fe447df7f405c261844d3f6965639fbaae43d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 13/14] fix: Chunk bounds checks do not overflow at capacities
 close to usize::MAX

Such a chunk can hold zero-sized elements. After push_front its indices are
close to the capacity, and adding to them wrapped around: a panic in debug
builds, a corrupted chunk in release builds.
---
 src/sized_chunk/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 3311266..a6be90f 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -457,10 +457,10 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn append(&mut self, other: &mut Self) {
         let self_len = self.len();
         let other_len = other.len();
-        if self_len + other_len > N {
+        if other_len > N - self_len {
             panic!("Chunk::append: chunk size overflow");
         }
-        if self.right + other_len > N {
+        if other_len > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -481,9 +481,9 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn drain_from_front(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        assert!(self_len + count <= N);
+        assert!(count <= N - self_len);
         assert!(other_len >= count);
-        if self.right + count > N {
+        if count > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -503,7 +503,7 @@ impl<A, const N: usize> Chunk<A, N> {
     pub fn drain_from_back(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        assert!(self_len + count <= N);
+        assert!(count <= N - self_len);
         assert!(other_len >= count);
         if self.left < count {
             unsafe { Chunk::force_copy(self.left, N - self_len, self_len, self) };
@@ -621,7 +621,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
-        } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
+        } else if self.left == 0 || (insert_size <= Self::CAPACITY - self.right) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-- 
2.43.0


From 70c8bc0d53d5d77e4712eb3236bad98e7de2335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 14/14] fix: RingBuffer index arithmetic does not overflow at
 capacities close to usize::MAX

Such a buffer can hold zero-sized elements. Adding to an index close to the
capacity panicked in debug builds.
---
 src/ring_buffer/index.rs | 29 +++++++++++++++--------------
 src/ring_buffer/mod.rs   | 14 +++++++-------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index cf84bd5..dcf03ae 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -75,21 +75,22 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
-        let mut result = self.0 + other;
-        while N > 0 && result >= N {
-            result -= N;
-        }
-        result.into()
+        let mut result = self;
+        result += other;
+        result
     }
 }
 
 impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
-        self.0 += other;
-        while N > 0 && self.0 >= N {
-            self.0 -= N;
+        // This counts what's left until the end, because `self.0 + other` could overflow.
+        let mut other = other;
+        while N > 0 && other >= N - self.0 {
+            other -= N - self.0;
+            self.0 = 0;
         }
+        self.0 += other;
     }
 }
 
@@ -107,19 +108,19 @@ impl<const N: usize> Sub<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn sub(self, other: usize) -> Self::Output {
-        let mut start = self.0;
-        while other > start {
-            start += N;
-        }
-        (start - other).into()
+        let mut result = self;
+        result -= other;
+        result
     }
 }
 
 impl<const N: usize> SubAssign<usize> for RawIndex<N> {
     #[inline]
     fn sub_assign(&mut self, other: usize) {
+        let mut other = other;
         while other > self.0 {
-            self.0 += N;
+            other -= self.0 + 1;
+            self.0 = N - 1;
         }
         self.0 -= other;
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index b98a56f..4f27051 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -164,18 +164,18 @@ impl<A, const N: usize> RingBuffer<A, N> {
             count: usize,
         ) {
             if count > 0 {
-                debug_assert!(from.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
-                debug_assert!(to.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - from.to_usize());
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - to.to_usize());
                 core::ptr::copy_nonoverlapping(source.mut_ptr(from), target.mut_ptr(to), count)
             }
         }
 
-        if from.to_usize() + count > Self::CAPACITY {
+        if count > Self::CAPACITY - from.to_usize() {
             let first_length = Self::CAPACITY - from.to_usize();
             let last_length = count - first_length;
             self.copy_from(source, from, to, first_length);
             self.copy_from(source, 0.into(), to + first_length, last_length);
-        } else if to.to_usize() + count > Self::CAPACITY {
+        } else if count > Self::CAPACITY - to.to_usize() {
             let first_length = Self::CAPACITY - to.to_usize();
             let last_length = count - first_length;
             force_copy_to(source, from, self, to, first_length);
@@ -192,7 +192,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if count == 0 {
             return;
         }
-        if to.to_usize() + count > Self::CAPACITY {
+        if count > Self::CAPACITY - to.to_usize() {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
             let last_slice = &source[first_length..];
@@ -544,7 +544,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     pub fn drain_from_front(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        if self_len + count > Self::CAPACITY {
+        if count > Self::CAPACITY - self_len {
             panic!("RingBuffer::drain_from_front: chunk size overflow");
         }
         if other_len < count {
@@ -566,7 +566,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     pub fn drain_from_back(&mut self, other: &mut Self, count: usize) {
         let self_len = self.len();
         let other_len = other.len();
-        if self_len + count > Self::CAPACITY {
+        if count > Self::CAPACITY - self_len {
             panic!("RingBuffer::drain_from_back: chunk size overflow");
         }
         if other_len < count {
-- 
2.43.0

