From 48432893e10780ac217fec55a710676cdb5a19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 01/18] fix: right-align the tail of a collection shorter than
 a vector after an advance

---
 src/iters.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..ba20c3d 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -533,9 +533,11 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
                 ret = unsafe { self.load_unchecked(self.scalar_len() - self.width()) };
                 ret = self.default().merge_partitioned(ret, empty_amt);
             } else {
+                // The whole collection is right-aligned, wherever we are in it
+                let lead = self.width() - self.scalar_len();
                 for i in self.scalar_pos()..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i + lead, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -602,8 +604,9 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.load_unchecked(self.scalar_len() - self.width());
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
+            let lead = self.width() - self.scalar_len();
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i + lead, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From 62c6d5f5d68acf011e5bf73941de9a62e69703a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 02/18] fix: scalar_collect of an advanced iterator without a
 tail returns what it stored

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index ba20c3d..ce8bb8c 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -730,7 +730,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From 35f6ba04e9533ba61fd6a5fe8ef68ab8af718e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 03/18] fix: scalar_collect_all allocates and returns whole
 vectors

---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index ce8bb8c..73c0f72 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -771,10 +771,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From 2a62f369c3d2265486ba97892d515df57e54218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 04/18] fix: check the bounds of the buffer in scalar_fill and
 scalar_fill_all

---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 73c0f72..9cce22b 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -742,7 +742,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -750,10 +750,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -794,12 +792,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 823a2e22e6015a894956739eceb2e24375d14ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 05/18] fix: simd_for_each leaves consumed elements alone when
 only a tail is left

---
 src/iters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 9cce22b..4f89276 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -554,10 +554,12 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
         let mut lastvec = Self::Vector::default();
+        let mut stored = false;
 
         while let Some(mut v) = self.next() {
             func(&mut v);
             lastvec = v;
+            stored = true;
             let offset = self.scalar_pos() - self.width();
             unsafe { self.data.store_unchecked(v, offset); }
         }
@@ -565,7 +567,7 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
         if let Some((mut p, n)) = self.end() {
             func(&mut p);
             let width = self.width();
-            if self.width() < self.scalar_len() {
+            if stored {
                 // We stored a vector in this buffer; overwrite the unused elements
                 unsafe {
                     self.data.store_unchecked(p, offset - n);
-- 
2.43.0


From d1b53c2c8b28c360a63357fb096a3914b952dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 06/18] fix: a map reports the length and position of what it
 maps

---
 src/iters.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 4f89276..95b8fc8 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -648,7 +648,12 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
+    }
+
+    #[inline(always)]
+    fn vector_len(&self) -> usize {
+        self.iter.vector_len()
     }
 }
 
@@ -659,6 +664,11 @@ impl<A, B, I, F> SIMDIterable for SIMDMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount);
-- 
2.43.0


From 24ad51058b1b82e1f698321c2a41ce736af3bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 07/18] fix: a zip reports its length in scalars, and its map
 the position in vectors

---
 src/zip.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..34a9f03 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -289,6 +289,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
@@ -348,6 +353,11 @@ impl<I, F, A> SIMDIterable for SIMDZipMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount)
-- 
2.43.0


From 547dabd734dbd3ccb5983a7e28e43003f3b1dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 08/18] fix: reject zips of iterators of unequal scalar lengths
 or widths

---
 src/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index 34a9f03..bc94ce3 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,7 +225,7 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len() || self.0.width() != self.$n.width())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
                 Zip { iters: self }
-- 
2.43.0


From 816d6c995657b2fa35119d28a0e6d16e2a96b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 09/18] fix: SIMDAdapter delivers every item of its iterator
 once and in order

---
 src/iters.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 95b8fc8..19a534f 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -239,7 +239,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.width() <= self.iter.len() {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
@@ -247,8 +247,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
@@ -258,19 +257,16 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
-        if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+        if self.iter.len() > 0 {
+            // This is the last vector we can load, so we should right-align it
+            // and leave the default vector in blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
-                unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
-                }
-                offset -= 1;
+            let empty_amt = self.width() - self.iter.len();
+            for offset in empty_amt..self.width() {
+                self.scratch = self.scratch.replace(offset, self.iter.next().unwrap());
+                self.position += 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -280,14 +276,15 @@ impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.len() / self.width()
+        self.scalar_len() / self.width()
     }
 }
 
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        // The items before our position were taken out of the iterator
+        self.position + self.iter.len()
     }
 }
 
@@ -299,6 +296,9 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
+        for _ in 0..amount {
+            self.iter.next();
+        }
         self.position += amount
     }
 
-- 
2.43.0


From 827be3fc29440940d8b740b2ebe8da22aa2685f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 10/18] fix: a stride delivers its last full vector, whatever
 its offset

---
 src/stride.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..c1e5b59 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
+        if self.scalar_pos() + self.width() <= self.scalar_len() {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
-- 
2.43.0


From 6910b4cb7d9c245a7d2fb3fa158756bed1a59bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 11/18] fix: reject offsets which overflow in the loads of a
 stride

---
 src/stride.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stride.rs b/src/stride.rs
index c1e5b59..b9cf71f 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -293,6 +293,7 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
+        assert!(offset <= self.iter.scalar_len()); // The next line would overflow
         assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
         unsafe { self.load_unchecked(offset) }
     }
@@ -310,6 +311,7 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn load_scalar(&self, offset: usize) -> Self::Scalar {
+        assert!(offset <= self.iter.scalar_len()); // The next line would overflow
         self.iter.load_scalar(self.base + offset * self.stride)
     }
 
-- 
2.43.0


From d3768ca5327ea36aba136e364746a186010ed005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:09 +0000
Subject: [PATCH 12/18] fix: StrideZip delivers a right-aligned tail, and
 accounts for the vector it holds back

---
 src/stride_zip.rs | 62 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..453e6b1 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -5,7 +5,8 @@ use crate::zip::{SIMDZippedIterable, SIMDZippedIterator, SIMDZippedObject};
 
 pub struct StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     base: usize,
-    peek: Option<T::Vector>,
+    peek: Option<T::Vector>, // A vector which lacks a second one to pair with
+    skipped: usize, // How many elements of it were advanced over
     iter: T
 }
 
@@ -21,11 +22,21 @@ impl<T> IntoStrideZip for T where T : SIMDIterator, T::Vector : Destride {
         StrideZip {
             base: self.scalar_pos(),
             peek: None,
+            skipped: 0,
             iter: self
         }
     }
 }
 
+impl<T> StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
+    /// Return the number of elements which were taken from `iter`, but not
+    /// delivered yet.
+    #[inline(always)]
+    fn held(&self) -> usize {
+        self.peek.map_or(0, |_| T::Vector::WIDTH - self.skipped)
+    }
+}
+
 impl<T> SIMDZippedObject for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Scalars = (T::Scalar, T::Scalar);
     type Vectors = (T::Vector, T::Vector);
@@ -53,22 +64,29 @@ impl<T> ExactSizeIterator for StrideZip<T> where T : SIMDIterator, T::Vector : D
 impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     #[inline(always)]
     fn scalar_pos(&self) -> usize {
-        (self.iter.scalar_pos() - self.base) / 2
+        (self.iter.scalar_pos() - self.held() - self.base) / 2
     }
 
     #[inline(always)]
     fn vector_pos(&self) -> usize {
-        (self.iter.vector_pos() - (self.base / self.width())) / 2
+        self.scalar_pos() / self.width()
     }
 
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / 2
+        (self.iter.scalar_len() - self.base) / 2
     }
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(2 * amount);
+        let held = self.held();
+        if 2 * amount < held {
+            self.skipped += 2 * amount;
+        } else {
+            self.peek = None;
+            self.skipped = 0;
+            self.iter.advance(2 * amount - held);
+        }
     }
 
     #[inline(always)]
@@ -94,19 +112,31 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
-        let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
+        let skipped = self.skipped;
+        let first = self.peek.take().or_else(|| self.iter.next());
+        let (last, n) = self.iter.end().unwrap_or((T::Vector::default(), self.width()));
+        self.skipped = 0;
+
+        let in_first = first.map_or(0, |_| self.width() - skipped);
+        let total = in_first + self.width() - n;
+        if total == 0 {
+            return None;
+        }
+
+        // Right-align what is left of both vectors, pair by pair
+        let empty_amt = self.width() - (total + 1) / 2;
+        let (mut even, mut odd) = self.default();
+        for i in 0..total {
+            let item = match first {
+                Some(first) if i < in_first => first.extract(skipped + i),
+                _ => last.extract(n + i - in_first)
+            };
+            if i % 2 == 0 {
+                even = even.replace(empty_amt + i / 2, item);
             } else {
-                None
+                odd = odd.replace(empty_amt + i / 2, item);
             }
         }
+        Some(((even, odd), empty_amt))
     }
 }
-- 
2.43.0


From 40cb2c0662b2d1eac0cf9c436e226ecb19003669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 13/18] fix: the second half of destride_two of 32 bytes with
 AVX2

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From a1c17c57d8fbd37d7e304b4e2855be82b69c7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 14/18] fix: u64 saturating_downcast clamps every lane to the
 range of u32

---
 src/arch/x86/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..7916b05 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -52,9 +52,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -330,13 +330,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From fbc7046bf95af9b44d339c83629234f9a640cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 15/18] fix: lane order of saturating_downcast with AVX2

---
 src/arch/x86/intrin/downcast.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 7916b05..4921361 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -159,7 +159,8 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        // The packing instructions of AVX2 work on each half separately
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi32(self, other).be_i64s(), 0xD8).be_i16s() }
     }
 
     #[inline(always)]
@@ -190,7 +191,8 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        // The packing instructions of AVX2 work on each half separately
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi16(self, other).be_i64s(), 0xD8).be_i8s() }
     }
 
     #[inline(always)]
@@ -237,7 +239,8 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        // The packing instructions of AVX2 work on each half separately
+        unsafe { _mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(self), transmute(other))), 0xD8).be_u16s() }
     }
 
     #[inline(always)]
@@ -268,7 +271,8 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // The packing instructions of AVX2 work on each half separately
+        unsafe { _mm256_permute4x64_epi64(_mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_i64s(), 0xD8).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From c3a94ded181fbbb2458fe2c99e90a1b5d1defce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 16/18] fix: saturating_downcast of unsigned lanes with their
 top bit set

---
 src/arch/x86/intrin/downcast.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 4921361..f2db4ee 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -105,7 +105,9 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        // packus takes signed lanes
+        let (a, b) = (self.min(Self::splat(0xFFFF)), other.min(Self::splat(0xFFFF)));
+        unsafe { transmute(_mm_packus_epi32(transmute(a), transmute(b))) }
     }
 
     #[inline(always)]
@@ -128,7 +130,9 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus takes signed lanes
+        let (a, b) = (self.min(Self::splat(0xFF)), other.min(Self::splat(0xFF)));
+        unsafe { _mm_packus_epi16(a.be_i16s(), b.be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -239,8 +243,10 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
+        // packus takes signed lanes
+        let (a, b) = (self.min(Self::splat(0xFFFF)), other.min(Self::splat(0xFFFF)));
         // The packing instructions of AVX2 work on each half separately
-        unsafe { _mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(self), transmute(other))), 0xD8).be_u16s() }
+        unsafe { _mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(a), transmute(b))), 0xD8).be_u16s() }
     }
 
     #[inline(always)]
@@ -271,8 +277,10 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
+        // packus takes signed lanes
+        let (a, b) = (self.min(Self::splat(0xFF)), other.min(Self::splat(0xFF)));
         // The packing instructions of AVX2 work on each half separately
-        unsafe { _mm256_permute4x64_epi64(_mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_i64s(), 0xD8).be_u8s() }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packus_epi16(a.be_i16s(), b.be_i16s()).be_i64s(), 0xD8).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From a78cfc73a617fc7a07b8614198fd78f1a9277cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 17/18] fix: sum_upcast of i8 lanes is not truncated to i8

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From 4b6dcbd4e77dbb79e58e295eaf3d4e54d71e0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 18/18] fix: lines of concurrent threads mix in the log of the
 trace feature

---
 src/debug.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.rs b/src/debug.rs
index b7e3a2a..bf61f88 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -24,7 +24,8 @@ macro_rules! debug_append_log {
             .create(true)
             .append(true)
             .open(file_name).and_then(|mut file| {
-                writeln!(file, "{}", $str)
+                // One write, so that lines of concurrent threads don't mix
+                file.write_all(format!("{}\n", $str).as_bytes())
         }).ok(); // `ok` suppresses warning about unused results, about which we don't care.
     }
 }
-- 
2.43.0

