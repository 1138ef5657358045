From c253d2f3404b2437da1666927529c801a233f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:03 +0000
Subject: [PATCH 01/31] fix: replace the right bits when one letter of a tensor
 word is overwritten

The mask was shifted by the letter position instead of the bit position, so
key iteration went wrong at the first carry past the last letter: [3,3] was
followed by [1,3,1] instead of [1,1,1].
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..1a14344 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 85403b17eb99ea6b6b41594e4db45c1fabd12646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 02/31] fix: displaying a tensor key no longer recurses for
 ever

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 1a14344..20552c1 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From aa3ab925c91836f92e442686e2c248124097db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:05 +0000
Subject: [PATCH 03/31] fix: compare tensor keys by length before letters

Comparing only the packed letters made (), (1) and (1,1) equal, and (3)
greater than (1,1), in disagreement with the index order of the basis.
---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..16d2d23 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From e4cea4b23779059c837a93d282184afbec604640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:07 +0000
Subject: [PATCH 04/31] fix: start_of_degree divided by zero for one letter and
 overflowed for wide alphabets

The geometric sum is built up directly: its value fits wherever the basis
does, the power NLETTERS^deg used before does not.
---
 src/free_tensor/tensor_basis/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 16d2d23..9ef46cd 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,7 +28,13 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
-        (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
+        let mut result: DimensionType = 0;
+        let mut i = 0;
+        while i < deg {
+            result = result * (NLETTERS as DimensionType) + 1;
+            i += 1;
+        }
+        result
     }
 
     pub(crate) const fn degree_range(deg: DegreeType) -> Range<DimensionType>
-- 
2.43.0


From fb71ca1791a0ba30029bf4b64e8a8492ac943b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:08 +0000
Subject: [PATCH 05/31] fix: mobius function recursed for ever on composite
 arguments

mobius(6) called mobius(6); every degree range map reaching degree 6 (so the
Hall set of any alphabet of 2 to 10 letters) overflowed the stack.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From 4f4260fb2301145e2a29e407b477ef8cb7b9a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 06/31] fix: divide Witt's sum by the degree once instead of
 term by term

Only the sum is divisible; truncating each term gave one element too many,
for example in degree 35 over 2 or 3 letters.
---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From 075c0b24a16fd73642f74f109d48855801768db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 07/31] fix: the last key of each degree was given the next
 degree

Keys count from 1 (key 0 is the null key), so the keys of degree d are those
above the number of elements of degree below d and up to the number of
elements of degree at most d: letter N of N letters has degree 1, not 2.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From 1918df9429204560880f942e304d833da34241f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 08/31] fix: get_hall_set deadlocked with itself on the first
 call for a width

The read guard in the if-let scrutinee was still held in the else branch,
where the write lock of the same cache was requested.
---
 src/lie/lie_basis/hall_set.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..58cfbbc 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock has to be released before the write lock is asked for.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
-- 
2.43.0


From 9b3f360ab3bf8607aba6834fcd8b46099e4b48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:36 +0000
Subject: [PATCH 09/31] fix: concurrent first requests for a Hall set returned
 different objects

A thread that lost the race replaced the object already handed out by the
winner; keep the first one stored and give it to both.
---
 src/lie/lie_basis/hall_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 58cfbbc..dab89a7 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -268,8 +268,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS)
+            .or_insert(new_hs)
+            .clone()
     }
 
 }
-- 
2.43.0


From db42116c08bbcc15ad186b8aaa5a4fb9f5c2824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 10/31] fix: insert_single on a dense vector discarded the
 value

---
 src/vector/implementation/simple_dense_vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..8323472 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,7 +241,11 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
 
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-- 
2.43.0


From 93e9027e7591179d81426ae432fada9f34341996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:38 +0000
Subject: [PATCH 11/31] fix: insert on a dense vector always panicked

---
 src/vector/implementation/simple_dense_vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 8323472..00b746b 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -249,7 +249,9 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, val) in iterator {
+            self.insert_single(&key, val);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
-- 
2.43.0


From ca9f837ff06dda08f7a5ac1d77f90fe36dde6b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:39 +0000
Subject: [PATCH 12/31] fix: sub_scalar_divide added to a key that was already
 present

The scalar is -1/val already; subtracting it again turned the subtraction
into an addition whenever the key had a coefficient.
---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From c1f6556bc29207d6a65db7ae7f22f165db1be5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 13/31] fix: get and get_mut of a wrapped vector called
 themselves for ever

---
 src/vector/implementation/deref_impl.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..10ff948 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,6 +6,24 @@ use crate::vector::*;
 
 
 
+// Going through these, the compiler can see that the inner vector lives as long as the wrapper.
+fn get_inner<'s, 'vec, W, K>(wrapper: &'s W, key: K) -> Option<&'s <W::Target as Vector<'vec>>::ScalarType>
+    where W: Deref,
+          W::Target: Vector<'vec>,
+          K: Borrow<<W::Target as Vector<'vec>>::KeyType>
+{
+    wrapper.deref().get(key)
+}
+
+fn get_mut_inner<'s, 'vec, W, K>(wrapper: &'s mut W, key: K) -> Option<&'s mut <W::Target as Vector<'vec>>::ScalarType>
+    where W: DerefMut,
+          W::Target: Vector<'vec>,
+          K: Borrow<<W::Target as Vector<'vec>>::KeyType>
+{
+    wrapper.deref_mut().get_mut(key)
+}
+
+
 impl<'vec, U, V> Vector<'vec> for V
     where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
@@ -46,11 +64,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        get_inner(self, key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        get_mut_inner(self, key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From 2f95004eadcafd474d182f4d891b579ebf6e4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:30 +0000
Subject: [PATCH 14/31] fix: to_owned of a sparse vector always panicked

So did every operation that returns a new vector (add, sub, uminus, the
scalar products and quotients), which start from an owned copy.
---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..afa5ed9 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -112,7 +112,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
-- 
2.43.0


From 3245066e71c1044e7fca35c82085707afb27cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:31 +0000
Subject: [PATCH 15/31] fix: swap of sparse vectors always panicked

---
 src/vector/implementation/simple_sparse_vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index afa5ed9..057c015 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -107,8 +107,8 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        std::mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-- 
2.43.0


From 0df3c4bc75afc3bbed1fb0a1605250ec0cfa001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:32 +0000
Subject: [PATCH 16/31] fix: insert on a sparse vector always panicked

---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 057c015..083a228 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -132,7 +132,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        self.0.extend(iterator);
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-- 
2.43.0


From 8b34eccb076a1bf0d4251e5f43b4911b34acbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 17/31] fix: erase on a sparse vector always panicked

---
 src/vector/implementation/simple_sparse_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 083a228..ee878fb 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -136,7 +136,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From a1953a0c36aa24763d5db9ab743ba6e733d32176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:34 +0000
Subject: [PATCH 18/31] fix: a sparse vector built from an iterator kept only
 the last of repeated terms

Dense vectors add up the coefficients of a repeated key, so the same terms
gave different vectors; as in addition, terms that cancel are not stored.
---
 src/vector/implementation/simple_sparse_vector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index ee878fb..d142884 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -102,8 +102,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            match inner.get_mut(&key) {
+                Some(v) => { S::add_inplace(v, &val); },
+                None => { inner.insert(key, val); }
+            };
         }
+        inner.retain(|_, v| *v != S::ZERO);
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-- 
2.43.0


From d32900213ab50eca4c1ddc4ed96a2290a1e778a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:35 +0000
Subject: [PATCH 19/31] fix: keys with letters outside the alphabet led to out
 of bounds writes

from_letter(4) over 3 letters gave a key whose index lies beyond the dimension
computed for it, and from_key writes at that index without a bounds check.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 20552c1..563bdea 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -86,6 +86,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn from_letter(letter: LetterType) -> Self
     {
+        assert!(letter >= 1 && letter <= NLetters, "Letter is not in the alphabet");
         Self {
             size: 1,
             data: letter as u64 - 1
@@ -127,7 +128,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         let mut data = 0;
 
         for letter in letters {
-            debug_assert!(*letter >= 1 && *letter <= NLetters);
+            assert!(*letter >= 1 && *letter <= NLetters, "Letter is not in the alphabet");
             data <<= Self::bits_per_letter();
             data += (*letter - 1) as u64;
             //result.push_front(*letter);
-- 
2.43.0


From a61a719699d304c7d24131c948cf015db83f3cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:36 +0000
Subject: [PATCH 20/31] fix: concatenate silently lost letters beyond the
 maximum depth

It also overflowed its shift for an empty word followed by a word filling all
64 bits (two letters from an alphabet of at least 2^31).
---
 src/free_tensor/tensor_basis/tensor_key.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 563bdea..b9a3ef5 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -159,9 +159,14 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn concatenate(&self, other: &Self) -> Self
     {
+        assert!(self.size() + other.size() <= Self::max_depth(), "Number of letters exceeds maximum depth");
+        let shifted = match self.data().checked_shl(other.size() * Self::bits_per_letter()) {
+            Some(data) => data,
+            None => 0 // The other word fills all 64 bits, so this one is empty.
+        };
         Self {
             size: self.size() + other.size(),
-            data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
+            data: shifted + other.data()
         }
     }
 
-- 
2.43.0


From 9b8a6886a259e03dc285e27a4eed474891956f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:38 +0000
Subject: [PATCH 21/31] fix: index_to_key silently returned a corrupt word for
 indices past the basis

---
 src/free_tensor/tensor_basis/tensor_key.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index b9a3ef5..379b65f 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -183,6 +183,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub(super) fn push_front_raw(&mut self, letter: LetterType) -> &mut Self
     {
+        assert!(self.size() < Self::max_depth(), "Number of letters exceeds maximum depth");
         let mut data = self.data();
         data += ((letter as u64) & Self::letter_mask()) << (self.size()*Self::bits_per_letter());
         self.data = data;
-- 
2.43.0


From cac511638b8a30a3c7003b62a3c49afb666502d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 22/31] fix: push_front accepted letters outside the alphabet
 in release builds

Such a word has an index beyond its dimension (see from_letter); its length is
checked by push_front_raw.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 379b65f..6607a34 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -193,8 +193,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub fn push_front(&mut self, letter: LetterType) -> &mut Self
     {
-        debug_assert!(self.size() < Self::max_depth());
-        debug_assert!(letter >= 1 && letter <= NLetters,
+        assert!(letter >= 1 && letter <= NLetters,
                       "Expected letter between 1 and {}, got {}", NLetters, letter);
         self.push_front_raw(letter - 1)
     }
-- 
2.43.0


From 1a3f396399edf2e9c076973a7ceaf836dcb892be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:30 +0000
Subject: [PATCH 23/31] fix: in-place tensor multiplication read and wrote out
 of bounds

It subtracted degrees below zero, indexed the two halves of a split slice with
offsets from its beginning, never computed the constant term, and replaced
coefficients it still needed. Build the product from a copy of the old value
with the out-of-place multiplication instead.
---
 src/free_tensor/implementation/dense.rs | 108 ++----------------------
 1 file changed, 5 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..45f2f34 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -322,99 +309,14 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        // The product needs all of the old coefficients, so it is built up from a copy of them.
+        let lhs = <Self as Vector<'vec>>::to_owned(self);
+        self.clear();
+        self.multiply_and_add_into_impl(lhs, rhs, func, to_degree);
     }
 
 }
-- 
2.43.0


From eb234579c9615bf7e5868ee426a95099ea9ea0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:31 +0000
Subject: [PATCH 24/31] fix: tensor multiplication went out of bounds for empty
 and partly filled vectors

The degree of a vector does not say that all words of that degree are stored:
a vector may be empty (so may the result of multiply, when the product has
degree 0) or end within a degree. Grow the result by its size, not its degree,
and read only the coefficients that are there; missing ones are zero.
---
 src/free_tensor/implementation/dense.rs | 27 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 45f2f34..b7a68e5 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -58,13 +58,22 @@ impl<'a, S, const NLETTERS: DegreeType> From<SimpleDenseVector<'a, TensorBasis<N
 
 
 mod tensor_mul_impl {
+    use std::cmp;
+    use std::ops::Range;
+
     use crate::coefficients::CoefficientField;
-    
+
+    /// The part of the given range that is actually stored: data may be empty or end within a degree.
+    pub(super) fn stored_part<S>(data: &[S], range: Range<usize>) -> &[S]
+    {
+        &data[cmp::min(range.start, data.len())..cmp::min(range.end, data.len())]
+    }
 
     pub(super) unsafe fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_dim: usize,
         func: &mut impl FnMut(&S) -> S,
     )
     {
@@ -75,6 +84,8 @@ mod tensor_mul_impl {
                 S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                 out_ptr = out_ptr.add(1);
             }
+            // Skip the products with elements of this degree that are not stored.
+            out_ptr = out_ptr.add(rhs_dim - rhs.len());
         }
     }
 
@@ -256,7 +267,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::dense_tensor_multiply_into_buffer;
+        use tensor_mul_impl::{dense_tensor_multiply_into_buffer, stored_part};
 
         let rhs_r = rhs.borrow();
         let lhs_r = lhs.borrow();
@@ -269,8 +280,9 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let out_dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < out_dim {
+            self.resize(out_dim);
         }
 
 
@@ -293,12 +305,11 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
                         self.as_mut_slice()
                             .get_unchecked_mut(
                                 TensorBasis::<NLETTERS>::degree_range(out_deg)),
-                        lhs_r.as_slice()
-                            .get_unchecked(
+                        stored_part(lhs_r.as_slice(),
                                 TensorBasis::<NLETTERS>::degree_range(lhs_d)),
-                        rhs_r.as_slice()
-                            .get_unchecked(
+                        stored_part(rhs_r.as_slice(),
                                 TensorBasis::<NLETTERS>::degree_range(rhs_d)),
+                        TensorBasis::<NLETTERS>::degree_range(rhs_d).len(),
                         &mut func
                     );
                 }
-- 
2.43.0


From 7d5f0636520e80259429433029ef944acd8f3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:32 +0000
Subject: [PATCH 25/31] fix: mul_rat_rdiv multiplied by the scalar instead of
 dividing by it

---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From 4c34bcebf439bd99a34035c4f3051aae43d52f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:33 +0000
Subject: [PATCH 26/31] fix: exp, fmexp and log left out the terms of the
 highest degree

The series have to run up to and including the power MAX_DEGREE.
---
 src/free_tensor/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..09b9798 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,7 +67,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
-- 
2.43.0


From 3ac35b5fdbb8bfefa5f8922ecf2c7a28ce5741e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 27/31] fix: log dropped the result of every multiplication by
 its argument

---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 09b9798..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -73,7 +73,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 66b052afd183520305fa8e4a874fa6733ed5c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:14 +0000
Subject: [PATCH 28/31] hook: let verification builds (cfg vp_sched) control
 the Hall set cache locks

---
 src/lie/lie_basis/hall_set.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index dab89a7..ad5e3bc 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -3,11 +3,17 @@
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
+#[cfg(not(vp_sched))]
 use std::sync::{Arc, RwLock};
 
 
+#[cfg(not(vp_sched))]
 use lazy_static::lazy_static;
 
+// Verification builds that explore thread schedules put a controlled scheduler in place of std.
+#[cfg(vp_sched)]
+use shuttle::{lazy_static, sync::{Arc, RwLock}};
+
 use crate::{DegreeType, LetterType, DimensionType};
 use super::DataType;
 
-- 
2.43.0


From 4ccc3f64953bb3626dc60285f032609d25840ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:16 +0000
Subject: [PATCH 29/31] hook: expose the Lie basis internals to verification
 builds (cfg vp_hooks)

---
 src/lie/lie_basis/hall_set.rs | 10 ++++++++++
 src/lie/lie_basis/mod.rs      |  9 +++++++++
 src/lie/mod.rs                |  5 ++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index ad5e3bc..aa43c8c 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -90,6 +90,16 @@ impl HallSetObject {
     }
 }
 
+#[cfg(vp_hooks)]
+impl HallSetObject {
+
+    /// Equal for two handles exactly if they share the same Hall set.
+    pub fn vp_identity(&self) -> usize
+    {
+        &*self.0 as *const _ as *const () as usize
+    }
+}
+
 impl HallSet for HallSetObject {
 
     fn is_letter(&self, key: DataType) -> Result<bool, HallSetError> {
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..16291bc 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,12 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+
+// Gives verification builds access to what is private to the crate.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use super::degree_range_map::{DegreeRangeMap, DegreeRangeMapError};
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetObject, HallSetError};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..eea6090 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(vp_hooks)]
+pub use lie_basis::vp_hooks;
-- 
2.43.0


From 2f07c4ce992b4a9a52e17cfacc082aebccb5118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 30/31] hook: constructors for letter iterators and borrowed
 vectors in verification builds (cfg vp_hooks)

---
 src/free_tensor/tensor_basis/tensor_key.rs       | 10 ++++++++++
 src/vector/implementation/simple_dense_vector.rs | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 6607a34..ac69b9b 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -225,6 +225,16 @@ impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
 }
 
 
+#[cfg(vp_hooks)]
+impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
+
+    pub fn vp_new(key: &'a TensorKey<NLETTERS>) -> Self
+    {
+        Self::new(key)
+    }
+}
+
+
 impl<'a, const NLETTERS: DegreeType> Iterator for TensorKeyIterator<'a, NLETTERS> {
     type Item = LetterType;
 
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 00b746b..c66157d 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -69,6 +69,18 @@ impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
         SimpleDenseVector(Owned(vec![S::ZERO; size]), PhantomData)
     }
 
+    #[cfg(vp_hooks)]
+    pub fn vp_from_slice(data: &'a [S]) -> SimpleDenseVector<'a, B, S>
+    {
+        SimpleDenseVector(Borrowed(data), PhantomData)
+    }
+
+    #[cfg(vp_hooks)]
+    pub fn vp_from_mut_slice(data: &'a mut [S]) -> SimpleDenseVector<'a, B, S>
+    {
+        SimpleDenseVector(BorrowedMut(data), PhantomData)
+    }
+
     fn to_owned_with_size(&mut self, resize: Option<DimensionType>)
     {
         let sz = resize.unwrap_or(self.size());
-- 
2.43.0


From ac3c7b84d3ecd247456596c4d075d17a7c89de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:36 +0000
Subject: [PATCH 31/31] Revert "hook: let verification builds (cfg vp_sched)
 control the Hall set cache locks"

This reverts commit 66b052afd183520305fa8e4a874fa6733ed5c118.
---
 src/lie/lie_basis/hall_set.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index aa43c8c..e9206a6 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -3,17 +3,11 @@
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
-#[cfg(not(vp_sched))]
 use std::sync::{Arc, RwLock};
 
 
-#[cfg(not(vp_sched))]
 use lazy_static::lazy_static;
 
-// Verification builds that explore thread schedules put a controlled scheduler in place of std.
-#[cfg(vp_sched)]
-use shuttle::{lazy_static, sync::{Arc, RwLock}};
-
 use crate::{DegreeType, LetterType, DimensionType};
 use super::DataType;
 
-- 
2.43.0

