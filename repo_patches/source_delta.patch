From b22a79e50cb262c681eb61b37272cc6eeec5a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 1/3] fix: insert below the minimum keeps the maximum in place

With two or more entries, inserting a key smaller than the minimum replaced
the stored maximum by the old minimum, so max_val, successor, predecessor and
later removals answered from a corrupted tree.
---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..e038286 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -525,8 +525,8 @@ where
                 let (k, v) = replace(&mut self.min, (k, v));
                 let (k, v) = match data.max.0.cmp(&k) {
                     Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
+                    Ordering::Less => replace(&mut data.max, (k, v)),
+                    Ordering::Greater => (k, v),
                 };
 
                 (k, v, data)
-- 
2.43.0


From c4aab4880990f60f559be025f64d4f4ba10f4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:07 +0000
Subject: [PATCH 2/3] fix: index of signed keys is the offset from MIN

wrapping_sub yields a signed value, so every key >= 0 was sign-extended to an
index near usize::MAX, out of bounds of any array keyed by it.
---
 src/key.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..4980acb 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -186,7 +186,7 @@ impl SizedVebKey for i128 {
     type Cardinality = op!(U1 << U128);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -233,7 +233,7 @@ impl SizedVebKey for i64 {
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0


From 4a0e4cfc30f40f44df4631fd49c42e4f4d4e630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 3/3] fix: SizedVebKey::CARDINALITY counts every key

The constant was the largest index for most types and usize::MAX for i16 and
i32, disagreeing with the Cardinality type and with index(): the largest key's
index was not below it.
---
 src/key.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 4980acb..e9d1c05 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -159,7 +159,7 @@ impl VebKey for u128 {
 impl CloneVebKeyRef for u128 {}
 #[cfg(target_pointer_width = "128")]
 impl SizedVebKey for u128 {
-    const CARDINALITY: usize = u128::MAX as usize;
+    const CARDINALITY: usize = (u128::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U128);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -182,7 +182,7 @@ impl VebKey for i128 {
 impl CloneVebKeyRef for i128 {}
 #[cfg(target_pointer_width = "128")]
 impl SizedVebKey for i128 {
-    const CARDINALITY: usize = u128::MAX as usize;
+    const CARDINALITY: usize = (u128::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U128);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -206,7 +206,7 @@ impl VebKey for u64 {
 impl CloneVebKeyRef for u64 {}
 #[cfg(any(target_pointer_width = "128", target_pointer_width = "64"))]
 impl SizedVebKey for u64 {
-    const CARDINALITY: usize = u64::MAX as usize;
+    const CARDINALITY: usize = (u64::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -229,7 +229,7 @@ impl VebKey for i64 {
 impl CloneVebKeyRef for i64 {}
 #[cfg(any(target_pointer_width = "128", target_pointer_width = "64"))]
 impl SizedVebKey for i64 {
-    const CARDINALITY: usize = u64::MAX as usize;
+    const CARDINALITY: usize = (u64::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -257,7 +257,7 @@ impl CloneVebKeyRef for u32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for u32 {
-    const CARDINALITY: usize = u32::MAX as usize;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -284,7 +284,7 @@ impl CloneVebKeyRef for i32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for i32 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -313,7 +313,7 @@ impl CloneVebKeyRef for u16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for u16 {
-    const CARDINALITY: usize = u16::MAX as usize;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -341,7 +341,7 @@ impl CloneVebKeyRef for i16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for i16 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -364,7 +364,7 @@ impl VebKey for u8 {
 }
 impl CloneVebKeyRef for u8 {}
 impl SizedVebKey for u8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = (u8::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -386,7 +386,7 @@ impl VebKey for i8 {
 }
 impl CloneVebKeyRef for i8 {}
 impl SizedVebKey for i8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = (u8::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -455,7 +455,7 @@ impl VebKey for U4 {
 }
 impl CloneVebKeyRef for U4 {}
 impl SizedVebKey for U4 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U4);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -530,7 +530,7 @@ impl VebKey for U2 {
 }
 impl CloneVebKeyRef for U2 {}
 impl SizedVebKey for U2 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U2);
     #[inline(always)]
     fn index(&self) -> usize {
-- 
2.43.0

