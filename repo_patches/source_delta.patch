From 02f7643ee4d947813796738e451c9677f28d6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 01/75] fix: diagonal of a non-square matrix loses
 super-diagonals or panics

---
 rstsr-common/src/layout/layoutbase.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..0425e8c 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -349,12 +349,15 @@ where
         // while i + |k| < d1 (rows), i.e. |k| < d1, i.e. offset in (-d1, 0). Use
         // (-d1 + 1..0) so a non-square matrix with more rows than cols reaches its
         // lower sub-diagonals (square matrices are unaffected, d1 == d2).
+        //
+        // For a non-negative offset (super-diagonal) the element is A[i, i + k], valid
+        // while i + k < d2 (cols), i.e. offset in [0, d2).
         let (offset_diag, d_diag) = if (-d1 + 1..0).contains(&offset) {
             let offset = -offset;
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From d4ec53da8cc2fbb520ab5f92e4ac188a85c4031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 02/75] fix: empty views no longer point outside the underlying
 data

---
 rstsr-common/src/layout/indexer.rs    | 15 ++++++++++++---
 rstsr-common/src/layout/layoutbase.rs |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fdb4ef9..7eabe53 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -164,9 +164,13 @@ where
                 stop = len_prev;
             }
 
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
+            let mut offset = (self.offset() as isize + stride[axis] * start) as usize;
             shape[axis] = ((stop - start + step - 1) / step).max(0) as usize;
             stride[axis] *= step;
+            if shape.as_ref().contains(&0) {
+                // no element to point at; do not move the offset out of the underlying data
+                offset = self.offset();
+            }
             return Self::new(shape, stride, offset);
         } else {
             // step < 0
@@ -191,9 +195,13 @@ where
                 start = len_prev - 1;
             }
 
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
+            let mut offset = (self.offset() as isize + stride[axis] * start) as usize;
             shape[axis] = ((stop - start + step + 1) / step).max(0) as usize;
             stride[axis] *= step;
+            if shape.as_ref().contains(&0) {
+                // no element to point at; do not move the offset out of the underlying data
+                offset = self.offset();
+            }
             return Self::new(shape, stride, offset);
         }
     }
@@ -248,7 +256,8 @@ where
             }
         }
 
-        let offset = offset as usize;
+        // no element to point at; do not move the offset out of the underlying data
+        let offset = if shape_new.contains(&0) { self.offset() } else { offset as usize };
         let layout = Layout::<IxD>::new(shape_new, stride_new, offset)?;
         return layout.into_dim();
     }
diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 0425e8c..d5a4b6f 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -377,6 +377,8 @@ where
         }
         shape_diag.push(d_diag);
         stride_diag.push(t_diag);
+        // no element to point at; do not move the offset out of the underlying data
+        let offset_diag = if shape_diag.contains(&0) { self.offset() } else { offset_diag };
         let layout_diag = Layout::new(shape_diag, stride_diag, offset_diag)?;
         return layout_diag.into_dim::<<D as DimSmallerOneAPI>::SmallerOne>();
     }
-- 
2.43.0


From 91538461bc6705fd139a213e84416ae88d9c3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 03/75] fix: negative-step slices follow the documented Python
 convention at both ends

---
 rstsr-common/src/layout/indexer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index 7eabe53..fc4df88 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -176,15 +176,18 @@ where
             // step < 0
             // default start = len_prev - 1 and stop = -1
             let mut start = slice.start().unwrap_or(len_prev - 1);
-            let mut stop = slice.stop().unwrap_or(-1);
 
             // handle negative slice
+            // (before the first element is -1, which also is where the default stop lies; note that
+            // explicitly given -1 denotes the last element)
             if start < 0 {
-                start = (len_prev + start).max(0);
-            }
-            if stop < -1 {
-                stop = (len_prev + stop).max(-1);
+                start = (len_prev + start).max(-1);
             }
+            let mut stop = match slice.stop() {
+                None => -1,
+                Some(stop) if stop < 0 => (len_prev + stop).max(-1),
+                Some(stop) => stop,
+            };
 
             if stop > len_prev - 1 || stop > start {
                 // zero size slice caused by inproper start and stop
-- 
2.43.0


From 24640fcceeac713e7f348eb01dd59294dfb2563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 04/75] fix: reshape with -1 panics when another extent is zero
 or the product overflows

---
 rstsr-common/src/layout/reshape.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 525ac4f..475dd58 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -138,9 +138,10 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
     // substitute negative index
     if let Some(idx_neg1) = idx_neg1 {
         let size_in = size_in as isize;
-        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
+        // `-1` can not be determined if other axes are zero-sized or their product overflows
+        let size_neg = shape.iter().filter(|&&v| v != -1).try_fold(1isize, |acc, &v| acc.checked_mul(v)).unwrap_or(0);
         rstsr_assert!(
-            size_in % size_neg == 0,
+            size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
             "Shape '-1' in {:?} could not be determined to original tensor size {:?}",
             shape,
-- 
2.43.0


From 043bd33eaf915804f54a0d1b92cd1cb3abbc75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 05/75] fix: reshape with forced copy does not check the number
 of elements

---
 rstsr-core/src/tensor/manipulation/reshape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index bb09a10..e77a28a 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -126,8 +126,10 @@ where
     let order = order.unwrap_or(tensor.device().default_order());
 
     // rust 2021 does not allow chain if let
+    // this also checks that number of elements matches, regardless of whether copy is requested
+    let layout_reshaped = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)?;
     if copy.is_none() || copy == Some(false) {
-        if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
+        if let Some(layout_new) = layout_reshaped {
             // shape does not need to be changed
             let (storage, _) = tensor.into_raw_parts();
             let layout = layout_new.into_dim::<IxD>()?;
-- 
2.43.0


From 4897062da63e8c3e0333ce06f7792cfab8749b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 06/75] fix: converting a shared tensor into owned panics if
 the data is shared

---
 rstsr-core/src/storage/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/storage/data.rs b/rstsr-core/src/storage/data.rs
index c68650e..c092deb 100644
--- a/rstsr-core/src/storage/data.rs
+++ b/rstsr-core/src/storage/data.rs
@@ -348,7 +348,7 @@ where
 {
     #[inline]
     fn into_owned(self) -> DataOwned<Self::Data> {
-        DataOwned::from(Arc::try_unwrap(self.raw).ok().unwrap())
+        DataOwned::from(Arc::unwrap_or_clone(self.raw))
     }
 
     #[inline]
-- 
2.43.0


From 5ee0ec317203f568ef1fa0f01c54cee24fcb04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 07/75] fix: owned copy of a broadcast view may keep aliased
 elements

---
 rstsr-core/src/tensor/ownership_conversion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/ownership_conversion.rs b/rstsr-core/src/tensor/ownership_conversion.rs
index b8c47e4..36cbcdd 100644
--- a/rstsr-core/src/tensor/ownership_conversion.rs
+++ b/rstsr-core/src/tensor/ownership_conversion.rs
@@ -95,7 +95,8 @@ where
 {
     pub fn into_owned(self) -> Tensor<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let (size, size_non_broadcast) = (self.layout().size(), self.layout().size_non_broadcast());
+        if idx_min == 0 && idx_max == self.storage().len() && idx_max == size && size == size_non_broadcast {
             return self.into_owned_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K));
@@ -104,7 +105,8 @@ where
 
     pub fn into_shared(self) -> TensorArc<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let (size, size_non_broadcast) = (self.layout().size(), self.layout().size_non_broadcast());
+        if idx_min == 0 && idx_max == self.storage().len() && idx_max == size && size == size_non_broadcast {
             return self.into_shared_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K)).into_shared();
-- 
2.43.0


From 338bc48c475435ad905fcc9b865de0d2bbb1ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 08/75] fix: result of a binary operation on two broadcast
 operands no longer aliases its own elements

---
 rstsr-common/src/layout/rearrangement.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rstsr-common/src/layout/rearrangement.rs b/rstsr-common/src/layout/rearrangement.rs
index 0464e7f..ca30aff 100644
--- a/rstsr-common/src/layout/rearrangement.rs
+++ b/rstsr-common/src/layout/rearrangement.rs
@@ -385,7 +385,8 @@ where
 ///   by the input `order` (row-major or col-major).
 /// - For axes with shape = 1, this function will assign stride by near non-zero stride, right-close
 ///   for row-major and left-close for col-major, otherwise 1.
-/// - For axes with stride = 0, this function will still assign stride 0 (as broadcasted).
+/// - Axes with stride = 0 (broadcasted) in both layouts are handled as remaining axes, so that the
+///   output layout never maps distinct indices to the same element.
 ///
 /// ## Error processing
 ///
@@ -404,11 +405,9 @@ where
     )?;
 
     let ndim = la.ndim();
-    let (a1, a0_a, ac_a, _) = get_axes_composition(la);
-    let (_, a0_b, ac_b, _) = get_axes_composition(lb);
+    let (a1, _, ac_a, _) = get_axes_composition(la);
+    let (_, _, ac_b, _) = get_axes_composition(lb);
 
-    // a0_o = a0_a ∩ a0_b
-    let a0_o = a0_a.iter().filter(|&&i| a0_b.contains(&i)).cloned().collect_vec();
     // ac_o = first same axes in ac_a and ac_b
     let mut ac_o = vec![];
     for (ic_a, ic_b) in ac_a.iter().zip(ac_b.iter()) {
@@ -418,8 +417,9 @@ where
             break;
         }
     }
-    // ad_o = remaining
-    let mut ad_o = (0..ndim).filter(|&i| !a0_o.contains(&i) && !ac_o.contains(&i) && !a1.contains(&i)).collect_vec();
+    // ad_o = remaining (including axes broadcasted in both layouts; the output is an owned tensor, so
+    // distinct indices must not share one element)
+    let mut ad_o = (0..ndim).filter(|&i| !ac_o.contains(&i) && !a1.contains(&i)).collect_vec();
     // reverse ad_o if row-major
     if order == RowMajor {
         ad_o.reverse();
@@ -451,7 +451,6 @@ where
         }
         stride[i] = s;
     }
-    // a0_o: stride = 0, but that has already initialized as zero.
 
     let shape = la.shape().clone();
     let layout = unsafe { Layout::new_unchecked(shape, stride, 0) };
-- 
2.43.0


From 08f1b745e77517d60c32fb3ff16cf55623f5efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 09/75] fix: signbit returns true for positive instead of
 negative elements

---
 rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs | 2 +-
 rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 5bf2e0d..255d365 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 5712062..3241689 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
-- 
2.43.0


From 339af84c9fd112738c9d23dcbe9d91cc0143e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 10/75] fix: assign accepts a source that does not broadcast to
 the destination shape

---
 rstsr-core/src/tensor/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..04bce23 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -44,6 +44,7 @@ where
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
         let (la_b, lb_b) = broadcast_layout_to_first(&la, &lb, default_order)?;
+        rstsr_assert_eq!(la_b.shape(), la.shape(), InvalidLayout, "source can not be broadcasted to destination")?;
         let la_b = la_b.into_dim::<DA>()?;
         let lb_b = lb_b.into_dim::<DA>()?;
         // assign
-- 
2.43.0


From 5a433dbdef1d269b8f1637df489af6c0c2939fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 11/75] fix: array-valued in-place operations update aliased
 elements several times

---
 rstsr-core/src/tensor/operators/op_binary_arithmetic.rs | 1 +
 rstsr-core/src/tensor/operators/op_binary_assign.rs     | 1 +
 rstsr-core/src/tensor/operators/op_with_func.rs         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index 8198810..f0516ee 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -604,6 +604,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert_eq!(lc.size_non_broadcast(), lc.size(), InvalidLayout, "cannot assign to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
diff --git a/rstsr-core/src/tensor/operators/op_binary_assign.rs b/rstsr-core/src/tensor/operators/op_binary_assign.rs
index 1b2af88..aaaea12 100644
--- a/rstsr-core/src/tensor/operators/op_binary_assign.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_assign.rs
@@ -123,6 +123,7 @@ mod impl_binary_assign {
             let la = a.layout();
             let lb = b.layout();
             let default_order = a.device().default_order();
+            rstsr_assert_eq!(la.size_non_broadcast(), la.size(), InvalidLayout, "cannot assign to broadcasted tensor")?;
             // check layout broadcast
             let (la_b, lb_b) = broadcast_layout_to_first(&la.to_dim::<IxD>()?, &lb.to_dim::<IxD>()?, default_order)?;
             rstsr_assert_eq!(la_b, la.to_dim::<IxD>()?, InvalidLayout)?;
diff --git a/rstsr-core/src/tensor/operators/op_with_func.rs b/rstsr-core/src/tensor/operators/op_with_func.rs
index 2555caf..2c5ebe7 100644
--- a/rstsr-core/src/tensor/operators/op_with_func.rs
+++ b/rstsr-core/src/tensor/operators/op_with_func.rs
@@ -28,6 +28,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert_eq!(lc.size_non_broadcast(), lc.size(), InvalidLayout, "cannot assign to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
@@ -103,6 +104,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = a.device().default_order();
+    rstsr_assert_eq!(la.size_non_broadcast(), la.size(), InvalidLayout, "cannot assign to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (la_b, lb_b) = broadcast_layout_to_first(la, lb, default_order)?;
-- 
2.43.0


From 0703e6850a4cc2f86602198cfda0979fd1065adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 12/75] fix: axis reductions of broadcast arrays give wrong
 results or fail

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 15 +++++----
 rstsr-native-impl/src/cpu_serial/reduction.rs | 33 +++++++++++++++----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..cd08c0c 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -150,7 +150,7 @@ where
     let offset = la.offset();
 
     // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+    let lo = layout_for_reduction_output(&lm)?;
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -159,7 +159,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -290,11 +290,12 @@ where
 
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
-
-                    // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
-                    out[idx_o0].write(val);
+                    let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
+                    if idx_o0 != idx_ocd {
+                        // Safety: the c/d part without broadcast should have been initialized by reduced value
+                        let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
+                        out[idx_o0].write(val);
+                    }
                 });
             });
         }
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..d27e868 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -177,6 +177,24 @@ where
     }
 }
 
+/// Layout of the reduced output (which keeps order of the remaining axes of input).
+///
+/// Broadcast axes are always put to the outermost, so that the memory-contiguous part of the input is
+/// also contiguous in the output.
+pub(crate) fn layout_for_reduction_output(lm: &Layout<IxD>) -> Result<Layout<IxD>> {
+    let (am1, am0, amc, amd) = get_axes_composition(lm);
+    if am0.is_empty() {
+        return layout_for_array_copy(lm, TensorIterOrder::K);
+    }
+    let mut stride = vec![1; lm.ndim()];
+    let mut size = 1;
+    for i in [amc, amd, am1, am0].into_iter().flatten() {
+        stride[i] = size;
+        size *= lm.shape()[i].max(1) as isize;
+    }
+    Layout::new(lm.shape().clone(), stride, 0)
+}
+
 pub fn reduce_axes_cpu_serial<TI, TS, TO, I, F, FSum, FOut>(
     a: &[TI],
     la: &Layout<IxD>,
@@ -214,7 +232,7 @@ where
     let offset = la.offset();
 
     // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+    let lo = layout_for_reduction_output(&lm)?;
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -223,7 +241,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -339,11 +357,12 @@ where
 
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
-
-                // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
-                out[idx_o0].write(val);
+                let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
+                if idx_o0 != idx_ocd {
+                    // Safety: the c/d part without broadcast should have been initialized by reduced value
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
+                    out[idx_o0].write(val);
+                }
             });
         });
     }
-- 
2.43.0


From f419837fd7cd26e868f9d9bd93b7f663faee83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 13/75] fix: axis reductions of empty arrays read or write
 elements that do not exist

---
 rstsr-native-impl/src/cpu_serial/reduction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index d27e868..14ab811 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -233,6 +233,12 @@ where
 
     // create output layout
     let lo = layout_for_reduction_output(&lm)?;
+
+    // no elements to be iterated, either no output or every output reduces from nothing
+    if la.size() == 0 {
+        return Ok(((0..lo.size()).map(|_| f_out(init())).collect(), lo));
+    }
+
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
-- 
2.43.0


From ccc5043ad184a90b23e695cade0a52287dec530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 14/75] fix: var/std of (nearly) constant arrays may be
 negative/NaN by rounding error

---
 rstsr-core/src/device_cpu_serial/reduction.rs      | 14 ++++++++++----
 .../src/feature_rayon/auto_impl/reduction.rs       | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/reduction.rs b/rstsr-core/src/device_cpu_serial/reduction.rs
index 675d456..b56d7fb 100644
--- a/rstsr-core/src/device_cpu_serial/reduction.rs
+++ b/rstsr-core/src/device_cpu_serial/reduction.rs
@@ -201,7 +201,9 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var }
         };
 
         let result = reduce_all_cpu_serial(a, la, f_init, f, f_sum, f_out)?;
@@ -224,7 +226,9 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var }
         };
 
         let (out, layout_out) = reduce_axes_cpu_serial(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out)?;
@@ -252,7 +256,8 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var.sqrt() }
         };
 
         let result = reduce_all_cpu_serial(a, la, f_init, f, f_sum, f_out)?;
@@ -276,7 +281,8 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var.sqrt() }
         };
 
         let (out, layout_out) = reduce_axes_cpu_serial(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out)?;
diff --git a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
index 793fcd2..c8943dc 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
@@ -224,7 +224,9 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var }
         };
 
         let result = reduce_all_cpu_rayon(a, la, f_init, f, f_sum, f_out, pool)?;
@@ -249,7 +251,9 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var }
         };
 
         let (out, layout_out) = reduce_axes_cpu_rayon(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out, pool)?;
@@ -279,7 +283,8 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var.sqrt() }
         };
 
         let result = reduce_all_cpu_rayon(a, la, f_init, f, f_sum, f_out, pool)?;
@@ -305,7 +310,8 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // variance may be slightly negative by rounding error
+            if var < T::Real::zero() { T::Real::zero() } else { var.sqrt() }
         };
 
         let (out, layout_out) = reduce_axes_cpu_rayon(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out, pool)?;
-- 
2.43.0


From 22e7b11b87593c2e742e0cd863b49917ae62dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 15/75] fix: min/max of infinities return the largest finite
 value

---
 rstsr-dtype-traits/src/ext_real.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rstsr-dtype-traits/src/ext_real.rs b/rstsr-dtype-traits/src/ext_real.rs
index 6cb9f8e..919deec 100644
--- a/rstsr-dtype-traits/src/ext_real.rs
+++ b/rstsr-dtype-traits/src/ext_real.rs
@@ -14,7 +14,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_min(self, other: Self) -> Self;
 
-    /// The minimum value that can be represented by this type.
+    /// The minimum value that can be represented by this type (negative infinity for floats).
     fn ext_min_value() -> Self;
 
     /// Returns the maximum of two numbers.
@@ -25,7 +25,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_max(self, other: Self) -> Self;
 
-    /// The maximum value that can be represented by this type.
+    /// The maximum value that can be represented by this type (positive infinity for floats).
     fn ext_max_value() -> Self;
 }
 
@@ -76,13 +76,13 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
 
@@ -96,12 +96,12 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
-- 
2.43.0


From b4167db740a3658c52cd712abda1e5233d1cab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 16/75] fix: rayon arg-reduction over axes must scan the
 reduced axes in their given order

Reordering (and flipping) the reduced axes before unravelling returned the
index of another element, and for flipped axes panicked, for arrays above
the parallel threshold.
---
 rstsr-native-impl/src/cpu_rayon/reduction.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index cd08c0c..54c7c0b 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -532,7 +532,6 @@ where
 
     // split the layout into axes (to be summed) and the rest
     let (layout_axes, layout_rest) = la.dim_split_axes(axes)?;
-    let layout_axes = translate_to_col_major_unary(&layout_axes, TensorIterOrder::default())?;
 
     // generate layout for result (from layout_rest)
     let layout_out = layout_for_array_copy(&layout_rest, TensorIterOrder::default())?;
-- 
2.43.0


From a4837d201d37ff78de38592081eb9c45a0f1eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 17/75] fix: matmul with beta == 0 must not read the output

The output of a fresh product is allocated uninitialized (and a caller's
output may hold NaN), so beta * c could turn the product into NaN.
---
 .../src/device_cpu_serial/linalg/matmul.rs    |  3 ++-
 .../src/cpu_rayon/matmul_naive.rs             |  7 +++++--
 .../src/cpu_serial/matmul_naive.rs            | 20 ++++++++++---------
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
index 40e4e0a..fa187d3 100644
--- a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
+++ b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
@@ -3,6 +3,7 @@
 //! **This implementation is not optimized!**
 
 use core::ops::{Add, Mul};
+use num::Zero;
 
 use crate::prelude_dev::*;
 
@@ -16,7 +17,7 @@ where
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
     TB: Mul<TA, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
     Self: DeviceAPI<TA, Raw = Vec<TA>> + DeviceAPI<TB, Raw = Vec<TB>> + DeviceAPI<TC, Raw = Vec<TC>>,
 {
     fn matmul(
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..56a915b 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -39,7 +39,9 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
+                // when beta is zero, c is only written (it may be uninitialized or NaN)
+                let val_c = if beta.is_zero() { TC::zero() } else { (*ptr_c).clone() * beta.clone() };
+                *ptr_c = val_c
                     + (0..k).fold(TC::zero(), |acc, p| {
                         let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
                         let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
@@ -88,6 +90,7 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    // when beta is zero, c is only written (it may be uninitialized or NaN)
+    *c = if beta.is_zero() { c_innerdot * alpha } else { c_innerdot * alpha + c.clone() * beta };
     Ok(())
 }
diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 95e805c..9295bd7 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -4,6 +4,7 @@
 
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
+use num::Zero;
 
 #[allow(clippy::too_many_arguments)]
 pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
@@ -24,8 +25,9 @@ where
     DB: DimAPI,
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
+    // NOTE: when beta is zero, c is only written (it may be uninitialized or NaN)
     // NOTE: this only works for row-major layout
     // for column-major layout, we need to transpose the input:
     // C = A * B  =>  C^T = B^T * A^T
@@ -90,7 +92,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -106,7 +108,7 @@ where
         for i_m in 0..m {
             for i_n in 0..n {
                 let idx_c = lc.index_uncheck(&[i_m, i_n]) as usize;
-                c[idx_c] = beta.clone() * c[idx_c].clone();
+                c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             }
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_m, i_k]) as usize;
@@ -137,7 +139,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -151,7 +153,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_n, i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k]) as usize;
@@ -178,7 +180,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -192,7 +194,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k, i_n]) as usize;
@@ -219,7 +221,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sa = la.shape();
@@ -230,7 +232,7 @@ where
     // naive iteration
     unsafe {
         let idx_c = lc.index_uncheck(&[]) as usize;
-        let mut sum = beta * c[idx_c].clone();
+        let mut sum = if beta.is_zero() { TC::zero() } else { beta * c[idx_c].clone() };
         for i in 0..n {
             let idx_a = la.index_uncheck(&[i]) as usize;
             let idx_b = lb.index_uncheck(&[i]) as usize;
-- 
2.43.0


From da4d69d6a7a3e7f20a2928c6dc302bc7564fd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 18/75] fix: serial inner product writes to the output's own
 position

---
 rstsr-native-impl/src/cpu_serial/matmul_naive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 9295bd7..27f1057 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -238,7 +238,7 @@ where
             let idx_b = lb.index_uncheck(&[i]) as usize;
             sum = sum + alpha.clone() * (a[idx_a].clone() * b[idx_b].clone());
         }
-        c[0] = sum;
+        c[idx_c] = sum;
     }
     Ok(())
 }
-- 
2.43.0


From 97dad437a3fec9a0434aa3b4c2e10eeacb78ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:14 +0000
Subject: [PATCH 19/75] fix: matmul with batch dims broadcasts every operand to
 the output

Operands of different batch rank were rejected although their product is
defined, and an output whose batch shape does not match (too small, or larger
than an operand's) was silently filled in part.
---
 rstsr-common/src/layout/matmul.rs | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..1d28db2 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -271,6 +271,14 @@ fn layout_matmul_dyn_row_major(la: &Layout<IxD>, lb: &Layout<IxD>) -> Result<Lay
     }
 }
 
+/// Broadcast the batch layout of an operand to the batch layout of `lc`; `lc` itself must not be
+/// broadcasted by the operand.
+fn broadcast_rest_to_lc(lc_rest: &Layout<IxD>, lx_rest: &Layout<IxD>) -> Result<Layout<IxD>> {
+    let (lc_rest_b, lx_rest_b) = broadcast_layout_to_first(lc_rest, lx_rest, RowMajor)?;
+    rstsr_assert_eq!(lc_rest_b.shape(), lc_rest.shape(), InvalidLayout)?;
+    Ok(lx_rest_b)
+}
+
 /// Resolve matmul layouts against a caller-provided `lc`.
 ///
 /// Unlike [`layout_matmul_dyn_row_major`], which *constructs* `lc` from `la`
@@ -329,12 +337,13 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-1)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEVM,
                 lc: lc.clone(),
                 la_rest: Some(la_rest),
-                lb_rest: Some(lb_r),
+                lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m.dim_insert(0)?,
                 lb_matmul: lb_m,
@@ -347,11 +356,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-1)?;
             let (lc_r, lc_m) = lc.dim_split_at(-1)?;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMV,
                 lc: lc.clone(),
-                la_rest: Some(la_r),
+                la_rest: Some(la_rest),
                 lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
@@ -365,12 +375,13 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMM2X,
                 lc: lc.clone(),
                 la_rest: Some(la_rest),
-                lb_rest: Some(lb_r),
+                lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
                 lb_matmul: lb_m,
@@ -383,11 +394,12 @@ pub fn layout_matmul_dyn_row_major_with_lc(
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMX2,
                 lc: lc.clone(),
-                la_rest: Some(la_r),
+                la_rest: Some(la_rest),
                 lb_rest: Some(lb_rest),
                 lc_rest: Some(lc_r),
                 la_matmul: la_m,
@@ -397,14 +409,13 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
             // both A and B batch dims broadcast against C's batch dims
-            let la_rest = broadcast_layout_to_first(&lc_r, &la_r, RowMajor)?.1;
-            let lb_rest = broadcast_layout_to_first(&lc_r, &lb_r, RowMajor)?.1;
+            let la_rest = broadcast_rest_to_lc(&lc_r, &la_r)?;
+            let lb_rest = broadcast_rest_to_lc(&lc_r, &lb_r)?;
             Ok(LayoutMatMulConfig {
                 matmul_type: MatMulType::GEMMXX,
                 lc: lc.clone(),
-- 
2.43.0


From 87fe671d4a56746384f9228ccc23fca248163f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:11 +0000
Subject: [PATCH 20/75] fix: vecdot of empty arrays must not touch the operands

With an empty contraction or an empty result the contiguous branches took
slices beyond the buffer and panicked.
---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs  | 10 ++++++++++
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..7eb677b 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -48,6 +48,16 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // empty output, or nothing to be summed: no element of a or b may be accessed
+    if lc.size() == 0 {
+        return Ok(());
+    }
+    if las.size() == 0 {
+        return layout_col_major_dim_dispatch_1(&lc, |idx_c| {
+            c[idx_c].write(TC::zero());
+        });
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..ca26e8d 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -40,6 +40,16 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // empty output, or nothing to be summed: no element of a or b may be accessed
+    if lc.size() == 0 {
+        return Ok(());
+    }
+    if las.size() == 0 {
+        return layout_col_major_dim_dispatch_1(&lc, |idx_c| {
+            c[idx_c].write(TC::zero());
+        });
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
-- 
2.43.0


From 01246c1a8de63cf0142332c3b45ec793e390b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 21/75] fix: exact size_hint for layout, element and axes
 iterators

---
 rstsr-common/src/layout/iterator.rs    | 16 ++++++++++++++++
 rstsr-core/src/tensor/iterator_axes.rs | 16 ++++++++++++++++
 rstsr-core/src/tensor/iterator_elem.rs | 16 ++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..e2a589c 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -295,6 +295,10 @@ where
         self.next_iter_index();
         return Some(offset.try_into().unwrap());
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayoutColMajor<D>
@@ -618,6 +622,10 @@ where
         self.next_iter_index();
         return Some(offset.try_into().unwrap());
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayoutRowMajor<D>
@@ -712,6 +720,10 @@ where
             Self::ColMajor(iter) => iter.next(),
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayout<D>
@@ -794,6 +806,10 @@ where
         };
         self.layout_iter.next().map(|offset| (index, offset))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<D> DoubleEndedIterator for IndexedIterLayout<D>
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..5b4bc3a 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -34,6 +34,10 @@ where
             unsafe { transmute(self.view.view()) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IterAxesView<'_, T, B>
@@ -189,6 +193,10 @@ where
             unsafe { transmute(self.view.view_mut()) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IterAxesMut<'_, T, B>
@@ -348,6 +356,10 @@ where
             (index, unsafe { transmute(self.view.view()) })
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IndexedIterAxesView<'_, T, B>
@@ -526,6 +538,10 @@ where
             unsafe { transmute((index, self.view.view_mut())) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IndexedIterAxesMut<'_, T, B>
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..070636d 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -20,6 +20,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.layout_iter.next().map(|offset| &self.view[offset])
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IterVecView<'_, T, D>
@@ -107,6 +111,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.layout_iter.next().map(|offset| unsafe { transmute(&mut self.view[offset]) })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IterVecMut<'_, T, D>
@@ -202,6 +210,10 @@ where
         };
         self.layout_iter.next().map(|offset| (index, &self.view[offset]))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IndexedIterVecView<'_, T, D>
@@ -302,6 +314,10 @@ where
         };
         self.layout_iter.next().map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IndexedIterVecMut<'_, T, D>
-- 
2.43.0


From 8879c32f7992b0d065c5145b5bcd502b84cd524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 22/75] fix: indexed iterators report the index of the element
 taken from the back

---
 rstsr-common/src/layout/iterator.rs    |  7 ++++---
 rstsr-core/src/tensor/iterator_axes.rs | 22 ++++++++++------------
 rstsr-core/src/tensor/iterator_elem.rs | 16 ++++++++--------
 3 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index e2a589c..753ab03 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -817,11 +817,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        Some((index, offset))
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 5b4bc3a..dddef95 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -367,14 +367,13 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            (index, unsafe { transmute(self.view.view()) })
-        })
+        self.update_offset(offset);
+        Some((index, unsafe { transmute(self.view.view()) }))
     }
 }
 
@@ -549,14 +548,13 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            unsafe { transmute((index, self.view.view_mut())) }
-        })
+        self.update_offset(offset);
+        Some(unsafe { transmute((index, self.view.view_mut())) })
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index 070636d..7764e7a 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -221,11 +221,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        Some((index, &self.view[offset]))
     }
 }
 
@@ -325,13 +326,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        Some((index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
 }
 
-- 
2.43.0


From a8bb7834e7473295b2b54524d9109ac996f428e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 23/75] fix: axes iterators reject every axis out of range and
 accept an empty axes list

---
 rstsr-core/src/tensor/iterator_axes.rs | 44 ++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index dddef95..43b9801 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -96,12 +96,15 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        // check no two axis are the same, and no index out of range
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for pair in axes_check.windows(2) {
+            rstsr_assert!(pair[0] != pair[1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -255,12 +258,15 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        // check no two axis are the same, and no index out of range
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for pair in axes_check.windows(2) {
+            rstsr_assert!(pair[0] != pair[1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -431,12 +437,15 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        // check no two axis are the same, and no index out of range
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for pair in axes_check.windows(2) {
+            rstsr_assert!(pair[0] != pair[1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
@@ -606,12 +615,15 @@ where
             .collect::<Vec<isize>>();
         let mut axes_check = axes.clone();
         axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
+        // check no two axis are the same, and no index out of range
+        if axes_check.first().is_some_and(|&v| v < 0) {
             return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
         }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
+        if axes_check.last().is_some_and(|&v| v >= ndim) {
+            return Err(rstsr_error!(InvalidValue, "Some index is too large."));
+        }
+        for pair in axes_check.windows(2) {
+            rstsr_assert!(pair[0] != pair[1], InvalidValue, "Same axes is not allowed here.")?;
         }
 
         // get full layout
-- 
2.43.0


From 7dd2edb9f8e21b08031775daab191ce557583751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 24/75] fix: indexed_axes_iter_mut_with_order only accepts
 orders whose indices it knows

---
 rstsr-core/src/tensor/iterator_axes.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 43b9801..bafd337 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -604,6 +604,12 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
+        use TensorIterOrder::*;
+        // this function only accepts c/f iter order currently
+        match order {
+            C | F => (),
+            _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
+        };
         // convert axis to negative indexes and sort
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
         let axes: Vec<isize> = axes
-- 
2.43.0


From 2448e071e7b18424a98d10fe99497d51e88c66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:21 +0000
Subject: [PATCH 25/75] fix: splitting an iterator over an empty layout

---
 rstsr-common/src/layout/iterator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 753ab03..17c2c37 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -417,7 +420,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From f52d871cf10cf1e27596a11d2f52f1d79fe22669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 26/75] fix: triu of a matrix with more rows than columns wrote
 past the end of its rows

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..10c41f0 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize + k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 1e09efab7c14a3b023753ba31be10ebf1f036d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 27/75] fix: arange never ended, or gave nothing, for a step
 leading away from or down to its end

---
 rstsr-native-impl/src/cpu_rayon/creation.rs  |  9 ++++++---
 rstsr-native-impl/src/cpu_serial/creation.rs | 14 ++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..85e8566 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -17,7 +17,9 @@ where
     // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
     // and anyway, fallback is always available with efficiency loss.
     let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // number of elements, in wider integers since the length of the interval may exceed `isize`
+    let (span, step_wide) = (end_ as i128 - start_ as i128, step_ as i128);
+    let n = ((span + step_wide - step_wide.signum()) / step_wide).max(0).to_isize()?;
 
     // The unwrap here is probably safe, since start/end/nstep are all checked.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
@@ -40,7 +42,8 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive + Send + Sync,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    // zero (empty result) if the step does not lead from start to end
+    let n = ((end_ - start_) / step_).ceil().max(0.0).to_usize()?;
     let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
@@ -96,7 +99,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..70b550d 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -10,8 +10,11 @@ where
 {
     // This is serial implementation and low performance
     let mut result = Vec::new();
+    // direction of the step; a step that leads nowhere gives an empty result
+    let next = start.clone() + step.clone();
+    let (ascending, descending) = (next > start, next < start);
     let mut current = start;
-    while current < end {
+    while (ascending && current < end) || (descending && current > end) {
         result.push(current.clone());
         current = current + step.clone();
     }
@@ -29,7 +32,9 @@ where
     // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
     // and anyway, fallback is always available with efficiency loss.
     let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // number of elements, in wider integers since the length of the interval may exceed `isize`
+    let (span, step_wide) = (end_ as i128 - start_ as i128, step_ as i128);
+    let n = ((span + step_wide - step_wide.signum()) / step_wide).max(0).to_isize()?;
 
     // The unwrap here is probably safe, since start/end/nstep are all checked.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
@@ -51,7 +56,8 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    // zero (empty result) if the step does not lead from start to end
+    let n = ((end_ - start_) / step_).ceil().max(0.0).to_usize()?;
     let mut result: Vec<T> = (0..n).map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
@@ -101,7 +107,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
-- 
2.43.0


From e956f4f538eb3bb8447a14763337695a3c9b8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 28/75] fix: eye in column-major order swapped its numbers of
 rows and columns

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..82e16e1 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
-- 
2.43.0


From 2ff59e95b76754f24101184246cc69a4f583ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 29/75] fix: full with a strided layout allocated too little
 memory

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 82e16e1..c9834ff 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
-- 
2.43.0


From 1972aaaa6409b8e775fd6a7e15045e1666c6ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 30/75] fix: arange over the full range of 64-bit unsigned
 integers overflowed

---
 rstsr-native-impl/src/cpu_rayon/creation.rs  | 10 ++++------
 rstsr-native-impl/src/cpu_serial/creation.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 85e8566..9bb2139 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -14,17 +14,15 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
+    // Convert to i128, so that neither the full range of `u64` nor the length of the interval overflows;
     // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    // number of elements, in wider integers since the length of the interval may exceed `isize`
-    let (span, step_wide) = (end_ as i128 - start_ as i128, step_ as i128);
-    let n = ((span + step_wide - step_wide.signum()) / step_wide).max(0).to_isize()?;
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = ((end_ - start_ + step_ - step_.signum()) / step_).max(0).to_isize()?;
 
     // The unwrap here is probably safe, since start/end/nstep are all checked.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
+    let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
     let last_val = result.last().cloned();
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 70b550d..50875b0 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -29,17 +29,15 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
+    // Convert to i128, so that neither the full range of `u64` nor the length of the interval overflows;
     // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    // number of elements, in wider integers since the length of the interval may exceed `isize`
-    let (span, step_wide) = (end_ as i128 - start_ as i128, step_ as i128);
-    let n = ((span + step_wide - step_wide.signum()) / step_wide).max(0).to_isize()?;
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = ((end_ - start_ + step_ - step_.signum()) / step_).max(0).to_isize()?;
 
     // The unwrap here is probably safe, since start/end/nstep are all checked.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
+    let mut result: Vec<T> = (0..n).map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
     let last_val = result.last().cloned();
-- 
2.43.0


From 458857b995ebf5b4f2239fa6adf6a7b1f8e79505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:51 +0000
Subject: [PATCH 31/75] fix: an empty tensor, or one with unit axes only,
 counted as broadcasted and could not be filled

---
 rstsr-common/src/layout/broadcast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index c348410..210340b 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -267,9 +267,10 @@ where
 
     /// Check whether current layout has been broadcasted.
     ///
-    /// This check is done by checking whether any stride of axis is zero.
+    /// This check is done by checking whether any stride of axis, that has more than one index, is
+    /// zero. An empty layout is not broadcasted.
     pub fn is_broadcasted(&self) -> bool {
-        self.stride().as_ref().contains(&0)
+        self.size() != 0 && (0..self.ndim()).any(|i| self.stride[i] == 0 && self.shape[i] > 1)
     }
 }
 
-- 
2.43.0


From fcae30b53682c6c5e2ab9f6dcef82322f278c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 32/75] fix: selecting no index from an axis of length zero was
 rejected

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 4 +++-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..41378f1 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,9 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    if let Some(&max_index) = indices.iter().max() {
+        rstsr_pattern!(max_index, 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    }
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..3901cc3 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,9 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    if let Some(&max_index) = indices.iter().max() {
+        rstsr_pattern!(max_index, 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    }
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 25b5db6f662676e72267a1fbe8e53bc834e63c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 33/75] fix: bool_select accepted masks whose length differs
 from the axis

---
 rstsr-core/src/tensor/adv_indexing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 1b7f13a..9e2f91a 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -150,10 +150,17 @@ where
     B: DeviceAPI<T> + DeviceIndexSelectAPI<T, D> + DeviceCreationAnyAPI<T>,
     I: TryInto<AxesIndex<bool>, Error: Into<Error>>,
 {
+    // mask must cover the selected axis exactly
+    let mask = mask.try_into().map_err(Into::into)?;
+    let axis_checked = rstsr_check_axis!(axis, tensor.ndim())?;
+    rstsr_assert_eq!(
+        mask.as_ref().len(),
+        tensor.shape()[axis_checked],
+        InvalidLayout,
+        "Length of mask should equal to the length of the selected axis."
+    )?;
     // transform bool to index
     let indices = mask
-        .try_into()
-        .map_err(Into::into)?
         .as_ref()
         .iter()
         .enumerate()
-- 
2.43.0


From f27fb340248d132e148a1f1144b7c6888fd856c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 34/75] fix: packing or unpacking a batch of 0 x 0 triangles
 panicked

---
 rstsr-native-impl/src/cpu_rayon/op_tri.rs  | 6 ++++++
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_tri.rs b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
index bb8d8ac..e74bc13 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
@@ -38,6 +38,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -139,6 +142,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 10c41f0..35a3d45 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -100,6 +100,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -472,6 +475,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
-- 
2.43.0


From 54e465850489427af01c5877bb6daef4fe808ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:05 +0000
Subject: [PATCH 35/75] fix: tril and triu overflowed for extreme diagonal
 offsets

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 35a3d45..80e2b25 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -547,7 +547,7 @@ where
 {
     let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_start = (i as isize + k + 1).max(0) as usize;
+        let j_start = (i as isize).saturating_add(k).saturating_add(1).max(0) as usize;
         for j in j_start..ncol {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
@@ -581,7 +581,7 @@ where
 {
     let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = ((i as isize + k).max(0) as usize).min(ncol);
+        let j_end = ((i as isize).saturating_add(k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 7efa2195de2e11a37f41e57175d7cc4a69d4b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:55 +0000
Subject: [PATCH 36/75] fix: unpack_tri with FlagSymm::N left the other
 triangle uninitialised

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 80e2b25..bb40388 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -213,6 +213,9 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    a[i * n + j].write(T::zero());
+                }
             }
         },
     }
@@ -293,6 +296,10 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ij].write(b[loc_b]);
                     idx_b += 1;
                 }
+                for j in (i + 1)..n {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
             }
         },
     }
@@ -355,6 +362,9 @@ pub fn inner_unpack_triu_c_contig<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    a[i * n + j].write(T::zero());
+                }
                 for j in i..n {
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
@@ -433,6 +443,10 @@ pub fn inner_unpack_triu_general<T>(
         },
         FlagSymm::N => {
             for i in 0..n {
+                for j in 0..i {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
                 for j in i..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                     let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
-- 
2.43.0


From 9a61d3eaa7fc9f0de242b33225f6c9b8a5cb06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:55 +0000
Subject: [PATCH 37/75] fix: in-place tril and triu of a broadcasted array
 zeroed elements to be kept

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index bb40388..4cdcc14 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -546,6 +546,7 @@ where
     T: Num + Clone,
     D: DimAPI,
 {
+    rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot zero a triangle of a broadcasted layout in place")?;
     let (la_rest, la_ix2) = layout.dim_split_at(-2)?;
     let mut la_ix2 = la_ix2.into_dim::<Ix2>()?;
     for offset in IterLayoutColMajor::new(&la_rest)? {
@@ -580,6 +581,7 @@ where
     T: Num + Clone,
     D: DimAPI,
 {
+    rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot zero a triangle of a broadcasted layout in place")?;
     let (la_rest, la_ix2) = layout.dim_split_at(-2)?;
     let mut la_ix2 = la_ix2.into_dim::<Ix2>()?;
     for offset in IterLayoutColMajor::new(&la_rest)? {
-- 
2.43.0


From 41aec80b97199837a4e919fbf2727d3fb4777cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:55 +0000
Subject: [PATCH 38/75] fix: unpack_tri as anti-hermitian dropped the imaginary
 diagonal

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 4cdcc14..423442c 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -197,13 +197,15 @@ pub fn inner_unpack_tril_c_contig<T>(
             }
         },
         FlagSymm::Ah => {
+            // diagonal of anti-hermitian matrix is purely imaginary
+            let two = T::one() + T::one();
             for i in 0..n {
                 for j in 0..i {
                     a[i * n + j].write(b[idx_b]);
                     a[j * n + i].write(-b[idx_b].conj());
                     idx_b += 1;
                 }
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write((b[idx_b] - b[idx_b].conj()) / two);
                 idx_b += 1;
             }
         },
@@ -274,6 +276,8 @@ pub fn inner_unpack_tril_general<T>(
             }
         },
         FlagSymm::Ah => {
+            // diagonal of anti-hermitian matrix is purely imaginary
+            let two = T::one() + T::one();
             for i in 0..n {
                 for j in 0..i {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
@@ -283,8 +287,9 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ji].write(-b[loc_b].conj());
                     idx_b += 1;
                 }
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                a[loc_a_ii].write((b[loc_b] - b[loc_b].conj()) / two);
                 idx_b += 1;
             }
         },
@@ -350,8 +355,10 @@ pub fn inner_unpack_triu_c_contig<T>(
             }
         },
         FlagSymm::Ah => {
+            // diagonal of anti-hermitian matrix is purely imaginary
+            let two = T::one() + T::one();
             for i in 0..n {
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write((b[idx_b] - b[idx_b].conj()) / two);
                 idx_b += 1;
                 for j in (i + 1)..n {
                     a[i * n + j].write(b[idx_b]);
@@ -427,9 +434,12 @@ pub fn inner_unpack_triu_general<T>(
             }
         },
         FlagSymm::Ah => {
+            // diagonal of anti-hermitian matrix is purely imaginary
+            let two = T::one() + T::one();
             for i in 0..n {
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                a[loc_a_ii].write((b[loc_b] - b[loc_b].conj()) / two);
                 idx_b += 1;
                 for j in (i + 1)..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
-- 
2.43.0


From 91ef952923e5cf37ca98ad4cb790487447fd89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:06 +0000
Subject: [PATCH 39/75] fix: diagonal accepted twice the same axis, reaching
 outside the buffer

---
 rstsr-common/src/layout/layoutbase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index d5a4b6f..37acbc9 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -336,6 +336,7 @@ where
         let axis2 = axis2.unwrap_or(1);
         let axis1 = rstsr_check_axis!(axis1, self.ndim())?;
         let axis2 = rstsr_check_axis!(axis2, self.ndim())?;
+        rstsr_assert!(axis1 != axis2, InvalidValue, "axis1 and axis2 cannot be the same for diagonal.")?;
 
         // shape and strides of last two dimensions
         let d1 = self.shape()[axis1] as isize;
-- 
2.43.0


From 2bf3d376b4d4424f6b8d30f15e936676088be1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 40/75] fix: squeeze accepted too small negative axes in a list

---
 rstsr-core/src/tensor/manipulation/squeeze.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/squeeze.rs b/rstsr-core/src/tensor/manipulation/squeeze.rs
index 52478fb..5edfe74 100644
--- a/rstsr-core/src/tensor/manipulation/squeeze.rs
+++ b/rstsr-core/src/tensor/manipulation/squeeze.rs
@@ -29,7 +29,7 @@ where
         _ => {
             let mut axes: Vec<isize> = axes.as_ref().iter().map(|&v| if v >= 0 { v } else { v + ndim }).collect();
             axes.sort_by(|a, b| b.cmp(a));
-            if axes.first().is_some_and(|&v| v < 0) {
+            if axes.last().is_some_and(|&v| v < 0) {
                 return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
             }
             // check no two axis are the same
-- 
2.43.0


From 9c808bbcf55f6dde50fb6ab9aa9ec2567882c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:48 +0000
Subject: [PATCH 41/75] fix: promotion of i8 with i16 was swallowed by a
 comment

---
 rstsr-dtype-traits/src/promotion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-dtype-traits/src/promotion.rs b/rstsr-dtype-traits/src/promotion.rs
index 5705bbf..9472f87 100644
--- a/rstsr-dtype-traits/src/promotion.rs
+++ b/rstsr-dtype-traits/src/promotion.rs
@@ -228,7 +228,8 @@ macro_rules! impl_promotion_asable {
     };
 }
 
-// internal typeimpl_promotion_asable!(i8, i16, false, true, i16);
+// internal type
+impl_promotion_asable!(i8, i16, false, true, i16);
 impl_promotion_asable!(i8, i32, false, true, i32);
 impl_promotion_asable!(i8, i64, false, true, i64);
 impl_promotion_asable!(i8, u8, false, false, i16);
-- 
2.43.0


From 9b8965135796bb6eb5e190722fa1d54ec256e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 42/75] fix: report shapes whose size overflows usize in
 broadcasting as an error

---
 rstsr-common/src/layout/broadcast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index 210340b..fe9a597 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -87,6 +87,13 @@ where
         tp1.reverse();
         tp2.reverse();
     }
+    // the size of the broadcasted shape must be representable
+    rstsr_assert!(
+        shape.iter().try_fold(1usize, |acc, &v| acc.checked_mul(v)).is_some(),
+        InvalidLayout,
+        "Broadcasted shape {:?} product overflows usize.",
+        shape
+    )?;
     // convert to the final shape
     let shape = TryInto::<D>::try_into(shape);
     let shape = shape.map_err(|_| rstsr_error!(InvalidLayout, "Type cast error."))?;
-- 
2.43.0


From 40b0dbee8c9c02eb9e94cf9b722247ec5a7f7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 43/75] fix: report shapes whose size overflows in
 into_shape_assume_contig_f as an error

---
 rstsr-core/src/tensor/manipulation/into_compatible_shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
index c4370fe..ace5ca2 100644
--- a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
+++ b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
@@ -258,7 +258,9 @@ where
     let default_order = tensor.device().default_order();
     let (storage, layout) = tensor.into_raw_parts();
 
-    rstsr_assert_eq!(layout.size(), shape.shape_size(), InvalidLayout, "Number of elements not same.")?;
+    // the product of an invalid shape may overflow
+    let size_new = shape.as_ref().iter().try_fold(1usize, |acc, &v| acc.checked_mul(v));
+    rstsr_assert_eq!(Some(layout.size()), size_new, InvalidLayout, "Number of elements not same.")?;
 
     let new_layout = {
         if default_order == FlagOrder::C && layout.c_contig() {
-- 
2.43.0


From aa6370d151255e25bd7b12b9208750b039e7395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 44/75] fix: overflow-free index bounds of layouts with huge
 extents or strides

---
 rstsr-common/src/layout/layoutbase.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 37acbc9..d5212f1 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -244,17 +244,21 @@ where
             return Ok((offset, offset + 1));
         }
 
-        let mut min = offset as isize;
-        let mut max = offset as isize;
+        if shape.contains(&0) {
+            return Ok((offset, offset));
+        }
+
+        let overflow = || rstsr_error!(ValueOutOfRange, "index bounds of layout overflow isize");
+        let mut min = isize::try_from(offset).map_err(|_| overflow())?;
+        let mut max = min;
 
         for i in 0..n {
-            if shape[i] == 0 {
-                return Ok((offset, offset));
-            }
+            let extent = isize::try_from(shape[i] - 1).map_err(|_| overflow())?;
+            let span = stride[i].checked_mul(extent).ok_or_else(overflow)?;
             if stride[i] > 0 {
-                max += stride[i] * (shape[i] as isize - 1);
+                max = max.checked_add(span).ok_or_else(overflow)?;
             } else {
-                min += stride[i] * (shape[i] as isize - 1);
+                min = min.checked_add(span).ok_or_else(overflow)?;
             }
         }
         rstsr_pattern!(min, 0.., ValueOutOfRange)?;
-- 
2.43.0


From 65f14f4fa972ea3609f92110dfdf8a3bfac5d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 45/75] fix: report too large offsets of diag_f as an error

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1f98fc5..eb5f121 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -58,7 +58,9 @@ where
         let (tensor, offset) = self;
         if tensor.ndim() == 1 {
             let layout_diag = tensor.layout().to_dim::<Ix1>()?;
-            let n_row = tensor.size() + offset.unsigned_abs();
+            let n_row = tensor.size().checked_add(offset.unsigned_abs());
+            let n_row = n_row.filter(|n| n.checked_mul(*n).is_some_and(|size| isize::try_from(size).is_ok()));
+            let n_row = n_row.ok_or_else(|| rstsr_error!(ValueOutOfRange, "offset {offset} is too large for diag."))?;
             let mut result = full_f(([n_row, n_row], T::default(), tensor.device()))?;
             let layout_result = result.layout().diagonal(Some(offset), Some(0), Some(1))?;
             let device = tensor.device();
-- 
2.43.0


From 459264b9b256955822f0cf2219e3aead11cbf694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 46/75] fix: overflow-free slicing with extreme steps

---
 rstsr-common/src/layout/indexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fc4df88..13cead1 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -165,8 +165,9 @@ where
             }
 
             let mut offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step - 1) / step).max(0) as usize;
-            stride[axis] *= step;
+            shape[axis] = if stop > start { ((stop - start - 1) / step + 1) as usize } else { 0 };
+            // stride of an axis with one element or less is irrelevant (large step may overflow)
+            stride[axis] = stride[axis].checked_mul(step).unwrap_or(stride[axis]);
             if shape.as_ref().contains(&0) {
                 // no element to point at; do not move the offset out of the underlying data
                 offset = self.offset();
@@ -199,8 +200,9 @@ where
             }
 
             let mut offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step + 1) / step).max(0) as usize;
-            stride[axis] *= step;
+            shape[axis] = if stop < start { ((stop - start + 1) / step + 1) as usize } else { 0 };
+            // stride of an axis with one element or less is irrelevant (large step may overflow)
+            stride[axis] = stride[axis].checked_mul(step).unwrap_or(stride[axis]);
             if shape.as_ref().contains(&0) {
                 // no element to point at; do not move the offset out of the underlying data
                 offset = self.offset();
-- 
2.43.0


From 3cfb74a772a5bf1c233d5479f6179d3dd6a5be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 47/75] fix: report shapes exceeding the address space in
 creation functions as an error

---
 rstsr-common/src/layout/shape.rs             | 15 +++++++++++----
 rstsr-core/src/device_cpu_serial/creation.rs | 13 ++++++++++++-
 rstsr-core/src/tensor/creation.rs            |  2 +-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/rstsr-common/src/layout/shape.rs b/rstsr-common/src/layout/shape.rs
index ed9b9c1..b1d1b46 100644
--- a/rstsr-common/src/layout/shape.rs
+++ b/rstsr-common/src/layout/shape.rs
@@ -69,6 +69,13 @@ pub trait DimShapeAPI: DimBaseAPI {
     unsafe fn unravel_index_c(&self, index: usize) -> Self;
 }
 
+/// Stride of the next axis of a contiguous layout.
+///
+/// Saturates when stride exceeds `isize`; such layouts are reported by `Layout::bounds_index`.
+fn contig_stride_next(stride: isize, extent: usize) -> isize {
+    stride.saturating_mul(isize::try_from(extent).unwrap_or(isize::MAX))
+}
+
 impl<const N: usize> DimShapeAPI for Ix<N> {
     fn shape_size(&self) -> usize {
         self.iter().product()
@@ -77,7 +84,7 @@ impl<const N: usize> DimShapeAPI for Ix<N> {
     fn stride_f_contig(&self) -> [isize; N] {
         let mut stride = [1; N];
         for i in 1..N {
-            stride[i] = stride[i - 1] * self[i - 1].max(1) as isize;
+            stride[i] = contig_stride_next(stride[i - 1], self[i - 1].max(1));
         }
         stride
     }
@@ -88,7 +95,7 @@ impl<const N: usize> DimShapeAPI for Ix<N> {
             return stride;
         }
         for i in (0..N - 1).rev() {
-            stride[i] = stride[i + 1] * self[i + 1].max(1) as isize;
+            stride[i] = contig_stride_next(stride[i + 1], self[i + 1].max(1));
         }
         stride
     }
@@ -187,7 +194,7 @@ impl DimShapeAPI for IxD {
     fn stride_f_contig(&self) -> Vec<isize> {
         let mut stride = vec![1; self.len()];
         for i in 1..self.len() {
-            stride[i] = stride[i - 1] * self[i - 1] as isize;
+            stride[i] = contig_stride_next(stride[i - 1], self[i - 1]);
         }
         stride
     }
@@ -198,7 +205,7 @@ impl DimShapeAPI for IxD {
             return stride;
         }
         for i in (0..self.len() - 1).rev() {
-            stride[i] = stride[i + 1] * self[i + 1] as isize;
+            stride[i] = contig_stride_next(stride[i + 1], self[i + 1]);
         }
         stride
     }
diff --git a/rstsr-core/src/device_cpu_serial/creation.rs b/rstsr-core/src/device_cpu_serial/creation.rs
index df26666..44a7f5d 100644
--- a/rstsr-core/src/device_cpu_serial/creation.rs
+++ b/rstsr-core/src/device_cpu_serial/creation.rs
@@ -1,6 +1,13 @@
 use crate::prelude_dev::*;
 use num::{complex::ComplexFloat, Num, Zero};
 
+/// Check whether the number of elements could be held by a vector.
+fn check_capacity<T>(len: usize) -> Result<()> {
+    core::alloc::Layout::array::<T>(len)
+        .map(|_| ())
+        .map_err(|_| rstsr_error!(MemoryError, "{len} elements exceed the maximum size of a vector"))
+}
+
 impl<T> DeviceCreationAnyAPI<T> for DeviceCpuSerial
 where
     Self: DeviceRawAPI<T, Raw = Vec<T>> + DeviceRawAPI<MaybeUninit<T>, Raw = Vec<MaybeUninit<T>>>,
@@ -14,6 +21,7 @@ where
     where
         T: Clone,
     {
+        check_capacity::<T>(len)?;
         let raw = vec![fill; len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
@@ -58,11 +66,13 @@ where
     DeviceCpuSerial: DeviceRawAPI<T, Raw = Vec<T>>,
 {
     fn zeros_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
+        check_capacity::<T>(len)?;
         let raw = vec![T::zero(); len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
 
     fn ones_impl(&self, len: usize) -> Result<Storage<DataOwned<Vec<T>>, T, DeviceCpuSerial>> {
+        check_capacity::<T>(len)?;
         let raw = vec![T::one(); len];
         Ok(Storage::new(raw.into(), self.clone()))
     }
@@ -99,7 +109,8 @@ where
             return Ok(Storage::new(vec![start].into(), self.clone()));
         }
 
-        let mut raw = Vec::with_capacity(n);
+        let mut raw = Vec::new();
+        raw.try_reserve_exact(n)?;
         let step = match endpoint {
             true => (end - start) / T::from(n - 1).unwrap(),
             false => (end - start) / T::from(n).unwrap(),
diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index c9834ff..f0dc19f 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -419,7 +419,7 @@ where
             RowMajor => [n_rows, n_cols].c(),
             ColMajor => [n_rows, n_cols].f(),
         };
-        let mut storage = device.zeros_impl(layout.size())?;
+        let mut storage = device.zeros_impl(layout.bounds_index()?.1)?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
         device.fill(storage.raw_mut(), &layout_diag, T::one())?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
-- 
2.43.0


From 1186940201aa1748d7a8d3bdf9a706dde8371e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 48/75] fix: report too large sizes of uninitialized vectors as
 an error

---
 rstsr-common/src/alloc_vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/alloc_vec.rs b/rstsr-common/src/alloc_vec.rs
index e6785a2..2a31cd4 100644
--- a/rstsr-common/src/alloc_vec.rs
+++ b/rstsr-common/src/alloc_vec.rs
@@ -88,7 +88,9 @@ pub unsafe fn aligned_uninitialized_vec<T, const N: usize>(size: usize, alignmen
         return unaligned_uninitialized_vec(size);
     } else {
         let sizeof = core::mem::size_of::<T>();
-        let pointer = aligned_alloc(size * sizeof, alignment)?;
+        let numbytes = size.checked_mul(sizeof);
+        let numbytes = numbytes.ok_or_else(|| rstsr_error!(MemoryError, "{size} elements exceed the address space"))?;
+        let pointer = aligned_alloc(numbytes, alignment)?;
         if let Some(pointer) = pointer {
             let mut v = Vec::from_raw_parts(pointer.as_ptr() as *mut T, size, size);
             unsafe { v.set_len(size) };
-- 
2.43.0


From ab22cd50021e3a66e9b7c971dfa2ab5d9499eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 49/75] fix: overflow-free diagonal of layouts with huge
 extents

---
 rstsr-common/src/layout/layoutbase.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index d5212f1..d466feb 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -343,8 +343,8 @@ where
         rstsr_assert!(axis1 != axis2, InvalidValue, "axis1 and axis2 cannot be the same for diagonal.")?;
 
         // shape and strides of last two dimensions
-        let d1 = self.shape()[axis1] as isize;
-        let d2 = self.shape()[axis2] as isize;
+        let d1 = isize::try_from(self.shape()[axis1]).unwrap_or(isize::MAX);
+        let d2 = isize::try_from(self.shape()[axis2]).unwrap_or(isize::MAX);
         let t1 = self.stride()[axis1];
         let t2 = self.stride()[axis2];
 
@@ -371,7 +371,7 @@ where
         };
 
         // build new layout
-        let t_diag = t1 + t2;
+        let t_diag = t1.saturating_add(t2);
         let mut shape_diag = vec![];
         let mut stride_diag = vec![];
         for i in 0..self.ndim() {
-- 
2.43.0


From 1367f6c4091eb2316fb58f44c7fe04801a79448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 50/75] fix: report too large number of elements of linspace as
 an error

---
 rstsr-native-impl/src/cpu_rayon/creation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 9bb2139..e164356 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -124,6 +124,9 @@ where
         false => (end - start) / T::from(n)?,
     };
 
+    // too many elements for a vector
+    core::alloc::Layout::array::<T>(n).ok()?;
+
     // unwrap should be safe here: if `n` can be converted, this can surely be converted by `i`.
     let task = || -> Vec<T> { (0..n).into_par_iter().map(|i| start + T::from(i).unwrap() * step).collect() };
     Some(pool.map_or_else(task, |pool| pool.install(task)))
-- 
2.43.0


From fa498126c7b21300f31ba5f3bc67aaf1c2d6a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 51/75] fix: overflow-free number of elements of layouts and
 shapes

---
 rstsr-common/src/layout/layoutbase.rs | 2 +-
 rstsr-common/src/layout/shape.rs      | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index d466feb..1c6f715 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -65,7 +65,7 @@ where
     /// This function uses cached size, instead of evaluating from shape.
     #[inline]
     pub fn size(&self) -> usize {
-        self.shape().as_ref().iter().product()
+        self.shape().as_ref().iter().fold(1, |size: usize, &n| size.saturating_mul(n))
     }
 
     /// Manually set offset.
diff --git a/rstsr-common/src/layout/shape.rs b/rstsr-common/src/layout/shape.rs
index b1d1b46..059c932 100644
--- a/rstsr-common/src/layout/shape.rs
+++ b/rstsr-common/src/layout/shape.rs
@@ -20,6 +20,8 @@ pub trait DimShapeAPI: DimBaseAPI {
     /// let shape = vec![];
     /// assert_eq!(shape.shape_size(), 1);
     /// ```
+    ///
+    /// Saturates when the number of elements exceeds `usize`.
     fn shape_size(&self) -> usize;
 
     /// Stride for a f-contiguous tensor using this shape.
@@ -78,7 +80,7 @@ fn contig_stride_next(stride: isize, extent: usize) -> isize {
 
 impl<const N: usize> DimShapeAPI for Ix<N> {
     fn shape_size(&self) -> usize {
-        self.iter().product()
+        self.iter().fold(1, |size: usize, &n| size.saturating_mul(n))
     }
 
     fn stride_f_contig(&self) -> [isize; N] {
@@ -188,7 +190,7 @@ impl<const N: usize> DimShapeAPI for Ix<N> {
 
 impl DimShapeAPI for IxD {
     fn shape_size(&self) -> usize {
-        self.iter().product()
+        self.iter().fold(1, |size: usize, &n| size.saturating_mul(n))
     }
 
     fn stride_f_contig(&self) -> Vec<isize> {
-- 
2.43.0


From 7aeff855632e840db3a6ee6795874fa02d8e0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 52/75] fix: overflow-free check of strides

---
 rstsr-common/src/layout/layoutbase.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 1c6f715..7576303 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -299,12 +299,12 @@ where
         }
 
         let mut indices = (0..n).filter(|&k| shape[k] > 1).collect::<Vec<_>>();
-        indices.sort_by_key(|&k| stride[k].abs());
+        indices.sort_by_key(|&k| stride[k].unsigned_abs());
         let shape_sorted = indices.iter().map(|&k| shape[k]).collect::<Vec<_>>();
         let stride_sorted = indices.iter().map(|&k| stride[k].unsigned_abs()).collect::<Vec<_>>();
 
         // elem_cum: cumulative number count of elements in tensor for small strides
-        let mut elem_cum = 0;
+        let mut elem_cum: usize = 0;
         for i in 0..indices.len() {
             // if stride is zero, then skip check for this axis
             if stride_sorted[i] == 0 && skip_zero {
@@ -318,7 +318,7 @@ where
                 "Either stride be zero, or stride too small that elements in tensor can be overlapped."
             )?;
 
-            elem_cum += (shape_sorted[i] - 1) * stride_sorted[i];
+            elem_cum = elem_cum.saturating_add((shape_sorted[i] - 1).saturating_mul(stride_sorted[i]));
         }
         return Ok(());
     }
-- 
2.43.0


From e22e299661aa01702e0d03feb01862a0b4f859a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 53/75] fix: diag and concat do not assign over uninitialised
 elements

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index eb5f121..25bd413 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -50,7 +50,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, Ix1>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, Ix1>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -71,10 +71,10 @@ where
             let layout_diag = layout.diagonal(Some(offset), Some(0), Some(1))?;
             let size = layout_diag.size();
             let device = tensor.device();
-            let mut result = unsafe { empty_f(([size], device))? };
+            let mut result = uninit_f(([size], device))?;
             let layout_result = result.layout().to_dim()?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
-            return Ok(result);
+            device.assign_uninit(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
+            return unsafe { assume_init_f(result) };
         } else {
             return rstsr_raise!(InvalidLayout, "diag only support 1-D or 2-D tensor.");
         }
@@ -86,7 +86,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, Ix1>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, Ix1>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -325,7 +325,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -372,7 +372,7 @@ where
         let new_shape = shape_other;
 
         // create the result tensor
-        let mut result = unsafe { empty_f((new_shape, &device))? };
+        let mut result = uninit_f((new_shape, &device))?;
 
         // assign each tensor to the result tensor
         let mut offset = 0;
@@ -380,11 +380,11 @@ where
             let layout = tensor.layout().to_dim::<IxD>()?;
             let axis_size = tensor.shape()[axis];
             let layout_result = result.layout().dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout)?;
+            device.assign_uninit(result.raw_mut(), &layout_result, tensor.raw(), &layout)?;
             offset += axis_size;
         }
 
-        Ok(result)
+        unsafe { assume_init_f(result) }
     }
 }
 
@@ -413,7 +413,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -440,7 +440,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -505,7 +505,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -580,7 +580,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -643,7 +643,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -706,7 +706,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
@@ -733,7 +733,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     T: Clone + Default,
     D: DimAPI,
-    B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
+    B: DeviceAPI<T> + DeviceAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignAPI<T, IxD>,
 {
     type Out = Tensor<T, B, IxD>;
 
-- 
2.43.0


From 6f94b87964e5ab8f069c3ce2ebaa5d7437295999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 54/75] fix: in-place operators keep their operand valid when
 an element operation panics

---
 .../operators/op_binary_arithmetic.rs         | 44 +++++++++----------
 .../operators/op_binary_common.rs             |  4 +-
 .../auto_impl/op_binary_arithmetic.rs         | 44 +++++++++----------
 .../auto_impl/op_binary_common.rs             |  4 +-
 4 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
index e6aec47..4630040 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
@@ -33,16 +33,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(a.assume_init_read() +  b.clone()); }];
-    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(a.assume_init_read() -  b.clone()); }];
-    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(a.assume_init_read() *  b.clone()); }];
-    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(a.assume_init_read() /  b.clone()); }];
-    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(a.assume_init_read() %  b.clone()); }];
-    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(a.assume_init_read() |  b.clone()); }];
-    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(a.assume_init_read() &  b.clone()); }];
-    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(a.assume_init_read() ^  b.clone()); }];
-    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(a.assume_init_read() << b.clone()); }];
-    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(a.assume_init_read() >> b.clone()); }];
+    [OpLConsumeAddAPI   ] [Add   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() +  b.clone(); }];
+    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() -  b.clone(); }];
+    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() *  b.clone(); }];
+    [OpLConsumeDivAPI   ] [Div   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() /  b.clone(); }];
+    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() %  b.clone(); }];
+    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() |  b.clone(); }];
+    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() &  b.clone(); }];
+    [OpLConsumeBitXorAPI] [BitXor] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() ^  b.clone(); }];
+    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() << b.clone(); }];
+    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() >> b.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
@@ -63,16 +63,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(b.clone() +  a.assume_init_read()); }];
-    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(b.clone() -  a.assume_init_read()); }];
-    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(b.clone() *  a.assume_init_read()); }];
-    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(b.clone() /  a.assume_init_read()); }];
-    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(b.clone() %  a.assume_init_read()); }];
-    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(b.clone() |  a.assume_init_read()); }];
-    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(b.clone() &  a.assume_init_read()); }];
-    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(b.clone() ^  a.assume_init_read()); }];
-    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(b.clone() << a.assume_init_read()); }];
-    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(b.clone() >> a.assume_init_read()); }];
+    [OpRConsumeAddAPI   ] [Add   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() +  a.clone(); }];
+    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() -  a.clone(); }];
+    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() *  a.clone(); }];
+    [OpRConsumeDivAPI   ] [Div   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() /  a.clone(); }];
+    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() %  a.clone(); }];
+    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() |  a.clone(); }];
+    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() &  a.clone(); }];
+    [OpRConsumeBitXorAPI] [BitXor] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() ^  a.clone(); }];
+    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() << a.clone(); }];
+    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() >> a.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
@@ -93,8 +93,8 @@ where
 
 #[duplicate_item(
      OpAPI      Op    func                              func_inplace        ;
-    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { a.write(-a.assume_init_read()); }];
-    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { a.write(!a.assume_init_read()); }];
+    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| { let a = unsafe { a.assume_init_mut() }; *a = -a.clone(); }];
+    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| { let a = unsafe { a.assume_init_mut() }; *a = !a.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceCpuSerial
 where
diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 255d365..418810f 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -81,8 +81,8 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         let mut func = |a: &mut MaybeUninit<T>| {
-            let b = unsafe { a.assume_init_read() };
-            a.write(b.clone() * b);
+            let a = unsafe { a.assume_init_mut() };
+            *a = a.clone() * a.clone();
         };
         self.op_muta_func(a, la, &mut func)
     }
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
index 7ecee34..8cf5bee 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
@@ -33,16 +33,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpLConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(a.assume_init_read() +  b.clone()); }];
-    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(a.assume_init_read() -  b.clone()); }];
-    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(a.assume_init_read() *  b.clone()); }];
-    [OpLConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(a.assume_init_read() /  b.clone()); }];
-    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(a.assume_init_read() %  b.clone()); }];
-    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(a.assume_init_read() |  b.clone()); }];
-    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(a.assume_init_read() &  b.clone()); }];
-    [OpLConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(a.assume_init_read() ^  b.clone()); }];
-    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(a.assume_init_read() << b.clone()); }];
-    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(a.assume_init_read() >> b.clone()); }];
+    [OpLConsumeAddAPI   ] [Add   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() +  b.clone(); }];
+    [OpLConsumeSubAPI   ] [Sub   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() -  b.clone(); }];
+    [OpLConsumeMulAPI   ] [Mul   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() *  b.clone(); }];
+    [OpLConsumeDivAPI   ] [Div   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() /  b.clone(); }];
+    [OpLConsumeRemAPI   ] [Rem   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() %  b.clone(); }];
+    [OpLConsumeBitOrAPI ] [BitOr ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() |  b.clone(); }];
+    [OpLConsumeBitAndAPI] [BitAnd] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() &  b.clone(); }];
+    [OpLConsumeBitXorAPI] [BitXor] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() ^  b.clone(); }];
+    [OpLConsumeShlAPI   ] [Shl   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() << b.clone(); }];
+    [OpLConsumeShrAPI   ] [Shr   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = a.clone() >> b.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
@@ -63,16 +63,16 @@ where
 
 #[duplicate_item(
      OpAPI                 Op       func                               ;
-    [OpRConsumeAddAPI   ] [Add   ] [|a, b| unsafe { a.write(b.clone() +  a.assume_init_read()); }];
-    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| unsafe { a.write(b.clone() -  a.assume_init_read()); }];
-    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| unsafe { a.write(b.clone() *  a.assume_init_read()); }];
-    [OpRConsumeDivAPI   ] [Div   ] [|a, b| unsafe { a.write(b.clone() /  a.assume_init_read()); }];
-    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| unsafe { a.write(b.clone() %  a.assume_init_read()); }];
-    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| unsafe { a.write(b.clone() |  a.assume_init_read()); }];
-    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| unsafe { a.write(b.clone() &  a.assume_init_read()); }];
-    [OpRConsumeBitXorAPI] [BitXor] [|a, b| unsafe { a.write(b.clone() ^  a.assume_init_read()); }];
-    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| unsafe { a.write(b.clone() << a.assume_init_read()); }];
-    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| unsafe { a.write(b.clone() >> a.assume_init_read()); }];
+    [OpRConsumeAddAPI   ] [Add   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() +  a.clone(); }];
+    [OpRConsumeSubAPI   ] [Sub   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() -  a.clone(); }];
+    [OpRConsumeMulAPI   ] [Mul   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() *  a.clone(); }];
+    [OpRConsumeDivAPI   ] [Div   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() /  a.clone(); }];
+    [OpRConsumeRemAPI   ] [Rem   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() %  a.clone(); }];
+    [OpRConsumeBitOrAPI ] [BitOr ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() |  a.clone(); }];
+    [OpRConsumeBitAndAPI] [BitAnd] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() &  a.clone(); }];
+    [OpRConsumeBitXorAPI] [BitXor] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() ^  a.clone(); }];
+    [OpRConsumeShlAPI   ] [Shl   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() << a.clone(); }];
+    [OpRConsumeShrAPI   ] [Shr   ] [|a, b| { let a = unsafe { a.assume_init_mut() }; *a = b.clone() >> a.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
@@ -93,8 +93,8 @@ where
 
 #[duplicate_item(
      OpAPI      Op    func                              func_inplace        ;
-    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| unsafe { a.write(-a.assume_init_read()); }];
-    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| unsafe { a.write(!a.assume_init_read()); }];
+    [OpNegAPI] [Neg] [|a, b| { a.write(-b.clone()); }] [|a| { let a = unsafe { a.assume_init_mut() }; *a = -a.clone(); }];
+    [OpNotAPI] [Not] [|a, b| { a.write(!b.clone()); }] [|a| { let a = unsafe { a.assume_init_mut() }; *a = !a.clone(); }];
 )]
 impl<TA, TB, D> OpAPI<TA, TB, D> for DeviceRayonAutoImpl
 where
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 3241689..77a58c3 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -81,8 +81,8 @@ where
 
     fn op_muta(&self, a: &mut Vec<MaybeUninit<T>>, la: &Layout<D>) -> Result<()> {
         let mut func = |a: &mut MaybeUninit<T>| {
-            let b = unsafe { a.assume_init_read() };
-            a.write(b.clone() * b);
+            let a = unsafe { a.assume_init_mut() };
+            *a = a.clone() * a.clone();
         };
         self.op_muta_func(a, la, &mut func)
     }
-- 
2.43.0


From e6a48bc2fb36fcbe6a8c0223140e34edefc58fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 55/75] fix: to_layout rejects layouts with gaps for elements
 that need drop

---
 rstsr-core/src/tensor/manipulation/to_layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rstsr-core/src/tensor/manipulation/to_layout.rs b/rstsr-core/src/tensor/manipulation/to_layout.rs
index f52904f..974f0a6 100644
--- a/rstsr-core/src/tensor/manipulation/to_layout.rs
+++ b/rstsr-core/src/tensor/manipulation/to_layout.rs
@@ -29,6 +29,12 @@ where
         let (storage_old, layout_old) = tensor.into_raw_parts();
         let device = storage_old.device();
         let (_, idx_max) = layout.bounds_index()?;
+        // elements that are not covered by layout can not be left uninitialised if they are to be dropped
+        rstsr_assert!(
+            !core::mem::needs_drop::<T>() || idx_max == shape.shape_size(),
+            InvalidLayout,
+            "layout with gaps is not supported for element type that needs drop"
+        )?;
         let mut storage_new = device.uninit_impl(idx_max)?;
         device.assign_arbitary_uninit(storage_new.raw_mut(), &layout, storage_old.raw(), &layout_old)?;
         let storage_new = unsafe { B::assume_init_impl(storage_new)? };
-- 
2.43.0


From 666f250b37334d67b56b281863d6281dafc4eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 56/75] fix: binary operators with output drop the elements
 they overwrite

---
 .../operators/op_ternary_arithmetic.rs        | 36 +++++++++++++------
 .../auto_impl/op_ternary_arithmetic.rs        | 36 +++++++++++++------
 .../operators/ops/op_ternary_arithmetic.rs    | 22 +++++++++++-
 .../tensor/operators/op_binary_arithmetic.rs  |  7 +---
 4 files changed, 72 insertions(+), 29 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_ternary_arithmetic.rs b/rstsr-core/src/device_cpu_serial/operators/op_ternary_arithmetic.rs
index 0727387..f69290c 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_ternary_arithmetic.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_ternary_arithmetic.rs
@@ -1,17 +1,18 @@
 use crate::prelude_dev::*;
+use core::mem::transmute;
 
 #[duplicate_item(
-     OpAPI         Op       func                                  ;
-    [OpAddAPI   ] [Add   ] [|c, a, b| { c.write(a.clone() +  b.clone()); }];
-    [OpSubAPI   ] [Sub   ] [|c, a, b| { c.write(a.clone() -  b.clone()); }];
-    [OpMulAPI   ] [Mul   ] [|c, a, b| { c.write(a.clone() *  b.clone()); }];
-    [OpDivAPI   ] [Div   ] [|c, a, b| { c.write(a.clone() /  b.clone()); }];
-    [OpRemAPI   ] [Rem   ] [|c, a, b| { c.write(a.clone() %  b.clone()); }];
-    [OpBitOrAPI ] [BitOr ] [|c, a, b| { c.write(a.clone() |  b.clone()); }];
-    [OpBitAndAPI] [BitAnd] [|c, a, b| { c.write(a.clone() &  b.clone()); }];
-    [OpBitXorAPI] [BitXor] [|c, a, b| { c.write(a.clone() ^  b.clone()); }];
-    [OpShlAPI   ] [Shl   ] [|c, a, b| { c.write(a.clone() << b.clone()); }];
-    [OpShrAPI   ] [Shr   ] [|c, a, b| { c.write(a.clone() >> b.clone()); }];
+     OpAPI         Op       func                                      func_init                                                      ;
+    [OpAddAPI   ] [Add   ] [|c, a, b| { c.write(a.clone() +  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() +  b.clone(); }];
+    [OpSubAPI   ] [Sub   ] [|c, a, b| { c.write(a.clone() -  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() -  b.clone(); }];
+    [OpMulAPI   ] [Mul   ] [|c, a, b| { c.write(a.clone() *  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() *  b.clone(); }];
+    [OpDivAPI   ] [Div   ] [|c, a, b| { c.write(a.clone() /  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() /  b.clone(); }];
+    [OpRemAPI   ] [Rem   ] [|c, a, b| { c.write(a.clone() %  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() %  b.clone(); }];
+    [OpBitOrAPI ] [BitOr ] [|c, a, b| { c.write(a.clone() |  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() |  b.clone(); }];
+    [OpBitAndAPI] [BitAnd] [|c, a, b| { c.write(a.clone() &  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() &  b.clone(); }];
+    [OpBitXorAPI] [BitXor] [|c, a, b| { c.write(a.clone() ^  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() ^  b.clone(); }];
+    [OpShlAPI   ] [Shl   ] [|c, a, b| { c.write(a.clone() << b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() << b.clone(); }];
+    [OpShrAPI   ] [Shr   ] [|c, a, b| { c.write(a.clone() >> b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() >> b.clone(); }];
 )]
 impl<TA, TB, TC, D> OpAPI<TA, TB, TC, D> for DeviceCpuSerial
 where
@@ -32,6 +33,19 @@ where
         self.op_mutc_refa_refb_func(c, lc, a, la, b, lb, &mut func)
     }
 
+    fn op_mutc_refa_refb_init(
+        &self,
+        c: &mut Vec<TC>,
+        lc: &Layout<D>,
+        a: &Vec<TA>,
+        la: &Layout<D>,
+        b: &Vec<TB>,
+        lb: &Layout<D>,
+    ) -> Result<()> {
+        let c = unsafe { transmute::<&mut Vec<TC>, &mut Vec<MaybeUninit<TC>>>(c) };
+        self.op_mutc_refa_refb_func(c, lc, a, la, b, lb, &mut func_init)
+    }
+
     fn op_mutc_refa_numb(
         &self,
         c: &mut Vec<MaybeUninit<TC>>,
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_ternary_arithmetic.rs b/rstsr-core/src/feature_rayon/auto_impl/op_ternary_arithmetic.rs
index f37d8bd..c4c2727 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_ternary_arithmetic.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_ternary_arithmetic.rs
@@ -1,17 +1,18 @@
 use crate::prelude_dev::*;
+use core::mem::transmute;
 
 #[duplicate_item(
-     OpAPI         Op       func                                  ;
-    [OpAddAPI   ] [Add   ] [|c, a, b| { c.write(a.clone() +  b.clone()); }];
-    [OpSubAPI   ] [Sub   ] [|c, a, b| { c.write(a.clone() -  b.clone()); }];
-    [OpMulAPI   ] [Mul   ] [|c, a, b| { c.write(a.clone() *  b.clone()); }];
-    [OpDivAPI   ] [Div   ] [|c, a, b| { c.write(a.clone() /  b.clone()); }];
-    [OpRemAPI   ] [Rem   ] [|c, a, b| { c.write(a.clone() %  b.clone()); }];
-    [OpBitOrAPI ] [BitOr ] [|c, a, b| { c.write(a.clone() |  b.clone()); }];
-    [OpBitAndAPI] [BitAnd] [|c, a, b| { c.write(a.clone() &  b.clone()); }];
-    [OpBitXorAPI] [BitXor] [|c, a, b| { c.write(a.clone() ^  b.clone()); }];
-    [OpShlAPI   ] [Shl   ] [|c, a, b| { c.write(a.clone() << b.clone()); }];
-    [OpShrAPI   ] [Shr   ] [|c, a, b| { c.write(a.clone() >> b.clone()); }];
+     OpAPI         Op       func                                      func_init                                                      ;
+    [OpAddAPI   ] [Add   ] [|c, a, b| { c.write(a.clone() +  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() +  b.clone(); }];
+    [OpSubAPI   ] [Sub   ] [|c, a, b| { c.write(a.clone() -  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() -  b.clone(); }];
+    [OpMulAPI   ] [Mul   ] [|c, a, b| { c.write(a.clone() *  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() *  b.clone(); }];
+    [OpDivAPI   ] [Div   ] [|c, a, b| { c.write(a.clone() /  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() /  b.clone(); }];
+    [OpRemAPI   ] [Rem   ] [|c, a, b| { c.write(a.clone() %  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() %  b.clone(); }];
+    [OpBitOrAPI ] [BitOr ] [|c, a, b| { c.write(a.clone() |  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() |  b.clone(); }];
+    [OpBitAndAPI] [BitAnd] [|c, a, b| { c.write(a.clone() &  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() &  b.clone(); }];
+    [OpBitXorAPI] [BitXor] [|c, a, b| { c.write(a.clone() ^  b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() ^  b.clone(); }];
+    [OpShlAPI   ] [Shl   ] [|c, a, b| { c.write(a.clone() << b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() << b.clone(); }];
+    [OpShrAPI   ] [Shr   ] [|c, a, b| { c.write(a.clone() >> b.clone()); }] [|c, a, b| unsafe { *c.assume_init_mut() = a.clone() >> b.clone(); }];
 )]
 impl<TA, TB, TC, D> OpAPI<TA, TB, TC, D> for DeviceRayonAutoImpl
 where
@@ -32,6 +33,19 @@ where
         self.op_mutc_refa_refb_func(c, lc, a, la, b, lb, &mut func)
     }
 
+    fn op_mutc_refa_refb_init(
+        &self,
+        c: &mut Vec<TC>,
+        lc: &Layout<D>,
+        a: &Vec<TA>,
+        la: &Layout<D>,
+        b: &Vec<TB>,
+        lb: &Layout<D>,
+    ) -> Result<()> {
+        let c = unsafe { transmute::<&mut Vec<TC>, &mut Vec<MaybeUninit<TC>>>(c) };
+        self.op_mutc_refa_refb_func(c, lc, a, la, b, lb, &mut func_init)
+    }
+
     fn op_mutc_refa_numb(
         &self,
         c: &mut Vec<MaybeUninit<TC>>,
diff --git a/rstsr-core/src/operators/ops/op_ternary_arithmetic.rs b/rstsr-core/src/operators/ops/op_ternary_arithmetic.rs
index 6de4298..84caa59 100644
--- a/rstsr-core/src/operators/ops/op_ternary_arithmetic.rs
+++ b/rstsr-core/src/operators/ops/op_ternary_arithmetic.rs
@@ -1,4 +1,5 @@
 use crate::prelude_dev::*;
+use core::mem::transmute;
 
 #[duplicate_item(
      OpAPI         Op     ;
@@ -16,7 +17,7 @@ use crate::prelude_dev::*;
 pub trait OpAPI<TA, TB, TC, D>
 where
     D: DimAPI,
-    Self: DeviceAPI<TA> + DeviceAPI<TB> + DeviceAPI<MaybeUninit<TC>>,
+    Self: DeviceAPI<TA> + DeviceAPI<TB> + DeviceAPI<TC> + DeviceAPI<MaybeUninit<TC>>,
 {
     fn op_mutc_refa_refb(
         &self,
@@ -28,6 +29,25 @@ where
         lb: &Layout<D>,
     ) -> Result<()>;
 
+    /// Same as `op_mutc_refa_refb`, with output that is already initialised.
+    ///
+    /// Devices that store elements that need drop should drop the elements overwritten.
+    fn op_mutc_refa_refb_init(
+        &self,
+        c: &mut <Self as DeviceRawAPI<TC>>::Raw,
+        lc: &Layout<D>,
+        a: &<Self as DeviceRawAPI<TA>>::Raw,
+        la: &Layout<D>,
+        b: &<Self as DeviceRawAPI<TB>>::Raw,
+        lb: &Layout<D>,
+    ) -> Result<()> {
+        // REVIEWME: transmute &Raw<T> to &MaybeUninit<Raw<T>>
+        let c = unsafe {
+            transmute::<&mut <Self as DeviceRawAPI<TC>>::Raw, &mut <Self as DeviceRawAPI<MaybeUninit<TC>>>::Raw>(c)
+        };
+        self.op_mutc_refa_refb(c, lc, a, la, b, lb)
+    }
+
     fn op_mutc_refa_numb(
         &self,
         c: &mut <Self as DeviceRawAPI<MaybeUninit<TC>>>::Raw,
diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index f0516ee..8af64ce 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -1,5 +1,4 @@
 use crate::prelude_dev::*;
-use core::mem::transmute;
 
 /* #region binary operation function and traits */
 
@@ -613,11 +612,7 @@ where
     rstsr_assert_eq!(lc_b, *lc, InvalidLayout)?;
     // op provided by device
     let device = c.device().clone();
-    // REVIEWME: transmute &Raw<T> to &MaybeUninit<Raw<T>>
-    let c_raw_mut = unsafe {
-        transmute::<&mut <B as DeviceRawAPI<TC>>::Raw, &mut <B as DeviceRawAPI<MaybeUninit<TC>>>::Raw>(c.raw_mut())
-    };
-    device.op_mutc_refa_refb(c_raw_mut, &lc_b, a.raw(), &la_b, b.raw(), &lb_b)
+    device.op_mutc_refa_refb_init(c.raw_mut(), &lc_b, a.raw(), &la_b, b.raw(), &lb_b)
 }
 
 #[duplicate_item(
-- 
2.43.0


From 9c47ce78d2c661ad12ebf9105963b4619ffa8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:00 +0000
Subject: [PATCH 57/75] fix: sequential-memory iteration order of
 negative-stride, broadcast and 0-dim layouts

---
 rstsr-common/src/layout/rearrangement.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/rearrangement.rs b/rstsr-common/src/layout/rearrangement.rs
index ca30aff..523b534 100644
--- a/rstsr-common/src/layout/rearrangement.rs
+++ b/rstsr-common/src/layout/rearrangement.rs
@@ -176,6 +176,15 @@ where
             InvalidLayout,
             "Data in this layout could not be represented as sequential memory."
         )?;
+        rstsr_assert_eq!(
+            l.size(),
+            l.size_non_broadcast(),
+            InvalidLayout,
+            "Broadcasted data could not be represented as sequential memory."
+        )?;
+        if l.ndim() == 0 {
+            return Ok(l.clone());
+        }
         let mut shape = l.new_shape();
         let mut stride = l.new_stride();
         shape[0] = l.size();
@@ -184,7 +193,8 @@ where
             shape[i] = 1;
             stride[i] = l.size() as isize;
         }
-        Ok(unsafe { Layout::new_unchecked(shape, stride, l.offset()) })
+        // sequential memory starts from the lower bound (the offset may be elsewhere if strides are negative)
+        Ok(unsafe { Layout::new_unchecked(shape, stride, bounds_min) })
     };
     match order {
         Order::C => fn_c(layout),
-- 
2.43.0


From 833c1ef9155794271a05becfc7de3fabe3c710db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:47 +0000
Subject: [PATCH 58/75] fix: scoped BLAS thread counts are restored after
 panics and overlapping scopes

---
 crates-device/rstsr-aocl/src/threading.rs     |  7 +-
 crates-device/rstsr-blis/src/threading.rs     | 10 +--
 crates-device/rstsr-kml/src/threading.rs      |  7 +-
 crates-device/rstsr-mkl/src/threading.rs      |  7 +-
 crates-device/rstsr-openblas/src/threading.rs | 14 ++--
 rstsr-blas-traits/src/threading.rs            | 65 ++++++++++++++++++-
 6 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/threading.rs b/crates-device/rstsr-aocl/src/threading.rs
index 32bf5da..b7fe82a 100644
--- a/crates-device/rstsr-aocl/src/threading.rs
+++ b/crates-device/rstsr-aocl/src/threading.rs
@@ -2,6 +2,7 @@
 
 use crate::prelude_dev::*;
 use rstsr_blas_traits::prelude_dev::*;
+use rstsr_blas_traits::threading::BlasThreadScopes;
 
 /* #region threading number control */
 
@@ -35,11 +36,7 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    BlasThreadScopes::new().with(nthreads, get_num_threads, set_num_threads, f)
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-blis/src/threading.rs b/crates-device/rstsr-blis/src/threading.rs
index f17e9bb..05608d4 100644
--- a/crates-device/rstsr-blis/src/threading.rs
+++ b/crates-device/rstsr-blis/src/threading.rs
@@ -2,6 +2,7 @@
 
 use crate::prelude_dev::*;
 use rstsr_blas_traits::prelude_dev::*;
+use rstsr_blas_traits::threading::BlasThreadScopes;
 
 /* #region threading number control */
 
@@ -31,15 +32,14 @@ pub fn get_num_threads() -> usize {
     BLISConfig.get_num_threads()
 }
 
+// number of threads is a setting of the whole process
+static SCOPES: BlasThreadScopes = BlasThreadScopes::new();
+
 pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    SCOPES.with(nthreads, get_num_threads, set_num_threads, f)
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-kml/src/threading.rs b/crates-device/rstsr-kml/src/threading.rs
index a3827d9..a7bb4cf 100644
--- a/crates-device/rstsr-kml/src/threading.rs
+++ b/crates-device/rstsr-kml/src/threading.rs
@@ -2,6 +2,7 @@
 
 use crate::prelude_dev::*;
 use rstsr_blas_traits::prelude_dev::*;
+use rstsr_blas_traits::threading::BlasThreadScopes;
 
 /* #region threading number control */
 
@@ -52,11 +53,7 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    BlasThreadScopes::new().with(nthreads, get_num_threads, set_num_threads, f)
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-mkl/src/threading.rs b/crates-device/rstsr-mkl/src/threading.rs
index 8d38856..28ed27d 100644
--- a/crates-device/rstsr-mkl/src/threading.rs
+++ b/crates-device/rstsr-mkl/src/threading.rs
@@ -2,6 +2,7 @@
 
 use crate::prelude_dev::*;
 use rstsr_blas_traits::prelude_dev::*;
+use rstsr_blas_traits::threading::BlasThreadScopes;
 
 /* #region threading number control */
 
@@ -35,11 +36,7 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    BlasThreadScopes::new().with(nthreads, get_num_threads, set_num_threads, f)
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-openblas/src/threading.rs b/crates-device/rstsr-openblas/src/threading.rs
index f6a606a..6e69c88 100644
--- a/crates-device/rstsr-openblas/src/threading.rs
+++ b/crates-device/rstsr-openblas/src/threading.rs
@@ -4,6 +4,7 @@ use crate::prelude_dev::*;
 #[cfg(any(feature = "openmp", feature = "dynamic_loading"))]
 use core::ffi::c_int;
 use rstsr_blas_traits::prelude_dev::*;
+use rstsr_blas_traits::threading::BlasThreadScopes;
 use std::sync::Mutex;
 
 use rstsr_openblas_ffi::cblas::{OPENBLAS_OPENMP, OPENBLAS_SEQUENTIAL, OPENBLAS_THREAD};
@@ -110,15 +111,18 @@ pub fn get_num_threads() -> usize {
     INTERNAL.lock().unwrap().get_num_threads()
 }
 
+// number of threads is a setting of the whole process
+static SCOPES: BlasThreadScopes = BlasThreadScopes::new();
+
 pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
-    set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    match get_parallel() {
+        // number of threads of OpenMP is a setting of the current thread
+        OpenBLASParallel::OpenMP => BlasThreadScopes::new().with(nthreads, get_num_threads, set_num_threads, f),
+        _ => SCOPES.with(nthreads, get_num_threads, set_num_threads, f),
+    }
 }
 
 /* #endregion */
diff --git a/rstsr-blas-traits/src/threading.rs b/rstsr-blas-traits/src/threading.rs
index bb87221..004f1b8 100644
--- a/rstsr-blas-traits/src/threading.rs
+++ b/rstsr-blas-traits/src/threading.rs
@@ -4,6 +4,8 @@
 //! the library. This module provides trait to set the number of threads used by
 //! the BLAS library.
 
+use std::sync::Mutex;
+
 pub trait BlasThreadAPI {
     /// Set the number of threads used by the BLAS library.
     fn set_blas_num_threads(&self, nthreads: usize);
@@ -11,10 +13,67 @@ pub trait BlasThreadAPI {
     fn get_blas_num_threads(&self) -> usize;
     /// Set the number of threads in closure.
     fn with_blas_num_threads<T>(&self, nthreads: usize, f: impl FnOnce() -> T) -> T {
-        let n = self.get_blas_num_threads();
-        self.set_blas_num_threads(nthreads);
+        BlasThreadScopes::new().with(nthreads, || self.get_blas_num_threads(), |n| self.set_blas_num_threads(n), f)
+    }
+}
+
+/// Scoped changes of a number of threads.
+///
+/// If the number of threads is a setting of the whole process, then one (static) instance should be
+/// used for all scopes: scopes of different threads can overlap in any sequence, and the setting
+/// will be what it was before once all of them have been left.
+///
+/// If it is a setting of the current thread, each scope should use its own instance.
+///
+/// The setting is also restored if the closure panics.
+#[derive(Debug, Default)]
+pub struct BlasThreadScopes {
+    // identifier of the scope, and number of threads to be restored when this scope is left
+    open: Mutex<Vec<(usize, usize)>>,
+}
+
+impl BlasThreadScopes {
+    pub const fn new() -> Self {
+        Self { open: Mutex::new(Vec::new()) }
+    }
+
+    pub fn with<T>(
+        &self,
+        nthreads: usize,
+        get: impl FnOnce() -> usize,
+        set: impl Fn(usize),
+        f: impl FnOnce() -> T,
+    ) -> T {
+        struct Leave<'a, S: Fn(usize)> {
+            scopes: &'a BlasThreadScopes,
+            id: usize,
+            set: S,
+        }
+
+        impl<S: Fn(usize)> Drop for Leave<'_, S> {
+            fn drop(&mut self) {
+                let mut open = self.scopes.open.lock().unwrap_or_else(|e| e.into_inner());
+                if let Some(i) = open.iter().position(|&(id, _)| id == self.id) {
+                    let (_, before) = open.remove(i);
+                    match open.get_mut(i) {
+                        // a scope entered later is still open, and will restore on behalf of this scope
+                        Some(later) => later.1 = before,
+                        None => (self.set)(before),
+                    }
+                }
+            }
+        }
+
+        let leave = {
+            let mut open = self.open.lock().unwrap_or_else(|e| e.into_inner());
+            let id = open.last().map_or(0, |&(id, _)| id + 1);
+            let before = get();
+            set(nthreads);
+            open.push((id, before));
+            Leave { scopes: self, id, set }
+        };
         let result = f();
-        self.set_blas_num_threads(n);
+        drop(leave);
         result
     }
 }
-- 
2.43.0


From ce17081c4e40cda1cbdbd9ba73b1681a17ae4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 59/75] fix: TBLIS einsum restores the number of threads when
 it fails

---
 crates-plugin/rstsr-tblis/src/einsum_impl.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates-plugin/rstsr-tblis/src/einsum_impl.rs b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
index 8e634b4..1c8e3dd 100644
--- a/crates-plugin/rstsr-tblis/src/einsum_impl.rs
+++ b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
@@ -179,7 +179,14 @@ where
 
     // current number of threads
     let num_threads_to_set = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
-    let num_threads_original = tblis_get_num_threads();
+    // (to be restored when this function returns, also with error)
+    struct RestoreNumThreads(usize);
+    impl Drop for RestoreNumThreads {
+        fn drop(&mut self) {
+            tblis_set_num_threads(self.0);
+        }
+    }
+    let num_threads_original = RestoreNumThreads(tblis_get_num_threads());
     tblis_set_num_threads(num_threads_to_set);
 
     // call einsum
@@ -187,7 +194,7 @@ where
         tblis_einsum_f(subscripts, &tblis_operands_ref, optimize, memory_limit, row_major, tblis_output.as_mut())
             .map_err(|e| rstsr_error!(InvalidValue, "TBLIS einsum failed: {e:?}"))?
     };
-    tblis_set_num_threads(num_threads_original);
+    drop(num_threads_original);
 
     if let Some((vec, tsr)) = out {
         from_tblis_tensor(vec, &tsr, device).map(Some)
-- 
2.43.0


From 361bcd36be4e5135a8c8d3f150a9f0919f46cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:18 +0000
Subject: [PATCH 60/75] fix: packing to arrays checks strides and array length,
 keeps vector capacity

---
 rstsr-common/src/pack_array.rs      | 16 ++++++++++------
 rstsr-core/src/tensor/pack_array.rs |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rstsr-common/src/pack_array.rs b/rstsr-common/src/pack_array.rs
index b2a47ab..1e58f6d 100644
--- a/rstsr-common/src/pack_array.rs
+++ b/rstsr-common/src/pack_array.rs
@@ -36,12 +36,15 @@ impl<T> PackArrayAPI<T> for Vec<T> {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of Vec<T> {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
-        let vec = ManuallyDrop::new(self);
-        let arr = unsafe { Vec::from_raw_parts(vec.as_ptr() as *mut [T; N], len / N, len / N) };
+        // memory will be released by capacity, so that capacity must also be a multiple
+        let vec = if self.capacity() % N == 0 { self } else { self.into_boxed_slice().into_vec() };
+        let capacity = vec.capacity() / N;
+        let vec = ManuallyDrop::new(vec);
+        let arr = unsafe { Vec::from_raw_parts(vec.as_ptr() as *mut [T; N], len / N, capacity) };
         Ok(arr)
     }
 }
@@ -51,8 +54,9 @@ impl<T, const N: usize> UnpackArrayAPI for Vec<[T; N]> {
 
     fn unpack_array(self) -> Self::Output {
         let len = self.len();
+        let capacity = if core::mem::size_of::<[T; N]>() == 0 { len } else { self.capacity() };
         let arr = ManuallyDrop::new(self);
-        unsafe { Vec::from_raw_parts(arr.as_ptr() as *mut T, len * N, len * N) }
+        unsafe { Vec::from_raw_parts(arr.as_ptr() as *mut T, len * N, capacity * N) }
     }
 }
 
@@ -69,7 +73,7 @@ impl<T> PackArrayAPI<T> for &[T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
@@ -100,7 +104,7 @@ impl<T> PackArrayAPI<T> for &mut [T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
diff --git a/rstsr-core/src/tensor/pack_array.rs b/rstsr-core/src/tensor/pack_array.rs
index ba3daa1..b8db2e8 100644
--- a/rstsr-core/src/tensor/pack_array.rs
+++ b/rstsr-core/src/tensor/pack_array.rs
@@ -134,10 +134,16 @@ where
     {
         // check if the axis is valid
         // dimension check
+        rstsr_assert!(N > 0, InvalidValue, "Array length must not be zero")?;
         let axis = rstsr_check_axis!(axis, self.ndim())?;
         rstsr_assert_eq!(self.layout().stride()[axis], 1, InvalidLayout, "The axis must be contiguous")?;
         rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be a exactly {N}")?;
         rstsr_assert!(self.layout().offset() % N == 0, InvalidLayout, "The offset must be a multiple of {N}")?;
+        rstsr_assert!(
+            (0..self.ndim()).all(|i| i == axis || self.shape()[i] <= 1 || self.stride()[i] % N as isize == 0),
+            InvalidLayout,
+            "The strides of other axes must be multiples of {N}"
+        )?;
 
         let (storage, layout) = self.into_raw_parts();
         let (data, device) = storage.into_raw_parts();
-- 
2.43.0


From 1be24e5ef8669993a32de4f0c31bd108a579d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 61/75] fix: faer determinant of a singular matrix is zero, not
 NaN; non-square rejected

---
 rstsr-linalg-traits/src/faer_impl/det.rs | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/det.rs b/rstsr-linalg-traits/src/faer_impl/det.rs
index 25d4769..c1ae49e 100644
--- a/rstsr-linalg-traits/src/faer_impl/det.rs
+++ b/rstsr-linalg-traits/src/faer_impl/det.rs
@@ -1,5 +1,6 @@
 use crate::traits_def::DetAPI;
 use faer::prelude::*;
+use faer::traits::math_utils::{mul, neg};
 use faer::traits::ComplexField;
 use faer_ext::IntoFaer;
 use rstsr_core::prelude_dev::*;
@@ -8,6 +9,9 @@ pub fn faer_impl_det_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<T>
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
@@ -19,7 +23,30 @@ where
     let faer_a = a.into_faer();
 
     // det computation
-    let result = faer_a.determinant();
+    // the first vanishing pivot settles the result, everything after it is not defined
+    let lu = faer_a.partial_piv_lu();
+    let (u, perm) = (lu.U(), lu.P().arrays().0);
+    let n = u.nrows();
+    let mut result = T::one_impl();
+    for i in 0..n {
+        if u[(i, i)] == T::zero_impl() {
+            result = T::zero_impl();
+            break;
+        }
+        result = mul(&result, &u[(i, i)]);
+    }
+    // sign of permutation: each step of a cycle after its first element is a transposition
+    let mut visited = vec![false; n];
+    for i in 0..n {
+        let mut j = i;
+        while !visited[j] {
+            visited[j] = true;
+            j = perm[j];
+            if j != i {
+                result = neg(&result);
+            }
+        }
+    }
 
     // restore parallel mode
     if pool.is_some() {
-- 
2.43.0


From 579613f7baa4764eb7b4f0d1a0204ac73a4bab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 62/75] fix: faer SVD of complex matrices returns the adjoint
 of v

---
 rstsr-linalg-traits/src/faer_impl/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index b5869b5..6b15347 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -36,7 +36,7 @@ where
     let result = SVDResult {
         u: u.into_contig(device.default_order()),
         s: s.mapv(|v| T::real_part_impl(&v)).into_contig(device.default_order()),
-        vt: v.into_reverse_axes().into_contig(device.default_order()),
+        vt: v.mapv(|x| T::conj_impl(&x)).into_reverse_axes().into_contig(device.default_order()),
     };
 
     // restore parallel mode
-- 
2.43.0


From 394f1c4ce21b82d8ae03990491fea1b1e9213901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 63/75] fix: faer linear algebra rejects non-square and
 mismatching matrices instead of panicking

---
 rstsr-linalg-traits/src/faer_impl/cholesky.rs         | 3 +++
 rstsr-linalg-traits/src/faer_impl/eigh.rs             | 4 ++++
 rstsr-linalg-traits/src/faer_impl/eigvalsh.rs         | 3 +++
 rstsr-linalg-traits/src/faer_impl/inv.rs              | 3 +++
 rstsr-linalg-traits/src/faer_impl/solve_general.rs    | 4 ++++
 rstsr-linalg-traits/src/faer_impl/solve_triangular.rs | 4 ++++
 6 files changed, 21 insertions(+)

diff --git a/rstsr-linalg-traits/src/faer_impl/cholesky.rs b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
index 4667221..567534d 100644
--- a/rstsr-linalg-traits/src/faer_impl/cholesky.rs
+++ b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
@@ -11,6 +11,9 @@ pub fn faer_impl_cholesky_f<T>(
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 92e247d..e8ca30c 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -15,6 +15,9 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    // check sanity
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
@@ -64,6 +67,7 @@ where
     rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
     rstsr_pattern!(itype, 1..=3, InvalidValue, "itype in generalized eigen must be 1, 2 or 3")?;
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.shape(), b.shape(), InvalidLayout, "Matrices a and b must have the same shape.")?;
 
     // set parallel mode
     let device = a.device().clone();
diff --git a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
index b1fb0ab..939b14d 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
@@ -14,6 +14,9 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    // check sanity
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/inv.rs b/rstsr-linalg-traits/src/faer_impl/inv.rs
index ae8bfd4..6f7cd71 100644
--- a/rstsr-linalg-traits/src/faer_impl/inv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/inv.rs
@@ -9,6 +9,9 @@ pub fn faer_impl_inv_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<Tenso
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_general.rs b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
index 12ef1b2..c8f3d9b 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_general.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
@@ -12,6 +12,10 @@ pub fn faer_impl_solve_general_f<'b, T>(
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.view().nrow(), b.view().nrow(), InvalidLayout, "Rows of a and b must agree.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
index 76613ac..e4f83de 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
@@ -13,6 +13,10 @@ pub fn faer_impl_solve_triangular_f<'b, T>(
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.view().nrow(), b.view().nrow(), InvalidLayout, "Rows of a and b must agree.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-- 
2.43.0


From b1fb64c096b67ea484d87875e9147e509f8d20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 64/75] fix: LAPACK workspace queries use variables of the type
 LAPACK writes

---
 rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs | 6 +++---
 rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs  | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs | 6 +++---
 rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs | 4 ++--
 rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs  | 4 ++--
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
index 4d40cf5..8d536a7 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
@@ -116,7 +116,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &(jobz as _),
             &uplo.into(),
@@ -132,7 +132,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
index 8801f88..cf93c6e 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
@@ -134,8 +134,8 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &(jobz as _),
@@ -155,7 +155,7 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
index c565098..d21ebf6 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
@@ -151,7 +151,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &itype,
             &(jobz as _),
@@ -170,7 +170,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
index c33b793..ba971f9 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
@@ -159,8 +159,8 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &itype,
@@ -183,7 +183,7 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
         let lrwork = rwork_query as usize;
         let liwork = iwork_query as usize;
 
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 5092db4..6ea9902 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -141,7 +141,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &uplo.into(),
             &(n as _),
@@ -158,7 +158,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = work_query.re as usize;
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
index 4c7d66e..0ed8f66 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
@@ -211,8 +211,8 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork =
             if jobz == 'N' { 7 * m.min(n) } else { m.min(n) * (5 * m.min(n) + 7).max(2 * m.max(n) + 2 * m.min(n) + 1) };
-        let mut work_query = Complex::new(0.0, 0.0);
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         func_(
             &(jobz as _),
             &(m as _),
-- 
2.43.0


From 2642e6d475c9b81695eed7eeb1a458522b9c0f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 65/75] fix: row-major gesvd transposes its outputs back, and
 queries with valid leading dimensions

---
 .../driver_impl/lapack/svd/gesvd.rs           | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
index c727412..7e0f604 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
@@ -41,12 +41,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a,
-            &(lda as _),
+            &(m.max(n) as _),
             s,
             u,
-            &(ldu as _),
+            &(m.max(n) as _),
             vt,
-            &(ldvt as _),
+            &(m.max(n) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -153,20 +153,20 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
@@ -220,12 +220,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a as *mut _,
-            &(lda as _),
+            &(m.max(n) as _),
             s as *mut _,
             u as *mut _,
-            &(ldu as _),
+            &(m.max(n) as _),
             vt as *mut _,
-            &(ldvt as _),
+            &(m.max(n) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             rwork.as_mut_ptr() as *mut _,
@@ -335,20 +335,20 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
-- 
2.43.0


From 1aebd22dfa093860dfabfc135448be1e00737296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 66/75] fix: singular value decomposition of empty matrices

---
 rstsr-blas-traits/src/lapack_svd/gesdd.rs | 12 ++++++++++++
 rstsr-blas-traits/src/lapack_svd/gesvd.rs | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/rstsr-blas-traits/src/lapack_svd/gesdd.rs b/rstsr-blas-traits/src/lapack_svd/gesdd.rs
index e097be2..e67f99c 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesdd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesdd.rs
@@ -78,6 +78,18 @@ where
         let ldu = u.view().ld(order).unwrap();
         let ldvt = vt.view().ld(order).unwrap();
 
+        // nothing to decompose for empty matrix; only the bases are to be completed
+        if minmn == 0 {
+            u.fill(T::zero());
+            vt.fill(T::zero());
+            (0..u0.min(u1)).for_each(|i| u[[i, i]] = T::one());
+            (0..vt0.min(vt1)).for_each(|i| vt[[i, i]] = T::one());
+            return match compute_uv {
+                false => Ok((s, None, None)),
+                true => Ok((s, Some(u), Some(vt))),
+            };
+        }
+
         // run driver
         let info = unsafe {
             B::driver_gesdd(
diff --git a/rstsr-blas-traits/src/lapack_svd/gesvd.rs b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
index 1a2ffa8..d00e74f 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesvd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
@@ -77,11 +77,23 @@ where
         let mut u = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
         let mut vt = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
         let mut s = unsafe { empty_f(([minmn], &device))?.into_dim::<Ix1>() };
-        let mut superb = unsafe { empty_f(([minmn - 1], &device))?.into_dim::<Ix1>() };
+        let mut superb = unsafe { empty_f(([minmn.saturating_sub(1)], &device))?.into_dim::<Ix1>() };
 
         let ldu = u.view().ld(order).unwrap();
         let ldvt = vt.view().ld(order).unwrap();
 
+        // nothing to decompose for empty matrix; only the bases are to be completed
+        if minmn == 0 {
+            u.fill(T::zero());
+            vt.fill(T::zero());
+            (0..u0.min(u1)).for_each(|i| u[[i, i]] = T::one());
+            (0..vt0.min(vt1)).for_each(|i| vt[[i, i]] = T::one());
+            return match compute_uv {
+                false => Ok((s, None, None, superb)),
+                true => Ok((s, Some(u), Some(vt), superb)),
+            };
+        }
+
         // run driver
         let info = unsafe {
             B::driver_gesvd(
-- 
2.43.0


From dcabd71ec0664d0d00bb129d6c6df18acfbbf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 67/75] fix: leading dimension of empty matrices is at least
 one

---
 rstsr-core/src/tensor/tensor2_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rstsr-core/src/tensor/tensor2_impl.rs b/rstsr-core/src/tensor/tensor2_impl.rs
index 2ab80ac..6249c76 100644
--- a/rstsr-core/src/tensor/tensor2_impl.rs
+++ b/rstsr-core/src/tensor/tensor2_impl.rs
@@ -16,9 +16,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.c_prefer() {
             // leading dimension is only defined if not c-prefer
             return None;
-        } else if self.shape()[0] == 1 {
+        } else if self.shape()[0] == 1 || self.size() == 0 {
             // col-vector, leading dimension must be larger than dimension of col
-            return Some(self.shape()[1]);
+            return Some(self.shape()[1].max(1));
         } else {
             // usual definition that leading dimension is stride of row
             return Some(self.stride()[0] as usize);
@@ -33,9 +33,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.f_prefer() {
             // leading dimension is only defined if not f-prefer
             return None;
-        } else if self.shape()[1] == 1 {
+        } else if self.shape()[1] == 1 || self.size() == 0 {
             // row-vector, leading dimension must be larger than dimension of row
-            return Some(self.shape()[0]);
+            return Some(self.shape()[0].max(1));
         } else {
             // usual definition that leading dimension is stride of col
             return Some(self.stride()[1] as usize);
-- 
2.43.0


From a17b72c0b6b86f7f304dd4b794414d4e6599a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 68/75] fix: blas3 builders honour operand offsets, output
 leading dimension and non-square operands

---
 rstsr-blas-traits/src/blas3/gemm.rs   |  9 +++++----
 rstsr-blas-traits/src/blas3/syhemm.rs | 21 ++++++++-------------
 rstsr-blas-traits/src/blas3/trsm.rs   |  7 ++++---
 3 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 7f8101e..69c5716 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -134,12 +134,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 5487f7c..76236e5 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -63,18 +63,12 @@ where
         let default_order = a.device().default_order();
         let order = get_output_order(&[order, order_c], &[], default_order);
         if order == ColMajor {
-            let (uplo, a_cow) = match (HERMI, a.f_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(ColMajor)?),
-                _ => (uplo, a.to_contig_f(ColMajor)?),
-            };
+            let a_cow = a.to_contig_f(ColMajor)?;
             let b_cow = b.to_contig_f(ColMajor)?;
             let obj = SYHEMM_ { a: a_cow.view(), b: b_cow.view(), c, alpha, beta, side, uplo, order: Some(ColMajor) };
             obj.internal_run()
         } else {
-            let (uplo, a_cow) = match (HERMI, a.c_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(RowMajor)?),
-                _ => (uplo, a.to_contig_f(RowMajor)?),
-            };
+            let a_cow = a.to_contig_f(RowMajor)?;
             let b_cow = b.to_contig_f(RowMajor)?;
             let obj = SYHEMM_ {
                 a: a_cow.t(),
@@ -103,7 +97,7 @@ where
 
         // initialize intent(hide)
         let m = b.nrow();
-        let n = a.ncol();
+        let n = b.ncol();
         let lda = a.ld_col().unwrap();
         let ldb = b.ld_col().unwrap();
 
@@ -128,12 +122,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index 63acc13..9eeec76 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -123,10 +123,11 @@ where
         let mut b = overwritable_convert_with_order(b, ColMajor)?;
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ldb = b.view().ld_col().unwrap();
+        let ptr_b = b.view_mut().as_mut_ptr();
 
-        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, m) };
+        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, ldb) };
 
         Ok(b.clone_to_mut())
     }
-- 
2.43.0


From 3994e79697a5b4deeeb83a21b18677795b622f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 69/75] fix: blas linear algebra: determinant of singular,
 inverse of empty, unsupported eigen subsets

---
 rstsr-linalg-traits/src/ref_impl_blas.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index 711e8fa..cfd999b 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -40,7 +40,10 @@ where
     T: BlasFloat,
     B: LapackDriverAPI<T>,
 {
-    let EighArgs_ { a, b, uplo, eigvals_only, eig_type, subset_by_index: _, subset_by_value: _, driver } = eigh_args;
+    let EighArgs_ { a, b, uplo, eigvals_only, eig_type, subset_by_index, subset_by_value, driver } = eigh_args;
+    // available drivers compute all eigenvalues
+    rstsr_assert!(subset_by_index.is_none(), InvalidValue, "subset_by_index is not supported by this driver.")?;
+    rstsr_assert!(subset_by_value.is_none(), InvalidValue, "subset_by_value is not supported by this driver.")?;
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
 
@@ -93,6 +96,11 @@ where
 {
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
+    if a.view().size() == 0 {
+        // nothing to be inverted
+        rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
+        return rstsr_blas_traits::util::util_tensor::overwritable_convert(a);
+    }
     let task = || {
         let (mut a, ipiv) = GETRF::default().a(a).build()?.run()?;
         GETRI::default().a(a.view_mut()).ipiv(ipiv.view()).build()?.run()?;
@@ -230,8 +238,14 @@ where
 {
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
+    rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Matrix a must be square.")?;
     let task = || {
-        let (a, piv) = GETRF::default().a(a).build()?.run()?;
+        let (a, piv) = match GETRF::default().a(a).build()?.run() {
+            Ok(result) => result,
+            // exactly singular matrix
+            Err(e) if matches!(e.inner, RSTSRError::ErrorCode(info, _) if info > 0) => return Ok((T::zero(), T::Real::neg_infinity())),
+            Err(e) => return Err(e),
+        };
         // pivot indices that may cause sign change
         let mut change_sign = 0;
         let m = piv.shape()[0];
-- 
2.43.0


From 214827d5e9b46a750428a3a6fad128905dca6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 70/75] fix: printing long tensors does not recurse, no
 ellipsis when nothing is omitted

---
 rstsr-core/src/format/format_tensor.rs | 35 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/rstsr-core/src/format/format_tensor.rs b/rstsr-core/src/format/format_tensor.rs
index 9a1eb22..8966ce2 100644
--- a/rstsr-core/src/format/format_tensor.rs
+++ b/rstsr-core/src/format/format_tensor.rs
@@ -22,7 +22,10 @@ where
 
 /* #region generic print */
 
-fn print_vec_with_layout_dfs_inner<T, D>(c: &mut FnPrintVecWithLayout<T, D>) -> core::fmt::Result
+// Prints one line, or moves to another index; returns whether there is more to print.
+fn print_vec_with_layout_dfs_inner<T, D>(
+    c: &mut FnPrintVecWithLayout<T, D>,
+) -> core::result::Result<bool, core::fmt::Error>
 where
     T: Clone,
     D: DimAPI,
@@ -39,7 +42,7 @@ where
 
     // special case
     if ndim == 0 {
-        return fmt_elem(&vec[layout.offset()], fmt);
+        return fmt_elem(&vec[layout.offset()], fmt).map(|_| false);
     }
 
     if idx_prev.last().is_some_and(|&v| v == shape[len_prev - 1]) {
@@ -47,26 +50,28 @@ where
 
         // special case: zero shape quick return
         if idx_prev.last().is_some_and(|&v| v == 0) {
-            return write!(fmt, "[]");
+            return write!(fmt, "[]").map(|_| false);
         }
 
         // pop last index, increase previous index by 1 or skip
         if len_prev == 1 {
             // multiple dimension exit
-            return Ok(());
+            return Ok(false);
         } else {
             let p1_prev = idx_prev.pop().unwrap();
             let p2_prev = idx_prev.pop().unwrap();
             let offset =
                 offset as isize - p1_prev as isize * stride[len_prev - 1] - p2_prev as isize * stride[len_prev - 2];
-            if shape[len_prev - 2] < max_print || p2_prev + min_print >= shape[len_prev - 2] || p2_prev + 1 < min_print
+            if shape[len_prev - 2] < max_print
+                || p2_prev + min_print + 1 >= shape[len_prev - 2]
+                || p2_prev + 1 < min_print
             {
                 let p2 = p2_prev + 1;
                 idx_prev.push(p2);
                 let offset = offset + p2 as isize * stride[len_prev - 2];
                 let offset = offset as usize;
                 c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
+                return Ok(true);
             } else {
                 write!(fmt, "{}...\n\n", " ".repeat(len_prev - 1))?;
                 let p2: usize = shape[len_prev - 2] - min_print;
@@ -74,7 +79,7 @@ where
                 let offset = offset + p2 as isize * stride[len_prev - 2];
                 let offset = offset as usize;
                 c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
+                return Ok(true);
             }
         }
     } else {
@@ -82,7 +87,7 @@ where
         if len_prev + 1 != ndim {
             // new index can still be pushed
             idx_prev.push(0);
-            return print_vec_with_layout_dfs_inner(c);
+            return Ok(true);
         } else {
             // last line
 
@@ -92,7 +97,7 @@ where
 
             // special case: zero shape quick return
             if nlast == 0 {
-                return write!(fmt, "[]");
+                return write!(fmt, "[]").map(|_| false);
             }
 
             // prefix: "  [[["
@@ -162,12 +167,12 @@ where
             // pop last index, increase previous index by 1 or skip
             if len_prev == 0 {
                 // one-dimension exit
-                return Ok(());
+                return Ok(false);
             } else {
                 let p1_prev = idx_prev.pop().unwrap();
                 let offset = offset as isize - p1_prev as isize * stride[len_prev - 1];
                 if shape[len_prev - 1] < max_print
-                    || p1_prev + min_print >= shape[len_prev - 1]
+                    || p1_prev + min_print + 1 >= shape[len_prev - 1]
                     || p1_prev + 1 < min_print
                 {
                     let p1 = p1_prev + 1;
@@ -175,7 +180,7 @@ where
                     let offset = offset + p1 as isize * stride[len_prev - 1];
                     let offset = offset as usize;
                     c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                    return Ok(true);
                 } else {
                     writeln!(fmt, "{}...", " ".repeat(len_prev))?;
                     let p1: usize = shape[len_prev - 1] - min_print;
@@ -183,7 +188,7 @@ where
                     let offset = offset + p1 as isize * stride[len_prev - 1];
                     let offset = offset as usize;
                     c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                    return Ok(true);
                 }
             }
         }
@@ -205,7 +210,9 @@ where
     let idx_prev = vec![];
     let offset = layout.offset();
     let mut config = FnPrintVecWithLayout { vec, layout, offset, idx_prev, max_print, min_print, fmt, fmt_elem };
-    print_vec_with_layout_dfs_inner(&mut config)
+    // loop instead of recursion, since long tensors may exhaust stack
+    while print_vec_with_layout_dfs_inner(&mut config)? {}
+    Ok(())
 }
 
 /* #endregion */
-- 
2.43.0


From ef43cc3f5ee51bb3d90dfb5064b2d91a6149786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 71/75] fix: distances of rows without columns, weights must
 match the columns

---
 rstsr-sci-traits/src/distance/native_impl.rs | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 551ccaf..f43374d 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -34,9 +34,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without columns have no memory to slice
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -96,6 +97,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights and of columns in xa must match.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -105,9 +107,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without columns have no memory to slice
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
@@ -192,9 +195,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without columns have no memory to slice
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -267,6 +271,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights and of columns in xa must match.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -276,9 +281,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without columns have no memory to slice
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
-- 
2.43.0


From a5260bf3d43b0bd6452da3785fab5200ee3cb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:51 +0000
Subject: [PATCH 72/75] fix: weighted correlation distance uses weighted means

---
 rstsr-sci-traits/src/distance/metric.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/metric.rs b/rstsr-sci-traits/src/distance/metric.rs
index 8868505..e6ff28e 100644
--- a/rstsr-sci-traits/src/distance/metric.rs
+++ b/rstsr-sci-traits/src/distance/metric.rs
@@ -765,6 +765,8 @@ where
             "xa and weights must have the same number of columns"
         )?;
 
+        let weights_sum = weights.iter().fold(T::zero(), |acc, &w| acc + w);
+
         let mut norms_u = vec![T::zero(); m];
         let mut norms_v = vec![T::zero(); n];
         let mut means_u = vec![T::zero(); m];
@@ -773,8 +775,8 @@ where
         means_u.iter_mut().zip(norms_u.iter_mut()).enumerate().for_each(|(i, (mean_u, norm_u))| {
             *mean_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_u) * (val - *mean_u)
@@ -785,8 +787,8 @@ where
         means_v.iter_mut().zip(norms_v.iter_mut()).enumerate().for_each(|(i, (mean_v, norm_v))| {
             *mean_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_v) * (val - *mean_v)
-- 
2.43.0


From 0cb590c79fbd9472178ff2cec34d1f64601899e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:24 +0000
Subject: [PATCH 73/75] fix: BLAS matrix products scale the output when summing
 nothing or writing strided output

---
 crates-device/rstsr-aocl/src/matmul_impl.rs     | 6 +++---
 crates-device/rstsr-blis/src/matmul_impl.rs     | 6 +++---
 crates-device/rstsr-kml/src/matmul_impl.rs      | 6 +++---
 crates-device/rstsr-mkl/src/matmul_impl.rs      | 6 +++---
 crates-device/rstsr-openblas/src/matmul_impl.rs | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/matmul_impl.rs b/crates-device/rstsr-aocl/src/matmul_impl.rs
index aaeae1b..49e26bc 100644
--- a/crates-device/rstsr-aocl/src/matmul_impl.rs
+++ b/crates-device/rstsr-aocl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,8 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, nothing is to be added to the scaled output
+        return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-blis/src/matmul_impl.rs b/crates-device/rstsr-blis/src/matmul_impl.rs
index aaeae1b..49e26bc 100644
--- a/crates-device/rstsr-blis/src/matmul_impl.rs
+++ b/crates-device/rstsr-blis/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,8 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, nothing is to be added to the scaled output
+        return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-kml/src/matmul_impl.rs b/crates-device/rstsr-kml/src/matmul_impl.rs
index aaeae1b..49e26bc 100644
--- a/crates-device/rstsr-kml/src/matmul_impl.rs
+++ b/crates-device/rstsr-kml/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,8 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, nothing is to be added to the scaled output
+        return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-mkl/src/matmul_impl.rs b/crates-device/rstsr-mkl/src/matmul_impl.rs
index aaeae1b..49e26bc 100644
--- a/crates-device/rstsr-mkl/src/matmul_impl.rs
+++ b/crates-device/rstsr-mkl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,8 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, nothing is to be added to the scaled output
+        return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-openblas/src/matmul_impl.rs b/crates-device/rstsr-openblas/src/matmul_impl.rs
index 211def8..4ed18f9 100644
--- a/crates-device/rstsr-openblas/src/matmul_impl.rs
+++ b/crates-device/rstsr-openblas/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,8 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, nothing is to be added to the scaled output
+        return gemm_ix2_naive_cpu_rayon(c, lc, a, la, b, lb, alpha, beta, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
-- 
2.43.0


From 24eecb6514b639a8e74eca19295ab26ac0aa8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:27 +0000
Subject: [PATCH 74/75] fix: tensordot rejects unequally many axes of the two
 operands

---
 rstsr-common/src/tensordot_to_einsum.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rstsr-common/src/tensordot_to_einsum.rs b/rstsr-common/src/tensordot_to_einsum.rs
index c69ddad..c00590a 100644
--- a/rstsr-common/src/tensordot_to_einsum.rs
+++ b/rstsr-common/src/tensordot_to_einsum.rs
@@ -53,10 +53,9 @@ pub fn tensordot_to_einsum_str(
     //    and rejects any out-of-range axis with `AxisError`.
     //  - `Val(n)` constructs `(dim_a - n..dim_a)` / `(0..n)`, both in-bounds because the `n > dim_a ||
     //    n > dim_b` check above returns `InvalidLayout` first.
-    // The `assert_eq!(axes_a.len(), axes_b.len(), …)` and per-axis bounds asserts
-    // that previously lived here were dead defensive code (they could never fire
-    // after the validation above) *and* they panicked inside a `Result`-returning
-    // function, masking a genuine axis error behind a crash. Removed.
+    // The number of axes on both sides of `Pair` may still differ.
+
+    rstsr_assert_eq!(axes_a.len(), axes_b.len(), InvalidValue, "numbers of axes to sum over must be the same")?;
 
     // Label generator: a..z then A..Z (enough for most practical uses)
     let mut label_gen = (b'a'..=b'z').chain(b'A'..=b'Z').map(|c| c as char);
-- 
2.43.0


From d0d7d7d216d7df37ba660324839a2d4a3bc1f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:27 +0000
Subject: [PATCH 75/75] fix: einsum and tensordot fill a given output, and
 succeed in doing so

---
 crates-plugin/rstsr-tblis/src/einsum_impl.rs | 22 ++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates-plugin/rstsr-tblis/src/einsum_impl.rs b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
index 1c8e3dd..f74ff1e 100644
--- a/crates-plugin/rstsr-tblis/src/einsum_impl.rs
+++ b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
@@ -175,7 +175,7 @@ where
     let tblis_operands = operands.iter().map(|t| t.to_tblis_tensor()).collect_vec();
     let tblis_operands_ref = tblis_operands.iter().collect_vec();
     let row_major = device.default_order() == RowMajor;
-    let mut tblis_output = output.map(|t| t.to_tblis_tensor());
+    let tblis_output = output.map(|t| t.to_tblis_tensor());
 
     // current number of threads
     let num_threads_to_set = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
@@ -191,16 +191,26 @@ where
 
     // call einsum
     let out = unsafe {
-        tblis_einsum_f(subscripts, &tblis_operands_ref, optimize, memory_limit, row_major, tblis_output.as_mut())
+        // `tblis_einsum_f` does not write a pre-allocated output in all cases, so let it allocate and copy the result.
+        tblis_einsum_f(subscripts, &tblis_operands_ref, optimize, memory_limit, row_major, None)
             .map_err(|e| rstsr_error!(InvalidValue, "TBLIS einsum failed: {e:?}"))?
     };
-    drop(num_threads_original);
+    let (vec, tsr) = out.ok_or_else(|| rstsr_error!(InvalidValue, "TBLIS einsum gives no result."))?;
 
-    if let Some((vec, tsr)) = out {
-        from_tblis_tensor(vec, &tsr, device).map(Some)
+    let Some(mut tblis_output) = tblis_output else {
+        drop(num_threads_original);
+        return from_tblis_tensor(vec, &tsr, device).map(Some);
+    };
+    rstsr_assert_eq!(tblis_output.shape, tsr.shape, InvalidLayout, "Output tensor shape mismatch.")?;
+    if tsr.shape.is_empty() {
+        unsafe { *tblis_output.data = vec[0] };
     } else {
-        Ok(None)
+        let idx = ('a'..).take(tsr.shape.len()).collect::<String>();
+        let cfg = TblisAddCfgBuilder::default().beta(T::zero()).build().unwrap();
+        unsafe { tblis_tensor_add_f(&tsr, &idx, &mut tblis_output, &idx, Some(cfg)) }
+            .map_err(|e| rstsr_error!(InvalidValue, "TBLIS tensor add failed: {e:?}"))?;
     }
+    Ok(None)
 }
 
 /// Perform einsum operation using TBLIS.
-- 
2.43.0

