From 6d6d9a3058e91c8e2def10ff0ffeba6b15a2530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 01/20] fix: write bmm gradients longer than 32 elements to the
 right positions

---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From f9eca6e9c8ade80795630514be0bf3d9f498dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 02/20] fix: do not preset a gradient on the result of sum

---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 1a628b61d0ac117c7fac2131d71c289889bb6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 03/20] fix: propagate the incoming gradient through sum

---
 src/tensor/autograd/jvp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..c00a620 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -74,6 +74,13 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
+    // the jacobian is all ones, so each row of the product repeats the incoming gradient
+    let mut array = Vec::with_capacity(length_2 * length_1);
+    for &grad in grads[0].array.iter() {
+        for _ in 0..length_1 {
+            array.push(grad);
+        }
+    }
+    let raw_tensor = RawTensor::new(array, vec![length_2, length_1]);
     vec![RcTensor::from_raw(raw_tensor)]
 }
-- 
2.43.0


From 1b79b2052809f1989cca0b9966e9e79ffaab79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 04/20] fix: make dot read the elements of a view instead of
 its base tensor

---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..3744f1b 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (l, r) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += l * r;
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From b0cf5085474018162416273439f257996fca1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 05/20] fix: make scalar multiplication read the elements of a
 view instead of its base tensor

---
 src/tensor/tensor_like.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 0600c89d2211cb0c098a2070a71607c53dde701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 06/20] fix: index views by their own shape, and report bad
 indices as errors

---
 src/tensor/tensor_view.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..7ae3ea5 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::ElementIterator;
+use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -33,9 +33,7 @@ where
     type Output = T;
 
     fn index(&self, index: IndexType) -> &Self::Output {
-        self.tensor
-            .get_with_offset(index, &self.view.offset)
-            .unwrap()
+        self.get(index).unwrap()
     }
 }
 
@@ -125,11 +123,13 @@ where
     }
 
     fn get(&self, index: IndexType) -> Result<&T, String> {
-        let idx = self
-            .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
-        Ok(&self.tensor.array[idx])
+        // first find the position in the (possibly reshaped) view, then the
+        // corresponding index into the window on the underlying tensor
+        let position = global_index(index, &self.view.shape, None)?;
+        let window_shape: Vec<usize> = self.view.offset.iter().map(|r| r.end - r.start).collect();
+        let window_index = tensor_index(position, &window_shape)?;
+        self.tensor
+            .get_with_offset(&window_index, &self.view.offset)
     }
 
     fn count(&self) -> usize {
-- 
2.43.0


From 982c9adbe7876a069ead88aef5aade8c8ec36ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 07/20] fix: slice a view relative to the view rather than to
 its base tensor

---
 src/tensor/tensor_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 7ae3ea5..b177919 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -137,7 +137,7 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
-        TensorView::new(self.tensor(), offset)
+        TensorView::new(self.to_tensor(), offset)
     }
 
     fn bmm<U>(&self, right: &U) -> Self::ResultTensorType<'_>
-- 
2.43.0


From 84030b817859f215fcc1bdc453ebecf81a14e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 08/20] fix: detach the parameters updated by sgd from the
 graph of earlier steps

---
 src/optim/sgd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..0b94787 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -33,7 +33,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .params()
         .iter()
         .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
+            // the updated parameter must be a leaf, not depend on its previous values
+            let new = (p.clone() - &step_size * p.grad()).deep_clone();
             new.zero_grad();
             new
         })
-- 
2.43.0


From bd21da449faa29bc3aaf6e0d504d51bf99c64b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 09/20] fix: accumulate gradients under a single write lock

---
 src/tensor/raw_tensor.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..76291d1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -305,11 +305,13 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
-            None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
+        // hold the write lock throughout, so that concurrent updates are not lost
+        let mut guard = self.grad.write().unwrap();
+        let new_grad = match guard.as_ref() {
+            None => grad,
+            Some(other_grad) => other_grad + &grad,
         };
-        *self.grad.write().unwrap() = new_grad;
+        *guard = Some(new_grad);
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From 6ccdfa5f1530198ca2f39ee4e0a94b7ddbd7c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 10/20] fix: pass matrices between derivatives, so that any
 operation can be the output or the input of any other

---
 src/tensor/functional/misc.rs | 9 ++++++---
 src/tensor/rc_tensor.rs       | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3744f1b..4ec5d8b 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -368,8 +368,11 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
     let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
+    // the jacobian of each input is the other input, as a single row
+    let left_row = RcTensor::new(left.array.clone(), vec![1, left.count()]);
+    let right_row = RcTensor::new(right.array.clone(), vec![1, right.count()]);
+    let left_jvp = jacobian.bmm(&right_row);
+    let right_jvp = jacobian.bmm(&left_row);
     vec![left_jvp, right_jvp]
 }
 
diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 82c31b6b65266c7f72e6cbc48df483d658b14a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 11/20] fix: do not block on bmm gradients before they have
 been computed

---
 src/tensor/functional/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 4ec5d8b..932cf01 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -255,9 +255,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -321,6 +321,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // Only start the receivers once every value has been sent: a receiver that blocks
+    // could otherwise hold the thread that its senders need.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From e3f9084d7717f59373016a9e930fe8078bdd620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 12/20] fix: support batches in the derivative of bmm

---
 src/tensor/functional/misc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 932cf01..ffe8a59 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -225,6 +225,12 @@ pub(crate) fn bmm_jvp<T: Numeric>(
         inputs.len(),
         jacobians.len()
     );
+    // the right input is shared by the whole batch, so treat the rows of all
+    // the matrices in the batch as the rows of one matrix
+    let (left, right) = (inputs[0].clone(), inputs[1].clone());
+    let (&row_length, leading_dims) = left.shape().split_last().unwrap();
+    let left_matrix_shape = vec![leading_dims.iter().product(), row_length];
+    let inputs = [RcTensor::new(left.array.clone(), left_matrix_shape), right];
 
     assert_eq!(
         inputs[0].shape()[1],
-- 
2.43.0


From 92edf8c8b8bd7fa385df8d1f1d1954cfc71aef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 13/20] fix: give the default tensor a shape that matches its
 data

---
 src/tensor/raw_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 76291d1..7190f44 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -78,7 +78,7 @@ where
 {
     fn default() -> Self {
         RawTensor {
-            shape: vec![],
+            shape: vec![0],
             grad: RwLock::new(None),
             array: vec![],
             grad_fn: None,
-- 
2.43.0


From 557de5ae1a10df75d167298d50b41cadd18d8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 14/20] fix: iterate over no elements, without panicking, when
 a dimension is empty

---
 src/tensor/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..a9ca4ab 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -25,7 +25,7 @@ where
         ElementIterator {
             index: vec![0; tensor_like.deref().shape().len()],
             tensor_like: tensor_like.clone(),
-            first: true,
+            first: !tensor_like.deref().shape().contains(&0),
         }
     }
 }
@@ -78,8 +78,8 @@ impl IndexIterator {
     pub fn new(dimensions: Vec<usize>) -> IndexIterator {
         IndexIterator {
             index: vec![0; dimensions.len()],
+            first: !dimensions.contains(&0),
             dimensions,
-            first: true,
         }
     }
 }
@@ -103,7 +103,7 @@ pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], s
     for i in (0..index.len()).rev() {
         let v = index[i];
         let dim = shape[i];
-        while v < dim - 1 && carry > 0 {
+        while v + 1 < dim && carry > 0 {
             index[i] = v + 1;
             carry -= 1;
         }
@@ -181,7 +181,7 @@ pub(in crate::tensor) fn global_index(
 ) -> Result<usize, String> {
     if index.len() < shape.len() {
         for &dim in &shape[..shape.len() - index.len()] {
-            if dim > 1 {
+            if dim != 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
                     Need index to be at least as long as shape.
-- 
2.43.0


From 2d1f48971ad12414076181b5fddd55fd70c905a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 15/20] fix: reject matrix products of tensors with more than
 one batch dimension

---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index ffe8a59..29834f4 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From d05ef8dbf9cee5128f8459ad41931e1da09f9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 16/20] fix: do not record the accumulation of gradients in the
 graph

---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 7190f44..48f1163 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -309,7 +309,8 @@ where
         let mut guard = self.grad.write().unwrap();
         let new_grad = match guard.as_ref() {
             None => grad,
-            Some(other_grad) => other_grad + &grad,
+            // add the raw tensors: a gradient must not keep its own history alive
+            Some(other_grad) => RcTensor::from_raw(other_grad.deref() + grad.deref()),
         };
         *guard = Some(new_grad);
     }
-- 
2.43.0


From 048b17fc8911e096f70abff825c54c576b30ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 17/20] fix: an empty tensor has no next index, whichever of
 its dimensions is empty

---
 src/tensor/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index a9ca4ab..12ac6a7 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -99,6 +99,10 @@ impl Iterator for IndexIterator {
 }
 
 pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], shape: V) -> bool {
+    if shape.contains(&0) {
+        // there is no index at all in an empty tensor
+        return false;
+    }
     let mut carry = 1;
     for i in (0..index.len()).rev() {
         let v = index[i];
-- 
2.43.0


From 3bc93d70dd2b54b3d55f480763a02652e0b3e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 18/20] fix: gradient rules of empty tensors deliver empty
 gradients instead of panicking

---
 src/tensor/functional/element_wise_ops.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..7b126e5 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -152,12 +152,12 @@ pub(crate) fn jvp_from_diagonal_broadcast<T: Numeric>(
         jvp_shape
     );
     let mut array = vec![T::zero(); jvp_shape[0] * jvp_shape[1]];
-    let mut idx = vec![0; diagonal.shape().len()];
-    let mut orig_idx = vec![0; broadcast_shape.len()];
+    let diagonal_indices = IndexIterator::new(diagonal.shape().to_vec());
+    let orig_indices = IndexIterator::new(broadcast_shape.to_vec());
     // let mut tensor_idx = vec![0; ]
     //    dbg!(&idx, diagonal.shape(), grad.shape(), &jvp_shape);
     //    // dbg!(&diagonal);
-    loop {
+    for (idx, orig_idx) in diagonal_indices.zip(orig_indices) {
         // through all elements of the broadcast input
         // noting that this is going along the diagonal of J_left,
         // in their expanded broadcasted form
@@ -178,10 +178,6 @@ pub(crate) fn jvp_from_diagonal_broadcast<T: Numeric>(
 
             array[output_jac_idx] += diag_val * grad_val; // TODO: multiply with diagonal
         }
-        if !increment_index(&mut idx, &diagonal.shape()[..]) {
-            break;
-        }
-        assert!(increment_index(&mut orig_idx, broadcast_shape));
     }
     let raw_left_grad = RawTensor::new(array, jvp_shape);
 
@@ -229,13 +225,9 @@ jacobians are not matrix multipliable",
 
     //    dbg!(&left.shape(), &right.shape(), &diag_shape, &broadcast_shape);
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; broadcast_shape.len()];
-    loop {
+    for idx in IndexIterator::new(broadcast_shape.clone()) {
         let (&l, &r) = (left.get(&idx).unwrap(), right.get(&idx).unwrap());
         array.push(op_derivative(l, r));
-        if !increment_index(&mut idx, &broadcast_shape[..]) {
-            break;
-        }
     }
 
     let diag = RcTensor::new(array, diag_shape.clone());
@@ -373,15 +365,11 @@ pub(crate) fn generic_unary_jvp<T: Numeric>(
     let jvp_shape = vec![dim_0, diag_length];
 
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; tensor.shape().len()];
-    loop {
+    for idx in IndexIterator::new(tensor.shape().to_vec()) {
         let &v = tensor.get(&idx).unwrap();
         let d = op_derivative(v);
         //        //        dbg!(&d);
         array.push(d);
-        if !increment_index(&mut idx, &tensor.shape()[..]) {
-            break;
-        }
     }
     let diag = RcTensor::new(array, diag_shape);
     vec![jvp_from_diagonal_broadcast(
-- 
2.43.0


From 7257603d22fd289000bd84b8c1a5d4fc5ad85aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 19/20] fix: implement the dot product method of
 reference-counted tensors and views

---
 src/tensor/rc_tensor.rs   | 4 ++--
 src/tensor/tensor_view.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cb0df9a..1c5757a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -162,12 +162,12 @@ where
         self.0.zero_grad();
     }
 
-    fn dot<U, V>(&self, _other: U) -> RcTensor<Self::Elem>
+    fn dot<U, V>(&self, other: U) -> RcTensor<Self::Elem>
     where
         U: Deref<Target = V> + std::fmt::Debug + Clone,
         V: TensorLike<Elem = Self::Elem>,
     {
-        todo!()
+        functional::dot(self, &other.to_tensor())
     }
 
     fn shape(&self) -> Self::ShapeReturn<'_> {
diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index b177919..53150fd 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -90,12 +90,12 @@ where
     type SumType = Scalar<Self::Elem>;
     type GradType = RcTensor<T>;
 
-    fn dot<U, V>(&self, _other: U) -> RcTensor<Self::Elem>
+    fn dot<U, V>(&self, other: U) -> RcTensor<Self::Elem>
     where
         U: Deref<Target = V> + std::fmt::Debug + Clone,
         V: TensorLike<Elem = Self::Elem>,
     {
-        todo!()
+        functional::dot_no_derivative(self, other)
     }
 
     fn shape(&self) -> Self::ShapeReturn<'_> {
-- 
2.43.0


From cbe5fb520f8e8f9db5a39dab3e8c789233a39cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 20/20] fix: add up the gradients of a matrix product in an
 order that does not depend on scheduling

---
 src/tensor/functional/misc.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 29834f4..31eb349 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -143,8 +143,8 @@ struct SplitArrayWriter<'a, T: Numeric> {
     bit_width: usize,
     width: usize,
     splits: usize,
-    senders: Option<Arc<Vec<Sender<(usize, T)>>>>,
-    receivers: Vec<Receiver<(usize, T)>>,
+    senders: Option<Arc<Vec<Sender<(usize, usize, T)>>>>,
+    receivers: Vec<Receiver<(usize, usize, T)>>,
 }
 
 impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
@@ -166,13 +166,15 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
 
     pub fn get_writer(
         &self,
-    ) -> impl Fn(usize, T) -> Result<(), crossbeam::channel::SendError<(usize, T)>> {
+    ) -> impl Fn(usize, usize, T) -> Result<(), crossbeam::channel::SendError<(usize, usize, T)>>
+    {
         let senders = self.senders.clone().unwrap();
         let bit_width = self.bit_width;
         // let mask = (1 << bit_width) - 1;
-        move |global_idx, val| {
+        // the values of one position are added up in the order of their ranks
+        move |global_idx, rank, val| {
             let sender_idx = global_idx >> bit_width;
-            senders[sender_idx].send((global_idx, val))
+            senders[sender_idx].send((global_idx, rank, val))
         }
     }
 
@@ -188,7 +190,10 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
                 .enumerate()
                 .for_each(move |(slice_idx, (slice, rx))| {
                     inner_scope.spawn(move |_| {
-                        rx.iter().for_each(|(global_idx, value)| {
+                        // which value arrives first depends on the scheduling, the sum must not
+                        let mut received: Vec<_> = rx.iter().collect();
+                        received.sort_by_key(|&(global_idx, rank, _)| (global_idx, rank));
+                        received.into_iter().for_each(|(global_idx, _, value)| {
                             let local_idx: usize = global_idx - slice_idx * self.width;
                             assert!(local_idx < slice.len(), 
                                 "got invalid index: global_idx={global_idx}, local_idx={local_idx}, slice.len()={}", slice.len());
@@ -304,7 +309,7 @@ pub(crate) fn bmm_jvp<T: Numeric>(
 
                             let left_val = jacobians_ref[0][&vec![input_jac_idx, self_jac_idx0]]
                                 * inputs_ref[1][&vec![k, j]];
-                            left_writer(tmp_left, left_val).unwrap();
+                            left_writer(tmp_left, j, left_val).unwrap();
 
                             let tmp_right = match global_index(
                                 &vec![input_jac_idx, right_jac_idx1],
@@ -319,7 +324,7 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                             // println!("tmp_right={tmp_right:?}");
                             let right_val = jacobians_ref[0][&vec![input_jac_idx, self_jac_idx0]]
                                 * inputs_ref[0][&vec![i, k]];
-                            right_writer(tmp_right, right_val).unwrap();
+                            right_writer(tmp_right, i, right_val).unwrap();
                         }
                     });
 
-- 
2.43.0

