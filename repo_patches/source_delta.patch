From 4d1cbd7ffd96971f7245b5b40114aef3ce829a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 01/19] fix: switch_to_inference leaves the network in
 inference mode

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From b70ce82db3ec6f86967de89dd472a3602869d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 02/19] Accessor for accumulated parameter gradients under cfg
 rn_sim

---
 src/layer.rs                 | 6 ++++++
 src/layer/convolutional.rs   | 7 +++++++
 src/layer/fully_connected.rs | 5 +++++
 src/lib.rs                   | 2 ++
 4 files changed, 20 insertions(+)

diff --git a/src/layer.rs b/src/layer.rs
index 2dd4fea..12be75f 100644
--- a/src/layer.rs
+++ b/src/layer.rs
@@ -72,4 +72,10 @@ pub trait Layer {
         self: &mut Self,
         serial_data: &SerializedLayer,
     ) -> Result<(), &'static str>;
+    // Accumulated parameter gradients, weights or kernels first, then biases.
+    // Only compiled in for the simulator (--cfg rn_sim).
+    #[cfg(rn_sim)]
+    fn sim_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![];
+    }
 }
diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..6c2ea0e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -326,6 +326,13 @@ impl Layer for ConvolutionalLayer {
             }
         }
     }
+
+    #[cfg(rn_sim)]
+    fn sim_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        let mut gradients = self.kernel_gradients.clone();
+        gradients.extend(self.bias_gradients.iter().cloned());
+        return gradients;
+    }
 }
 
 #[cfg(test)]
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..286e7f6 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -271,6 +271,11 @@ impl Layer for FullyConnectedLayer {
             }
         }
     }
+
+    #[cfg(rn_sim)]
+    fn sim_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![self.weights_gradients.clone(), self.bias_gradients.clone()];
+    }
 }
 
 #[cfg(test)]
diff --git a/src/lib.rs b/src/lib.rs
index bdf9415..2021428 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // rn_sim: see layer.rs
+
 pub mod tensor;
 
 pub mod layer;
-- 
2.43.0


From b7a56efd65b4bef262120e77141a5a2ff4ae401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 03/19] fix: reject impossible layer geometries instead of
 underflowing or dividing by zero

---
 src/layer/convolutional.rs           | 16 ++++++++++++++++
 src/layer/fully_connected.rs         |  6 +-----
 src/layer/max_pool.rs                |  3 +++
 src/layer/softmax.rs                 |  3 +++
 src/tensor.rs                        | 11 +++++++----
 src/tensor/helper.rs                 |  5 +++++
 src/tensor/operations/convolution.rs |  7 ++-----
 7 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 6c2ea0e..8d43aeb 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of kernel and image don't match");
+        }
+        if biases.len() != kernels.len() {
+            return Err("There should be exactly one bias for every kernel");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("bias should be a 1x1x1 tensor");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
@@ -128,6 +139,11 @@ impl ConvolutionalLayer {
             dk: output_depth,
         };
 
+        if input_shape.checked_total_size().is_none() || output_shape.checked_total_size().is_none()
+        {
+            return Err("Image is too large");
+        }
+
         // All ready for assignment
 
         self.name = name.clone();
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 286e7f6..ebf373e 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..703bbab 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -86,6 +86,9 @@ impl MaxPoolLayer {
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &mask_shape, stride) {
             return Err("Mask does not fit in image with given stride");
         }
+        if input_shape.checked_total_size().is_none() {
+            return Err("Image is too large");
+        }
         let (dim0, dim1) = Tensor::get_convolution_dim_fit(&input_shape, &mask_shape, stride);
 
         let output_shape = TensorShape {
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..238bf17 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -70,6 +70,9 @@ impl SoftmaxLayer {
         shape: TensorShape,
         name: &String,
     ) -> Result<(), &'static str> {
+        if shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
         self.shape = shape;
         self.name = name.clone();
         self.update_gradient_and_intermediate_tensors();
diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..e47107e 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,12 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -487,10 +493,7 @@ impl Tensor {
 
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
-        if (image_shape.di - mask_shape.di) % stride != 0 {
-            return false;
-        }
-        if (image_shape.dj - mask_shape.dj) % stride != 0 {
+        if !Tensor::does_kernel_stride_fit_image(image_shape, mask_shape, stride) {
             return false;
         }
 
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..de23293 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,11 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // Total size, or None if there are too many elements to count
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return self.di.checked_mul(self.dj)?.checked_mul(self.dk);
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..1d5838b 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -18,11 +18,8 @@ pub fn check_convolution_dimensions(
 
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
-    if (image_shape.di - kernel_shape.di) % stride != 0 {
-        return Err("First dimensions of kernel and shape do not match with stride");
-    }
-    if (image_shape.dj - kernel_shape.dj) % stride != 0 {
-        return Err("Secon dimensions of kernel and shape do not match with stride");
+    if !Tensor::does_kernel_stride_fit_image(image_shape, kernel_shape, stride) {
+        return Err("Dimensions of kernel and shape do not match with stride");
     }
 
     // Check if the output dimensions are correct
-- 
2.43.0


From acb6b1868028d59b6d41b8c2aff7bdd374bc90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 04/19] fix: refilling a layer in training mode resizes its
 helper tensors

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 7 ++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 8d43aeb..d64cac2 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -152,6 +152,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 703bbab..b7859bc 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -102,6 +102,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper data
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 238bf17..a8e1cc2 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -94,14 +94,15 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From c4122d24e5e16aa46482803f39e1796c96a601d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 05/19] fix: fully connected layers report the depth of their
 input

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index ebf373e..8c8fa53 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -205,7 +205,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 1cc749ef50e5ad829d2cb9d28e887b6eef98a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 06/19] fix: layers refuse tensors of the wrong shape instead
 of leaving stale results

---
 src/layer.rs                 | 10 ++++++++++
 src/layer/convolutional.rs   | 14 +++++++++++++-
 src/layer/fully_connected.rs | 11 ++++++++++-
 src/layer/max_pool.rs        | 10 +++++++++-
 src/layer/softmax.rs         | 11 ++++++++++-
 5 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/layer.rs b/src/layer.rs
index 12be75f..cac026d 100644
--- a/src/layer.rs
+++ b/src/layer.rs
@@ -49,6 +49,16 @@ impl SerializedLayer {
     }
 }
 
+// Check the tensors handed to a forward or backward pass against the shapes of a layer
+fn check_shapes(pairs: &[(TensorShape, TensorShape)]) -> Result<(), &'static str> {
+    for (actual, expected) in pairs {
+        if actual != expected {
+            return Err("Tensor shapes do not match the shapes of the layer");
+        }
+    }
+    return Ok(());
+}
+
 pub trait Layer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str>;
     // Temporary blank impl so we can test these
diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d64cac2..dcc9c1d 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,4 +1,4 @@
-use super::SerializedLayer;
+use super::{check_shapes, SerializedLayer};
 use crate::tensor::helper::TensorShape;
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
@@ -212,6 +212,13 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (output.get_shape(), self.get_output_shape()),
+        ])?;
+        if self.kernels.is_empty() {
+            return Err("Layer does not contain any kernels");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
@@ -251,6 +258,11 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (incoming_gradient.get_shape(), self.get_output_shape()),
+            (outgoing_gradient.get_shape(), self.get_input_shape()),
+        ])?;
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 8c8fa53..31c21a3 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -1,4 +1,4 @@
-use super::SerializedLayer;
+use super::{check_shapes, SerializedLayer};
 use crate::{layer::Layer, network::NetworkRunState};
 
 use crate::tensor::helper::TensorShape;
@@ -143,6 +143,10 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (output.get_shape(), self.get_output_shape()),
+        ])?;
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
@@ -169,6 +173,11 @@ impl Layer for FullyConnectedLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (incoming_gradient.get_shape(), self.get_output_shape()),
+            (outgoing_gradient.get_shape(), self.get_input_shape()),
+        ])?;
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop
             Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index b7859bc..0eaa0e5 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -1,4 +1,4 @@
-use super::SerializedLayer;
+use super::{check_shapes, SerializedLayer};
 use crate::tensor::helper::TensorShape;
 use crate::tensor::Tensor;
 use crate::{layer::Layer, network::NetworkRunState};
@@ -152,6 +152,10 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (output.get_shape(), self.get_output_shape()),
+        ])?;
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
@@ -176,6 +180,10 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        check_shapes(&[
+            (incoming_gradient.get_shape(), self.get_output_shape()),
+            (outgoing_gradient.get_shape(), self.get_input_shape()),
+        ])?;
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index a8e1cc2..ec662b6 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -7,7 +7,7 @@ use crate::network::NetworkRunState;
 use crate::tensor::helper::TensorShape;
 use crate::tensor::Tensor;
 
-use super::SerializedLayer;
+use super::{check_shapes, SerializedLayer};
 
 // using an enum for defining keys in serialized data
 #[derive(Serialize, Deserialize, Hash, Eq, PartialEq)]
@@ -108,6 +108,10 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        check_shapes(&[
+            (input.get_shape(), self.get_input_shape()),
+            (output.get_shape(), self.get_output_shape()),
+        ])?;
         Tensor::softmax(input, output);
         return Ok(());
     }
@@ -118,6 +122,11 @@ impl Layer for SoftmaxLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        check_shapes(&[
+            (output.get_shape(), self.get_output_shape()),
+            (incoming_gradient.get_shape(), self.get_output_shape()),
+            (outgoing_gradient.get_shape(), self.get_input_shape()),
+        ])?;
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-- 
2.43.0


From 32646957466145c70c64846201e47f2785f4d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/19] fix: dense backward keeps the ReLU mask for further
 passes

---
 src/layer/fully_connected.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 31c21a3..c22c2b3 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -180,13 +180,15 @@ impl Layer for FullyConnectedLayer {
         ])?;
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            // The mask itself is kept for further passes over the same inference
+            let mut relu_gradient = incoming_gradient.clone();
+            Tensor::multiply_elementwise_self(&mut relu_gradient, &self.relu_mask);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &relu_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &relu_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -197,7 +199,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &relu_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
@@ -244,7 +246,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
-- 
2.43.0


From 69a39d639bcccaf4b8246b7b4aacbdc1ae673904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 08/19] fix: convolution backward computes masked, per-channel,
 accumulating gradients in training mode only

---
 src/layer/convolutional.rs           | 23 +++++++--
 src/tensor/operations/convolution.rs | 70 +++++++++++++++++++---------
 2 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index dcc9c1d..54e4483 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -263,18 +263,28 @@ impl Layer for ConvolutionalLayer {
             (incoming_gradient.get_shape(), self.get_output_shape()),
             (outgoing_gradient.get_shape(), self.get_input_shape()),
         ])?;
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
         // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+        // The mask itself is kept for further passes over the same inference
+        let mut relu_gradient = incoming_gradient.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut relu_gradient, &self.relu_mask);
 
         // Bias gradient
-
         // Biases don't affect gradient propagation
+        for i in 0..self.biases.len() {
+            tensor::operations::convolution::convolution_backprop_bias(
+                &relu_gradient,
+                i as u32,
+                &mut self.bias_gradients[i],
+            )?;
+        }
 
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &relu_gradient,
                 input,
                 self.stride,
                 i as u32,
@@ -284,7 +294,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &relu_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
@@ -312,6 +322,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 1d5838b..5529a30 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -212,15 +212,13 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
+                    // The kernel covers this element from i_start up to i_stop
+                    let i_start = (a + 1).saturating_sub(kernel_shape.di).div_ceil(stride);
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let j_start = (b + 1).saturating_sub(kernel_shape.dj).div_ceil(stride);
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
@@ -246,6 +244,34 @@ pub fn convolution_backprop_outgoing_gradient(
     return Ok(());
 }
 
+// Adds the gradient of the bias of one channel to bias_gradient
+pub fn convolution_backprop_bias(
+    incoming_gradients: &Tensor,
+    kernel_channel: u32,
+    bias_gradient: &mut Tensor,
+) -> Result<(), &'static str> {
+    let result_shape = incoming_gradients.get_shape();
+    if kernel_channel >= result_shape.dk {
+        return Err("Results channel is too high");
+    }
+    if bias_gradient.get_shape() != TensorShape::new_1d(1) {
+        return Err("bias should be a 1x1x1 tensor");
+    }
+    let mut sum: f32 = 0.0;
+    for j in 0..result_shape.dj {
+        for i in 0..result_shape.di {
+            sum += incoming_gradients.get_item(&TensorIndex {
+                i: i,
+                j: j,
+                k: kernel_channel,
+            });
+        }
+    }
+    bias_gradient.data[0] += sum;
+    return Ok(());
+}
+
+// Adds the gradient of the kernel of one channel to kernel_gradient
 pub fn convolution_backprop_kernel(
     incoming_gradients: &Tensor,
     image: &Tensor,
@@ -274,26 +300,26 @@ pub fn convolution_backprop_kernel(
                 let mut convolution_result: f32 = 0.0;
 
                 // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients.get_data_index(&TensorIndex {
+                            i: i,
+                            j: j,
+                            k: kernel_channel,
+                        }) as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result +=
+                            image.data[image_id] * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
                     kernel_gradient.get_data_index(&TensorIndex { i: l, j: m, k: n }) as usize;
 
-                kernel_gradient.data[kernel_gradient_id] = convolution_result;
+                kernel_gradient.data[kernel_gradient_id] += convolution_result;
             }
         }
     }
-- 
2.43.0


From 660fd0051587314339c238b5ffd73c4216695287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 09/19] fix: max pooling backward needs training mode and
 survives clear_gradients

---
 src/layer/max_pool.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 0eaa0e5..c4d69d4 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -70,8 +70,6 @@ impl MaxPoolLayer {
             NetworkRunState::Training => {
                 // Allocate a vector of indices to store the origin of the max pool
                 self.max_pool_origin = vec![0; self.output_shape.total_size() as usize];
-                // Fill up all tensors with 0.0
-                self.clear_gradients();
             }
         }
     }
@@ -184,6 +182,9 @@ impl Layer for MaxPoolLayer {
             (incoming_gradient.get_shape(), self.get_output_shape()),
             (outgoing_gradient.get_shape(), self.get_input_shape()),
         ])?;
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
@@ -238,9 +239,7 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // Nothing is accumulated here, the origins belong to the last inference
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From f8cbad4dd09caf4719de30e1d829e7112160cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 10/19] fix: softmax backward works for every shape

---
 src/layer/softmax.rs | 17 ++++++++---------
 src/tensor.rs        | 11 +++++++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index ec662b6..0f00951 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::{check_shapes, SerializedLayer};
@@ -130,19 +130,18 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        // Dot product of output and incoming gradient, whatever their shape
+        self.intermediate1.fill_with_value(Tensor::dot(output, incoming_gradient)?);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
 
         // Multiply with output
-
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        Tensor::scale(
+            output,
+            self.intermediate1.get_item(&TensorIndex::zero()),
+            &mut self.intermediate2,
+        );
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
diff --git a/src/tensor.rs b/src/tensor.rs
index e47107e..35b2976 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -205,6 +205,17 @@ impl Tensor {
         }
     }
 
+    pub fn dot(tensor1: &Tensor, tensor2: &Tensor) -> Result<f32, &'static str> {
+        if tensor1.shape != tensor2.shape {
+            return Err("Shapes do not match for dot product");
+        }
+        let mut running_result = 0.0;
+        for (op1, op2) in tensor1.data.iter().zip(tensor2.data.iter()) {
+            running_result += *op1 * *op2;
+        }
+        return Ok(running_result);
+    }
+
     pub fn relu_self_and_store_mask(
         input: &mut Tensor,
         mask: &mut Tensor,
-- 
2.43.0


From 89333ccec455a172e9c30d887a0f282c5a81e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 11/19] fix: softmax of large inputs no longer overflows to NaN

---
 src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 35b2976..26a3367 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -605,9 +605,12 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Large inputs are shifted to keep the exponentials within range
+            let max = input.data.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
+            let shift = if max.abs() > 40.0 { max } else { 0.0 };
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - shift).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 90501ac47105d5098f9583f30be8971037e1959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 12/19] fix: damaged layer data is reported as an error instead
 of panicking

---
 src/layer/convolutional.rs   | 13 +++++++------
 src/layer/fully_connected.rs |  8 +++++---
 src/layer/max_pool.rs        | 13 +++++++------
 src/layer/softmax.rs         |  8 +++++---
 4 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 54e4483..5f5461e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -181,30 +181,31 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
-        let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+        let input_shape: TensorShape = bincode::deserialize(input_shape_data)
+            .map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index c22c2b3..45a02f0 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -125,17 +125,19 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor =
+            bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index c4d69d4..ff6580f 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -127,23 +127,24 @@ impl MaxPoolLayer {
         let mask_shape_data = data
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
-        let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+        let mask_shape: TensorShape = bincode::deserialize(mask_shape_data)
+            .map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
-        let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+        let input_shape: TensorShape = bincode::deserialize(input_shape_data)
+            .map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 0f00951..f57bd82 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -95,12 +95,13 @@ impl SoftmaxLayer {
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
         let shape: TensorShape =
-            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
@@ -131,7 +132,8 @@ impl Layer for SoftmaxLayer {
             return Err("Can only do backprop in training mode");
         }
         // Dot product of output and incoming gradient, whatever their shape
-        self.intermediate1.fill_with_value(Tensor::dot(output, incoming_gradient)?);
+        self.intermediate1
+            .fill_with_value(Tensor::dot(output, incoming_gradient)?);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
-- 
2.43.0


From 675a98036aecc2d6ce6892ab02e16cdbdc9f2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 13/19] fix: tensors with inconsistent shape, strides or data
 are refused when read

---
 src/tensor.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index 26a3367..bb9501b 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,40 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// A tensor as it is stored, before its parts are checked against each other
+#[derive(Deserialize)]
+struct UncheckedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<UncheckedTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(stored: UncheckedTensor) -> Result<Tensor, &'static str> {
+        match stored.shape.checked_total_size() {
+            Some(total_size) if total_size as usize == stored.data.len() => {}
+            _ => return Err("Tensor data did not contain the correct number of items"),
+        }
+        if stored.strides != TensorStride::new_from_shape(&stored.shape) {
+            return Err("Tensor strides do not match the tensor shape");
+        }
+        return Ok(Tensor {
+            strides: stored.strides,
+            shape: stored.shape,
+            data: stored.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
-- 
2.43.0


From d8fb16f9b1fc6f05b9722402591e5cde35d58c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 14/19] fix: a load that fails leaves the network unchanged

---
 src/network.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ccb6a72..e44245e 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,36 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // Nothing is added to this network before the whole file has been accepted
+        let mut loaded = Network::new(self.run_state);
+        sn.populate_network(&mut loaded)?;
+        self.append(loaded)?;
+        return Ok(());
+    }
+
+    // Move all layers of another network in the same run state to the end of this one
+    fn append(self: &mut Self, mut other: Network) -> Result<(), &'static str> {
+        if other.layers.len() == 0 {
+            return Ok(());
+        }
+        if self.layers.len() == 0 {
+            self.input_shape = other.input_shape;
+        } else {
+            if self.output_shape != other.input_shape {
+                return Err("Last output and new input shapes don't match");
+            }
+            // The input of the first new layer is the output of the last present one
+            other.intermediate_states.remove(0);
+            if self.run_state == NetworkRunState::Training {
+                other.intermediate_gradients.remove(0);
+            }
+        }
+        self.output_shape = other.output_shape;
+        self.layers.append(&mut other.layers);
+        self.intermediate_states
+            .append(&mut other.intermediate_states);
+        self.intermediate_gradients
+            .append(&mut other.intermediate_gradients);
         return Ok(());
     }
 
-- 
2.43.0


From 6920459e439c3aec7c3230eb9fbc83f1dfbecd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 15/19] fix: a layer there is no memory for is refused instead
 of aborting the process

---
 src/network.rs | 13 +++++++------
 src/tensor.rs  | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index e44245e..6635156 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -132,6 +132,10 @@ impl Network {
         self: &mut Self,
         mut layer: T,
     ) -> Result<(), &'static str> {
+        // Make sure there is memory for the states of the new layer
+        let input_state = Tensor::try_new(layer.get_input_shape())?;
+        let output_state = Tensor::try_new(layer.get_output_shape())?;
+
         // Make sure the new layer is in the correct state
         match self.run_state {
             NetworkRunState::Inference => {
@@ -151,10 +155,8 @@ impl Network {
             // Push layer to list
             self.layers.push(Box::new(layer));
             // Adding input and outputs as new intermediate states
-            self.intermediate_states
-                .push(Tensor::new(self.input_shape.clone()));
-            self.intermediate_states
-                .push(Tensor::new(self.output_shape.clone()));
+            self.intermediate_states.push(input_state);
+            self.intermediate_states.push(output_state);
             if self.run_state == NetworkRunState::Training {
                 // Adding input and outputs as new intermediate states
                 self.intermediate_gradients
@@ -176,8 +178,7 @@ impl Network {
         // Push layer to list
         self.layers.push(Box::new(layer));
         // Add a new intermediate state
-        self.intermediate_states
-            .push(Tensor::new(self.output_shape.clone()));
+        self.intermediate_states.push(output_state);
 
         if self.run_state == NetworkRunState::Training {
             self.intermediate_gradients
diff --git a/src/tensor.rs b/src/tensor.rs
index bb9501b..c141fed 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -70,6 +70,21 @@ impl Tensor {
         };
     }
 
+    // Like new, but a shape there is no memory for is an error
+    pub fn try_new(shape: TensorShape) -> Result<Tensor, &'static str> {
+        let total_size = match shape.checked_total_size() {
+            Some(total_size) => total_size as usize,
+            None => return Err("Tensor shape is too large"),
+        };
+        // Only find out if the data fits, allocating it zeroed is left to new
+        let mut data: Vec<f32> = vec![];
+        if data.try_reserve_exact(total_size).is_err() {
+            return Err("Not enough memory for the tensor");
+        }
+        drop(data);
+        return Ok(Tensor::new(shape));
+    }
+
     pub fn empty() -> Tensor {
         let tensor_shape = TensorShape {
             di: 1,
-- 
2.43.0


From a57d672c96e7b28b687962d25a05c53dc663eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 16/19] fix: saving replaces the target atomically and durably

---
 src/lib.rs     |  2 ++
 src/network.rs |  3 +-
 src/storage.rs | 94 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/tensor.rs  |  3 +-
 4 files changed, 100 insertions(+), 2 deletions(-)
 create mode 100644 src/storage.rs

diff --git a/src/lib.rs b/src/lib.rs
index 2021428..823d852 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,3 +5,5 @@ pub mod tensor;
 pub mod layer;
 
 pub mod network;
+
+mod storage;
diff --git a/src/network.rs b/src/network.rs
index 6635156..61f6d2d 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -5,6 +5,7 @@ use std::fs;
 
 use crate::layer::Layer;
 use crate::layer::SerializedLayer;
+use crate::storage::replace_file;
 use crate::tensor::helper::TensorShape;
 use crate::tensor::Tensor;
 use std::error::Error;
@@ -89,7 +90,7 @@ impl Network {
     pub fn save_to_file(self: &Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let serialized_network = SerializedNetwork::new_from_network(self)?;
         let byte_stream = serialized_network.to_byte_array()?;
-        fs::write(filename, byte_stream)?;
+        replace_file(filename, &byte_stream)?;
         return Ok(());
     }
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
diff --git a/src/storage.rs b/src/storage.rs
new file mode 100644
index 0000000..c3e950e
--- /dev/null
+++ b/src/storage.rs
@@ -0,0 +1,94 @@
+use std::fs;
+use std::fs::{File, OpenOptions};
+use std::io;
+use std::io::Write;
+use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicU64, Ordering};
+
+// Number of temporary files created by this process
+static TEMPORARY_FILES: AtomicU64 = AtomicU64::new(0);
+
+// Replace the content of a file in one step: a reader, a crash or an error leaves either the complete previous
+// content or the complete new content. When this returns Ok the new content also survives a power failure.
+pub fn replace_file(filename: &String, content: &[u8]) -> io::Result<()> {
+    let target = follow_links(Path::new(filename))?;
+    let present = match fs::metadata(&target) {
+        Ok(metadata) => Some(metadata),
+        Err(error) if error.kind() == io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+    if let Some(metadata) = &present {
+        if !metadata.is_file() {
+            // Devices and pipes can not be replaced
+            return fs::write(&target, content);
+        }
+        // A file that may not be written may not be replaced either
+        OpenOptions::new().write(true).open(&target)?;
+    }
+    let directory = match target.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent.to_path_buf(),
+        _ => PathBuf::from("."),
+    };
+
+    #[cfg(unix)]
+    let directory_handle = File::open(&directory)?;
+
+    let (mut file, temporary) = create_temporary(&directory)?;
+    let written = (|| {
+        if let Some(metadata) = &present {
+            file.set_permissions(metadata.permissions())?;
+        }
+        file.write_all(content)?;
+        file.sync_all()?;
+        return fs::rename(&temporary, &target);
+    })();
+    if written.is_err() {
+        // The first error is the one to report
+        let _ = fs::remove_file(&temporary);
+        return written;
+    }
+
+    // The new name has to reach the disk as well
+    #[cfg(unix)]
+    directory_handle.sync_all()?;
+    return Ok(());
+}
+
+// The file a symbolic link points to is replaced, not the link
+fn follow_links(path: &Path) -> io::Result<PathBuf> {
+    let mut target = path.to_path_buf();
+    for _ in 0..40 {
+        match fs::symlink_metadata(&target) {
+            Ok(metadata) if metadata.file_type().is_symlink() => {
+                let link = fs::read_link(&target)?;
+                target = match target.parent() {
+                    Some(parent) => parent.join(link),
+                    None => link,
+                };
+            }
+            _ => return Ok(target),
+        }
+    }
+    return Err(io::Error::new(
+        io::ErrorKind::Other,
+        "Too many levels of symbolic links",
+    ));
+}
+
+fn create_temporary(directory: &Path) -> io::Result<(File, PathBuf)> {
+    loop {
+        let number = TEMPORARY_FILES.fetch_add(1, Ordering::Relaxed);
+        let temporary = directory.join(format!(".rn{}-{}.tmp", process::id(), number));
+        match OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temporary)
+        {
+            Ok(file) => return Ok((file, temporary)),
+            // Left behind by another process
+            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => {}
+            Err(error) => return Err(error),
+        }
+    }
+}
diff --git a/src/tensor.rs b/src/tensor.rs
index c141fed..3730c39 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -1,6 +1,7 @@
 pub mod helper;
 pub mod operations;
 
+use crate::storage::replace_file;
 use helper::TensorIndex;
 use helper::TensorShape;
 use helper::TensorStride;
@@ -162,7 +163,7 @@ impl Tensor {
 
     pub fn save_to_file(self: &Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let serialized_tensor = bincode::serialize(self)?;
-        fs::write(filename, serialized_tensor)?;
+        replace_file(filename, &serialized_tensor)?;
         return Ok(());
     }
 
-- 
2.43.0


From 7c68ad6dacf967e381a8efe577483a4820b336aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 17/19] fix: uniform fills accept every pair of finite bounds

---
 src/tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 3730c39..3ff828b 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -132,10 +132,12 @@ impl Tensor {
     }
 
     pub fn fill_with_uniform(&mut self, min: f32, max: f32) {
-        let uniform_distribution = rand::distributions::Uniform::new_inclusive(min, max);
+        // The width of the range does not have to fit in an f32
+        let uniform_distribution =
+            rand::distributions::Uniform::new_inclusive(min as f64, max as f64);
         let mut rng = rand::prelude::thread_rng();
         for v in &mut self.data {
-            *v = rng.sample(uniform_distribution);
+            *v = rng.sample(uniform_distribution) as f32;
         }
     }
 
-- 
2.43.0


From ad3c2dda22e18068c6c67665e5e3024813101092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 18/19] fix: adding by index list leaves the target alone when
 an index is out of bounds

---
 src/tensor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 3ff828b..ae831f2 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -205,10 +205,10 @@ impl Tensor {
             return Err("Index list is too long");
         }
         let t2_items = tensor2.get_shape().total_size();
+        if index_list.iter().any(|t2_index| *t2_index >= t2_items) {
+            return Err("Tensor 2 index out of bounds");
+        }
         for (t1_index, t2_index) in index_list.iter().enumerate() {
-            if *t2_index >= t2_items {
-                return Err("Tensor 2 index out of bounds");
-            }
             tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
         }
 
-- 
2.43.0


From 8e9af87970a1efd9b09124b43b82c99309d61d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 19/19] fix: a link that can not be examined is not replaced by
 a file

---
 src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index c3e950e..3c6ffee 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -67,7 +67,9 @@ fn follow_links(path: &Path) -> io::Result<PathBuf> {
                     None => link,
                 };
             }
-            _ => return Ok(target),
+            Ok(_) => return Ok(target),
+            Err(error) if error.kind() == io::ErrorKind::NotFound => return Ok(target),
+            Err(error) => return Err(error),
         }
     }
     return Err(io::Error::new(
-- 
2.43.0

