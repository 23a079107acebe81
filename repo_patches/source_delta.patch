From 5b7c04f4410fa6661560a814bc6ea68e1a995187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 01/25] fix: piecewise layers and expansions honour the length
 of the domain

The segment edges were hard coded to [-1, 1] and the per segment basis was
always built for length 2, so any length other than 2 gave a wrong and
discontinuous function.
---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..2f58be2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..502c222 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -462,8 +462,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -599,7 +601,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -694,7 +696,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 1590fe745e7b0e64818d8301d72a93e5ca4315a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 02/25] fix: sign of the Lagrange denominators in the N
 dimensional basis

The denominators were X[m]-X[j], so every basis function with an even number
of nodes had the wrong sign and weights were not the values at the nodes.
---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..91f5c76 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From 1b85714b765216d95384a802750750df71122bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 03/25] fix: N dimensional polynomial layers accept an integer
 n

n=int with dimensions (as polynomial_2d ... polynomial_5d are documented)
crashed on len(n).
---
 high_order_layers_torch/LagrangePolynomial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 91f5c76..d72673b 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -85,8 +85,14 @@ class LagrangeBasisND:
     Supports different n values for each dimension.
     """
     def __init__(
-        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", **kwargs
+        self,
+        n: Union[List[int],int],
+        length: float = 2.0,
+        device: str = "cpu",
+        dimensions: int = 2,
+        **kwargs
     ):
+        n = [n] * dimensions if isinstance(n, int) else n
         self.n = n
         self.dimensions = len(n)
         self.X = [(length / 2.0) * chebyshevLobatto(ni).to(device) for ni in n]
-- 
2.43.0


From 48ccfcface775f53de4241cd57f6530f50dacc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 04/25] fix: piecewise N dimensional layer keeps separate
 weights per link

The constant initialisation collapsed the weights to one dimension and every
link read the same weights; any other initialisation raised IndexError.  Also
drop debugging prints, one of which crashed for one dimensional input.
---
 high_order_layers_torch/PolynomialLayers.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 502c222..f4b00ae 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -388,8 +388,6 @@ class PiecewiseND(torch.nn.Module):
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
             )
 
-        print('n', n, 'segments', self.segments)
-
         self.in_features = in_features
         self.out_features = out_features
         self.device = device
@@ -430,13 +428,11 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
+        self.w.data = segment_values.unsqueeze(-1).repeat(
+            1, 1, self.total_segments * self.weights_per_segment
         )
-        print("self.w.data", self.w)
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -519,17 +515,11 @@ class PiecewiseND(torch.nn.Module):
             -1, -1, self.out_features, -1
         )
 
-        # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
+        # Select the weights of each link, [batch_size, num_inputs, out_features, weights_per_segment]
+        return torch.gather(
+            self.w.unsqueeze(0).expand(batch_size, -1, -1, -1), 3, weight_indices
         )
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
-
 
 class PiecewisePolynomial(Piecewise):
     def __init__(
-- 
2.43.0


From 3e3dbfd7cb3913a37aa66c123362543af8f969e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 05/25] fix: alpha=0 subtracts the linear part in polynomial
 product layers

It was added twice instead of being removed as documented and as the plain
product layer does.
---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 2f58be2..bc34db7 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -478,7 +478,7 @@ class BasisFlatProd:
         assemble = assemble + 1
 
         # Compute sum and product at output
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
 
@@ -543,6 +543,6 @@ class BasisProd:
         assemble = 1 + assemble
 
         # Compute the product possibly removing the linear term.
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
-- 
2.43.0


From 9ed4104e4cc721e30a8a820542ac37221440240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 06/25] fix: polynomial_prod layer can be constructed

The single segment product basis did not provide its number of basis functions.
---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index bc34db7..038594c 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From 96cf0be9ef19c64e10899db8fc5f3d0d15923f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 07/25] fix: Product layer without bias can be evaluated

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From b472145cc5b4b3d839efa80d1cd5720612550dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 08/25] fix: FourierConvolution1d passes its expansion and
 convolution

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From f8b150123b5dcd3321398b8be9fb165c22be5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 09/25] fix: rescale_output averages over the real number of
 taps in 1d convolutions

The divisor assumed a square kernel.
---
 high_order_layers_torch/FunctionalConvolution.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..98cddd9 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -207,7 +207,8 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        kernel_dims = len(self.conv.kernel_size)
+        self._total_in = in_channels * kernel_size**kernel_dims
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -307,7 +308,8 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        kernel_dims = len(self.conv.kernel_size)
+        self._total_in = in_channels * kernel_size**kernel_dims
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -434,7 +436,8 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        kernel_dims = len(self.conv.kernel_size)
+        self._total_in = in_channels * kernel_size**kernel_dims
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -561,7 +564,8 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        kernel_dims = len(self.conv.kernel_size)
+        self._total_in = in_channels * kernel_size**kernel_dims
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From d5482d99c3f8c479daa146f37e83bffaef22be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 10/25] fix: apply weight decay in SparseLion

The in place multiplication acted on a copy made by the boolean index.
---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..7900050 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From 6f61d0a027ffbfa3b7dfbb7fe9f29baa90baf150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 11/25] fix: FourierSeriesEmbedding returns the layer it builds

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From 54cb13186c2a82c229e7d576b16f6f6d451ebaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 12/25] fix: ClassicSinusoidalEmbedding of dimension 2 divided
 by zero

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 51b9f71a6493131eba40fae5a1ee1e19c86c4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 13/25] fix: SumLayer registers its layers so that they are
 trained and saved

---
 high_order_layers_torch/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..d693d22 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
-- 
2.43.0


From 7e504011cac9dd16466f94312311740651809982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 14/25] fix: SwitchLayer registers its layers so that they are
 trained and saved

---
 high_order_layers_torch/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index d693d22..e30a1a7 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +205,7 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From cd357c391e727ae5101f4523b9a2b8dff62b3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 15/25] fix: HighOrderMLPList builds all its layers, not only
 the first

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..c7a2a08 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From 192ede84c2c7d772cd6b5289e0dfa5036fc70eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 16/25] fix: positions_from_mesh returns the axis orthogonal to
 each rotated axis

With no rotation it returned x twice instead of x and y.
---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From d1e019c31dc52d7e57249bc4a52e35a081385d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 17/25] fix: MultiHeadAttention applies each sample's mask to
 that sample's heads

Heads are laid out head major, the mask was laid out batch major.
---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..353f24f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From e76db7755f37d84f9951961e99aa9615be51ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 18/25] fix: MultiHeadLocationAwareAttention attends over each
 head's own values

Viewing the head split values a second time mixed heads and positions.
---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 353f24f..f49af6a 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From 41cb679fac19291e0110659451c42ade9ff2a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 19/25] fix: CustomizingAttention passes the values to the
 scaled dot product

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index f49af6a..4af543c 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -504,7 +504,7 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
+        context, attn = self.scaled_dot_attn(query, value, value)
         attn = attn.squeeze()
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
-- 
2.43.0


From 267f260e21460e8d3c6a0cc962b996504339ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 20/25] fix: HighOrderMultiMLP can be built and evaluated

It referred to a list that does not exist and recursed without end.
---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c7a2a08..4da0967 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -379,10 +379,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -429,7 +428,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From 12e5138a3fb8880bbe54b747218d9950437fe84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 21/25] fix: tail focus size prediction accounts for padding
 and default stride

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 4da0967..0aa34f1 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -751,7 +751,9 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            padded = widths[i] + 2 * self._padding
+            nw = math.ceil((padded - self.kernel_size[i] + 1) / stride)
             widths.append(nw)
 
         output_sizes = [
-- 
2.43.0


From 964752c48bc3419ec4d259a84c18745f98e8c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 22/25] fix: tail focus network collects stage tails also
 without normalization

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 0aa34f1..f603665 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -719,6 +719,8 @@ class HighOrderTailFocusNetwork(nn.Module):
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
 
+        # The tail of a layer is taken after its normalization, if it has one
+        self._tail_name = "conv" if normalization is None else "normal"
         self.layer_list = []
         self.layer_dict = {}
         for i in range(len(self.channels) - 1):
@@ -768,7 +770,7 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            if self._tail_name in name and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 871941fa84527c2c91302682b8c7576c10a66e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:59 +0000
Subject: [PATCH 23/25] fix: polynomial product layers accept the documented
 alpha

It was silently ignored, so the linear part could never be removed.
---
 high_order_layers_torch/PolynomialLayers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index f4b00ae..c76768d 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -1,4 +1,5 @@
 import random
+from functools import partial
 from typing import Union, Optional
 
 import torch
@@ -173,13 +174,19 @@ class Polynomial5D(PolynomialND):
 
 class PolynomialProd(Function):
     def __init__(
-        self, n: int, in_features: int, out_features: int, length: float = 2.0, **kwargs
+        self,
+        n: int,
+        in_features: int,
+        out_features: int,
+        length: float = 2.0,
+        alpha: float = 1.0,
+        **kwargs,
     ):
         return super().__init__(
             n,
             in_features,
             out_features,
-            LagrangePolyFlatProd(n, length=length),
+            LagrangePolyFlatProd(n, length=length, alpha=alpha),
             **kwargs,
         )
 
@@ -558,6 +565,7 @@ class PiecewisePolynomialProd(Piecewise):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        alpha: float = 1.0,
         **kwargs,
     ):
         super().__init__(
@@ -567,7 +575,7 @@ class PiecewisePolynomialProd(Piecewise):
             segments,
             length,
             weight_magnitude,
-            poly=LagrangePolyProd,
+            poly=partial(LagrangePolyProd, alpha=alpha),
             periodicity=periodicity,
             device=device,
         )
@@ -732,6 +740,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
         weight_magnitude=1.0,
         periodicity: float = None,
         device: str = "cpu",
+        alpha: float = 1.0,
         **kwargs,
     ):
         super().__init__(
@@ -741,7 +750,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             segments,
             length,
             weight_magnitude,
-            poly=LagrangePolyProd,
+            poly=partial(LagrangePolyProd, alpha=alpha),
             periodicity=periodicity,
         )
 
-- 
2.43.0


From 2c5daf5f6b22293488d07e171cf606ff4bc37b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 24/25] fix: CustomizingAttention reads the previous attention
 in the layout it returns

---
 high_order_layers_torch/attentions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 4af543c..d4ac8fc 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -516,8 +516,9 @@ class CustomizingAttention(nn.Module):
 
     def get_loc_energy(self, last_attn: Tensor, batch_size: int, v_len: int) -> Tensor:
         conv_feat = self.conv1d(last_attn.unsqueeze(1))
-        conv_feat = conv_feat.view(batch_size, self.num_heads, -1, v_len).permute(
-            0, 1, 3, 2
+        # the attention returned by forward is laid out heads first
+        conv_feat = conv_feat.view(self.num_heads, batch_size, -1, v_len).permute(
+            1, 0, 3, 2
         )
 
         loc_energy = self.loc_proj(conv_feat).view(
-- 
2.43.0


From f410cdba735352162fd39861ddb7dfc7a673bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:08 +0000
Subject: [PATCH 25/25] fix: h-refinement locates segment nodes without folding
 them by the periodicity

---
 high_order_layers_torch/PolynomialLayers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index c76768d..592eb09 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -276,6 +276,13 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
+        return self.segment_of(x)
+
+    def segment_of(self, x: torch.Tensor) -> Tensor:
+        """
+        Return the segment(s) the nodes x belong to, without folding x by the
+        periodicity (segment nodes are already in the space of the segments).
+        """
         # get the segment index
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
@@ -928,7 +935,7 @@ def refine_polynomial_layer(
                     x_global = layer_out.x_global(x_out, j)
 
                     # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    index_in = layer_in.segment_of(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0

