From 42649c16afdddf334670c5a4cf1903454096fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 01/35] fix: piecewise layers and expansions honour a length
 other than 2

---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..2f58be2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..502c222 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -462,8 +462,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -599,7 +601,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -694,7 +696,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 38e69475edf45ad2da0f5d19c20c20249692f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 02/35] fix: Product layer without bias crashed in forward

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From 2e359e07e8f526841f3c1a90445f2873e2e46d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 03/35] fix: product bases remove the linear part when alpha <
 1 instead of adding it again

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 2f58be2..bc34db7 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -478,7 +478,7 @@ class BasisFlatProd:
         assemble = assemble + 1
 
         # Compute sum and product at output
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
 
@@ -543,6 +543,6 @@ class BasisProd:
         assemble = 1 + assemble
 
         # Compute the product possibly removing the linear term.
-        out_prod = torch.prod(assemble, dim=2) - 1 + (1 - self.alpha) * this_sum
+        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum
 
         return out_prod
-- 
2.43.0


From 1b3b031188e2646f027cf3eff4744890fa0df46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 04/35] fix: single element product polynomial layers could not
 be constructed

---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index bc34db7..8acaef2 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -456,6 +456,7 @@ class BasisFlatProd:
     ):
         self.n = n
         self.basis = basis
+        self.num_basis = basis.num_basis or n
         self.alpha = alpha
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
-- 
2.43.0


From c80914bcfe50bab3fe69c824e71f2bac04b8f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 05/35] fix: FourierSeries dropped periodicity,
 weight_magnitude and the other keyword arguments

---
 high_order_layers_torch/PolynomialLayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 502c222..be08085 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -189,7 +189,7 @@ class FourierSeries(Function):
         self, n: int, in_features: int, out_features: int, length: float = 2.0, **kwargs
     ):
         return super().__init__(
-            n, in_features, out_features, FourierSeriesFlat(n, length=length)
+            n, in_features, out_features, FourierSeriesFlat(n, length=length), **kwargs
         )
 
 
-- 
2.43.0


From 20dbd5343b14b74c2c3078505961174846210f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:34 +0000
Subject: [PATCH 06/35] fix: discontinuous product layer ignored its device

---
 high_order_layers_torch/PolynomialLayers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index be08085..16a1aab 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -753,6 +753,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            device=device,
         )
 
 
-- 
2.43.0


From 26828210111d5a29f5ee0ab38366150347619137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 07/35] fix: N dimensional basis functions had the wrong sign
 for an odd number of even node counts

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..91f5c76 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From 8d696f49efa5a8fb0d6cd4fc3a1539cc80a5da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 08/35] fix: N dimensional polynomial layers accept a single n
 for all dimensions

---
 high_order_layers_torch/LagrangePolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 91f5c76..6fffd01 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -85,8 +85,10 @@ class LagrangeBasisND:
     Supports different n values for each dimension.
     """
     def __init__(
-        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", **kwargs
+        self, n: Union[List[int],int], length: float = 2.0, device: str = "cpu", dimensions: int = None, **kwargs
     ):
+        if isinstance(n, int):
+            n = [n] * (dimensions or 1)
         self.n = n
         self.dimensions = len(n)
         self.X = [(length / 2.0) * chebyshevLobatto(ni).to(device) for ni in n]
-- 
2.43.0


From a07ca620fbecf207a3d8968965106386c9d149ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 09/35] fix: PiecewiseND used the same weights for every input
 and output, and failed with one dimension or uniform initialization

---
 high_order_layers_torch/PolynomialLayers.py | 25 ++++++---------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 16a1aab..53a7a8c 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -388,8 +388,6 @@ class PiecewiseND(torch.nn.Module):
                 f"Dimensions of n and segments must match, got {len(self.n)} and {len(self.segments)}"
             )
 
-        print('n', n, 'segments', self.segments)
-
         self.in_features = in_features
         self.out_features = out_features
         self.device = device
@@ -430,13 +428,11 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
+        self.w.data = segment_values.unsqueeze(-1).repeat(
+            1, 1, self.total_segments * self.weights_per_segment
         )
-        print("self.w.data", self.w)
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -515,20 +511,13 @@ class PiecewiseND(torch.nn.Module):
     def _reshape_weights(self, weight_indices):
         # Reshape weights based on weight indices
         batch_size, num_inputs, _ = weight_indices.shape
-        weight_indices = weight_indices.unsqueeze(2).expand(
-            -1, -1, self.out_features, -1
-        )
+        input_indices = torch.arange(num_inputs, device=weight_indices.device)
 
-        # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
-        )
+        # [batch_size, num_inputs, weights_per_segment, out_features]
+        selected_weights = self.w[input_indices.view(1, -1, 1), :, weight_indices]
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
+        # Permute to get the desired shape [batch_size, num_inputs, out_features, weights_per_segment]
+        return selected_weights.permute(0, 1, 3, 2)
 
 
 class PiecewisePolynomial(Piecewise):
-- 
2.43.0


From fe97f0d7211e6439848ffbb80991b970c8469d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 10/35] fix: the requested layer initialization never reached
 the layers

---
 high_order_layers_torch/PolynomialLayers.py |  8 +++++++-
 high_order_layers_torch/networks.py         | 10 +++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 53a7a8c..043273d 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -543,6 +543,7 @@ class PiecewisePolynomial(Piecewise):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -569,6 +570,7 @@ class PiecewisePolynomialProd(Piecewise):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -604,7 +606,9 @@ class PiecewiseDiscontinuous(nn.Module):
                 self.w, out_features, in_features, weight_magnitude, device
             )
         else:
-            self.w.data.uniform_(-1 / in_features, 1 / in_features)
+            self.w.data.uniform_(
+                -weight_magnitude / in_features, weight_magnitude / in_features
+            )
 
         self._length = length
         self._half = 0.5 * length
@@ -717,6 +721,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -743,6 +748,7 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..1bc29d9 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -229,7 +229,7 @@ class HighOrderMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -252,7 +252,7 @@ class HighOrderMLP(nn.Module):
                 scale=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -279,7 +279,7 @@ class HighOrderMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -365,7 +365,7 @@ class HighOrderMultiMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -425,7 +425,7 @@ class HighOrderMultiMLP(nn.Module):
             scale=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From 5fb4ab26cde1eb1d59bc99855473863d15665e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 11/35] fix: register the layers inside SwitchLayer and
 SumLayer so that they are trained, moved and saved

---
 high_order_layers_torch/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..08bb521 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,7 +192,8 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
+            [
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +206,8 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+            ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From 933eafebb2bae0e293c0557f0198c705e77736fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 12/35] fix: HighOrderMLPList built only its first layer

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 1bc29d9..bb816ef 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From f3dcefe72be81fa1fd1eaee7ad833e05e2cf1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 13/35] fix: HighOrderMultiMLP could not be constructed

---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index bb816ef..6ad28b7 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -379,10 +379,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -429,7 +428,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From 3a7b46950a6ed7c375ea2901b493bd71f02524e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 14/35] fix: TailFocus sizes with default stride or padding

---
 high_order_layers_torch/networks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 6ad28b7..d0de3f5 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -751,7 +751,10 @@ class HighOrderTailFocusNetwork(nn.Module):
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+            stride = 1 if self.stride is None else self.stride[i]
+            nw = math.ceil(
+                (widths[i] + 2 * self._padding - self.kernel_size[i] + 1) / stride
+            )
             widths.append(nw)
 
         output_sizes = [
-- 
2.43.0


From b1c7b31979ff27b42193bbb0f2bc6760fcafe7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 15/35] fix: TailFocus network left out the intermediate tails
 without normalization

---
 high_order_layers_torch/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index d0de3f5..7303427 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -720,6 +720,7 @@ class HighOrderTailFocusNetwork(nn.Module):
             )
 
         self.layer_list = []
+        self.tail_list = []
         self.layer_dict = {}
         for i in range(len(self.channels) - 1):
             layer = high_order_convolution_layers(
@@ -748,6 +749,9 @@ class HighOrderTailFocusNetwork(nn.Module):
                 self.layer_dict[layer_name] = layer
                 self.layer_list.append(layer_name)
 
+            # the tail is taken at the end of each (normalized) convolution
+            self.tail_list.append(layer_name)
+
     def compute_sizes(self, input_size: int):
         widths = [input_size]
         for i, val in enumerate(self.kernel_size):
@@ -769,7 +773,7 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            if name in self.tail_list and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 7490eff335741e6369bde71396910a719082731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 16/35] fix: FourierSeriesEmbedding returned None

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From 8a1e95f07307c4510604eaef4e46c9a4aed66e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 17/35] fix: sinusoidal embedding of dimension 2 divided by
 zero

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 4674c69ae0b0538445b775265eff42f29fa24cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 18/35] fix: SparseLion never applied its weight decay

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..7900050 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From 9937f53b70bc53493cbc0412289e87cca5f4acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 19/35] fix: multi head attention applied the mask of other
 samples

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..353f24f 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,7 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From ef962c53a29bfc12873110297d1074a35cd8bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 20/35] fix: multi head location aware attention mixed up heads
 and positions of the values

---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 353f24f..f49af6a 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From 74fb30878fe2628d481968c1502e64b31f0d16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 21/35] fix: CustomizingAttention called its attention without
 values

---
 high_order_layers_torch/attentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index f49af6a..4af543c 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -504,7 +504,7 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
+        context, attn = self.scaled_dot_attn(query, value, value)
         attn = attn.squeeze()
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
-- 
2.43.0


From 9d8413fefb2e439fca97b4aa71b461aa790c4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 22/35] fix: positions_from_mesh second axis is orthogonal to
 the first

---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From 97bb3f5650d3fd5d947a51133a0ba3f04ebb6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 23/35] fix: FourierConvolution1d could not be constructed

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From 16499a64d559ec745125a716ab02439ae09ba896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 24/35] fix: 1d convolutions rescaled by the square of the
 kernel size

---
 high_order_layers_torch/FunctionalConvolution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..f262506 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -1,4 +1,5 @@
 import logging
+import math
 from abc import ABC
 from typing import Any, Optional, Union
 
@@ -207,7 +208,7 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -307,7 +308,7 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -434,7 +435,7 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -561,7 +562,7 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = in_channels * math.prod(self.conv.kernel_size)
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From 6474b418a23978502e870525a3c3760b41ad8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 25/35] fix: 1d expansions failed on non contiguous inputs

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 8acaef2..5a98e98 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From ed067d0cf092145d52d6936c93c9ce9f3a8dcac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 26/35] fix: p refinement of product layers crashed

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 043273d..2ed916d 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -785,10 +785,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 7a49bb7a2bf319a1baab434a78007d4e387dd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 27/35] fix: smoothing of piecewise constant layers

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 2ed916d..77e49b4 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -961,10 +961,10 @@ def smooth_discontinuous_layer(layer: PiecewiseDiscontinuous, factor: float):
     # every nth interior node is discontinuous
     with torch.no_grad():
         left = layer.w[:, :, (n - 1) : -1 : n]
-        right = layer.w[:, :, n:-1:n]
+        right = layer.w[:, :, n::n]
         diff = left - right
         layer.w[:, :, (n - 1) : -1 : n] = left - 0.5 * factor * diff
-        layer.w[:, :, n:-1:n] = right + 0.5 * factor * diff
+        layer.w[:, :, n::n] = right + 0.5 * factor * diff
 
 
 def initialize_polynomial_layer(
-- 
2.43.0


From 342cc6838b4487c677c132353719df69486ff5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 28/35] fix: plateau scheduler used an argument that torch
 removed

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..17dedfa 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From 474ddce442bd66ffea91a305a84a1823ce0d28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:31 +0000
Subject: [PATCH 29/35] fix: select_network read the wrong configuration
 entries

---
 high_order_layers_torch/modules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 17dedfa..a3b063b 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -117,7 +117,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
@@ -135,7 +135,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
@@ -184,7 +184,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input or high_order_conv!"
         )
 
     return model
-- 
2.43.0


From 292e61634c6b75f7b76fe4a0d9abcb38f0f77bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:17 +0000
Subject: [PATCH 30/35] fix: p refinement left single polynomial layers
 untouched

---
 high_order_layers_torch/PolynomialLayers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 77e49b4..da67192 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -75,6 +75,18 @@ class Polynomial(Function):
             n, in_features, out_features, LagrangePolyFlat(n, length=length), **kwargs
         )
 
+    def interpolate(self, layer_out: "Polynomial") -> None:
+        """
+        Compute the weights of layer_out, a polynomial layer with a different number of
+        nodes, so that it represents the function of this layer (p refinement).
+        """
+        with torch.no_grad():
+            x_out = layer_out.poly.basis.X
+            basis = torch.stack(
+                [self.poly.basis(x_out, j) for j in range(self.poly.n)]
+            )
+            layer_out.w.copy_(torch.einsum("oij,jk->oik", self.w, basis))
+
 
 class PolynomialND(Function):
     def __init__(
-- 
2.43.0


From a786da87178c20a87535824a3c3adaedbbec58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 31/35] fix: the alignment returned by CustomizingAttention
 could not be fed back

---
 high_order_layers_torch/attentions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 4af543c..0113c45 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -505,7 +505,13 @@ class CustomizingAttention(nn.Module):
         value = value.contiguous().view(-1, v_len, self.dim)
 
         context, attn = self.scaled_dot_attn(query, value, value)
-        attn = attn.squeeze()
+        # batch first, as expected of last_attn
+        attn = (
+            attn.view(self.num_heads, batch_size, q_len, v_len)
+            .transpose(0, 1)
+            .reshape(batch_size * self.num_heads, q_len, v_len)
+            .squeeze(1)
+        )
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
             1, 2, 0, 3
-- 
2.43.0


From 1a8037c7acad319cf5db99c8b55d68f642b099e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 32/35] fix: resnet layers add their input instead of applying
 the previous module twice

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 7303427..8873c27 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -257,7 +257,7 @@ class HighOrderMLP(nn.Module):
 
             # This will add the result of the previous layer after normalization
             if resnet is True and i > 0:
-                hidden_layer = SumLayer(layer_list=[hidden_layer, layer_list[-1]])
+                hidden_layer = SumLayer(layer_list=[hidden_layer, nn.Identity()])
 
             layer_list.append(hidden_layer)
 
-- 
2.43.0


From faf93ae234eae96c2eef31fc826b66ff593d269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 33/35] fix: convolutional networks used their channel count as
 the epsilon of batch normalization

---
 high_order_layers_torch/modules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index a3b063b..75d51ad 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -155,7 +155,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             pooling=None,  # don't add an average pooling layer
         )
@@ -171,7 +171,7 @@ def select_network(cfg: DictConfig, device: str = None):
             kernel_size=cfg.net.kernel_size,
             rescale_output=False,
             periodicity=cfg.net.periodicity,
-            normalization=torch.nn.LazyBatchNorm1d,
+            normalization=torch.nn.BatchNorm1d,
             stride=cfg.net.stride,
             focus=cfg.net.focus,
         )
-- 
2.43.0


From 982d26c1b26427c33b0824ca772f98116ce7549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 34/35] fix: evaluate and interpolate layers on the device of
 their input and weights

---
 high_order_layers_torch/LagrangePolynomial.py   | 17 +++++++++++------
 high_order_layers_torch/PolynomialLayers.py     | 16 ++++++++--------
 .../positional_embeddings.py                    |  2 +-
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 6fffd01..bcaf6b9 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -117,10 +117,12 @@ class LagrangeBasisND:
         :returns: basis values [num_basis, batch, inputs]
         """
         b_list = []
+        device = x.device
+        indexes = indexes.to(device)
         for d in range(self.dimensions):
-            x_diff = x[..., d].unsqueeze(-1) - self.X[d]  # [batch, inputs, n[d]]
-            mask = (indexes[:, d].unsqueeze(1).unsqueeze(2) != torch.arange(self.n[d], device=self.device))
-            denominators = self.denominators[d][indexes[:, d]]  # [num_basis, n[d]]
+            x_diff = x[..., d].unsqueeze(-1) - self.X[d].to(device)  # [batch, inputs, n[d]]
+            mask = (indexes[:, d].unsqueeze(1).unsqueeze(2) != torch.arange(self.n[d], device=device))
+            denominators = self.denominators[d].to(device)[indexes[:, d]]  # [num_basis, n[d]]
 
             # Reshape x_diff and denominators for proper broadcasting
             x_diff_expanded = x_diff.unsqueeze(0)  # [1, batch, inputs, n[d]]
@@ -129,7 +131,7 @@ class LagrangeBasisND:
             # Ensure mask has the correct shape
             mask = mask.unsqueeze(1)  # [num_basis, 1, 1, n[d]]
 
-            b = torch.where(mask, x_diff_expanded / denominators_expanded, torch.tensor(1.0, device=self.device))
+            b = torch.where(mask, x_diff_expanded / denominators_expanded, torch.tensor(1.0, device=device))
             b_list.append(torch.prod(b, dim=-1))  # [num_basis, batch, inputs]
 
         return torch.prod(torch.stack(b_list), dim=0)  # [num_basis, batch, inputs]
@@ -205,9 +207,12 @@ class LagrangeBasis:
         return denom
 
     def __call__(self, x, j: int):
-        x_diff = x.unsqueeze(-1) - self.X  # Ensure broadcasting
+        device = x.device
+        x_diff = x.unsqueeze(-1) - self.X.to(device)  # Ensure broadcasting
         b = torch.where(
-            torch.arange(self.n) != j, x_diff / self.denominators[j], torch.tensor(1.0)
+            torch.arange(self.n, device=device) != j,
+            x_diff / self.denominators[j].to(device),
+            torch.tensor(1.0, device=device),
         )
         ans = torch.prod(b, dim=-1)
         return ans
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index da67192..87fa0f6 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -81,7 +81,7 @@ class Polynomial(Function):
         nodes, so that it represents the function of this layer (p refinement).
         """
         with torch.no_grad():
-            x_out = layer_out.poly.basis.X
+            x_out = layer_out.poly.basis.X.to(self.w)
             basis = torch.stack(
                 [self.poly.basis(x_out, j) for j in range(self.poly.n)]
             )
@@ -449,12 +449,12 @@ class PiecewiseND(torch.nn.Module):
             (
                 (x + self._half)
                 / self._length
-                * torch.tensor(self.segments, device=self.device)
+                * torch.tensor(self.segments, device=x.device)
             )
             .long()
             .clamp(
-                torch.tensor(0, device=self.device),
-                torch.tensor(self.segments, device=self.device) - 1,
+                torch.tensor(0, device=x.device),
+                torch.tensor(self.segments, device=x.device) - 1,
             )
         )
 
@@ -471,7 +471,7 @@ class PiecewiseND(torch.nn.Module):
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
             index.float()
-            / torch.tensor(self.segments, device=self.device).float()
+            / torch.tensor(self.segments, device=index.device).float()
             * self._length
             - self._half
         )
@@ -499,7 +499,7 @@ class PiecewiseND(torch.nn.Module):
         # Convert N-dimensional segment indices to flat indices
         batch_size, num_inputs = segment_indices.shape[:2]
         flat_indices = torch.zeros(
-            batch_size, num_inputs, dtype=torch.long, device=self.device
+            batch_size, num_inputs, dtype=torch.long, device=segment_indices.device
         )
         #print('flat_indices.shape', flat_indices.shape, 'segment_indices.shape', segment_indices.shape)
         for dim in range(self.dimensions):
@@ -514,7 +514,7 @@ class PiecewiseND(torch.nn.Module):
         expanded_indices = flat_indices.unsqueeze(
             -1
         ) * self.weights_per_segment + torch.arange(
-            self.weights_per_segment, device=self.device
+            self.weights_per_segment, device=segment_indices.device
         )
 
         # [batch, input, weights_per_segment] note this is missing the output dimension
@@ -792,7 +792,7 @@ def interpolate_polynomial_layer(
         )
 
     x_in = poly_in.basis.X.reshape(-1, 1)
-    x_out = poly_out.basis.X.reshape(-1, 1)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(w_in)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index cfe1bc3..3ccd8ed 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -26,7 +26,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
     def forward(self, x):
         half_dim = self.dim // 2
         emb = math.log(10000) / max(half_dim - 1, 1)
-        emb = torch.exp(torch.arange(half_dim) * -emb)
+        emb = torch.exp(torch.arange(half_dim, device=x.device) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
         return emb
-- 
2.43.0


From f914be68d33ecd5e79d66fd23129b43247474985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 35/35] fix: piecewise convolutions, refinement and the lazy
 layer norm in double precision

---
 high_order_layers_torch/Basis.py            | 16 ++++++++++++++--
 high_order_layers_torch/PolynomialLayers.py |  4 ++--
 high_order_layers_torch/layers.py           |  5 +++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 5a98e98..e025188 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -103,6 +103,7 @@ class PiecewiseExpand:
             x.shape[3],
             self._variables,
             device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -186,7 +187,12 @@ class PiecewiseExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -268,6 +274,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[3],
             self._variables,
             device=x.device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -347,7 +354,12 @@ class PiecewiseDiscontinuousExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=x.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 87fa0f6..e35223e 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -850,7 +850,7 @@ def refine_discontinuous_polynomial_layer(
     w_out = layer_out.w
 
     x_in = poly_in.basis.X.reshape(-1, 1).to(device)
-    x_out = poly_out.basis.X.reshape(-1, 1).to(device)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(device=device, dtype=w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
@@ -918,7 +918,7 @@ def refine_polynomial_layer(
     w_out = layer_out.w
 
     x_in = poly_in.basis.X.reshape(-1, 1).to(device)
-    x_out = poly_out.basis.X.reshape(-1, 1).to(device)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(device=device, dtype=w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 08bb521..5743351 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -32,9 +32,10 @@ class LazyLayerNormLastDim(nn.Module):
     def forward(self, input):
         if self.weight is None:
             ndim = input.shape[-1]
-            self.weight = nn.Parameter(torch.ones(ndim)).to(input.device)
+            kwargs = {"device": input.device, "dtype": input.dtype}
+            self.weight = nn.Parameter(torch.ones(ndim, **kwargs))
             self.bias = (
-                nn.Parameter(torch.zeros(ndim)).to(input.device) if self.bias else None
+                nn.Parameter(torch.zeros(ndim, **kwargs)) if self.bias else None
             )
 
         return F.layer_norm(input, self.weight.shape, self.weight, self.bias, 1e-5)
-- 
2.43.0

