From e7699bc4ce247541488715de7b7404863de33d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 01/41] fix: attribute setters of Pointclouds reset their own
 cached views and presence flag

---
 gradslam/structures/pointclouds.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 0dc49cd..b1d3837 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -847,7 +847,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._normals_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._normals_padded = None
+        self._has_normals = True
 
     @colors_list.setter
     def colors_list(self, value: List[torch.Tensor]):
@@ -861,7 +862,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value)
         self._colors_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._colors_padded = None
+        self._has_colors = True
 
     @features_list.setter
     def features_list(self, value: List[torch.Tensor]):
@@ -875,7 +877,8 @@ class Pointclouds(object):
         """
         self._assert_set_list(value, first_dim_only=True)
         self._features_list = [v.clone().to(self.device) for v in value]
-        self._noramls_padded = None
+        self._features_padded = None
+        self._has_features = True
 
     @points_padded.setter
     def points_padded(self, value: torch.Tensor):
@@ -910,6 +913,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._normals_padded = value.clone().to(self.device)
         self._normals_list = None
+        self._has_normals = True
 
     @colors_padded.setter
     def colors_padded(self, value: torch.Tensor):
@@ -927,6 +931,7 @@ class Pointclouds(object):
         self._assert_set_padded(value)
         self._colors_padded = value.clone().to(self.device)
         self._colors_list = None
+        self._has_colors = True
 
     @features_padded.setter
     def features_padded(self, value: torch.Tensor):
@@ -944,6 +949,7 @@ class Pointclouds(object):
         self._assert_set_padded(value, first_2_dims_only=True)
         self._features_padded = value.clone().to(self.device)
         self._features_list = None
+        self._has_features = True
 
     def _compute_padded(self, refresh: bool = False):
         r"""Computes the padded version of pointclouds.
-- 
2.43.0


From 97bad6b6bd40aaf9fb785d640c51ccaad41f0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 02/41] fix: Pointclouds computes the padded view of each
 attribute individually

---
 gradslam/structures/pointclouds.py | 47 ++++++++----------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index b1d3837..db12208 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -960,44 +960,21 @@ class Pointclouds(object):
         if not self.has_points:
             return
 
-        if not (refresh or self._points_padded is None):
-            return
-
-        self._points_padded = structutils.list_to_padded(
-            self._points_list,
-            (self._N, 3),
-            pad_value=0.0,
-            equisized=self.equisized,
-        )
-        self._normals_padded = (
-            None
-            if self._normals_list is None
-            else structutils.list_to_padded(
-                self._normals_list,
-                (self._N, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
-        self._colors_padded = (
-            None
-            if self._colors_list is None
-            else structutils.list_to_padded(
-                self._colors_list,
-                (self._N, 3),
-                pad_value=0.0,
-                equisized=self.equisized,
-            )
-        )
-        self._features_padded = (
-            None
-            if self._features_list is None
-            else structutils.list_to_padded(
-                self._features_list,
-                (self._N, self.num_features),
+        def compute(attr_list, attr_padded, num_channels):
+            if attr_list is None or not (refresh or attr_padded is None):
+                return attr_padded
+            return structutils.list_to_padded(
+                attr_list,
+                (self._N, num_channels),
                 pad_value=0.0,
                 equisized=self.equisized,
             )
+
+        self._points_padded = compute(self._points_list, self._points_padded, 3)
+        self._normals_padded = compute(self._normals_list, self._normals_padded, 3)
+        self._colors_padded = compute(self._colors_list, self._colors_padded, 3)
+        self._features_padded = compute(
+            self._features_list, self._features_padded, self.num_features
         )
 
     def clone(self):
-- 
2.43.0


From a797ecf13b4873e8ceeeca275537afd3023988da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 03/41] fix: Pointclouds.clone keeps the raggedness and every
 stored list of its source

---
 gradslam/structures/pointclouds.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index db12208..a71220a 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -51,6 +51,12 @@ class Pointclouds(object):
         torch.Size([2, 4, 3])
     """
 
+    _INTERNAL_LISTS = [
+        "_points_list",
+        "_normals_list",
+        "_colors_list",
+        "_features_list",
+    ]
     _INTERNAL_TENSORS = [
         "_points_padded",
         "_normals_padded",
@@ -1020,10 +1026,15 @@ class Pointclouds(object):
             colors=new_colors,
             features=new_features,
         )
+        for k in self._INTERNAL_LISTS:
+            v = getattr(self, k)
+            if v is not None:
+                setattr(other, k, [x.clone() for x in v])
         for k in self._INTERNAL_TENSORS:
             v = getattr(self, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.clone())
+        other.equisized = self.equisized
         return other
 
     def detach(self):
-- 
2.43.0


From c01dcec2db7972a637e4a97ece88c244910d0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 04/41] fix: Pointclouds.detach and Pointclouds.to share no
 tensors with their source

---
 gradslam/structures/pointclouds.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index a71220a..866a22e 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1053,7 +1053,7 @@ class Pointclouds(object):
         if other._features_list is not None:
             other._features_list = [f.detach() for f in other._features_list]
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
         return other
@@ -1071,13 +1071,14 @@ class Pointclouds(object):
         Returns:
             gradslam.Pointclouds
         """
+        # hack to know which gpu is used when device("cuda")
+        device = torch.Tensor().to(device).device
         if not copy and self.device == device:
             return self
 
         other = self.clone()
         if self.device != device:
-            # hack to know which gpu is used when device("cuda")
-            other.device = torch.Tensor().to(device).device
+            other.device = device
             if other._points_list is not None:
                 other._points_list = [p.to(device) for p in other._points_list]
             if other._normals_list is not None:
@@ -1087,7 +1088,7 @@ class Pointclouds(object):
             if other._features_list is not None:
                 other._features_list = [f.to(device) for f in other._features_list]
             for k in self._INTERNAL_TENSORS:
-                v = getattr(self, k)
+                v = getattr(other, k)
                 if torch.is_tensor(v):
                     setattr(other, k, v.to(device))
         return other
-- 
2.43.0


From 2df6ba2fc0d5e936776485d30c2ab02019b1fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 05/41] fix: appending to a point cloud batch keeps its maximum
 size a plain number

---
 gradslam/structures/pointclouds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/pointclouds.py b/gradslam/structures/pointclouds.py
index 866a22e..baad746 100644
--- a/gradslam/structures/pointclouds.py
+++ b/gradslam/structures/pointclouds.py
@@ -1226,7 +1226,7 @@ class Pointclouds(object):
             self._num_points_per_pointcloud + pointclouds._num_points_per_pointcloud
         )
         self.equisized = len(self._num_points_per_pointcloud.unique()) == 1
-        self._N = self._num_points_per_pointcloud.max()
+        self._N = self._num_points_per_pointcloud.max().item()
         self._nonpad_mask = None
 
         return self
-- 
2.43.0


From 1b0cec12c9aa5211954fc26c7f56ad221fb4e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 06/41] fix: depth maps of RGBDImages can be replaced before a
 layout conversion

---
 gradslam/structures/rgbdimages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4ab0011..4a08d94 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -118,7 +118,7 @@ class RGBDImages(object):
             raise ValueError(msg)
 
         self._rgb_image_shape = rgb_image.shape
-        self._depth_shape = tuple(
+        self._depth_image_shape = tuple(
             v if i != self.cdim else 1 for i, v in enumerate(rgb_image.shape)
         )
         self._intrinsics_shape = (rgb_image.shape[0], 1, 4, 4)
@@ -133,9 +133,9 @@ class RGBDImages(object):
         if rgb_image.shape[self.cdim] != 3:
             msg = "Expected rgb_image to have 3 channels on dimension {0}. Got {1} instead"
             raise ValueError(msg.format(self.cdim, rgb_image.shape[self.cdim]))
-        if depth_image.shape != self._depth_shape:
+        if depth_image.shape != self._depth_image_shape:
             msg = "Expected depth_image to have shape {0}. Got {1} instead"
-            raise ValueError(msg.format(self._depth_shape, depth_image.shape))
+            raise ValueError(msg.format(self._depth_image_shape, depth_image.shape))
         if intrinsics.shape != self._intrinsics_shape:
             msg = "Expected intrinsics to have shape {0}. Got {1} instead"
             raise ValueError(msg.format(self._intrinsics_shape, intrinsics.shape))
-- 
2.43.0


From 2732646e713b658b0d993b196fc5cc02fa8aa888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 07/41] fix: the valid depth mask of RGBDImages follows depth
 replacement and layout conversion

---
 gradslam/structures/rgbdimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4a08d94..d077d60 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -423,6 +423,7 @@ class RGBDImages(object):
         if value is not None:
             self._assert_shape(value, self._depth_image_shape)
         self._depth_image = value
+        self._valid_depth_mask = None
         self._vertex_map = None
         self._normal_map = None
         self._global_vertex_map = None
@@ -584,6 +585,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
@@ -606,6 +608,7 @@ class RGBDImages(object):
         permute = RGBDImages._permute_if_not_None
         self._rgb_image = permute(self._rgb_image, ordering)
         self._depth_image = permute(self._depth_image, ordering)
+        self._valid_depth_mask = permute(self._valid_depth_mask, ordering)
         self._vertex_map = permute(self._vertex_map, ordering)
         self._global_vertex_map = permute(self._global_vertex_map, ordering)
         self._normal_map = permute(self._normal_map, ordering)
-- 
2.43.0


From 9be3cecb4cd23cefcdc4005878130fda1c2d30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 08/41] fix: RGBDImages.detach and RGBDImages.to(copy=True)
 share no tensors with their source

---
 gradslam/structures/rgbdimages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index d077d60..303445a 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -471,7 +471,7 @@ class RGBDImages(object):
         """
         other = self.clone()
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.detach())
 
@@ -519,7 +519,7 @@ class RGBDImages(object):
         other.device = device
 
         for k in self._INTERNAL_TENSORS:
-            v = getattr(self, k)
+            v = getattr(other, k)
             if torch.is_tensor(v):
                 setattr(other, k, v.to(device))
 
-- 
2.43.0


From bccc1ed5f4875b586d5598db563ff0fdd9843f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 09/41] fix: RGBDImages.plotly shows channels-first images
 correctly

---
 gradslam/structures/rgbdimages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 303445a..4a9513a 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -812,7 +812,8 @@ class RGBDImages(object):
                 "transition": {"duration": duration, "easing": "linear"},
             }
 
-        torch_rgb = self.rgb_image[index]
+        images = self.to_channels_last()
+        torch_rgb = images.rgb_image[index]
         if (torch_rgb.max() < 1.1).item():
             torch_rgb = torch_rgb * 255
         torch_rgb = torch.clamp(torch_rgb, min=0.0, max=255.0)
@@ -822,7 +823,7 @@ class RGBDImages(object):
         if not include_depth:
             frames = [{"data": [frame], "name": i} for i, frame in enumerate(Image_rgb)]
         else:
-            torch_depth = self.depth_image[index, ..., 0]
+            torch_depth = images.depth_image[index, ..., 0]
             scale = 10 ** torch.log10(255.0 / torch_depth.detach().max()).floor().item()
             numpy_depth = (torch_depth * scale).detach().cpu().numpy().astype("uint8")
             Image_depth = [
-- 
2.43.0


From e058463c40f433c243f378b9f27c3562b12b82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 10/41] fix: transform helpers reject malformed shapes instead
 of failing on or accepting them

---
 gradslam/geometry/geometryutils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index f594540..06ea7bd 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -219,7 +219,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
                 type(trans)
             )
         )
-    if not trans.dim() in (2, 3) and trans.shape[-2, :] == (4, 4):
+    if not (trans.dim() in (2, 3) and trans.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(trans.shape)
         )
@@ -260,7 +260,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans1)
             )
         )
-    if not trans1.dim() in (2, 3) and trans1.shape[-2, :] == (4, 4):
+    if not (trans1.dim() in (2, 3) and trans1.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans1.shape
@@ -272,7 +272,7 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
                 type(trans2)
             )
         )
-    if not trans2.dim() in (2, 3) and trans2.shape[-2, :] == (4, 4):
+    if not (trans2.dim() in (2, 3) and trans2.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input size must be N x 4 x 4 or 4 x 4. Got {} instead.".format(
                 trans2.shape
@@ -453,12 +453,12 @@ def relative_transformation(
         raise TypeError(
             "Input trans_02 type is not a torch.Tensor. Got {}".format(type(trans_02))
         )
-    if not trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4):
+    if not (trans_01.dim() in (2, 3) and trans_01.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_01.shape)
         )
-    if not trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4):
+    if not (trans_02.dim() in (2, 3) and trans_02.shape[-2:] == (4, 4)):
         raise ValueError(
             "Input must be a of the shape Nx4x4 or 4x4."
             " Got {}".format(trans_02.shape)
-- 
2.43.0


From c07847b90d649a981b09bcfd7801e0880a4ee7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 11/41] fix: inverse and composition of batched transforms use
 each transform's own translation

---
 gradslam/geometry/geometryutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 06ea7bd..806f673 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -230,7 +230,7 @@ def inverse_transfom_3d(trans: torch.Tensor):
 
     # Compute the inverse
     rmat_inv: torch.Tensor = torch.transpose(rmat, -1, -2)
-    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec)
+    tvec_inv: torch.Tensor = torch.matmul(-rmat_inv, tvec.unsqueeze(-1)).squeeze(-1)
 
     # Pack the inverse rotation and translation into tensor
     trans_inv: torch.Tensor = torch.zeros_like(trans)
@@ -290,7 +290,9 @@ def compose_transforms_3d(trans1: torch.Tensor, trans2: torch.Tensor) -> torch.T
 
     # Compute the composition
     rmat_cat: torch.Tensor = torch.matmul(rmat1, rmat2)
-    tvec_cat: torch.Tensor = torch.matmul(rmat1, tvec2) + tvec1
+    tvec_cat: torch.Tensor = (
+        torch.matmul(rmat1, tvec2.unsqueeze(-1)).squeeze(-1) + tvec1
+    )
 
     # Pack into output tensor
     trans_cat: torch.Tensor = torch.zeros_like(trans1)
-- 
2.43.0


From c283d5abf91f4c9b7a5f44886f93a749c8db7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 12/41] fix: transform_pts_3d handles points with other than
 four dimensions

---
 gradslam/geometry/geometryutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 806f673..967521e 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -354,7 +354,7 @@ def transform_pts_3d(pts_b: torch.Tensor, t_ab: torch.Tensor) -> torch.Tensor:
             t_ab.unsqueeze(0).unsqueeze(0), pts_b.unsqueeze(-1)
         ).squeeze(-1)
     else:
-        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1))
+        pts_a_homo = torch.matmul(t_ab.unsqueeze(0), pts_b.unsqueeze(-1)).squeeze(-1)
     pts_a = unhomogenize_points(pts_a_homo)
 
     return pts_a[..., :3]
-- 
2.43.0


From f63e142296bd9df577e063855dfcede72a1e3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 13/41] fix: cam2pixel accepts three-dimensional coordinates
 and checks both matrix sizes

---
 gradslam/geometry/geometryutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 967521e..0028e17 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -640,10 +640,9 @@ def cam2pixel(
     assert (
         dst_proj_src.dim() == 2
         and dst_proj_src.shape[0] == 4
-        and dst_proj_src.shape[0] == 4
+        and dst_proj_src.shape[1] == 4
     )
 
-    _, h, w, _ = cam_coords_src.shape
     pts: torch.Tensor = transform_pts_3d(cam_coords_src, dst_proj_src)
     x: torch.Tensor = pts[..., 0]
     y: torch.Tensor = pts[..., 1]
-- 
2.43.0


From 0882ad336eff794040ac3f010df03d9db9f1cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 14/41] fix: quaternion_to_rotation_matrix keeps the leading
 dimensions of its input

---
 gradslam/geometry/geometryutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 0028e17..3749790 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -195,10 +195,8 @@ def quaternion_to_rotation_matrix(quaternion: torch.Tensor) -> torch.Tensor:
             one - (txx + tyy),
         ],
         dim=-1,
-    ).view(-1, 3, 3)
+    ).view(*quaternion.shape[:-1], 3, 3)
 
-    if len(quaternion.shape) == 1:
-        matrix = torch.squeeze(matrix, dim=0)
     return matrix
 
 
-- 
2.43.0


From a788b701239c737fbc7dbe6678804b6455110d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 15/41] fix: gradients of guarded divisions in geometry helpers
 stay finite at the guarded points

---
 gradslam/geometry/geometryutils.py | 7 +++++--
 gradslam/geometry/projutils.py     | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gradslam/geometry/geometryutils.py b/gradslam/geometry/geometryutils.py
index 3749790..ad83ca9 100644
--- a/gradslam/geometry/geometryutils.py
+++ b/gradslam/geometry/geometryutils.py
@@ -71,7 +71,7 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
@@ -104,7 +104,10 @@ def quaternion_to_axisangle(quat: torch.Tensor) -> torch.Tensor:
     qy: torch.Tensor = quat[..., 1]
     qz: torch.Tensor = quat[..., 2]
     sin_sq_theta: torch.Tensor = qx * qx + qy * qy + qz * qz
-    sin_theta: torch.Tensor = torch.sqrt(sin_sq_theta)
+    # Avoid the singularities of the square root and the division at no rotation
+    sin_theta: torch.Tensor = torch.sqrt(
+        torch.where(sin_sq_theta > 0.0, sin_sq_theta, torch.ones_like(sin_sq_theta))
+    )
     cos_theta: torch.Tensor = quat[..., 3]
     two_theta: torch.Tensor = 2.0 * torch.where(
         cos_theta < 0.0,
diff --git a/gradslam/geometry/projutils.py b/gradslam/geometry/projutils.py
index c02a8d6..a044a9a 100644
--- a/gradslam/geometry/projutils.py
+++ b/gradslam/geometry/projutils.py
@@ -84,7 +84,7 @@ def unhomogenize_points(pts: torch.Tensor, eps: float = 1e-6) -> torch.Tensor:
     # For points at infinity, use a scale factor of 1 (used by OpenCV
     # and by kornia)
     # https://github.com/opencv/opencv/pull/14411/files
-    scale: torch.Tensor = torch.where(torch.abs(w) > eps, 1.0 / w, torch.ones_like(w))
+    scale: torch.Tensor = 1.0 / torch.where(torch.abs(w) > eps, w, torch.ones_like(w))
 
     return scale * pts[..., :-1]
 
-- 
2.43.0


From 0b10f51d0770b124ad7713bd8a84b1395d270f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 16/41] fix: registration accepts the documented default of no
 initial transform

---
 gradslam/odometry/icputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index b7ecc42..710d9a0 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -295,13 +295,13 @@ def point_to_plane_ICP(
         raise TypeError(
             "Expected numiters to be of type int. Got {0}.".format(type(numiters))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
@@ -464,13 +464,13 @@ def point_to_plane_gradICP(
         raise TypeError(
             "Expected nu to be of type float or int; got {0}".format(type(nu))
         )
-    if initial_transform.ndim != 2:
+    if initial_transform is not None and initial_transform.ndim != 2:
         raise ValueError(
             "Expected initial_transform.ndim to be 2. Got {0}.".format(
                 initial_transform.ndim
             )
         )
-    if not (initial_transform.shape[0] == 4 and initial_transform.shape[1] == 4):
+    if initial_transform is not None and initial_transform.shape != (4, 4):
         raise ValueError(
             "Expected initial_transform.shape to be (4, 4). Got {0}.".format(
                 initial_transform.shape
-- 
2.43.0


From f2bf6f6eb12c52d361a019e60db01f2d14d83f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 17/41] fix: registration with zero iterations returns the
 initial transform

---
 gradslam/odometry/icputils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 710d9a0..80396d7 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -322,6 +322,7 @@ def point_to_plane_ICP(
     )
     src_pc = transform_pointcloud(src_pc[0], initial_transform).unsqueeze(0)
     transform = initial_transform
+    chamfer_indices = None
 
     for it in range(numiters):
         # Form the linear system and compute the residual
@@ -492,6 +493,7 @@ def point_to_plane_gradICP(
     )
     src_pc = transform_pointcloud(src_pc[0], initial_transform).unsqueeze(0)
     transform = initial_transform
+    chamfer_indices = None
 
     for it in range(numiters):
         # Form the linear system and compute the residual
-- 
2.43.0


From 59bb0e67cf90fe0391f0116bd0473c89db01926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 18/41] fix: a damping coefficient given as a tensor keeps its
 gradient in registration

---
 gradslam/odometry/icputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 80396d7..98f2cd5 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -312,7 +312,7 @@ def point_to_plane_ICP(
     tgt_normals = tgt_normals.contiguous()
     dtype = src_pc.dtype
     device = src_pc.device
-    damp = torch.tensor(damp, dtype=dtype, device=device)
+    damp = torch.as_tensor(damp, dtype=dtype, device=device)
 
     # include initial transform
     initial_transform = (
@@ -482,7 +482,7 @@ def point_to_plane_gradICP(
     tgt_normals = tgt_normals.contiguous()
     dtype = src_pc.dtype
     device = src_pc.device
-    damp = torch.tensor(damp, dtype=dtype, device=device)
+    damp = torch.as_tensor(damp, dtype=dtype, device=device)
     lambda_min = 1 / lambda_max
 
     # include initial transform
-- 
2.43.0


From 97c0c83bfab43f99a840257ed40048888576ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 19/41] fix: the damping matrix of the linear solver has the
 dtype of the system

---
 gradslam/odometry/icputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 98f2cd5..2f0a9f1 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -83,7 +83,7 @@ def solve_linear_system(
 
     # Construct the normal equations
     A_t = torch.transpose(A, 0, 1)
-    damp_matrix = torch.eye(A.shape[1]).to(A.device)
+    damp_matrix = torch.eye(A.shape[1], dtype=A.dtype, device=A.device)
     At_A = torch.matmul(A_t, A) + damp_matrix * damp
 
     # Solve the normal equations (for now, by inversion!)
-- 
2.43.0


From 1df51d911ccd742ade6005bdb15d68e0a64608b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 20/41] fix: downsample_rgbdimages handles channels-first
 images

---
 gradslam/odometry/icputils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gradslam/odometry/icputils.py b/gradslam/odometry/icputils.py
index 2f0a9f1..484b767 100644
--- a/gradslam/odometry/icputils.py
+++ b/gradslam/odometry/icputils.py
@@ -652,6 +652,8 @@ def downsample_rgbdimages(rgbdimages: RGBDImages, ds_ratio: int) -> Pointclouds:
 
     B = len(rgbdimages)
 
+    rgbdimages = rgbdimages.to_channels_last()
+
     # Valid depths mask
     mask = rgbdimages.valid_depth_mask.squeeze(-1)[..., ::ds_ratio, ::ds_ratio]
 
-- 
2.43.0


From 358206c4d326c9f83dcd20634faae3de68131365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 21/41] fix: registration providers start from an identity in
 the dtype of the points

---
 gradslam/odometry/gradicp.py | 3 ++-
 gradslam/odometry/icp.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gradslam/odometry/gradicp.py b/gradslam/odometry/gradicp.py
index acc3baa..ce71822 100644
--- a/gradslam/odometry/gradicp.py
+++ b/gradslam/odometry/gradicp.py
@@ -99,7 +99,8 @@ class GradICPOdometryProvider(OdometryProvider):
             )
 
         device = maps_pointclouds.device
-        initial_transform = torch.eye(4, device=device)
+        dtype = frames_pointclouds.points_list[0].dtype
+        initial_transform = torch.eye(4, dtype=dtype, device=device)
 
         transforms = []
         for b in range(len(maps_pointclouds)):
diff --git a/gradslam/odometry/icp.py b/gradslam/odometry/icp.py
index 02a76dd..c38fc69 100644
--- a/gradslam/odometry/icp.py
+++ b/gradslam/odometry/icp.py
@@ -78,7 +78,8 @@ class ICPOdometryProvider(OdometryProvider):
             )
 
         device = maps_pointclouds.device
-        initial_transform = torch.eye(4, device=device)
+        dtype = frames_pointclouds.points_list[0].dtype
+        initial_transform = torch.eye(4, dtype=dtype, device=device)
 
         transforms = []
         for b in range(len(maps_pointclouds)):
-- 
2.43.0


From 2f95a7155697a216200970599cefa0bb7557ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 22/41] fix: fuse_with_map without inplace does not fuse into
 the caller's map

---
 gradslam/slam/fusionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index b5d89a2..badab24 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -650,6 +650,9 @@ def fuse_with_map(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
 
+    if not inplace:
+        pointclouds = pointclouds.clone()
+
     # Fuse points (from live frame) with corresponding global map points
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
@@ -715,8 +718,6 @@ def fuse_with_map(
     new_pointclouds = Pointclouds(
         points=new_points, normals=new_normals, colors=new_colors, features=new_features
     )
-    if not inplace:
-        pointclouds = pointclouds.clone()
     pointclouds.append_points(new_pointclouds)
 
     return pointclouds
-- 
2.43.0


From ebd9f93cd0a61be94b999e25999368baed2b6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 23/41] fix: fuse_with_map rejects mismatched inputs before
 changing the map

---
 gradslam/slam/fusionutils.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index badab24..2da2d55 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -649,6 +649,24 @@ def fuse_with_map(
             raise ValueError(
                 "Pointclouds must have features (ccounts) for map fusion, but did not."
             )
+        if pointclouds.num_features != 1:
+            raise ValueError(
+                "Expected pointclouds to have exactly one feature (ccounts). Got {0}.".format(
+                    pointclouds.num_features
+                )
+            )
+        if len(rgbdimages) != len(pointclouds):
+            raise ValueError(
+                "Expected equal batch sizes for pointclouds and rgbdimages. Got {0} and {1} respectively.".format(
+                    len(pointclouds), len(rgbdimages)
+                )
+            )
+    if rgbdimages.shape[1] != 1:
+        raise ValueError(
+            "Expected rgbdimages to have sequence length of 1. Got {0}.".format(
+                rgbdimages.shape[1]
+            )
+        )
 
     if not inplace:
         pointclouds = pointclouds.clone()
-- 
2.43.0


From 3baf10b9de14e5843374649e777eb1cdedc45236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 24/41] fix: map fusion accepts channels-first frames

---
 gradslam/slam/fusionutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2da2d55..33cd35a 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -378,6 +378,7 @@ def find_similar_map_points(
             "Pointclouds must have normals for finding similar map points, but did not."
         )
 
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
 
@@ -492,7 +493,7 @@ def find_best_unique_correspondences(
         pointclouds.features_padded[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] + 1e-20
     )  # shape: [P 1]
     # compute ray dist
-    frame_points = rgbdimages.global_vertex_map[
+    frame_points = rgbdimages.to_channels_last().global_vertex_map[
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
     ray_dists = (
@@ -672,6 +673,7 @@ def fuse_with_map(
         pointclouds = pointclouds.clone()
 
     # Fuse points (from live frame) with corresponding global map points
+    rgbdimages = rgbdimages.to_channels_last()
     vertex_maps = rgbdimages.global_vertex_map
     normal_maps = rgbdimages.global_normal_map
     rgb_image = rgbdimages.rgb_image
-- 
2.43.0


From 88f54bd29d98a27a16c707590bb6d4586975303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 25/41] fix: point indices of correspondences are exact for
 maps of any size

---
 gradslam/slam/fusionutils.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 33cd35a..2d4eac9 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -4,7 +4,6 @@ from typing import Union
 import torch
 from kornia.geometry.linalg import inverse_transformation
 
-from ..geometry.geometryutils import create_meshgrid
 from ..structures.pointclouds import Pointclouds
 from ..structures.rgbdimages import RGBDImages
 from ..structures.utils import pointclouds_from_rgbdimages
@@ -272,14 +271,8 @@ def find_active_map_points(
         ],
         -1,
     )  # height, width
-    batch_size, num_points = in_plane_pos.shape[:2]
-    batch_point_idx = (
-        create_meshgrid(batch_size, num_points, normalized_coords=False)
-        .squeeze(0)
-        .to(device)
-    )
-    idx_and_plane_pos = torch.cat([batch_point_idx.long(), in_plane_pos], -1)
-    pc2im_bnhw = idx_and_plane_pos[is_in_frame]  # (?, 4)
+    # integer indices: single precision is not exact for maps of more than 2**24 points
+    pc2im_bnhw = torch.cat([is_in_frame.nonzero(), in_plane_pos[is_in_frame]], -1)
 
     if pc2im_bnhw.shape[0] == 0:
         warnings.warn("No active map points were found")
@@ -509,11 +502,11 @@ def find_best_unique_correspondences(
     )
     # unique criteria: [B, H, W, 1/ccounts, ray_dists, N]
     unique_criteria_bhwcrn = [
-        pc2im_bnhw[:, 0:1].float(),
-        pc2im_bnhw[:, 2:4].float(),
-        inv_ccounts,
-        ray_dists,
-        pc2im_bnhw[:, 1:2].float(),
+        pc2im_bnhw[:, 0:1].double(),
+        pc2im_bnhw[:, 2:4].double(),
+        inv_ccounts.double(),
+        ray_dists.double(),
+        pc2im_bnhw[:, 1:2].double(),
     ]
     unique_criteria_bhwcrn = torch.cat(unique_criteria_bhwcrn, -1)
 
-- 
2.43.0


From 8740906f728e51763d008b3ff19fa6cf0bf78440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 26/41] fix: find_active_map_points reports frames without
 poses

---
 gradslam/slam/fusionutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 2d4eac9..3f0f2c1 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -243,6 +243,11 @@ def find_active_map_points(
             )
         )
 
+    if not rgbdimages.has_poses:
+        raise ValueError(
+            "RGBDImages must have poses for finding active map points, but did not."
+        )
+
     batch_size, seq_len, height, width = rgbdimages.shape
 
     tinv = inverse_transformation(rgbdimages.poses.squeeze(1))
-- 
2.43.0


From e4dc9b6af7837cce884b7d0d4601ad1ce199b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 27/41] fix: pixels with missing depth are never matched,
 whatever the angle threshold

---
 gradslam/slam/fusionutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/fusionutils.py b/gradslam/slam/fusionutils.py
index 3f0f2c1..739ef61 100644
--- a/gradslam/slam/fusionutils.py
+++ b/gradslam/slam/fusionutils.py
@@ -391,12 +391,15 @@ def find_similar_map_points(
         pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3]
     ]
 
-    # zero normals will automatically get rejected: rgbdimages missing depth values (and pointclouds paddings)
     is_close = are_points_close(frame_points, pointclouds.points_padded, dist_th)
     is_similar = are_normals_similar(frame_normals, pointclouds.normals_padded, dot_th)
 
     mask = is_close & is_similar  # shape (B, N)
-    is_similar_mask = mask[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]]
+    # pixels with missing depth have no geometry to match
+    is_valid = rgbdimages.valid_depth_mask[
+        pc2im_bnhw[:, 0], 0, pc2im_bnhw[:, 2], pc2im_bnhw[:, 3], 0
+    ]
+    is_similar_mask = mask[pc2im_bnhw[:, 0], pc2im_bnhw[:, 1]] & is_valid
     pc2im_bnhw_similar = pc2im_bnhw[is_similar_mask]
 
     if len(pc2im_bnhw_similar) == 0:
-- 
2.43.0


From accc823c5922c7b34c9dc404a826ee47b80a9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 28/41] fix: vertex maps of double precision frames

---
 gradslam/structures/rgbdimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/structures/rgbdimages.py b/gradslam/structures/rgbdimages.py
index 4a9513a..6367fe2 100644
--- a/gradslam/structures/rgbdimages.py
+++ b/gradslam/structures/rgbdimages.py
@@ -652,7 +652,7 @@ class RGBDImages(object):
                 create_meshgrid(self.h, self.w, normalized_coords=False)
                 .view(1, 1, self.h, self.w, 2)
                 .repeat(B, L, 1, 1, 1)
-                .to(device)
+                .to(device=device, dtype=self._intrinsics.dtype)
             )
             self._pixel_pos = torch.cat(
                 [
-- 
2.43.0


From 2bd38b38b423a93ab47f0b43ae7c0f17b3b533f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 29/41] fix: a SLAM step without inplace leaves the poses of
 the caller's frame alone

---
 gradslam/slam/icpslam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index ea337f7..9834a49 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -173,6 +173,8 @@ class ICPSLAM(nn.Module):
                     type(live_frame)
                 )
             )
+        if not inplace:
+            live_frame = live_frame[:, :]  # poses are updated on a frame of our own
         live_frame.poses = self._localize(pointclouds, live_frame, prev_frame)
         pointclouds = self._map(pointclouds, live_frame, inplace)
         return pointclouds, live_frame.poses
@@ -236,8 +238,9 @@ class ICPSLAM(nn.Module):
             return live_frame.poses
 
         if self.odom in ["icp", "gradicp"]:
-            live_frame.poses = prev_frame.poses
-            frames_pc = downsample_rgbdimages(live_frame, self.dsratio)
+            initial_frame = live_frame[:, :]
+            initial_frame.poses = prev_frame.poses
+            frames_pc = downsample_rgbdimages(initial_frame, self.dsratio)
             pc2im_bnhw = find_active_map_points(pointclouds, prev_frame)
             maps_pc = downsample_pointclouds(pointclouds, pc2im_bnhw, self.dsratio)
             transform = self.odomprov.provide(maps_pc, frames_pc)
-- 
2.43.0


From 780daf92507d47c9d1fd6142185e9b314f711667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 30/41] fix: recovered poses keep the dtype of the frames

---
 gradslam/slam/icpslam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gradslam/slam/icpslam.py b/gradslam/slam/icpslam.py
index 9834a49..53f3461 100644
--- a/gradslam/slam/icpslam.py
+++ b/gradslam/slam/icpslam.py
@@ -120,13 +120,13 @@ class ICPSLAM(nn.Module):
             )
         pointclouds = Pointclouds(device=self.device)
         batch_size, seq_len = frames.shape[:2]
-        recovered_poses = torch.empty(batch_size, seq_len, 4, 4).to(self.device)
+        recovered_poses = []
         prev_frame = None
         for s in range(seq_len):
             live_frame = frames[:, s].to(self.device)
             if s == 0 and live_frame.poses is None:
                 live_frame.poses = (
-                    torch.eye(4, dtype=torch.float, device=self.device)
+                    torch.eye(4, dtype=live_frame.intrinsics.dtype, device=self.device)
                     .view(1, 1, 4, 4)
                     .repeat(batch_size, 1, 1, 1)
                 )
@@ -134,8 +134,8 @@ class ICPSLAM(nn.Module):
                 pointclouds, live_frame, prev_frame, inplace=True
             )
             prev_frame = live_frame if self.odom != "gt" else None
-            recovered_poses[:, s] = live_frame.poses[:, 0]
-        return pointclouds, recovered_poses
+            recovered_poses.append(live_frame.poses)
+        return pointclouds, torch.cat(recovered_poses, 1)
 
     def step(
         self,
-- 
2.43.0


From 34ecf6501a61a32461091791c15c448d9e0df7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 31/41] fix: ICL frames keep their own poses when the range
 does not start at the first frame

---
 gradslam/datasets/icl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index a1f5e1c..94628ba 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -320,7 +320,7 @@ class ICL(data.Dataset):
                 with open(posesfile, "r") as f:
                     len_posesfile = sum(1 for line in f)
 
-            for line_num, line in enumerate(lines):
+            for line_num, line in enumerate(lines, start):
                 line = line.strip().split()
                 msg = "incorrect reading from ICL associations"
                 if line[3][:3] != "rgb":
@@ -335,7 +335,7 @@ class ICL(data.Dataset):
                 )
 
                 if self.load_poses:
-                    if line_num * 4 > len_posesfile:
+                    if line_num * 4 + 3 > len_posesfile:
                         msg = '{0}th pose should start from line {1} of file "{2}", but said file has only {3} lines.'
                         raise ValueError(
                             msg.format(
-- 
2.43.0


From 3350c005d2ca83f7a8f8574c07f809d5f5df80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 32/41] fix: order of ICL and TUM sequences does not depend on
 directory listing order

---
 gradslam/datasets/icl.py | 2 +-
 gradslam/datasets/tum.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gradslam/datasets/icl.py b/gradslam/datasets/icl.py
index 94628ba..ae93884 100644
--- a/gradslam/datasets/icl.py
+++ b/gradslam/datasets/icl.py
@@ -245,7 +245,7 @@ class ICL(data.Dataset):
             )
             dirmsg += "| │   │   ├── rgb/\n| │   │   ├── associations.txt\n"
             dirmsg += "| │   │   └── livingRoom{0}n.gt.sim\n".format(str(i))
-        for item in os.listdir(basedir):
+        for item in sorted(os.listdir(basedir)):
             if (
                 os.path.isdir(os.path.join(basedir, item))
                 and item in valid_trajectory_dirs
diff --git a/gradslam/datasets/tum.py b/gradslam/datasets/tum.py
index 41e2a70..e4fd400 100644
--- a/gradslam/datasets/tum.py
+++ b/gradslam/datasets/tum.py
@@ -219,7 +219,7 @@ class TUM(data.Dataset):
         dirmsg += "| │   │   ├── rgb/\n| │   │   ├── accelerometer.txt\n"
         dirmsg += "| │   │   └── depth.txt\n| │   │   └── groundtruth.txt\n"
         dirmsg += "| │   │   └── rgb.txt\n| │   ├── ..."
-        for item in os.listdir(basedir):
+        for item in sorted(os.listdir(basedir)):
             if os.path.isdir(os.path.join(basedir, item)):
                 split = item.split("_")
                 if (
-- 
2.43.0


From 428c028bea78b7ac6cd0d2af5809a9b7ea7b9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 33/41] fix: Scannet scenes of different lengths are read in
 full

---
 gradslam/datasets/scannet.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 9871eb6..366f2f1 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -141,13 +141,12 @@ class Scannet(data.Dataset):
             seq_labelfiles, seq_intrinsicsfiles = [], []
             with open(seqmetapath, "r") as f:
                 lines = f.readlines()
-                if full_sequence:
-                    self.end = len(lines)
-                    self.seqlen = self.end - self.start
-                if self.seqlen > len(lines):
-                    msg = "sequence length can't be larger than dataset sequence length but it was: %r > %r"
-                    raise ValueError(msg % (self.seqlen, len(lines)))
-                lines = lines[self.start : self.end]
+                end = len(lines) if full_sequence else self.end
+                if end > len(lines) or self.start >= end:
+                    msg = "frame range can't exceed dataset sequence length but it was: [%r, %r) of %r"
+                    raise ValueError(msg % (self.start, end, len(lines)))
+                lines = lines[self.start : end]
+                self.seqlen = len(lines)
 
             for line in lines:
                 line = line.strip().split()
@@ -228,7 +227,7 @@ class Scannet(data.Dataset):
 
         color_seq, depth_seq, pose_seq, label_seq = [], [], [], []
         poses = []
-        for i in range(self.seqlen):
+        for i in range(len(color_seq_path)):
             color = np.asarray(imageio.imread(color_seq_path[i]), dtype=float)
             color = self._preprocess_color(color)
             color = torch.from_numpy(color)
-- 
2.43.0


From a81587d7f7bea219caa024f84aef71ecb8d54b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 34/41] fix: transform44 of a zero quaternion

---
 gradslam/datasets/tumutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index 156068e..f4d2de8 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -73,9 +73,10 @@ def transform44(l: tuple):
     if nq < _EPS:
         return np.array(
             (
-                (1.0, 0.0, 0.0, t[0])(0.0, 1.0, 0.0, t[1])(0.0, 0.0, 1.0, t[2])(
-                    0.0, 0.0, 0.0, 1.0
-                )
+                (1.0, 0.0, 0.0, t[0]),
+                (0.0, 1.0, 0.0, t[1]),
+                (0.0, 0.0, 1.0, t[2]),
+                (0.0, 0.0, 0.0, 1.0),
             ),
             dtype=np.float64,
         )
-- 
2.43.0


From dc47a082bcf791eecf9d1aea25014a93b2f65f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 35/41] fix: trajectories with NaN rows can be read

---
 gradslam/datasets/tumutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index f4d2de8..d8eb834 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -43,6 +43,7 @@ images to depth images.
 This script contains helpers for reading the time stamps from e.g. the "rgb.txt" file and the "depth.txt" file, 
 and joining them by finding the best matches.
 """
+import sys
 from typing import Optional
 
 import numpy as np
-- 
2.43.0


From ad83249776e8c04a83bd600bb2473b7dd1c8dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 36/41] fix: create_label_image paints with the colors of the
 palette

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index 5e2f3f2..e76fdc3 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -258,6 +258,6 @@ def create_label_image(prediction: np.ndarray, color_palette: OrderedDict):
     label_image = np.zeros(
         (prediction.shape[0], prediction.shape[1], 3), dtype=np.uint8
     )
-    for idx, color in enumerate(color_palette):
+    for idx, color in enumerate(color_palette.values()):
         label_image[prediction == idx] = color
     return label_image
-- 
2.43.0


From 8ffbd86f73ea4d4eb4dc48ed058e8184e1f43aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 37/41] fix: pointquaternion_to_homogeneous does not normalise
 its argument in place

---
 gradslam/datasets/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/datautils.py b/gradslam/datasets/datautils.py
index e76fdc3..6caac5c 100644
--- a/gradslam/datasets/datautils.py
+++ b/gradslam/datasets/datautils.py
@@ -177,7 +177,7 @@ def pointquaternion_to_homogeneous(
         )
 
     q_norm = (0.5 * (q ** 2).sum(-1)[..., None]) ** 0.5
-    q /= (
+    q = q / (
         torch.max(q_norm, torch.tensor(eps))
         if torch.is_tensor(q_norm)
         else np.maximum(q_norm, eps)
-- 
2.43.0


From 42750d3394d9cd92b20e7d1275af9e84d17efe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 38/41] fix: associations are in time order when timestamps
 have different numbers of digits

---
 gradslam/datasets/tumutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gradslam/datasets/tumutils.py b/gradslam/datasets/tumutils.py
index d8eb834..34a1d9c 100644
--- a/gradslam/datasets/tumutils.py
+++ b/gradslam/datasets/tumutils.py
@@ -214,5 +214,5 @@ def associate(
             second_keys.remove(b)
             matches.append((a, b))
 
-    matches.sort()
+    matches.sort(key=lambda match: (float(match[0]), float(match[1])))
     return matches
-- 
2.43.0


From 84dac5ed9f2f12232e48065c387a52fd6eb63ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 39/41] fix: nyu40_to_scannet20 does not relabel its argument
 in place

---
 gradslam/datasets/scannet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gradslam/datasets/scannet.py b/gradslam/datasets/scannet.py
index 366f2f1..5f110e6 100644
--- a/gradslam/datasets/scannet.py
+++ b/gradslam/datasets/scannet.py
@@ -521,6 +521,7 @@ def nyu40_to_scannet20(label):
         (36, 19),
         (39, 20),
     ]
+    label = label.copy()
     for src, tar in remapping:
         label[np.where(label == src)] = tar
     return label
-- 
2.43.0


From e393e6e2913c7429c4b3b6217fe7c3a14348d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 40/41] fix: new keys of a configuration merge have a valid
 type

---
 gradslam/config/cfgnode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index 661eda1..ef655dc 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -451,6 +451,12 @@ def _merge_a_into_b(a: CfgNode, b: CfgNode, root: CfgNode, key_list: list):
             else:
                 b[k] = v
         elif b.is_new_allowed():
+            _assert_with_logging(
+                _valid_type(v, allow_cfg_node=True),
+                "Invalid type {} for key {}; valid types = {}".format(
+                    type(v), full_key, _VALID_TYPES
+                ),
+            )
             b[k] = v
         else:
             if root.key_is_deprecated(full_key):
-- 
2.43.0


From d24abac51f6a81c15c8e27ac56c6c3d93d54f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 41/41] fix: an override list merges sub-configurations key by
 key and does not alias its values

---
 gradslam/config/cfgnode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gradslam/config/cfgnode.py b/gradslam/config/cfgnode.py
index ef655dc..7d6396c 100644
--- a/gradslam/config/cfgnode.py
+++ b/gradslam/config/cfgnode.py
@@ -231,9 +231,12 @@ class CfgNode(dict):
                 d = d[subkey]
             subkey = key_list[-1]
             _assert_with_logging(subkey in d, "Non-existent key: {}".format(full_key))
-            value = self._decode_cfg_value(v)
+            value = self._decode_cfg_value(copy.deepcopy(v))
             value = _check_and_coerce_cfg_value_type(value, d[subkey], subkey, full_key)
-            d[subkey] = value
+            if isinstance(value, CfgNode):
+                _merge_a_into_b(value, d[subkey], root, key_list)
+            else:
+                d[subkey] = value
 
     def freeze(self):
         r"""Make this `CfgNode` and all of its children immutable. """
-- 
2.43.0

