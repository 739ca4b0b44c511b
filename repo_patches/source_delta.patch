From 05f0e29cc4f9cfe49c8cd323d2dba7d909182ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 01/11] fix: Net.check and Mesh.check raise IndexError when row
 labels are repeated

A repeated label made the comparison of arrays of different lengths raise
numpy's broadcasting ValueError instead of the documented IndexError.
---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From f352d373c10dd09142f379433c3632f69fc17706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 02/11] fix: Settings recognizes any infinite shear or tensile
 modulus

Comparing with `is np.inf` misses float('inf') and numpy scalars: an infinite
modulus given to the constructor was silently replaced by a finite one.
---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 4d8b32faac83ad7c43efb9e39f55f3186b66f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 03/11] fix: objects built from a DataFrame own a copy of its
 attributes

The constructors are documented to copy the global attributes, but they kept a
reference to the same dictionary: changing one object's attrs changed the other's.
---
 src/fibermat/mat.py  | 2 +-
 src/fibermat/mesh.py | 2 +-
 src/fibermat/net.py  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/mat.py b/src/fibermat/mat.py
index a6880f5..ebc9bcf 100644
--- a/src/fibermat/mat.py
+++ b/src/fibermat/mat.py
@@ -144,7 +144,7 @@ class Mat(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index 63adb98..08a9336 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -120,7 +120,7 @@ class Mesh(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..0e987e7 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -130,7 +130,7 @@ class Net(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
@@ -518,7 +518,7 @@ class Stack(Net):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
-- 
2.43.0


From b116fcde6d6bf0226a9076c74cc11e381b721b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 04/11] fix: Interpolate returns the value of a single sample
 instead of NaN

---
 src/fibermat/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..17c3237 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -57,6 +57,9 @@ class Interpolate(interp1d):
             Additional keyword arguments passed to `interp1d` constructor.
 
         """
+        if len(y) == 1 or size == 1:
+            # A single sample is a constant function of time
+            kwargs["kind"] = "nearest"
         t = np.linspace(0, 1, len(y))
         f = interp1d(t, y, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
-- 
2.43.0


From 4e4068e23a5fc7dd8599dd60c765545b7f16fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 05/11] fix: Interpolate keeps components that remain infinite
 instead of turning them into NaN

---
 src/fibermat/interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 17c3237..691f68f 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -65,8 +65,10 @@ class Interpolate(interp1d):
                      bounds_error=False, fill_value=y[-1], **kwargs)
         if size is not None:
             t = np.linspace(0, 1, size)
+        # Components that remain infinite (∞ - ∞ is undefined)
+        self.inf = np.isinf(y[-1]) & np.all(np.equal(y, y[-1]), axis=0)
         # Initialize interpolation
-        super().__init__(t, f(t), axis=0,
+        super().__init__(t, np.where(self.inf, y[-1], f(t)), axis=0,
                          bounds_error=False, fill_value=y[-1], **kwargs)
         # Set attributes
         self.t = t
@@ -89,7 +91,8 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        y = np.where(self.inf, self.fill_value, super().__call__(t))
+        return y.astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0


From 81bd06d3e1f4b76dda7afdae79e6c9dd3c769d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 06/11] fix: Stack keeps the connections of the network it is
 given

---
 src/fibermat/net.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 0e987e7..2110e18 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -572,8 +572,13 @@ class Stack(Net):
         if linsol:
             # Update DataFrames
             mat.z = linsol.x
+            pairs = pd.MultiIndex.from_frame(net[[*"AB"]])
             net = Net(mat, **net.attrs)
 
+            # Keep only the connections of the given network
+            net = net[pd.MultiIndex.from_frame(net[[*"AB"]]).isin(pairs)]
+            net.reset_index(drop=True, inplace=True)
+
             # Remove nodes based on threshold distances between nodes
             mask = np.zeros(len(net))
             # : 0 if removed node
-- 
2.43.0


From 7be73040a11bcf354c4a49233cff23ea7b015ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 07/11] fix: stiffness, constraint and solve accept an empty
 mesh

---
 src/fibermat/model.py  | 13 +++++++------
 src/fibermat/solver.py |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..05a71f9 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -132,11 +132,12 @@ def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):
     # Get material data
     fiber = mat.loc[fiber]
     l = mesh.s.loc[j].values - mesh.s.loc[i].values
-    if lmin is None:
-        lmin = np.min(l)
-    if lmax is None:
-        lmax = np.max(l)
-    l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
+    if len(l):
+        if lmin is None:
+            lmin = np.min(l)
+        if lmax is None:
+            lmax = np.max(l)
+        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
 
     # Timoshenko number : Ψ² = E / G * (h / l) ^ 2
     k0 = np.pi / 4 * fiber[[*"Gbh"]].prod(axis=1).values / l
@@ -268,7 +269,7 @@ def constraint(mat, mesh, **kwargs):
     zj = mesh.z.loc[j].values
     hi = mesh.h.loc[i].values
     hj = mesh.h.loc[j].values
-    Z = (mesh.z.values + 0.5 * mesh.h.values).max()  # : upper boundary position
+    Z = np.max(mesh.z.values + 0.5 * mesh.h.values) if len(mesh) else 0.  # : upper boundary position
     i *= 2
     j *= 2
     k *= 3
diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..d9a2fa9 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -126,7 +126,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
     f_ = [f.copy()]
     F_ = [F.copy()]
     H_ = [H.copy()]
-    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]
+    Z_ = [np.max(mesh.z.values + 0.5 * mesh.h.values) if len(mesh) else 0.]
     rlambda_ = [1.0]
     mask_ = [(np.real(q - P @ x) <= tol)]
     err_ = [0]
-- 
2.43.0


From acc39c3e53cd497a513bc9de36322c535828f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 08/11] fix: vtk_fiber no longer depends on pyvista features
 that were removed

---
 src/fibermat/render.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..f9996f2 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,7 +71,9 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    # Radii must be positive and sorted in ascending order
+    radius = np.linspace(np.finfo(float).eps, 0.5, r_resolution + 1)
+    msh = pv.CylinderStructured(radius=radius,
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
 
@@ -88,9 +90,15 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    e1 = np.array([u, v, w]) / np.linalg.norm([u, v, w])
+    e3 = np.cross(e1, [0, 1, 0])
+    if not np.any(e3):
+        e3 = np.cross(e1, [-1, 0, 0])
+    e3 = e3 / np.linalg.norm(e3)
+    e2 = np.cross(e3, e1)
+    transform = np.eye(4)
+    transform[:3] = np.c_[e1, e2, e3, [x, y, z]]
+    msh.transform(transform, inplace=True)
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From a1d5d0da6eea47eb9681b06412bb4dc42005f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 09/11] fix: place exported points on their beam even if mesh
 nodes coincide

---
 src/fibermat/render.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index f9996f2..6c7e35e 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -5,7 +5,6 @@ import numpy as np
 import pyvista as pv
 from matplotlib import pyplot as plt
 from scipy.interpolate import CubicHermiteSpline
-from sklearn.neighbors import KDTree
 from tqdm import tqdm
 
 from fibermat import Mat, Net, Stack, Mesh, solve
@@ -227,12 +226,10 @@ def vtk_mesh(mat=None, mesh=None,
     def inteprolation_field(msh, i):
         # Prepare interpolation data
         fiber = by_fiber.get_group(i)
-        s = fiber.s.values[:, None]
-        x = msh["xyz"][:, [0]] * 0.9999
-        k = KDTree(s).query(x, return_distance=False).ravel()
-        s, x = s.ravel(), x.ravel()
-        # Correct indices (s_k <= x_i < s_{k+1}, k \in [-1, n])
-        k = k * (x > s[k]) + (k - 1) * (x <= s[k])
+        s = fiber.s.values
+        x = msh["xyz"][:, 0] * 0.9999
+        # Find the beam of each point, even if nodes coincide (s_k < x_i <= s_{k+1})
+        k = np.searchsorted(s, x) - 1
         # Indices containing relative distances (np.floor(j) = k)
         j = ((x - s[k]) / (s[k + 1] - s[k]))
         # Correct issues for periodic mesh
-- 
2.43.0


From beaa5ccb2bee0a9985336831bfc8a1f89816a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 10/11] fix: equilibrium rows stay active whatever the contact
 tolerance

---
 src/fibermat/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index d9a2fa9..2ba6f37 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -140,6 +140,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
             dx *= 0
             # mask = [True] * K.shape[0] + [*(C @ u >= H - tol)]
             mask = (np.real(q - P @ x) <= tol)
+            mask[:K.shape[0]] = True  # Equilibrium always holds
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
@@ -152,8 +153,8 @@ def solve(mat, mesh, packing=1., itermax=1000,
             # Calculate error
             err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])
             # Calculate evolution
-            d = np.real(q - P @ x)
-            v = np.real(dq - P @ dx)
+            d = np.real(q - P @ x)[K.shape[0]:]
+            v = np.real(dq - P @ dx)[K.shape[0]:]
 
             try:
                 # Calculate the next step
-- 
2.43.0


From 5dd01fb77ffbabe0bce24a634cef2f557f848820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 11/11] fix: pass the keyword arguments of vtk_mesh to
 vtk_fiber, as documented

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 6c7e35e..3046342 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -240,7 +240,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0

