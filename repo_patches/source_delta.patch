From b60e9302e7636c303f4408fa7b666089def923af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 01/29] fix: Linear(check=True) must refuse nodes that are not
 strictly ascending

The check took the truth value of the node differences, so any non-zero
(including negative) difference passed.
---
 src/pyhipp/numerical/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/numerical/interpolate.py b/src/pyhipp/numerical/interpolate.py
index 1ce3518..27086d1 100644
--- a/src/pyhipp/numerical/interpolate.py
+++ b/src/pyhipp/numerical/interpolate.py
@@ -139,7 +139,7 @@ class Linear:
             n = len(x_nodes)
             assert x_nodes.shape == (n,)
             assert y_nodes.shape == (n,)
-            assert (x_nodes[1:] - x_nodes[:-1]).all()
+            assert (x_nodes[1:] > x_nodes[:-1]).all()
         assert len(x_nodes) >= 2
 
         self._x_nodes = x_nodes
-- 
2.43.0


From 1e615498bf0c0f13bf0fc93d8badf77f729b7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 02/29] fix: FFT smoothing and tidal field fail for an odd grid
 size (inverse FFT needs the output shape)

---
 src/pyhipp/field/cubic_box/gravity.py   | 3 ++-
 src/pyhipp/field/cubic_box/smoothing.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/gravity.py b/src/pyhipp/field/cubic_box/gravity.py
index b1ee677..ce8d9b5 100644
--- a/src/pyhipp/field/cubic_box/gravity.py
+++ b/src/pyhipp/field/cubic_box/gravity.py
@@ -91,7 +91,8 @@ class TidalField:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         sm = _Gaussian(self._r_sm, mesh)
         S = _LinearShapeFn(mesh) if self._correct_shape == 'cic' \
             else _NoneShapeFn()
diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index ca5a7be..cb0b897 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -90,7 +90,8 @@ class FFTSmoothing:
 
     def run(self, field: Field):
         data, mesh = field.data, field.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=data.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
@@ -157,7 +158,8 @@ class FourierSpaceSmoothing:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
-- 
2.43.0


From da8230c4335e03c8bca4b327e6725f8eb443f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 03/29] fix: kiloparsec in the compiled base constants
 (mpc_to_m / 1e3, not * 1e3)

---
 src/pyhipp/astro/quantity/unit_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/quantity/unit_system.py b/src/pyhipp/astro/quantity/unit_system.py
index 28c4ca5..716823d 100644
--- a/src/pyhipp/astro/quantity/unit_system.py
+++ b/src/pyhipp/astro/quantity/unit_system.py
@@ -28,7 +28,7 @@ class _Constants:
     def __init__(self) -> None:
 
         self.mpc_to_m = 3.085677581491367e+22
-        self.kpc_to_m = self.mpc_to_m * 1.0e3
+        self.kpc_to_m = self.mpc_to_m / 1.0e3
         self.pc_to_m = self.mpc_to_m / 1.0e6
         self.gyr_to_s = 3.15576e+16
         self.myr_to_s = self.gyr_to_s / 1.0e3
-- 
2.43.0


From 8a53958e5f37c3924c0130dbf64f11a1773234ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 04/29] fix: EqualSpaceBins.locate for values (infinite, huge)
 whose index overflows int64, and for scalars

---
 src/pyhipp/stats/binning.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index f2b3bb7..c72354f 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -189,9 +189,8 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        ids = np.floor((x - b) / x_step).astype(np.int64)
-        np.clip(ids, -1, n_bins, out=ids)
-        return ids
+        ids = np.floor((x - b) / x_step)
+        return np.clip(ids, -1, n_bins).astype(np.int64)
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From 6b7d159c4350b8bd176104c44de235afe60f2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 05/29] fix: Bin.edges_to_centers/edges_to_widths raise with
 numpy>=2 for lists (np.array(copy=False))

---
 src/pyhipp/stats/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index c72354f..a90de67 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -71,13 +71,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
-- 
2.43.0


From 368d3b967a8b985c05c1406720cb53458ff73c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 06/29] fix: Hist1D.from_overlapped_bins returns the combined
 histogram as sub_h instead of the refined one

---
 src/pyhipp/stats/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index a90de67..06889a5 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -116,7 +116,7 @@ class Hist1D:
         h = Bin.combine_adjacent_bins(_h, sub_bins)
         
         return DataDict({'x': x, 'dx': dx, 'h': h, 
-                         'sub_e': _e, 'sub_h': h}) 
+                         'sub_e': _e, 'sub_h': _h}) 
 
         
 class Bins(abc.HasSimpleRepr, abc.IsImmutable):
-- 
2.43.0


From 2c47f142ec7c600e245ce70fb03b19dfd14c432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 07/29] fix: Group.__len__ reads a misspelt attribute (opts)

---
 src/pyhipp/group_theory/point_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/group_theory/point_group.py b/src/pyhipp/group_theory/point_group.py
index 919da09..ad382a6 100644
--- a/src/pyhipp/group_theory/point_group.py
+++ b/src/pyhipp/group_theory/point_group.py
@@ -90,7 +90,7 @@ class Group(abc.HasName, abc.HasSimpleRepr):
         return iter(self.ops)
     
     def __len__(self) -> int:
-        return len(self.opts)
+        return len(self.ops)
     
     def __getitem__(self, idx) -> Op:
         return self.ops[idx]
-- 
2.43.0


From 07a7f9f38d65aa1c0c2ea42a380c77fab74fb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 08/29] fix: dms_to_deg/hms_to_deg ignore the sign of the
 leading field for minutes and seconds

---
 src/pyhipp/astro/coords/cvt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/astro/coords/cvt.py b/src/pyhipp/astro/coords/cvt.py
index 5d6b833..9a3d12f 100644
--- a/src/pyhipp/astro/coords/cvt.py
+++ b/src/pyhipp/astro/coords/cvt.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import math
 import typing
 from typing import Self
 
@@ -6,12 +7,12 @@ def dms_to_deg(dms: str| tuple[float,float,float]) -> float:
     if isinstance(dms, str):
         dms = tuple(float(v) for v in dms.split(':'))
     d, m, s = dms
-    deg = d + m / 60. + s / 3600.
+    deg = math.copysign(1., d) * (abs(d) + m / 60. + s / 3600.)
     return deg
 
 def hms_to_deg(hms: str| tuple[float,float,float]) -> float:
     if isinstance(hms, str):
         hms = tuple(float(v) for v in hms.split(':'))
     h, m, s = hms
-    deg = (h + m / 60. + s / 3600.)*15.
+    deg = math.copysign(1., h) * (abs(h) + m / 60. + s / 3600.)*15.
     return deg
\ No newline at end of file
-- 
2.43.0


From 73c10066b2c0f18d75ab7e7575f473627fff3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 09/29] fix: Polar.rt_to_cart raises for integer positions
 (in-place division)

---
 src/pyhipp/core/dataproc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 3e4090b..9cabc63 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -30,7 +30,7 @@ class Polar:
         @x: (n,3) array-like, spatial position.
         @v: (n,3) array-like, vector to be transformed.
         '''
-        vnew_z = np.array(x)
+        vnew_z = np.array(x, dtype=float)
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
         vnew_y = np.cross(vnew_z, vnew_x)
-- 
2.43.0


From fa2aaafd9b8e5561f120c46a1adcd942bf7d03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 10/29] fix: Polar.rt_to_cart frame is not normalised at
 positions close to the origin

---
 src/pyhipp/core/dataproc/frame.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 9cabc63..05b8403 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -32,12 +32,11 @@ class Polar:
         '''
         vnew_z = np.array(x, dtype=float)
         vold_z = np.array([0,0,1])
+        vnew_z = Num.normalize(vnew_z, inplace=True)
         vnew_x = np.cross(vold_z, vnew_z)
-        vnew_y = np.cross(vnew_z, vnew_x)
-
         vnew_x = Num.normalize(vnew_x, inplace=True)
+        vnew_y = np.cross(vnew_z, vnew_x)
         vnew_y = Num.normalize(vnew_y, inplace=True)
-        vnew_z = Num.normalize(vnew_z, inplace=True)
 
         v = np.asarray(v)
         return vnew_x*v[:,[0]]+vnew_y*v[:,[1]]+vnew_z*v[:,[2]]
-- 
2.43.0


From b54a44260527af7d9c1b813cbeecabe351430fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 11/29] fix: Count of a 2-D sample without mask returns one
 number instead of one per row

---
 src/pyhipp/stats/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5501a2e..786c56c 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -107,7 +107,7 @@ class Count(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        out = x.shape[-1] if mask is None else mask.sum(-1)
+        out = np.full(x.shape[:-1], x.shape[-1]) if mask is None else mask.sum(-1)
         return np.asarray(out)
 
 
-- 
2.43.0


From 5dc7139f97f4f404b2f0a0ab02a52f439777aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 12/29] fix: StdDev (and Errorbar('mean+sd')) of an empty
 sample returns nan instead of empty_fill

---
 src/pyhipp/stats/reduction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 786c56c..dec098c 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -168,7 +168,12 @@ class StdDev(Reduce):
         if x.ndim == 2:
             x_mean = x_mean[:, None]
         dx = x - x_mean
-        return np.sqrt(mean(dx * dx, weight, mask))
+        out = np.asarray(mean(dx * dx, weight, mask))
+        sel_empty = Count()(x, mask=mask) < 1
+        out[sel_empty] = 0.
+        out = np.asarray(np.sqrt(out))
+        out[sel_empty] = self.empty_fill
+        return out
 
 
 class Quantile(Reduce):
-- 
2.43.0


From 079156e46d22a171470fb9543f6f02d0b12f003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 13/29] fix: Quantile with integer ps truncates empty_fill to
 an integer

---
 src/pyhipp/stats/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index dec098c..dc41423 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -197,7 +197,7 @@ class Quantile(Reduce):
 
         if isinstance(ps, str):
             ps = self.ps_map[ps]
-        ps = np.array(ps)
+        ps = np.array(ps, dtype=float)
 
         _empty_fill = np.empty_like(ps)
         _empty_fill[...] = empty_fill
-- 
2.43.0


From ce543f6a5a57e0290c865a61bd172368d32cbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 14/29] fix: chunk ranges of small-integer sizes wrap around

---
 src/pyhipp/core/dataproc/iter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/iter.py b/src/pyhipp/core/dataproc/iter.py
index dd4c18e..09b7004 100644
--- a/src/pyhipp/core/dataproc/iter.py
+++ b/src/pyhipp/core/dataproc/iter.py
@@ -10,7 +10,7 @@ class Chunks:
     def ranges_by_sizes(sizes: Iterable):
         b = 0
         for size in sizes:
-            e = b + size
+            e = b + int(size)
             yield b, e
             b = e
 
-- 
2.43.0


From d15f50c0cc5c8d15819e7de54e396dfc7230c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 15/29] fix: replacing a parameter of a ParamList leaves the
 old name registered

---
 src/pyhipp/astro/cosmology/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/param.py b/src/pyhipp/astro/cosmology/param.py
index eea7d33..4ed3f7f 100644
--- a/src/pyhipp/astro/cosmology/param.py
+++ b/src/pyhipp/astro/cosmology/param.py
@@ -29,7 +29,7 @@ class ParamList(HasName, HasSimpleRepr):
     
     def __setitem__(self, idx: int, param: Param) -> None:
         self._params[idx] = param
-        self._name2idx[param.name] = idx
+        self._name2idx = {p.name: i for i, p in enumerate(self._params)}
     
     def __len__(self) -> int:
         return len(self._params)
-- 
2.43.0


From a2e407474d049ea30cb5d2b30c61d3e597c194ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 16/29] fix: Bootstrap.resampled_call reads one-shot data set
 and size-limit iterables once

---
 src/pyhipp/stats/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/stats/sampling.py b/src/pyhipp/stats/sampling.py
index dff2bc7..d774540 100644
--- a/src/pyhipp/stats/sampling.py
+++ b/src/pyhipp/stats/sampling.py
@@ -23,6 +23,9 @@ class Bootstrap:
     ) -> DataDict:
 
         rng = Rng(rng)
+        dsets_in = list(dsets_in)
+        if dsets_max_sizes is not None:
+            dsets_max_sizes = list(dsets_max_sizes)
 
         dsets_out: List[Mapping] = []
         for _ in range(n_resample):
-- 
2.43.0


From bb64add156254fead68c3d978f1a861f3d561061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 17/29] fix: local kernel regression consumes an iterable of
 reductions once

---
 src/pyhipp/stats/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index e7a553d..da508b1 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -114,8 +114,9 @@ class _LocalKernelRegression(_Regression):
         std is the standard deviation of x, computed along every axes and then 
         averaged.
         '''
-        r_names = tuple(n for n, _ in m_reduction.predefined.iter(reduce))
-        r_calls = tuple(c for _, c in m_reduction.predefined.iter(reduce))
+        reduce = tuple(m_reduction.predefined.iter(reduce))
+        r_names = tuple(n for n, _ in reduce)
+        r_calls = tuple(c for _, c in reduce)
         n_rs = len(r_names)
         if kernel is not None:
             kernel = m_kernel.predefined.create(kernel)[1]
-- 
2.43.0


From 594e393fcbbe18474c42e6b1bb417ee17b68d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 18/29] fix: DataTable.row_stacked uses np.row_stack, removed
 in numpy 2

---
 src/pyhipp/core/containers/data_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index c1d3ded..8babe3a 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -185,7 +185,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return np.column_stack(list(self.values()))
 
     def row_stacked(self) -> np.ndarray:
-        return np.row_stack(list(self.values()))
+        return np.vstack(list(self.values()))
 
     def concat(self, *other: Mapping[Key, Value]) -> DataTable:
         '''
-- 
2.43.0


From c11d5f806b8af3e9ce1ba6ea0f70e919977ebd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 19/29] fix: skipping Fortran records of a dtype given as a
 numpy scalar type

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 9db155d..f816fcb 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -63,4 +63,4 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return dtype.itemsize * n
+        return np.dtype(dtype).itemsize * n
-- 
2.43.0


From 0c4c820ef5d6e1f1bcf64dfd2878449df0b89996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 20/29] fix: AttrManager.create_empty calls h5py without the
 required data

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c09126d..1829cdd 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -82,7 +82,7 @@ class AttrManager(Obj):
             if flag == 'x':
                 raise ValueError(f'Redundant key {key}')
         else:
-            self._raw.create(key, shape=shape, dtype=dtype)
+            self._raw.create(key, np.zeros(shape, dtype), dtype=dtype)
 
     def keys(self) -> KeyList:
         return KeyList(self.__keys())
-- 
2.43.0


From d5344065c7a91ed3a87ba06f066c8efc2748ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 21/29] fix: DatasetManager.what takes the length of its key
 list

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index 1829cdd..dad2296 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -231,7 +231,7 @@ class DatasetManager(Obj):
         return f'DatasetManager(keys={self.keys()})'
 
     def what(self) -> str:
-        if len(self) == 0:
+        if len(self.keys()) == 0:
             return ''
         return '[' + ', '.join(self.__keys()) + ']'
 
-- 
2.43.0


From 3143dc653efd2efa8216fa0f1009ab8193ef62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 22/29] fix: txt_to_h5 ignored d_flag when given a file name

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index 939c99e..b260109 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -16,7 +16,7 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
     '''
     if isinstance(f_out, (str, Path)):
         with File(f_out, f_flag) as _f_out:
-            txt_to_h5(f_in, _f_out, dtype)
+            txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
     dsets = np.loadtxt(f_in, dtype=dtype)
-- 
2.43.0


From 892b468a7822188529ac93a23b5f3e285b27bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 23/29] fix: HaloTheory.mass_function(mass_def='custom') must
 not modify the given impl_kw

---
 src/pyhipp/astro/cosmology/halo_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/halo_theory.py b/src/pyhipp/astro/cosmology/halo_theory.py
index f3177a8..7137862 100644
--- a/src/pyhipp/astro/cosmology/halo_theory.py
+++ b/src/pyhipp/astro/cosmology/halo_theory.py
@@ -179,7 +179,7 @@ class HaloTheory(HasSimpleRepr, IsImmutable):
             raise ValueError(f'Unknown mass_def: {mass_def}')
         
         from hmf import MassFunction
-        impl_kw |= {
+        impl_kw = impl_kw | {
             'Mmin': lgM_min + 10.0,                     # lg M, [Msun/h]
             'Mmax': lgM_max + 10.0 + dlgM * 0.001,
             'dlog10m': dlgM,
-- 
2.43.0


From bdc810a8be4a558aa6fd85fc5720c7b9924085ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 24/29] fix: Array.argsort() over the flattened array passed
 the arguments of FlatIndexArray in the wrong order

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 2ab0730..8d05222 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -49,7 +49,7 @@ class Array(HasDictRepr):
             -> Union[FlatIndexArray, IntArray]:
         out = self._impl.argsort(axis=axis, kind=kind)
         if axis is None:
-            out = FlatIndexArray(out, self.size, copy=False)
+            out = FlatIndexArray(self.size, out, copy=False)
         else:
             out = IntArray(out, copy=False)
         return out
-- 
2.43.0


From dd2fc6f63588565ab0812000df16ded497e7c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 25/29] fix: IndexArray could not be created (Shape is not
 subscriptable)

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 8d05222..0c789c7 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -126,5 +126,5 @@ class IndexArray(IntArray):
         self.shape_indexed = Shape(shape_indexed)
         
         assert self.n_dims == 2
-        assert self.shape[-1] == len(self.shape_indexed)
+        assert self._impl.shape[-1] == len(self.shape_indexed)
 
-- 
2.43.0


From d0029dc4ee4f816923812740e06cceab283948a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 26/29] fix: conversions without copy raised ValueError with
 numpy>=2 when a copy is needed

---
 src/pyhipp/core/abc.py                   | 2 +-
 src/pyhipp/core/arrays/array.py          | 2 +-
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 src/pyhipp/core/dataproc/mask.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 849b008..7fc3f09 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -120,7 +120,7 @@ class HasValue:
     def __init__(self, value: np.ndarray, copy=True, **kw) -> None:
         super().__init__(**kw)
 
-        self.value = np.array(value, copy=copy)
+        self.value = np.array(value, copy=copy or None)
 
     def set_value(self, value: np.ndarray) -> None:
         self.value[...] = value
diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 0c789c7..863127d 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -22,7 +22,7 @@ class Array(HasDictRepr):
         if isinstance(data, Array):
             data = data._impl
             
-        self._impl = np.array(data, dtype=dtype, copy=copy)
+        self._impl = np.array(data, dtype=dtype, copy=copy or None)
         
     @classmethod
     def zeros(cls, shape: Shape, dtype: DType = None, **kw) -> Array:
diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 6909bf5..5f9c15a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -44,7 +44,7 @@ class Array:
     def __as_array_one(x, copy):
         if x is None:
             return None
-        return np.array(x, copy=copy)
+        return np.array(x, copy=copy or None)
 
     
     @staticmethod
diff --git a/src/pyhipp/core/dataproc/mask.py b/src/pyhipp/core/dataproc/mask.py
index f5bc15a..3e747d7 100644
--- a/src/pyhipp/core/dataproc/mask.py
+++ b/src/pyhipp/core/dataproc/mask.py
@@ -47,7 +47,7 @@ class Mask:
     
     @staticmethod
     def on_array(mask: Any, a: np.ndarray, copy: bool = False):
-        return np.array(a[mask], copy=copy)
+        return np.array(a[mask], copy=copy or None)
         
     @staticmethod
     def on_arrays(mask: Any, 
-- 
2.43.0


From cdd5e44cea1daf0230183877bdc206c196fdd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:24 +0000
Subject: [PATCH 27/29] fix: density of a 2-D histogram at points on the cell
 edges

Histogram2D.on() located points with (lower, upper] cells although the histogram counts them in [lower, upper), the last closed. A point on
the lower limit of the range (the smallest data point, with the default range of Scatter2D) got zero density.
---
 src/pyhipp/plot/two_dim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index 30fc479..9c83a53 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -83,8 +83,11 @@ class Histogram2D(DensityEstimator2D):
     def on(self, x: np.ndarray, y: np.ndarray) -> np.ndarray:
         x_e, y_e = self.x_e, self.y_e
         n_x, n_y = len(x_e) - 1, len(y_e) - 1
-        x_id = np.searchsorted(self.x_e, x) - 1
-        y_id = np.searchsorted(self.y_e, y) - 1
+        # cells are [lower, upper), the last one closed, as in the histogram
+        x_id = np.searchsorted(x_e, x, side='right') - 1
+        y_id = np.searchsorted(y_e, y, side='right') - 1
+        x_id = x_id - np.equal(x, x_e[-1])
+        y_id = y_id - np.equal(y, y_e[-1])
         _x_id, _y_id = np.clip(x_id, 0, n_x-1), np.clip(y_id, 0, n_y-1)
         z = self.z[_x_id, _y_id]
         if self.out_of_range == 'zero':
-- 
2.43.0


From ca09572789b715ac7eed09b6d01e6df934da79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 28/29] fix: Standardize keeps sd_lb, which its representation
 lists

---
 src/pyhipp/stats/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/preprocessing.py b/src/pyhipp/stats/preprocessing.py
index 143e059..05d4215 100644
--- a/src/pyhipp/stats/preprocessing.py
+++ b/src/pyhipp/stats/preprocessing.py
@@ -39,6 +39,7 @@ class Standardize(Preprocess):
         
         self.mean = mean
         self.sd = sd
+        self.sd_lb = sd_lb
         
     def _impl_forward(self, x: np.ndarray) -> np.ndarray:
         return (x - self.mean) / self.sd
-- 
2.43.0


From a8f8713a15d7ff4c24cf404929f35b177130c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 29/29] fix: BinaryFile lists existing members in its
 representation

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index f816fcb..54c9b14 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -12,7 +12,7 @@ import numpy as np
 
 class BinaryFile(HasDictRepr):
 
-    repr_attr_keys = ('file', 'file_path', 'mode', 'open_kw')
+    repr_attr_keys = ('_file', '_file_path', '_mode', '_open_kw')
 
     def __init__(self, file_path: Path, mode='rb', open_kw={}):
 
-- 
2.43.0

