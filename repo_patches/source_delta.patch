From c32357e5809ba17e5a255bfc544085caab2a6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 01/39] fix: use np.isin, as np.in1d was removed from numpy

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 9fec83c9d02d99fde2e1b5efc9daecedb264a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 02/39] fix: any_overlap used a MaskGroup attribute which does
 not exist

---
 graphicle/select.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..4277226 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,8 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations(masks.values(), 2)
+    return any(np.any(mask_1 & mask_2) for mask_1, mask_2 in combos)
 
 
 def centroid_prune(
-- 
2.43.0


From ce4a24f7f023ab3bbc25007de68ee19685259a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 03/39] fix: hard_descendants marked the wrong parton when
 given a target

---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 4277226..e5ecc1f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From b25bf18574765f8c88977cdf1c00cbe88bae6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 04/39] fix: hierarchy moved the parent parton out of latent
 and into its leaves

---
 graphicle/select.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index e5ecc1f..30e6a1f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -867,12 +867,7 @@ def _make_tree(
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From 0befbf343c55bf254e8549da5abc59956189ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 05/39] fix: copying or subscripting AdjacencyList dropped the
 edge weights

---
 graphicle/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..4372ec4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2477,11 +2477,14 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights
+        if weights.size > 0:
+            weights = weights[key]
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 16f39ac1cea914052051cb778e8838421b7d0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 06/39] fix: arg_closest overwrote the cached rapidity of its
 candidates

---
 graphicle/select.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 30e6a1f..3b6baed 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1220,11 +1220,10 @@ def arg_closest(
     with gcl.calculate._thread_scope(num_threads):
         cost_matrix = gcl.calculate._assignment_cost(
             focus.rapidity,
-            candidate.rapidity,
+            candidate.rapidity.copy(),  # kernel overwrites this buffer
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 6dbbee1396b516b678c40e54f74eabc72b2107a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/39] fix: eta and combined_mass altered warning filters
 shared by all threads

---
 graphicle/calculate.py | 7 +++----
 graphicle/data.py      | 3 +--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..f0003be 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -12,7 +12,6 @@ import itertools as it
 import math
 import operator as op
 import typing as ty
-import warnings
 
 import numba as nb
 import numpy as np
@@ -180,11 +179,11 @@ def combined_mass(
     # mass given as minkowski norm of (weighted) momenta
     minkowski = np.array([-1.0, -1.0, -1.0, 1.0])
     mass: float
-    with warnings.catch_warnings():  # catch when np.sqrt warns < 0 input
-        warnings.filterwarnings("error")
+    # catch when np.sqrt flags < 0 input
+    with np.errstate(divide="raise", over="raise", invalid="raise"):
         try:
             mass = np.sqrt((data.sum(axis=0) ** 2) @ minkowski)
-        except RuntimeWarning:
+        except FloatingPointError:
             mass = 0.0  # if sqrt(pmu^2) < 0, return mass as 0.0
     return mass
 
diff --git a/graphicle/data.py b/graphicle/data.py
index 4372ec4..e651b15 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1532,8 +1532,7 @@ class MomentumArray(base.ArrayBase):
         -----
         Infinite values for particles travelling parallel to beam axis.
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             arr = np.arctanh(self.z / self._spatial_mag)
         return arr.reshape(-1)
 
-- 
2.43.0


From 7b7a2f92fddfa2cee6ddb5fdbb96edf571ff7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/39] fix: MomentumArray kept stale derived quantities when
 data was replaced

---
 graphicle/data.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e651b15..cde091f 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1441,7 +1441,22 @@ class MomentumArray(base.ArrayBase):
 
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
-        self._data = values  # type: ignore
+        self._data = self.__class__(values)._data
+        # derived quantities must be recalculated for the new data
+        for name in (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                continue
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From 69e223799594242711da18aae109f5b1a8859f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 09/39] fix: from_lhe_event overwrote the status codes of the
 passed event

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index cde091f..48a9906 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2346,6 +2346,7 @@ class ParticleSet(base.ParticleBase):
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
+        pcls.status = pcls.status.copy()
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
             pcls.status.data[pcls.status.data == old_code] = new_code
-- 
2.43.0


From 9c31c9631431a59d6c19d18a96e2987c5012f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 10/39] fix: comparing two AdjacencyList instances raised
 ValueError

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 48a9906..aca0a88 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,7 +242,7 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
         isinstance(other, np.ndarray) and (other.dtype == np.void)
-- 
2.43.0


From 5e9a1b0606c0143d882c5cb572794c7a7081ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 11/39] fix: order of inverted color_singlets depended on the
 hash seed

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 3b6baed..75fda67 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1054,7 +1054,7 @@ def color_singlets(
             singlets.append(names)
     if invert is True:
         members = set(it.chain.from_iterable(singlets))
-        outcasts = set(keys).symmetric_difference(members)
+        outcasts = (key for key in keys if key not in members)
         return list(zip(outcasts))
     return singlets
 
-- 
2.43.0


From 8fe55cb27686c44aa0770552b42fbc144462345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 12/39] fix: arg_closest failed for candidates with zero spread

---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index f0003be..4c0e6d7 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -926,12 +926,14 @@ def _assignment_cost(
     pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 703ffca3c96be256df00ed8f0f777dcdb9d35c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 13/39] fix: hierarchy lost partons produced alongside
 intermediate states

---
 graphicle/select.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index 75fda67..d48effb 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -822,6 +822,10 @@ def hierarchy(
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
     masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    # partons with neither hard parents nor hard children
+    for name in names:
+        if name not in keys and name not in vals:
+            masks[name] = desc[name]
     return masks
 
 
-- 
2.43.0


From 51f6695087a9414790f26206da9ebd60f1768dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 14/39] fix: shift_eta did not reach the requested
 pseudorapidity of massive sets

---
 graphicle/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index aca0a88..4554dfb 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1714,7 +1714,11 @@ class MomentumArray(base.ArrayBase):
                 converged = True
                 break
             rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            # boosts add to rapidity, so express target as a rapidity
+            pmu_sum = np.sum(pmu, axis=0)
+            pt_over_mass_t = (pmu_sum.pt / pmu_sum.mass_t).item()
+            rap_target = math.asinh(pt_over_mass_t * math.sinh(target))
+            correction = rap_target - rap_mid
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0


From ed8dc67b607c7dd48df25e3594b9a044cf3d294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 15/39] fix: ColorArray subscripted by an integer had length
 two

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 4554dfb..5cb1b3c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1850,6 +1850,7 @@ class ColorArray(base.ArrayBase):
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
 
     def __attrs_post_init__(self):
+        self._data = self._data.reshape(-1, 2)
         self.dtype = np.dtype(
             list(zip(("color", "anticolor"), it.repeat("<i4")))
         )
-- 
2.43.0


From 2eed45df806ffda9690c3b430f074c14727402cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 16/39] fix: in-place arithmetic on MomentumArray left stale
 derived quantities

---
 graphicle/data.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5cb1b3c..a4d7107 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1427,7 +1427,15 @@ class MomentumArray(base.ArrayBase):
         return self._data.__array_interface__
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-        return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
+        modified = inputs[:1] if method == "at" else kwargs.get("out", ())
+        for array in modified:
+            if isinstance(array, MomentumArray):
+                array._forget_derived()
+        result = _array_ufunc(self, ufunc, method, *inputs, **kwargs)
+        if isinstance(result, MomentumArray) and len(modified) == 1:
+            (array,) = modified
+            return array if isinstance(array, MomentumArray) else result
+        return result
 
     def __repr__(self) -> str:
         return _array_repr(self)
@@ -1441,8 +1449,14 @@ class MomentumArray(base.ArrayBase):
 
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
-        self._data = self.__class__(values)._data
-        # derived quantities must be recalculated for the new data
+        data = self.__class__(values)._data
+        self._forget_derived()
+        self._data = data
+
+    def _forget_derived(self) -> None:
+        """Discards derived quantities, so that they are recalculated.
+        Called before the data changes, such that they cannot outlive it.
+        """
         for name in (
             "_zt_pol",
             "_spatial_mag",
-- 
2.43.0


From 5d123468ce7b857ed425002b0fc3b62e41008bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 17/39] fix: comparing a MaskGroup with a MaskArray raised
 TypeError

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index a4d7107..3ece8df 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -618,7 +618,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -639,7 +639,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From db9f060b0a51b16d6141e0a024fb7054a1dad63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 18/39] fix: Graphicle without particle data printed none of
 its edges

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 3ece8df..7b71fd0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2758,6 +2758,8 @@ class Graphicle:
         headers, rows = self.particles._table_list()
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
+        if not headers:
+            rows = it.repeat((), num_rows)
         headers = headers + ("src", "dst")
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
-- 
2.43.0


From f57c3dbdfadd59ec577a9a50d0041c18e085546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 19/39] fix: structured colors given with fields in another
 order were swapped

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 7b71fd0..27930ab 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -119,6 +119,7 @@ _MOMENTUM_MAP = _map_invert(
 _MOMENTUM_ORDER = tuple("xyze")
 _EDGE_MAP = _map_invert({"src": {"in", "src"}, "dst": {"out", "dst"}})
 _EDGE_ORDER = ("src", "dst")
+_COLOR_ORDER = ("color", "anticolor")
 
 
 class MomentumElement(ty.NamedTuple):
@@ -428,6 +429,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif (num_cols == 2) and (set(names) == set(_COLOR_ORDER)):
+                values = values[list(_COLOR_ORDER)]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From f7db6851bd2c157a4514deb6a25d072e39dca06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 20/39] fix: soft_hard_axis returned the latitude of the axis
 instead of its inclination

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From 2b043b473a8fa89455a8d738e956c62b825ba809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 21/39] fix: fastjet_clusters failed for integer exponents
 other than -1, 0 and 1

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index d48effb..742029f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -144,7 +144,7 @@ def fastjet_clusters(
         algo = fj.kt_algorithm
     else:
         algo = fj.genkt_algorithm
-        extra_param = (p_val,)
+        extra_param = (float(p_val),)
     jet_def = fj.JetDefinition(algo, radius, *extra_param)
     sequence = fj.ClusterSequence(pmu_ak, jet_def)
     jets = sequence.inclusive_jets(pt_cut)
-- 
2.43.0


From 06fc45c4afb475cd76a681fcfa232f04e25fbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 22/39] fix: fastjet_clusters raised TypeError for a top_k
 which is not a number

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 742029f..239dd79 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -127,7 +127,7 @@ def fastjet_clusters(
         raise ValueError("pt_cut must be non-negative.")
     if radius < 0.0:
         raise ValueError("radius must be non-negative.")
-    if (top_k is not None) and ((top_k < 1) or (not isinstance(top_k, int))):
+    if (top_k is not None) and ((not isinstance(top_k, int)) or (top_k < 1)):
         raise ValueError(
             "top_k must be an integer with a value greater than zero."
         )
-- 
2.43.0


From 4071b97aae173cc5c5db71a0ce66fa4c21760622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 23/39] fix: reductions over axis=-1 of columns with several
 components were refused

---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 27930ab..045bb44 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -230,7 +230,10 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        axis = kwargs.get("axis", None)
+        if axis == -1:
+            axis = instance._data.ndim - 1
+        if not result.shape or axis == 1:
             return result
         return class_type(result)
 
-- 
2.43.0


From 2e1a4ced07727587621858f6564a841df35e6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 24/39] fix: comparing momenta, colors or edges with a
 structured array was refused

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 045bb44..aefc8e1 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -249,7 +249,7 @@ def _array_eq_prep(
     if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From d73e48a70167908f3615a1101e91457aef4ede9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 25/39] fix: index() of the data structures gave 0, or raised,
 for rows elsewhere

---
 graphicle/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/base.py b/graphicle/base.py
index 101f1d3..b3b176e 100644
--- a/graphicle/base.py
+++ b/graphicle/base.py
@@ -147,6 +147,12 @@ class ArrayBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
     def __bool__(self) -> bool:
         """Truthy returns ``False`` if no elements, ``True`` otherwise."""
 
+    def index(self, value: ty.Any, *args: int) -> int:
+        """Position of the first row equal to ``value``. Raises a
+        ``ValueError`` if there is none.
+        """
+        return tuple(self).index(value, *args)
+
     @abstractmethod
     def __array__(self) -> AnyVector:
         """Numpy array representation of the data."""
-- 
2.43.0


From caa487a42a9554d58f94526151be42cadd303fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 26/39] fix: MaskGroup accepted unknown aggregation operations

---
 graphicle/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index aefc8e1..26f8a4c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -724,7 +724,9 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
     )
     _agg_op: AggStringLiterals = field(
         default="and",
-        converter=lambda x: x.value if isinstance(x, MaskAggOp) else x,
+        converter=lambda x: MaskAggOp(
+            x.lower() if isinstance(x, str) else x
+        ).value,
     )
 
     @property
-- 
2.43.0


From e81c15a6e1a12ecf6ea5e9b0e6c19dad2d008da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 27/39] fix: MaskGroup.flatten treated unknown values of how as
 rise

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 26f8a4c..ea9f26b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -977,6 +977,8 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
             at the top level.
         """
 
+        if how not in ("rise", "agg", "leaves"):
+            raise ValueError("how must be either 'rise', 'agg', or 'leaves'.")
         if how == "leaves":
             from graphicle.select import leaf_masks
 
-- 
2.43.0


From 8101e420cb8210d164381087fbfc45bc021bf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 28/39] fix: jaccard_distance ignored excess elements of masks
 of unequal length

---
 graphicle/calculate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 4c0e6d7..e24f560 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -908,6 +908,10 @@ def jaccard_distance(
         mask_1 = mask_1.data
     if not isinstance(mask_2, np.ndarray):
         mask_2 = mask_2.data
+    if not len(mask_1) == len(mask_2) == len(
+        mask_1 if weights is None else weights
+    ):
+        raise ValueError("Masks and weights must have equal length.")
     return _jaccard_distance(mask_1, mask_2, weights)
 
 
-- 
2.43.0


From ad21f6b0bf959a00807f8f70d203c7c435da2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 29/39] fix: PdgArray.mask ignored negative targets unless
 sign_sensitive

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index ea9f26b..ed224f4 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1235,6 +1235,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 67e3d0029e6e8da0409937a7d8e89edf4b34f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 30/39] fix: knn_adj refused as many neighbours as there are
 particles

---
 graphicle/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..c6d3470 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -133,7 +133,7 @@ def knn_adj(
     axis = 0  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
+    knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
     near = knn_idxs[:k]
     edge_weights = 1
     if weighted is True:
-- 
2.43.0


From f0805a92ffb246e1123227a0e01684d327ef5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 31/39] fix: knn_adj gave outward edges by columns where rows
 were asked for

---
 graphicle/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index c6d3470..96af907 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,11 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
     knn_idxs = np.argpartition(matrix, kth=k - 1, axis=axis)
-    near = knn_idxs[:k]
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From c3b62308748ba137e6a8228e833a6a827d336b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 32/39] fix: color_singlets named the wrong partons if a leaf
 has no outgoing parton

---
 graphicle/select.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 239dd79..1471984 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1040,12 +1040,16 @@ def color_singlets(
     triplets. This functionality *may* be added in future.
     """
     hard_mask = status.hard_mask["outgoing"]
-    masks = map(op.and_, it.repeat(hard_mask), leaves.values())
+    masks = tuple(map(op.and_, it.repeat(hard_mask), leaves.values()))
     colors_ = map(it.compress, it.repeat(color), masks)
     colors = tuple(it.chain.from_iterable(colors_))
     colored_mask = tuple(map(op.ne, it.repeat((0, 0)), colors))
     colored_only = it.compress(colors, colored_mask)
-    keys = tuple(it.compress(leaves.keys(), colored_mask))
+    # not every leaf includes an outgoing parton
+    num_outgoing = map(np.count_nonzero, map(op.attrgetter("data"), masks))
+    outgoing_keys = map(it.repeat, leaves.keys(), num_outgoing)
+    outgoing_keys = it.chain.from_iterable(outgoing_keys)
+    keys = tuple(it.compress(outgoing_keys, colored_mask))
     named_colors = tuple(zip(keys, colored_only))
     combos = it.chain(
         it.combinations(named_colors, 2), it.combinations(named_colors, 3)
-- 
2.43.0


From d79f1f722455b4ba25d0d5c36d606a70c2e7dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 33/39] fix: monte_carlo_tag took a blacklist for a whitelist
 if an empty whitelist was passed

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 1471984..b1875e9 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1370,7 +1370,7 @@ def monte_carlo_tag(
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
             list_ = np.abs(list_)
-        hard_mask = np.isin(hard_pdg_, list_, invert=(whitelist is None))
+        hard_mask = np.isin(hard_pdg_, list_, invert=bool(blacklist))
         if not np.any(hard_mask):
             raise IndexError("No partons matching filters found.")
         hard_pmu = hard_pmu[hard_mask]
-- 
2.43.0


From 35c845b9e16d89e49e42e800a2a7adbadab88702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 34/39] fix: reductions over a tuple of axes were mistaken for
 columns

---
 graphicle/data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index ed224f4..3f388de 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -230,10 +230,13 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        axis = kwargs.get("axis", None)
-        if axis == -1:
-            axis = instance._data.ndim - 1
-        if not result.shape or axis == 1:
+        ndim = instance._data.ndim
+        axis = kwargs.get("axis", 0)
+        axes = axis if isinstance(axis, tuple) else (axis,)
+        over_components = (ndim > 1) and any(
+            ax is None or ax % ndim == 1 for ax in axes
+        )
+        if not result.shape or over_components:
             return result
         return class_type(result)
 
-- 
2.43.0


From c8bf39ab3d8839c511adf33a74acd37ad77b0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 35/39] fix: boolean numpy functions of columns with several
 components failed

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 3f388de..d07b330 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -227,7 +227,8 @@ def _array_ufunc(
         # no return value
         return None
     elif isinstance(result, np.ndarray) and (result.dtype == np.bool_):
-        return MaskArray(result)
+        # a mask holds one value per row
+        return MaskArray(result) if result.ndim < 2 else result
     else:
         # one return value
         ndim = instance._data.ndim
-- 
2.43.0


From 9c46bb4e901c821a98ed92cf9ba851bb6ab292f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 36/39] fix: in-place arithmetic on edges left stale derived
 quantities

---
 graphicle/data.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d07b330..c1c66ba 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2491,7 +2491,30 @@ class AdjacencyList(base.AdjacencyBase):
         return self._data.__array_interface__
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-        return _array_ufunc(self, ufunc, method, *inputs, **kwargs)
+        modified = inputs[:1] if method == "at" else kwargs.get("out", ())
+        for array in modified:
+            if isinstance(array, AdjacencyList):
+                array._forget_derived()
+        result = _array_ufunc(self, ufunc, method, *inputs, **kwargs)
+        if isinstance(result, AdjacencyList) and len(modified) == 1:
+            (array,) = modified
+            return array if isinstance(array, AdjacencyList) else result
+        return result
+
+    def _forget_derived(self) -> None:
+        """Discards derived quantities, so that they are recalculated.
+        Called before the data changes, such that they cannot outlive it.
+        """
+        for name in (
+            "_edge_relabel",
+            "_sparse_signed",
+            "_sparse_unsigned",
+            "_sparse_csr",
+        ):
+            try:
+                delattr(self, name)
+            except AttributeError:
+                continue
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "AdjacencyList":
-- 
2.43.0


From 2a8231de10319d19d6b52f1c497b1f8e4a023e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:38 +0000
Subject: [PATCH 37/39] fix: from_spherical_uniform never gave negative z, nor
 uniform directions

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c1c66ba..15bdfe7 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1423,7 +1423,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1431,7 +1431,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From aa8f6d65024be940256dd6d7aea3ff46030665d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:38 +0000
Subject: [PATCH 38/39] fix: thrust and spherocity could return the value of
 another axis

---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index e24f560..62d2093 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -616,7 +616,8 @@ def thrust(
         jac=True,
         args=(pmu.data,),
     )
-    thrust_val = -optim.fun
+    # optim.fun may belong to another axis, if the search was cut short
+    thrust_val = -_thrust_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return thrust_val, _angles_to_axis(optim.x)
     return thrust_val
@@ -788,7 +789,8 @@ def spherocity(
         jac=True,
         args=(pmu.data,),
     )
-    sph_val = optim.fun
+    # optim.fun may belong to another axis, if the search was cut short
+    sph_val = _spherocity_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return sph_val, _angles_to_axis(optim.x)
     return sph_val
-- 
2.43.0


From b9dc9fdc7b8424b8a82e216ed41fc80b8e97fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:38 +0000
Subject: [PATCH 39/39] fix: gradient of spherocity in the inclination mixed up
 components

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 62d2093..8982207 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -683,7 +683,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0

