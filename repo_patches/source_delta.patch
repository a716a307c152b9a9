From db8001604fa805e99f062c24bb162893eff6dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 01/36] fix: end shears of a pinned-pinned member follow from
 releasing both end moments

Releasing the fixed-end moments of a PP member must leave the simply
supported reactions; the correction was applied with the wrong sign.
---
 src/pycba/beam.py | 8 ++++----
 src/pycba/load.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..e800a7d 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -852,9 +852,9 @@ class Beam:
             # correction is ``(Ma + Mb)/L`` applied to the fixed-fixed CNL),
             # so the constant-EI limit is reproduced.
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF so
@@ -1607,9 +1607,9 @@ class Beam:
         if eType == 4:
             # Pinned-pinned: release both end moments (mirror _ref_nonprismatic).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF using
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 68e7929..6056cb9 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -116,9 +116,9 @@ class Load:
             ref[2] = -fm * cnl.Ma
             ref[3] = 0.5 * cnl.Ma
         elif eType == 4:  # keep only vertical, remove moments
-            ref[0] = -(cnl.Ma + cnl.Mb) / L
+            ref[0] = (cnl.Ma + cnl.Mb) / L
             ref[1] = 1.0 * cnl.Ma
-            ref[2] = (cnl.Ma + cnl.Mb) / L
+            ref[2] = -(cnl.Ma + cnl.Mb) / L
             ref[3] = 1.0 * cnl.Mb
         else:
             # no nothing if it is FF
-- 
2.43.0


From b116faedd43e0020958a9da07acae0d5fa86795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/36] fix: ignore the part of a partial UDL lying beyond the
 member

get_mbr_results used the unclipped cover, so the member diagrams did not
match the nodal loads; a load wholly off the member raised AttributeError.
---
 src/pycba/load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 6056cb9..527df8a 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -355,7 +355,7 @@ class LoadPUDL(Load):
         w = self.w
         # Check if on span, if not, return zeros
         if self.a > L:
-            return [0.0] * 4
+            return LoadCNL(Va=0.0, Ma=0.0, Vb=0.0, Mb=0.0)
         # Actual cover on span
         d = L - (a + c)
         # If cover hangs off span, adjust it
@@ -397,8 +397,9 @@ class LoadPUDL(Load):
         res = MemberResults(vals=None, n=npts)
         res.x = x
 
-        a = self.a
-        c = self.c
+        # Only the part of the load on the span counts (as in get_cnl)
+        a = min(self.a, L)
+        c = min(self.c, L - a)
         w = self.w
         b = c + a
 
-- 
2.43.0


From eb661cd9520982f655142f70342b43aca36e68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 03/36] fix: moment load on a prismatic shear-flexible member

The shear of a concentrated moment does not integrate to zero on the
released span, so the transform of the Euler-Bernoulli fixed-end moments
needs its shear rotation; the variable-GAv path already includes it.
---
 src/pycba/beam.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index e800a7d..c97b571 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -4,7 +4,7 @@ PyCBA - Beam Class definition
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
 from .types import MemberType
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1584,6 +1584,10 @@ class Beam:
             denom = 2.0 * (1.0 + phi)
             Ma = ((2.0 + phi) * cnl.Ma - phi * cnl.Mb) / denom
             Mb = (-phi * cnl.Ma + (2.0 + phi) * cnl.Mb) / denom
+            if isinstance(load, LoadML):
+                # The shear of a moment load does not integrate to zero
+                Ma -= phi * load.M / denom
+                Mb -= phi * load.M / denom
         else:
             theta0 = self._timo_theta0(load, EI, GAv, L)
             Kth = np.linalg.inv(self._timo_flexibility(EI, GAv, L))
-- 
2.43.0


From 1c9f4f580d95e073c4664f06888642f68ac53710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 04/36] fix: values at the left end of the beam are not the
 closure stations

---
 src/pycba/results.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..a0c5069 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -314,11 +314,13 @@ class BeamResults:
             de-duplicated first; at a step in the shear (a support or point
             load) the left-hand value is returned.
         """
-        res = self.results
-        ux, uidx = np.unique(res.x, return_index=True)
+        # The closure stations at each member's ends carry no load effects
+        ux, uidx = np.unique(
+            np.concatenate([m.x[1:-1] for m in self.vRes]), return_index=True
+        )
         out: Dict[str, float] = {}
         for a in attrs:
-            vals = np.asarray(getattr(res, a))
+            vals = np.concatenate([getattr(m, a)[1:-1] for m in self.vRes])
             out[a] = float(np.interp(float(x), ux, vals[uidx]))
         return out
 
@@ -784,7 +786,14 @@ class Envelopes:
     def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
         """Return the de-duplicated station coordinates and their indices."""
 
-        return np.unique(self.x, return_index=True)
+        # The closure stations at each member's ends carry no load effects
+        interior, start = [], 0
+        for member in self.vResults[0].vRes:
+            interior.append(np.arange(start + 1, start + len(member.x) - 1))
+            start += len(member.x)
+        interior = np.concatenate(interior)
+        unique_x, unique_index = np.unique(self.x[interior], return_index=True)
+        return unique_x, interior[unique_index]
 
     def at(
         self,
-- 
2.43.0


From dfc15f19adc58f1aed39782864aefe7b2a8d53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 05/36] fix: summing envelopes superimposes the coincident
 effects

---
 src/pycba/results.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index a0c5069..e4a3456 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -744,6 +744,12 @@ class Envelopes:
         self.Mmax = np.add(self.Mmax, env.Mmax)
         self.Mmin = np.add(self.Mmin, env.Mmin)
 
+        # Coincident effects superimpose along with the extremes they accompany
+        self.Vco_Mmax = np.add(self.Vco_Mmax, env.Vco_Mmax)
+        self.Vco_Mmin = np.add(self.Vco_Mmin, env.Vco_Mmin)
+        self.Mco_Vmax = np.add(self.Mco_Vmax, env.Mco_Vmax)
+        self.Mco_Vmin = np.add(self.Mco_Vmin, env.Mco_Vmin)
+
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
 
-- 
2.43.0


From 503f2ae74d4b8b152ae732f1e6adf1d33f950ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 06/36] fix: reaction history dropped by a mismatched merge is
 not refilled by a later one

---
 src/pycba/results.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index e4a3456..80adff5 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -424,6 +424,7 @@ class Envelopes:
         self.npts = len(self.x)
         self.nres = len(vResults)
         self.nsup = len(vResults[0].R)
+        self._history_kept = True
 
         (
             self.Vmax,
@@ -549,6 +550,7 @@ class Envelopes:
             A :class:`pycba.results.Envelopes` object of zero-valued envelopes.
         """
         zero_env = deepcopy(env)
+        zero_env._history_kept = True
         zero_env.Vmax = np.zeros(env.npts)
         zero_env.Vmin = np.zeros(env.npts)
         zero_env.Mmax = np.zeros(env.npts)
@@ -701,7 +703,10 @@ class Envelopes:
         self.Rmaxval = np.maximum(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.minimum(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        self._history_kept = (
+            self._history_kept and env._history_kept and self.nres == env.nres
+        )
+        if self._history_kept:
             self.Rmax = np.maximum(self.Rmax, env.Rmax)
             self.Rmin = np.minimum(self.Rmin, env.Rmin)
         else:
@@ -753,7 +758,10 @@ class Envelopes:
         self.Rmaxval = np.add(self.Rmaxval, env.Rmaxval)
         self.Rminval = np.add(self.Rminval, env.Rminval)
 
-        if self.nres == env.nres:
+        self._history_kept = (
+            self._history_kept and env._history_kept and self.nres == env.nres
+        )
+        if self._history_kept:
             self.Rmax = np.add(self.Rmax, env.Rmax)
             self.Rmin = np.add(self.Rmin, env.Rmin)
         else:
-- 
2.43.0


From ad2dfaa61e0269bc2ccf0e7803a9ef1a67fe30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 07/36] fix: adding a load does not change the load matrix the
 caller passed in

---
 src/pycba/beam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index c97b571..73a7040 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -319,7 +319,8 @@ class Beam:
         None
         """
 
-        self.LM.append(load)
+        # Rebind rather than append: the list may belong to the caller
+        self.LM = [*self.LM, load]
         self.no_loads = len(self.LM)
 
     def _set_loads(self):
-- 
2.43.0


From bfdc4506c1803f2601166224e5806d3a8cba6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 08/36] fix: a trapezoidal load given a cover but no start is
 rejected, not applied over the whole member

---
 src/pycba/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..7b4bceb 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -397,6 +397,8 @@ class BeamAnalysis:
         """
         if a is not None and c is None:
             raise ValueError("If 'a' is specified, 'c' must also be provided")
+        if c is not None and a is None:
+            raise ValueError("If 'c' is specified, 'a' must also be provided")
         if a is not None:
             load = [i_member, 5, w1, w2, a, c]
         else:
-- 
2.43.0


From 113574a8d53411992e03dc6a93dad562c6a8ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 09/36] fix: a load matrix entry of unknown type is rejected,
 not silently ignored

---
 src/pycba/load.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 527df8a..50bb484 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -1117,6 +1117,8 @@ def parse_LM(LM: LoadMatrix) -> List[Load]:
             # [k0, k1, k2, ...] in increasing powers of x.
             kappa = load[2:]
             loads.append(LoadIC(span, kappa))
+        else:
+            raise ValueError(f"Unknown load type {ltype!r} in load {load}")
     return loads
 
 
-- 
2.43.0


From feeef3d33d4a6c4dbfe1750d2ddf53e14e7c9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 10/36] fix: a query just beyond a member boundary does not
 blend in the previous member's end value

---
 src/pycba/results.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index 80adff5..f033243 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -28,6 +28,20 @@ def _shear_point_offset(L: float) -> float:
     return _SHEAR_POINT_REL_OFFSET * L
 
 
+def _interp_stations(x: float, xs: np.ndarray, vals: np.ndarray) -> float:
+    """
+    Interpolate station values at ``x``, taking the left-hand value at a station
+    coordinate repeated by a member boundary.  Between two stations both values
+    come from the same member, so a step at the boundary is never blended.
+    """
+    # Guard against round-off between the two coordinates of a boundary
+    xs = np.maximum.accumulate(xs)
+    i = np.searchsorted(xs, x)
+    if i < len(xs) and xs[i] == x:
+        return float(vals[i])
+    return float(np.interp(x, xs, vals))
+
+
 class BeamResults:
     """
     BeamResults Class for processing and containing the results for each member
@@ -310,18 +324,15 @@ class BeamResults:
         -------
         dict
             Each requested attribute mapped to its interpolated value at ``x``.
-            The station array repeats span-boundary coordinates, so it is
-            de-duplicated first; at a step in the shear (a support or point
-            load) the left-hand value is returned.
+            The station array repeats span-boundary coordinates; at such a step
+            (a support) the left-hand value is returned.
         """
         # The closure stations at each member's ends carry no load effects
-        ux, uidx = np.unique(
-            np.concatenate([m.x[1:-1] for m in self.vRes]), return_index=True
-        )
+        xs = np.concatenate([m.x[1:-1] for m in self.vRes])
         out: Dict[str, float] = {}
         for a in attrs:
             vals = np.concatenate([getattr(m, a)[1:-1] for m in self.vRes])
-            out[a] = float(np.interp(float(x), ux, vals[uidx]))
+            out[a] = _interp_stations(float(x), xs, vals)
         return out
 
     def deflection_curve(self):
@@ -797,17 +808,15 @@ class Envelopes:
 
         return Envelopes.combine([self, other], mode="sum")
 
-    def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
-        """Return the de-duplicated station coordinates and their indices."""
+    def _interior_index(self) -> np.ndarray:
+        """Return the indices of the evaluation (non-closure) stations."""
 
         # The closure stations at each member's ends carry no load effects
         interior, start = [], 0
         for member in self.vResults[0].vRes:
             interior.append(np.arange(start + 1, start + len(member.x) - 1))
             start += len(member.x)
-        interior = np.concatenate(interior)
-        unique_x, unique_index = np.unique(self.x[interior], return_index=True)
-        return unique_x, interior[unique_index]
+        return np.concatenate(interior)
 
     def at(
         self,
@@ -818,9 +827,9 @@ class Envelopes:
         Return envelope values at a global coordinate by interpolation.
 
         The station array ``self.x`` repeats span-boundary coordinates (each span
-        contributes its own start and end), so this method de-duplicates the
-        stations with :func:`numpy.unique` before interpolating. It replaces the
-        manual ``idx = (np.abs(env.x - x)).argmin()`` lookup.
+        contributes its own start and end); at such a coordinate the left-hand
+        value is returned. It replaces the manual
+        ``idx = (np.abs(env.x - x)).argmin()`` lookup.
 
         Parameters
         ----------
@@ -837,11 +846,12 @@ class Envelopes:
             at ``x``.
         """
 
-        unique_x, unique_index = self._unique_x()
+        interior = self._interior_index()
+        xs = self.x[interior]
         out: Dict[str, float] = {}
         for attr in attrs:
             values = np.asarray(getattr(self, attr))
-            out[attr] = float(np.interp(float(x), unique_x, values[unique_index]))
+            out[attr] = _interp_stations(float(x), xs, values[interior])
         return out
 
     def to_dataframe(self, attrs: Tuple[str, ...] = ("Mmax", "Mmin", "Vmax", "Vmin")):
-- 
2.43.0


From 819a58cbf60732fd9616fe48d22aa159e0f46033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 11/36] fix: the model built for a load case keeps the
 template's elastic foundation

---
 src/pycba/load_cases.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..049cadf 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -868,6 +868,7 @@ def build_pycba_model(
         eletype=list(beam.mbr_eletype),
         D=list(beam.prescribed_displacements),
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(getattr(beam, "mbr_kf", [])) or None,
     )
 
 
-- 
2.43.0


From 5635b95a0d970e69a040a6b2a9ef1de053654e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 12/36] fix: modal analysis includes the stiffness of an
 elastic foundation

---
 src/pycba/modal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5b0593a..0a733f3 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 from typing import Optional, Union, Sequence
 import numpy as np
 from scipy.linalg import eigh
+from .foundation import _k_found
 from .section import SectionEI
 
 
@@ -244,6 +245,8 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
         Li = beam.mbr_lengths[i]
         h = Li / nseg
         ke = _k_ebeam(EIi, h)
+        if beam.mbr_kf[i] is not None:
+            ke = ke + _k_found(float(beam.mbr_kf[i]), h)
         me = _m_consistent(mass_list[i], h)
         base = i * nseg
         for s in range(nseg):
-- 
2.43.0


From d48c9ed42d8a9566eadde5ad2f88cb1a9a8e1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 13/36] fix: target combinations read the evaluation stations,
 not the closure stations, at the target

---
 src/pycba/load_cases.py | 61 +++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 049cadf..9cfd2f4 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -872,6 +872,26 @@ def build_pycba_model(
     )
 
 
+def _response_attr(response: str) -> str:
+    """Result attribute named by a response key."""
+    attr = {
+        "M": "M",
+        "MOMENT": "M",
+        "V": "V",
+        "SHEAR": "V",
+        "D": "D",
+        "DEFLECTION": "D",
+        "DISPLACEMENT": "D",
+        "R": "R",
+        "ROTATION": "R",
+    }.get(response.upper())
+    if attr is None:
+        raise ValueError(
+            "response must be one of 'M', 'V', 'D'/'deflection', or " "'R'/'rotation'."
+        )
+    return attr
+
+
 def analyse_load_case(
     beam_model: Union[BeamAnalysis, Beam], load_case: LoadCase, response: str = "M"
 ) -> tuple[np.ndarray, np.ndarray]:
@@ -895,22 +915,7 @@ def analyse_load_case(
         Global station coordinates and the requested response at those stations.
     """
 
-    attr = {
-        "M": "M",
-        "MOMENT": "M",
-        "V": "V",
-        "SHEAR": "V",
-        "D": "D",
-        "DEFLECTION": "D",
-        "DISPLACEMENT": "D",
-        "R": "R",
-        "ROTATION": "R",
-    }.get(response.upper())
-    if attr is None:
-        raise ValueError(
-            "response must be one of 'M', 'V', 'D'/'deflection', or " "'R'/'rotation'."
-        )
-
+    attr = _response_attr(response)
     model = build_pycba_model(beam_model, load_case)
     model.analyze(_template_npts(beam_model))
     results = model.beam_results.results
@@ -1051,6 +1056,27 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
     return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
 
 
+def _responses_at_target(load_cases: LoadCases, x: float, response: str) -> np.ndarray:
+    """Response of each load case at one coordinate (the value just to its left
+    at a member boundary), from the evaluation stations only."""
+    attr = _response_attr(response)
+    total = float(_span_boundaries(load_cases.beam_model)[-1])
+    if x < 0.0 or x > total:
+        raise ValueError(
+            f"Target coordinate {x} lies outside the analysis range [0.0, {total}]."
+        )
+
+    if len(load_cases) == 0:
+        raise ValueError("At least one load case is required.")
+
+    values = []
+    for load_case in load_cases:
+        model = build_pycba_model(load_cases.beam_model, load_case)
+        model.analyze(_template_npts(load_cases.beam_model))
+        values.append(model.at(x, (attr,))[attr])
+    return np.array(values)
+
+
 def _make_target_combination(
     load_cases: LoadCases,
     name: str,
@@ -1076,8 +1102,7 @@ def _make_target_combination(
     else:
         raise ValueError("sense must be 'min'/'negative' or 'max'/'positive'.")
 
-    x_ref, B = load_cases.response_matrix(response=response)
-    target_values = _response_at(x_ref, B, x)
+    target_values = _responses_at_target(load_cases, x, response)
     if select_minimum:
         selected = target_values < 0.0
     else:
-- 
2.43.0


From 63ec077d0f15df4695fcdd49642df75246413ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 14/36] fix: create_ils kept the load positions of a previous
 run

---
 src/pycba/inf_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..a033073 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -67,6 +67,7 @@ class InfluenceLines:
         None.
         """
         self.vResults = []  # reset
+        self.pos = []
 
         if step is None:
             step = self.L / 100
-- 
2.43.0


From 5dcb2ddd9353b3f7aee91aad0d9d17a456596772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 15/36] fix: reaction influence lines failed on a beam with
 spring supports

---
 src/pycba/inf_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index a033073..53e3760 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -128,7 +128,7 @@ class InfluenceLines:
         # Get vector of the node locations
         node_locations = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0))
         # Link the supported DOF to the index in the BeamAnalysis reactions vector
-        idx_mask = np.zeros_like(self.ba._beam.restraints)
+        idx_mask = np.zeros(len(self.ba._beam.restraints), dtype=int)
         idx_mask[np.where(np.array(self.ba._beam.restraints) == -1)] = np.arange(
             self.ba.beam.no_fixed_restraints
         )
-- 
2.43.0


From fb27ba7597e869cbe674caa7b0ae0171a2e0166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 16/36] fix: in-place reversal left the axle spacings and
 weights unreversed

---
 src/pycba/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..e8abc52 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -71,7 +71,9 @@ class Vehicle:
 
         """
         if in_place:
-            self.axle_coords = +self.L - self.axle_coords
+            self.axs = np.copy(self.axs[::-1])
+            self.axw = np.copy(self.axw[::-1])
+            self.axle_coords = self.L - self.axle_coords[::-1]
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From 2da498848d43aaacc67932c286add55cbedfb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 17/36] fix: make_train accepts one spacing for all vehicles
 and coincident axles

---
 src/pycba/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index e8abc52..01dae22 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -196,6 +196,8 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
 
     """
 
+    if len(spacings) == 1 and len(vehicles) > 1:
+        spacings = np.full(len(vehicles) - 1, spacings[0])
     if len(vehicles) - 1 != len(spacings):
         raise ValueError("Inconsistent vehicle and spacing counts")
 
@@ -206,11 +208,9 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
     new_vehicle_spaces = np.array([])
 
     # loop through each vehicle
-    for veh in vehicles:
+    for veh, gap in zip(vehicles, [0.0, *spacings]):
         new_vehicle_axles = np.append(new_vehicle_axles, veh.axw)
-        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(veh.axs, 0, 0))
-
-    new_vehicle_spaces[new_vehicle_spaces == 0] = np.insert(spacings, 0, 0)
+        new_vehicle_spaces = np.concatenate((new_vehicle_spaces, [gap], veh.axs))
 
     return Vehicle(new_vehicle_spaces[1:], new_vehicle_axles)
 
-- 
2.43.0


From 9e0af3d5e180592942b2de9319f704dd4f4e7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 18/36] fix: a bridge analysis left its vehicle loads on the
 beam, to be counted as permanent loads by the next one

---
 src/pycba/bridge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..95a5ac0 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -254,6 +254,7 @@ class BridgeAnalysis:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
             self.ba.shear_points = None
+            self.ba.set_loads(self.static_LM)
 
         if plotflag:
             self.plot_static(pos)
@@ -438,6 +439,7 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
+            self.ba.set_loads(self.static_LM)
 
         env = Envelopes(self.vResults)
 
@@ -586,6 +588,7 @@ class BridgeAnalysis:
                 self.vResults.append(self.ba.beam_results)
         finally:
             self.ba.shear_points = None
+            self.ba.set_loads(self.static_LM)
 
         env = Envelopes(self.vResults)
 
@@ -833,6 +836,7 @@ class BridgeAnalysis:
         if own_fig:
             self._check_objects()
             self._single_analysis(pos)
+            self.ba.set_loads(self.static_LM)
             fig, axs = plt.subplots(
                 3,
                 1,
-- 
2.43.0


From de43c0b456b15efe9dfac1ea0b3a4cf94f13b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 19/36] fix: loads added to the beam after the bridge analysis
 was created were dropped

---
 src/pycba/bridge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 95a5ac0..6d1cbc6 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1347,3 +1347,5 @@ class BridgeAnalysis:
             raise ValueError("A bridge must be defined in advance")
         if not self.veh:
             raise ValueError("A vehicle must be defined in advance")
+        # The beam's own loads may have changed since it was set
+        self.static_LM = self.ba.beam.loads
-- 
2.43.0


From e5cfd2d929eb25cdca9d62f656bc106f20097e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 20/36] fix: ABAG semi-trailer tri-axle group is 22.5 t (45 t
 truck, not 53 t)

---
 src/pycba/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 01dae22..f17b24c 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -280,7 +280,7 @@ class VehicleLibrary:
         ]
 
         abag_semitrailer_aw = (
-            np.array([6, 17 / 2, 17 / 2, 22.5 / 2, 22.5 / 2, 22.5 / 3]) * 9.81
+            np.array([6, 17 / 2, 17 / 2, 22.5 / 3, 22.5 / 3, 22.5 / 3]) * 9.81
         )  # t to kN
 
         abag_semitrailer_as = [
-- 
2.43.0


From fe27a8fb8e4abae2a857b672da55a8d45129193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 21/36] fix: a vehicle keeps its own copy of its axle spacings
 and weights

---
 src/pycba/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f17b24c..5d2c67d 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -39,8 +39,8 @@ class Vehicle:
         None.
 
         """
-        self.axs = np.asarray(axle_spacings)
-        self.axw = np.asarray(axle_weights)
+        self.axs = np.array(axle_spacings)
+        self.axw = np.array(axle_weights)
 
         if len(self.axs) + 1 != len(self.axw):
             raise ValueError("Inconsistent axle spacing and weight counts")
-- 
2.43.0


From 8e47eb2b5aa2239fd7dea8272d6e21ae8d424ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 22/36] fix: the compound tendon is smooth at its second
 inflection point

---
 src/pycba/prestress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 79c5341..73c4b85 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -165,7 +165,7 @@ class CompoundParabola:
         centrelines respectively.
     c : float
         Low-point location measured from the left support centreline
-        (``b < c < L - a`` is required so the four pieces are well formed).
+        (``a < c < L - b`` is required so the four pieces are well formed).
     """
 
     e_left: float
@@ -192,7 +192,7 @@ class CompoundParabola:
         el, em, er = self.e_left, self.e_mid, self.e_right
         a1 = (a / c) * (em - el)
         a2 = (em - el) - a1
-        a4 = (b / d) * (em - er)
+        a4 = (b / (L - c)) * (em - er)
         a3 = (em - er) - a4
         # epp of each segment from sag over its half-span (sag a_i over length):
         # piece 1 [0,a] concave down, piece 2 [a,c] concave up,
-- 
2.43.0


From 01de8808ac6d8fe59737d3448de085db4359e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 23/36] fix: tendon anchorages act where the tendon begins and
 ends

---
 src/pycba/prestress.py | 43 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 73c4b85..625da08 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -347,10 +347,6 @@ def equivalent_loads(
         raise ValueError(f"expected {n} force values, got {len(F)}")
 
     LM: LoadMatrix = []
-    first_e: Optional[float] = None
-    first_F = 0.0
-    last_e: Optional[float] = None
-    last_F = 0.0
 
     for i, prof in enumerate(profiles):
         if prof is None:
@@ -382,28 +378,23 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
-        # remember tendon eccentricity AND slope at the two ends of the beam
-        if first_e is None:
-            first_e, first_F = segs[0].e1, Fi
-            first_slope = segs[0].slope_start()
-        last_e, last_F = segs[-1].e2, Fi
-        last_slope = segs[-1].slope_end()
-
-    # Anchorage actions  M = F e (couple) and V = F e' (vertical).  At the left
-    # end +F e; at the right end -F e, so the moment pair is self-equilibrating
-    # (a constant eccentricity gives the correct uniform -F e).  The vertical
-    # anchorage force is reacted directly by any support there, so it is applied
-    # only at a free tip (where it is not absorbed).
-    left_free = R[0] == 0 and R[1] == 0
-    right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if first_e is not None and abs(first_e) > _TOL:
-        LM.append([1, 4, first_F * first_e, 0.0])
-    if last_e is not None and abs(last_e) > _TOL:
-        LM.append([n, 4, -last_F * last_e, L[-1]])
-    if left_free and abs(first_slope) > _TOL:
-        LM.append([1, 2, first_F * first_slope, 0.0])
-    if right_free and abs(last_slope) > _TOL:
-        LM.append([n, 2, -last_F * last_slope, L[-1]])
+        # Anchorage actions  M = F e (couple) and V = F e' (vertical) at the two
+        # ends of the tendon.  At the left end +F e; at the right end -F e, so the
+        # moment pair is self-equilibrating (a constant eccentricity gives the
+        # correct uniform -F e).  The vertical anchorage force is reacted directly
+        # by any support there, so it is applied only where there is none.
+        if i == 0 or profiles[i - 1] is None:  # the tendon starts here
+            e, slope = segs[0].e1, segs[0].slope_start()
+            if abs(e) > _TOL:
+                LM.append([span, 4, Fi * e, 0.0])
+            if R[2 * i] == 0 and abs(slope) > _TOL:
+                LM.append([span, 2, Fi * slope, 0.0])
+        if i == n - 1 or profiles[i + 1] is None:  # the tendon ends here
+            e, slope = segs[-1].e2, segs[-1].slope_end()
+            if abs(e) > _TOL:
+                LM.append([span, 4, -Fi * e, Li])
+            if R[2 * (i + 1)] == 0 and abs(slope) > _TOL:
+                LM.append([span, 2, -Fi * slope, Li])
 
     return LM
 
-- 
2.43.0


From dfaf8d0c44f51d222765bd6c8d5ca9c86c96ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 24/36] fix: a tendon across an unsupported interior node is
 not a cantilever tendon

---
 src/pycba/prestress.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 625da08..4ccc0cc 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -353,14 +353,14 @@ def equivalent_loads(
             continue
         span = i + 1
         Li, Fi = L[i], F[i]
-        # a span with a free end node is a cantilever (tendon anchored at the tip)
-        if R[2 * i] == 0 and R[2 * i + 1] == 0:
-            cant = "left"
-        elif R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
-            cant = "right"
-        else:
-            cant = None
-        segs = prof.segments(Li, cant)
+        segs = prof.segments(Li, _cantilever_side(R, i, n))
+        # a tendon kink at an unsupported node between two spans acts on the beam
+        start_slope = segs[0].slope_start()
+        if i > 0 and profiles[i - 1] is not None and R[2 * i] == 0:
+            P = Fi * start_slope - F[i - 1] * end_slope
+            if abs(P) > _TOL:
+                LM.append([span, 2, P, 0.0])
+        end_slope = segs[-1].slope_end()
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
         for k, s in enumerate(segs):
@@ -408,9 +408,10 @@ def _eval_e(segs: List[_Seg], x: float) -> float:
 
 
 def _cantilever_side(R, i, n):
-    if R[2 * i] == 0 and R[2 * i + 1] == 0:
+    """Side of span ``i`` of ``n`` that is a free end of the beam, if any."""
+    if i == 0 and R[0] == 0 and R[1] == 0:
         return "left"
-    if R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
+    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
         return "right"
     return None
 
-- 
2.43.0


From 54106820e50a5471d3ab074936e9bc288e47c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 25/36] fix: the first element of a span has that span's
 rigidity in the nonlinear analysis

---
 src/pycba/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..145952a 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -636,7 +636,7 @@ class NonlinearBeamAnalysis:
         self.support_coords = np.concatenate(([0.0], np.cumsum(self.span_L)))
 
         # Per-element / per-node properties
-        self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        self.elem_EI = self.span_EI[self.node_to_span[1:]]
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
         self.node_gamma_y = self.node_My / self.node_Mp
-- 
2.43.0


From a8f2e24ec0609643bca3c49358a6c9bb6a170c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 26/36] fix: the moment at a fixed start has the sign of the
 other moments in the nonlinear analysis

---
 src/pycba/nonlinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 145952a..ad0150b 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -778,7 +778,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             fe = k @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]
             moments[i + 1] = fe[3]
         return moments
 
@@ -789,7 +789,7 @@ class NonlinearBeamAnalysis:
             d = 2 * i
             fe = self._ke_all[i] @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]
             moments[i + 1] = fe[3]
         return moments
 
-- 
2.43.0


From 180d24c2488820742934dc47d411547296565530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 27/36] fix: the nonlinear mechanism test releases each hinge
 once

---
 docs/source/theory.md  |  3 ++-
 src/pycba/nonlinear.py | 17 ++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index 89c3202..c349822 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -996,7 +996,8 @@ A collapse mechanism requires enough plastic hinges to render the structure
 kinematically unstable. `PyCBA` detects this with a **rank test**: nearby hinged
 nodes are first clustered (within $2 h_{\min}$, where $h_{\min}$ is the smallest
 element length) to absorb mesh discretisation; at each clustered hinge $R = 0$ is
-set at *both* element ends, fully releasing the node as in a true mechanism; the
+set at the *owning* element end (releasing both ends would leave the rotation of
+the node itself without stiffness, whether or not a mechanism has formed); the
 test stiffness $\mathbf{K}_{\text{test}}$ is assembled with the boundary
 conditions applied; and if
 $\operatorname{rank}(\mathbf{K}_{\text{test}}) < n_{\text{dof}}$ the structure is
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index ad0150b..a576e08 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -864,19 +864,18 @@ class NonlinearBeamAnalysis:
     def _is_mechanism(self, hinged_nodes):
         """Test whether the current hinge pattern forms a collapse mechanism.
 
-        Builds a test stiffness matrix with *R* = 0 at both element ends
-        of every clustered hinge location.  If this matrix is rank-deficient
-        the structure has become a mechanism.
+        Builds a test stiffness matrix with a hinge (*R* = 0 at the owning
+        element end) at every clustered hinge location.  If this matrix is
+        rank-deficient the structure has become a mechanism.  Only one of the
+        two element ends at a node is released: releasing both would leave the
+        rotation of the node itself without stiffness.
         """
-        reps = self._cluster_hinges(hinged_nodes)
-        if len(reps) < 2:
-            return False
         R_test = np.ones((self.n_elem, 2))
-        for j in reps:
+        for j in self._cluster_hinges(hinged_nodes):
             if j > 0:
                 R_test[j - 1, 1] = 0.0
-            if j < self.n_elem:
-                R_test[j, 0] = 0.0
+            else:
+                R_test[0, 0] = 0.0
         K_test = self._assemble_from_elem_R(R_test)
         self._apply_bc_inplace(K_test)
         return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
-- 
2.43.0


From 2592d00ec2f281c1ca74d3bc1781b35fb6127d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 28/36] fix: the nonlinear analysis rejects load types it would
 ignore

---
 src/pycba/nonlinear.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index a576e08..9c56e66 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -710,7 +710,8 @@ class NonlinearBeamAnalysis:
     def _build_force_vector(self, LM: list) -> np.ndarray:
         """Build the global force vector from a pycba load matrix.
 
-        Supports UDL (type 1) and point load (type 2) entries.
+        Supports UDL (type 1) and point load (type 2) entries; any other entry
+        is rejected.
         """
         F = np.zeros(self.n_dof)
         span_starts = np.concatenate(([0.0], np.cumsum(self.span_L)))
@@ -731,6 +732,11 @@ class NonlinearBeamAnalysis:
                     F[2 * (ie + 1)] -= val * h / 2
             elif lt == 2:  # Point load
                 self._add_point_load(F, val, span_starts[i_span] + float(ld[3]))
+            else:
+                raise ValueError(
+                    f"Load type {lt} is not supported by the nonlinear analysis; "
+                    "use UDL (1) and point load (2) entries"
+                )
         return F
 
     def _add_point_load(self, F: np.ndarray, P: float, x: float):
-- 
2.43.0


From 685214f3a2908d999d5f79e2ed77ab6ac73d2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 29/36] fix: the nonlinear analysis rejects spring supports it
 would ignore

---
 src/pycba/nonlinear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 9c56e66..da88329 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -600,6 +600,11 @@ class NonlinearBeamAnalysis:
         self.total_length = float(np.sum(self.span_L))
         self.span_R = list(R)
         self.q = q
+        if any(r not in (-1, 0) for r in self.span_R):
+            raise ValueError(
+                "NonlinearBeamAnalysis supports rigid (-1) and free (0) restraints "
+                "only; spring supports are not modelled"
+            )
 
         # The Generalized Clough element assumes a constant EI per element, so
         # non-prismatic (SectionEI) members are not supported.  Reject them with
-- 
2.43.0


From 2ba22e3b3735bf2203146b77c747ad01d31ca237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 30/36] fix: the nonlinear mechanism test does not depend on
 the units

---
 src/pycba/nonlinear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index da88329..5c9932d 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -889,7 +889,10 @@ class NonlinearBeamAnalysis:
                 R_test[0, 0] = 0.0
         K_test = self._assemble_from_elem_R(R_test)
         self._apply_bc_inplace(K_test)
-        return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
+        # Scale to a unit diagonal so that the verdict does not depend on the units
+        d = np.sqrt(np.diag(K_test))
+        d[d == 0.0] = 1.0
+        return np.linalg.matrix_rank(K_test / np.outer(d, d)) < self.n_dof
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From c1c0d8039f8785386dc64f248c74d61410236af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 31/36] fix: a support shared by two spans has the plastic
 moment of the weaker span

---
 src/pycba/nonlinear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 5c9932d..e85f6f3 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -644,6 +644,11 @@ class NonlinearBeamAnalysis:
         self.elem_EI = self.span_EI[self.node_to_span[1:]]
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
+        # A support shared by two spans has the capacity of the weaker one
+        for j in np.flatnonzero(np.diff(self.node_to_span)):
+            right = self.node_to_span[j + 1]
+            self.node_Mp[j] = min(self.node_Mp[j], self.span_Mp[right])
+            self.node_My[j] = min(self.node_My[j], self.span_My[right])
         self.node_gamma_y = self.node_My / self.node_Mp
 
         # ---- Precompute element stiffness matrices (n_elem, 4, 4) ----
-- 
2.43.0


From 4216e046a38f2a49a46b6737a5817fbcb9bd11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 32/36] fix: the stability check does not depend on the units

---
 docs/source/theory.md | 4 +++-
 src/pycba/analysis.py | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index c349822..6fa4c98 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -626,7 +626,9 @@ is symmetric positive-definite
 ([Bathe, 2014](ref-bathe-2014)); a mechanism makes it singular —
 its smallest eigenvalue collapses to zero relative to the largest. `PyCBA`
 forms the symmetric eigenvalues $\lambda$ of
-$\mathbf{K}_{\mathcal{F}\mathcal{F}}$ (`numpy.linalg.eigvalsh`) and compares the
+$\mathbf{K}_{\mathcal{F}\mathcal{F}}$ (`numpy.linalg.eigvalsh`), with rotations
+scaled by the mean member length so that the verdict is independent of the
+units, and compares the
 **reciprocal condition number**
 
 $$
diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index 7b4bceb..645c438 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -527,6 +527,8 @@ class BeamAnalysis:
         eigenvalue collapses to zero relative to the largest.  The reciprocal
         condition number ``min|λ| / max|λ|`` is therefore compared against
         :attr:`_STABILITY_RCOND`; a value below it indicates a mechanism.
+        Rotations are scaled by the mean member length first, so that the
+        verdict does not depend on the units of the model.
 
         Parameters
         ----------
@@ -551,7 +553,10 @@ class BeamAnalysis:
         if not free:
             return  # fully constrained: nothing to solve, trivially stable
 
-        kff = ksysU[np.ix_(free, free)]
+        scale = np.ones(self._nDOF)
+        scale[1::2] = self._beam.no_members / self._beam.length
+        scale = scale[free]
+        kff = ksysU[np.ix_(free, free)] * np.outer(scale, scale)
         ev = np.abs(np.linalg.eigvalsh(kff))
         ev_max = ev.max()
         if ev_max == 0.0 or (ev.min() / ev_max) < self._STABILITY_RCOND:
-- 
2.43.0


From 86ae2cc62d9b4e4bb70e10b897c0b99bf05151d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 33/36] fix: label schematic dimensions in the chosen unit
 system

---
 src/pycba/render.py | 4 ++--
 src/pycba/units.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..af44ec8 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -848,7 +848,7 @@ class BeamPlotter:
             ax.text(
                 0.5 * (x0 + x1),
                 yd - 0.15 * sh,
-                f"{x1 - x0:g} m",
+                self._us.fmt_length(x1 - x0),
                 ha="center",
                 va="top",
                 color="0.35",
@@ -871,7 +871,7 @@ class BeamPlotter:
         ax.text(
             0.5 * (x0 + x1),
             yd - 0.12 * sh,
-            f"{x1 - x0:g} m",
+            self._us.fmt_length(x1 - x0),
             ha="center",
             va="top",
             color="0.45",
diff --git a/src/pycba/units.py b/src/pycba/units.py
index 616be23..6dd0d9d 100644
--- a/src/pycba/units.py
+++ b/src/pycba/units.py
@@ -92,6 +92,9 @@ class UnitSystem:
     def _val(value: str, unit: str) -> str:
         return f"{value} {unit}" if unit else value
 
+    def fmt_length(self, value: float) -> str:
+        return self._val(f"{value:g}", self.length)
+
     def fmt_force(self, value: float) -> str:
         return self._val(f"{value:g}", self.force)
 
-- 
2.43.0


From b91de924220b7404cb68c197ba407eeae6534fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 34/36] fix: draw only the part of a partial UDL that is on its
 span

---
 src/pycba/render.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index af44ec8..4916d96 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -241,9 +241,12 @@ class BeamPlotter:
             if isinstance(ld, LoadUDL):
                 dist.append(DistLoad(ld.i_span, off, off + span_len, ld.w, ld.w))
             elif isinstance(ld, LoadPUDL):
-                dist.append(
-                    DistLoad(ld.i_span, off + ld.a, off + ld.a + ld.c, ld.w, ld.w)
-                )
+                # Only the part on the span acts (cf. LoadPUDL.get_cnl).
+                c = min(ld.c, span_len - ld.a)
+                if c > 0:
+                    dist.append(
+                        DistLoad(ld.i_span, off + ld.a, off + ld.a + c, ld.w, ld.w)
+                    )
             elif isinstance(ld, LoadTrapez):
                 w1, w2, _dw, a, c = ld._resolve(span_len)
                 if c > 0:
-- 
2.43.0


From 71d34ba05a42f2020197069b235a67f19ee5389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:20 +0000
Subject: [PATCH 35/36] fix: adding to a load case does not change the list it
 was made from

---
 src/pycba/load_cases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 9cfd2f4..cd18b15 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -49,7 +49,8 @@ class LoadCase:
     def add_load(self, load: list) -> LoadCase:
         """Append one raw PyCBA load-matrix row."""
 
-        self.loads.append(deepcopy(load))
+        # Rebind rather than append: the list may belong to the caller
+        self.loads = [*self.loads, deepcopy(load)]
         return self
 
     def to_LM(self) -> LoadMatrix:
-- 
2.43.0


From 94cea39b3edbe34efc1a433503ffcab9bbb1615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 36/36] fix: a member-type list of the wrong length is
 rejected, not silently truncating the beam

---
 src/pycba/beam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 73a7040..606c764 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -121,6 +121,8 @@ class Beam:
             R = supports_to_R(supports, n_nodes=len(L) + 1)
 
         if L is not None and eletype is not None:
+            if len(eletype) != len(L):
+                raise ValueError("Define eletype for each span")
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0

