From e38e3450d1bafceb1a3a3a07da0043a693ff1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 001/121] fix: Survey.pos_nev no longer adds the xyz start
 offset to the nev start

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 454a7f1..a6359b9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -859,7 +859,7 @@ class Survey:
         self.dls = mc.dls
         self.pos_xyz = mc.poss
         self.pos_nev = (
-            get_nev(self.pos_xyz)
+            get_nev(self.pos_xyz, start_xyz=self.start_xyz)
             * np.full_like(
                 self.pos_xyz,
                 np.array([
-- 
2.43.0


From 1149f90ca6ad1ae7be809d9b6f33818e74eeef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 002/121] fix: vertical section projects the displacement
 instead of averaging azimuths

Averaging the azimuths of two stations gave the opposite direction when a
leg crossed north, and the azimuths of vertical stations stored in the
survey were overwritten by each call.
---
 welleng/survey.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a6359b9..165ccd9 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1304,17 +1304,17 @@ class Survey:
             vertical_section_azimuth if not deg
             else math.radians(vertical_section_azimuth)
         )
-        azi_temp = getattr(
-            self,
-            f"azi_{self.azi_ref_lookup[self.header.azi_reference]}_rad"
-        )
-        azi_temp[np.where(self.inc_rad == 0.0)] = (
-            vertical_section_azimuth
+        # express the section azimuth relative to grid north, since that's the
+        # reference for the northings and eastings
+        azi_grid = vertical_section_azimuth - {
+            'grid': 0.0,
+            'true': self.header.convergence,
+            'magnetic': self.header.convergence - self.header.declination
+        }[self.header.azi_reference]
+        result = (
+            np.diff(self.n) * np.cos(azi_grid)
+            + np.diff(self.e) * np.sin(azi_grid)
         )
-        result = np.cos(
-            vertical_section_azimuth
-            - (azi_temp[1:] + azi_temp[:-1]) / 2
-        ) * self.hypot
 
         result = np.cumsum(np.hstack(([0.0], result)))
 
-- 
2.43.0


From 6d35522e3949518f85c4f403b4b9d62210f7a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 003/121] fix: set_vertical_section stores the header azimuth
 in radians like the header does

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 165ccd9..c9cfaed 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1336,7 +1336,10 @@ class Survey:
             Indicates whether the vertical section azimuth parameter is in
             degrees or radians (True or False respectively).
         """
-        self.header.vertical_section_azimuth = vertical_section_azimuth
+        self.header.vertical_section_azimuth = (
+            math.radians(vertical_section_azimuth) if deg
+            else vertical_section_azimuth
+        )
         self.vertical_section = self.get_vertical_section(
             vertical_section_azimuth, deg
         )
-- 
2.43.0


From 92876397ab8ee2886cb15d3171b1054c4e1691bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 004/121] fix: internal surveys use their own header so the
 caller's azimuth reference is not changed

Interpolation, maximum curvature, torque and drag, separation factor
minimisation and duplicate stripping set the azimuth reference of the
caller's (possibly shared) header to grid, so that surveys built with it
afterwards were read in the wrong reference.
---
 welleng/clearance.py    | 4 ++--
 welleng/exchange/wbp.py | 3 ++-
 welleng/survey.py       | 4 ++--
 welleng/torque_drag.py  | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 8de993c..a1aba23 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -1,6 +1,6 @@
 import numpy as np
 from numpy.linalg import norm
-from copy import deepcopy
+from copy import copy, deepcopy
 
 try:
     import trimesh
@@ -531,7 +531,7 @@ class IscwsaClearance(Clearance):
 
                 node = self.ref.interpolate_md(md)
 
-                sh = self.ref.header
+                sh = copy(self.ref.header)
                 sh.azi_reference = 'grid'
 
                 survey = Survey(
diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 0a781e4..91030ba 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -1,3 +1,4 @@
+from copy import copy
 import os
 import yaml
 from ..survey import (
@@ -779,7 +780,7 @@ def strip_duplicates(survey):
         else:
             temp.append(s)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     md, inc, azi, radius = np.array(temp).reshape(-1, 4).T
diff --git a/welleng/survey.py b/welleng/survey.py
index c9cfaed..f693c8b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1500,7 +1500,7 @@ class Survey:
         survey_new[-1] = self.survey_deg[-1]
 
         # Update the new survey header as the new azimuth reference is 'grid'.
-        sh = self.header
+        sh = copy(self.header)
         sh.azi_reference = 'grid'
 
         # Create a new Survey instance
@@ -1892,7 +1892,7 @@ def _interpolate_survey(survey, x=0, index=0):
         )
     ).reshape(3, 3)
 
-    sh = survey.header
+    sh = copy(survey.header)
     sh.azi_reference = 'grid'
 
     s = Survey(
diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 6524a19..de7811c 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -1,6 +1,6 @@
 """Wellbore torque and drag calculations based on Johancsik et al. (SPE 11380-PA)."""
 
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 
 try:
@@ -136,7 +136,7 @@ class TorqueDrag:
 
         md, inc, azi = zip(*sorted(zip(md, inc, azi)))
 
-        sh = self.survey_original.header
+        sh = copy(self.survey_original.header)
         sh.azi_reference = 'grid'
 
         self.survey = Survey(
-- 
2.43.0


From 73977f33027f5bc1dd036166165b43d47e7d9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 005/121] fix: a node taken from a survey carries the survey's
 covariance

It was always zero, so that the closest approaches inserted when minimising
the separation factor had no position uncertainty.
---
 welleng/survey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index f693c8b..d58cdb1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1804,6 +1804,10 @@ def get_node(survey, idx, interpolated=False):
         md=survey.md[idx],
         unit=survey.unit,
         nev=True,
+        cov_nev=(
+            None if survey.cov_nev is None
+            else np.array(survey.cov_nev[idx]).reshape(1, 3, 3)
+        ),
         interpolated=interpolated
     )
     return node
-- 
2.43.0


From 9d1a0a7fcc180f5adb907e65ccc11cd3becbce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 006/121] fix: interpolate_survey builds the result in the
 survey's own depth unit

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d58cdb1..d15fedd 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2775,7 +2775,8 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         step=step,
         start_xyz=survey.start_xyz,
         survey_header=survey.header,
-        error_model=None
+        error_model=None,
+        depth_unit=survey.unit
     )
 
     survey_interpolated.interpolated = [
-- 
2.43.0


From 152ef29f509d91e2cd9b21d64c185bd1eda7bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 007/121] fix: interpolate_survey identifies the original
 stations by nearest md

---
 welleng/survey.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index d15fedd..a98b0d1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2779,10 +2779,12 @@ def interpolate_survey(survey, step=30, dls=1e-8):
         depth_unit=survey.unit
     )
 
-    survey_interpolated.interpolated = [
-        False if md in survey.md else True
-        for md in survey_interpolated.md
-    ]
+    # the md of the connections accumulates floating point rounding, so the
+    # original stations are identified by the nearest md and not by equality
+    interpolated = np.full(len(survey_interpolated.md), True)
+    for md in survey.md:
+        interpolated[np.argmin(np.abs(survey_interpolated.md - md))] = False
+    survey_interpolated.interpolated = interpolated.tolist()
 
     i = -1
     radii = []
-- 
2.43.0


From c28bee92d0de4a0e6d815221c0cfdc5c10b10de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 008/121] fix: interpolate_survey carries a covariance that was
 given without an error model

---
 welleng/survey.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a98b0d1..a50fc0c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2795,7 +2795,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
     ):
         if not boolean:
             i += 1
-            if survey.error_model is not None:
+            if survey.cov_nev is not None:
                 # interpolate covariance error between survey stations
                 j = 1 if i < len(survey.md) - 1 else 0
                 delta_md = survey.md[i + j] - survey.md[i]
@@ -2808,7 +2808,7 @@ def interpolate_survey(survey, step=30, dls=1e-8):
                     else 0
                 )
         radii.append(survey.radius[i])
-        if survey.error_model is not None:
+        if survey.cov_nev is not None:
             cov_nev.append(
                 survey.cov_nev[i]
                 + (
-- 
2.43.0


From 2730049f0393eb58658a376e7d41e2fe24123d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 009/121] fix: interpolate_survey_tvd keeps the survey's start,
 unit and azimuth reference

---
 welleng/survey.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a50fc0c..2cdec6e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2915,13 +2915,20 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         for n in nodes
     ]).T
 
+    # node azimuths are relative to grid north
+    header = copy(survey.header)
+    header.azi_reference = 'grid'
+
     s_interp = Survey(
         md=md,
         inc=inc,
         azi=azi,
         interpolated=interpolated,
         deg=False,
-        header=survey.header
+        header=header,
+        start_nev=survey.start_nev,
+        start_xyz=survey.start_xyz,
+        unit=survey.unit
     )
 
     return s_interp
-- 
2.43.0


From 1579a30257f03182266266aaac44c62a44df0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 010/121] fix: interpolate_tvd is accurate for small doglegs
 and accepts the station depths

---
 welleng/survey.py | 60 +++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 2cdec6e..700ed05 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1978,17 +1978,15 @@ def interpolate_tvd(survey, tvd, **kwargs):
         Helper function to handle large angles.
         """
         if abs(d) > np.pi:
-            d %= (2 * np.pi)
+            d = (d + np.pi) % (2 * np.pi) - np.pi
         return d
 
-    coeff = 1
     # find closest point assuming tvd is sorted list
     idx = np.searchsorted(survey.tvd, tvd, side="right") - 1
     if idx == len(survey.tvd) - 1:
         idx = len(survey.tvd) - 2
     elif idx == -1:
         idx = len(survey.tvd) - 2
-        coeff = -1
     pos1, pos2 = np.array([survey.n, survey.e, survey.tvd]).T[idx: idx + 2]
     vec1, vec2 = survey.vec_nev[idx: idx + 2]
     dogleg = survey.dogleg[idx + 1]
@@ -2018,52 +2016,36 @@ def interpolate_tvd(survey, tvd, **kwargs):
             / (survey.tvd[idx + 1] - survey.tvd[idx])
         ) * (survey.md[idx + 1] - survey.md[idx])
     else:
-        m = np.array([0., 0., coeff])
-        a = np.dot(m, vec1) * np.sin(dogleg)
-        b = np.dot(m, vec1) * np.cos(dogleg) - np.dot(m, vec2)
-        # p = get_unit_vec(np.array([0., 0., tvd]) - pos1)
-        p = np.array([0., 0., tvd]) - pos1
-        c = (
-            np.dot(m, p)
-            * dogleg
-            * np.sin(dogleg)
-            / delta_md
-        ) + b
-
-        d1 = 2 * np.arctan2(
-            (
-                a + (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
-        )
-        d1 = tidy_up_angle(d1)
-
-        d2 = 2 * np.arctan2(
-            (
-                a - (a ** 2 + b ** 2 - c ** 2) ** 0.5
-            ),
-            (
-                b + c
-            )
-        )
-        d2 = tidy_up_angle(d2)
-
-        assert d1 >= 0 or d2 >= 0
-        if d1 < 0:
+        # The depth gained after turning through the angle d is
+        # delta_md / dogleg * (v * sin(d) + w * (1 - cos(d))), solved here for
+        # tan(d / 2) in the form that does not cancel for small doglegs.
+        v = vec1[2]
+        w = (vec2[2] - vec1[2] * np.cos(dogleg)) / np.sin(dogleg)
+        k = (tvd - pos1[2]) * dogleg / delta_md
+        root = (v ** 2 + k * (2 * w - k)) ** 0.5
+
+        d1 = tidy_up_angle(2 * np.arctan2(k, v + root))
+        d2 = tidy_up_angle(2 * np.arctan2(k, v - root))
+
+        # allow for rounding at the stations
+        tol = 1e-6 * dogleg
+        assert d1 >= -tol or d2 >= -tol
+        if d1 < -tol:
             d = d2
-        elif d2 < 0:
+        elif d2 < -tol:
             d = d1
         else:
             d = min(d1, d2)
+        d = max(d, 0.0)
 
         x = d / dogleg * delta_md
 
         if node_origin:
             x -= survey.md[idx] - node_origin.md
 
-        assert x <= delta_md
+        x_max = survey.delta_md[idx + 1]
+        assert x <= x_max + 1e-6 * delta_md
+        x = min(x, x_max)
 
     interpolated_survey = _interpolate_survey(survey, x=x, index=idx)
 
-- 
2.43.0


From a2d619935aa0e2224f0cabaad870b2627b1bfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 011/121] fix: slice_survey keeps the azimuths when the header
 is not grid referenced

---
 welleng/survey.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 700ed05..a5f0755 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2055,6 +2055,14 @@ def interpolate_tvd(survey, tvd, **kwargs):
     return node
 
 
+def _get_azi_ref_rad(survey, header):
+    """
+    The survey azimuths (radians) in the azimuth reference of the header.
+    """
+    ref = survey.azi_ref_lookup[header.azi_reference]
+    return getattr(survey, f"azi_{ref}_rad")
+
+
 def slice_survey(survey: Survey, start: int, stop: int = None):
     """
     Take a slice from a welleng.survey.Survey object.
@@ -2076,7 +2084,9 @@ def slice_survey(survey: Survey, start: int, stop: int = None):
     # Removing this start + 2 code - define this explicitly when making call 
     # if stop is None:
     #     stop = start + 2
-    md, inc, azi = survey.survey_rad[start:stop].T
+    md, inc, _ = survey.survey_rad[start:stop].T
+    # azimuths as referenced by the header that the slice is created with
+    azi = _get_azi_ref_rad(survey, survey.header)[start:stop]
     nevs = np.array([survey.n, survey.e, survey.tvd]).T[start:stop]
     n, e, tvd = nevs.T
     # vec = survey.vec[start:stop]
-- 
2.43.0


From f8b25c552ee00b65a43206792b6dad05466a9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 012/121] fix: splice_surveys handles feet, magnetic headers
 and surveys without covariance

---
 welleng/survey.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a5f0755..e904a3b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3096,9 +3096,8 @@ class SurveyData:
         self.header = survey.header
         self.md = survey.md
         self.inc = survey.inc_rad
-        self.azi = getattr(
-            survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-        )
+        self.azi = _get_azi_ref_rad(survey, self.header)
+        self.unit = survey.unit
         self.start_nev = survey.start_nev
         self.start_xyz = survey.start_xyz
         self.cov_nev = survey.cov_nev
@@ -3119,23 +3118,24 @@ class SurveyData:
         self.azi = np.hstack(
             (
                 self.azi,
-                getattr(
-                    survey, f"azi_{getattr(self.header, 'azi_reference')}_rad"
-                )[1:]
+                _get_azi_ref_rad(survey, self.header)[1:]
             )
         )
-        self.cov_nev = np.hstack(
-            (
-                self.cov_nev.reshape(-1),
-                survey.cov_nev[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
-        self.cov_hla = np.hstack(
-            (
-                self.cov_hla.reshape(-1),
-                survey.cov_hla[1:].reshape(-1)
-            )
-        ).reshape(-1, 3, 3)
+        # surveys without covariance data can be spliced too
+        if self.cov_nev is not None or survey.cov_nev is not None:
+            self.cov_nev = np.hstack(
+                (
+                    self.cov_nev.reshape(-1),
+                    survey.cov_nev[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
+        if self.cov_hla is not None or survey.cov_hla is not None:
+            self.cov_hla = np.hstack(
+                (
+                    self.cov_hla.reshape(-1),
+                    survey.cov_hla[1:].reshape(-1)
+                )
+            ).reshape(-1, 3, 3)
         self.radius = np.hstack((self.radius, survey.radius[1:]))
 
     def get_survey(self):
@@ -3156,8 +3156,9 @@ class SurveyData:
             start_xyz=self.start_xyz,
             cov_nev=self.cov_nev,
             cov_hla=self.cov_hla,
-            radius= self.radius,
-            header=self.header
+            radius=self.radius,
+            header=self.header,
+            unit=self.unit
         )
         return survey
 
-- 
2.43.0


From f9707c0291269d1d81ed4003353f171254e9138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 013/121] fix: Arc.transform does not reverse the caller's
 vector

---
 welleng/utils.py | 2023 +++++++++++++++++++++++-----------------------
 1 file changed, 1012 insertions(+), 1011 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ef36bdc..cfcd5fb 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -1,1011 +1,1012 @@
-import re
-from typing import Annotated, Literal, Union
-
-import numpy as np
-from numpy.typing import NDArray
-from scipy.spatial.transform import Rotation as R
-
-
-def get_dogleg(inc1, azi1, inc2, azi2):
-    """
-    Compute the dogleg angle between two survey stations (vectorised).
-
-    Uses the numerically stable Haversine form to avoid arccos precision loss
-    at small angles.
-
-    Parameters
-    ----------
-    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
-    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
-
-    Returns
-    -------
-    dogleg: float or array — dogleg angle in radians
-    """
-    return 2.0 * np.arcsin(np.sqrt(
-        np.sin((inc2 - inc1) / 2) ** 2
-        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
-    ))
-
-
-def get_rf(dogleg):
-    """
-    Compute the ratio factor (RF) for minimum curvature (vectorised).
-
-    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
-
-    Parameters
-    ----------
-    dogleg: float or array — dogleg angle(s) in radians
-
-    Returns
-    -------
-    rf: float or array — ratio factor(s)
-    """
-    dogleg = np.asarray(dogleg, dtype=float)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
-    return float(rf) if rf.ndim == 0 else rf
-
-
-def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
-    """
-    Compute position increments using minimum curvature (vectorised).
-
-    All trigonometric values are computed once and shared across the three
-    coordinate directions for efficiency.
-
-    Parameters
-    ----------
-    delta_md: (n,) array — measured-depth increments
-    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
-    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
-    rf: (n,) array or None — ratio factors; computed if not supplied
-
-    Returns
-    -------
-    deltas: (n, 3) array — position increments in [N, E, V] order
-    """
-    if rf is None:
-        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
-    si1, ci1 = np.sin(inc1), np.cos(inc1)
-    si2, ci2 = np.sin(inc2), np.cos(inc2)
-    ca1, sa1 = np.cos(azi1), np.sin(azi1)
-    ca2, sa2 = np.cos(azi2), np.sin(azi2)
-    scale = delta_md * rf / 2
-    return np.stack((
-        scale * (si1 * ca1 + si2 * ca2),  # N
-        scale * (si1 * sa1 + si2 * sa2),  # E
-        scale * (ci1 + ci2),               # V
-    ), axis=-1)
-
-
-class MinCurve:
-    def __init__(
-        self,
-        md,
-        inc,
-        azi,
-        start_xyz=[0., 0., 0.],
-        unit="meters"
-    ):
-        """
-        Generate geometric data from a well bore survey.
-
-        Parameters
-        ----------
-        md: list or 1d array of floats
-            Measured depth along well path from a datum.
-        inc: list or 1d array of floats
-            Well path inclination (relative to z/tvd axis where 0
-            indicates down), in radians.
-        azi: list or 1d array of floats
-            Well path azimuth (relative to y/North axis),
-            in radians.
-        unit: str
-            Either "meters" or "feet" to determine the unit of the dogleg
-            severity.
-
-        """
-
-        assert unit == "meters" or unit == "feet", (
-            'Unknown unit, please select "meters" of "feet"'
-        )
-
-        self.md = md
-        survey_length = len(self.md)
-        assert survey_length > 1, "Survey must have at least two rows"
-
-        self.inc = inc
-        self.azi = azi
-        self.start_xyz = start_xyz
-        self.unit = unit
-
-        inc = np.array(inc)
-        azi = np.array(azi)
-        inc_1, inc_2 = inc[:-1], inc[1:]
-        azi_1, azi_2 = azi[:-1], azi[1:]
-
-        self.delta_md = np.diff(self.md, prepend=0)
-
-        self.dogleg = np.zeros(survey_length)
-        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
-
-        self.rf = np.ones(survey_length)
-        self.rf[1:] = get_rf(self.dogleg[1:])
-
-        # compute all three coordinate deltas in a single trig pass
-        deltas = min_curve_step(
-            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
-        )
-        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
-        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
-        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
-
-        # calculate the dog leg severity
-        coeff = 30 if unit == "meters" else 100
-        self.dls = np.zeros(survey_length)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
-        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
-
-        # cumulate the coordinates and add surface coordinates
-        self.poss = np.vstack(
-            np.cumsum(
-                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
-            ) + self.start_xyz
-        )
-
-
-def get_vec(inc, azi, nev=False, r=1, deg=True):
-    """
-    Convert inc and azi into a vector.
-
-    Parameters
-    ----------
-    inc: array of n floats
-        Inclination relative to the z-axis (up)
-    azi: array of n floats
-        Azimuth relative to the y-axis
-    r: float or array of n floats
-        Scalar to return a scaled vector
-
-    Returns
-    -------
-    vec: arraylike
-        An (n,3) array of vectors
-    """
-    if deg:
-        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
-    else:
-        inc_rad = inc
-        azi_rad = azi
-    y = r * np.sin(inc_rad) * np.cos(azi_rad)
-    x = r * np.sin(inc_rad) * np.sin(azi_rad)
-    z = r * np.cos(inc_rad)
-
-    if nev:
-        vec = np.column_stack([y, x, z])
-    else:
-        vec = np.column_stack([x, y, z])
-
-    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-
-
-def get_nev(
-    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
-):
-    """
-    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
-
-    Parameters
-    ----------
-    pos: (n,3) array of floats
-        Array of [x, y, z] coordinates
-    start_xyz: (,3) array of floats
-        The datum of the [x, y, z] cooardinates
-    start_nev: (,3) array of floats
-        The datum of the [n, e, tvd] coordinates
-
-    Returns
-    -------
-        An (n,3) array of [n, e, tvd] coordinates.
-    """
-    # e, n, v = (
-    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
-    # ).T
-    e, n, v = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
-    ).T
-
-    return np.column_stack([n, e, v]) + np.array([start_nev])
-
-
-def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
-    y, x, z = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
-    ).T
-
-    return np.column_stack([x, y, z]) + np.array([start_xyz])
-
-
-def _get_angles(vec):
-    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
-    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
-    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
-
-    return np.stack((inc, azi), axis=1)
-
-
-def get_angles(
-    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
-):
-    '''
-    Determines the inclination and azimuth from a vector.
-
-    Parameters
-    ----------
-    vec: (n,3) array of floats
-    nev: boolean (default: False)
-        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
-
-    Returns
-    -------
-    [inc, azi]: (n,2) array of floats
-        A numpy array of incs and axis in radians
-
-    '''
-    # make sure it's a unit vector
-    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-    vec = vec.reshape(-1, 3)
-
-    # if it's nev then need to do the shuffle
-    if nev:
-        y, x, z = vec.T
-        vec = np.column_stack([x, y, z])
-
-    return _get_angles(vec)
-
-
-def _get_transform(inc, azi):
-    ci, si = np.cos(inc), np.sin(inc)
-    ca, sa = np.cos(azi), np.sin(azi)
-    z = np.zeros_like(inc)
-    trans = np.stack([
-        np.stack([ci * ca,  ci * sa, -si], axis=-1),
-        np.stack([-sa,       ca,      z  ], axis=-1),
-        np.stack([si * ca,  si * sa,  ci ], axis=-1),
-    ], axis=1)
-
-    return trans
-
-
-def get_transform(
-    survey
-):
-    """
-    Determine the transform for transforming between NEV and HLA coordinate
-    systems.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-
-    Returns
-    -------
-    transform: (n,3,3) array of floats
-    """
-    survey = survey.reshape(-1, 3)
-    inc = np.array(survey[:, 1])
-    azi = np.array(survey[:, 2])
-
-    return _get_transform(inc, azi)
-
-
-def NEV_to_HLA(
-    survey: Annotated[NDArray, Literal["N", 3]],
-    NEV: Union[
-        Annotated[NDArray, Literal["N", 3]],
-        Annotated[NDArray, Literal["N", 3, 3]]
-    ],
-    cov: bool = True
-) -> Union[
-        Annotated[NDArray, Literal['N, 3']],
-        Annotated[NDArray, Literal['N, 3, 3']]
-]:
-    """
-    Transform from NEV to HLA coordinate system.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-    NEV: (n,3) or (n,3,3) array of floats
-        The NEV coordinates or covariance matrices.
-    cov: boolean
-        If cov is True then a (n,3,3) array of covariance matrices
-        is expected, else a (n,3) array of coordinates.
-
-    Returns
-    -------
-    HLAs: NDArray
-        Either a transformed (n,3) array of HLA coordinates or an
-        (n,3,3) array of HLA covariance matrices.
-    """
-
-    trans = get_transform(survey)
-
-    if cov:
-        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
-        return trans @ NEV @ trans.swapaxes(-1, -2)
-
-    else:
-        NEV = NEV.reshape(-1, 3)
-        return np.einsum('...k,...jk', NEV, trans)
-
-
-def HLA_to_NEV(survey, HLA, cov=True, trans=None):
-    if trans is None:
-        trans = get_transform(survey)
-
-    if cov:
-        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
-        return trans.swapaxes(-1, -2) @ HLA @ trans
-
-    else:
-        shape = HLA.shape
-        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
-
-
-def get_sigmas(cov, long=False):
-    """
-    Extracts the sigma values of a covariance matrix along the principle axii.
-
-    Parameters
-    ----------
-    cov: (n,3,3) array of floats
-
-    Returns
-    -------
-    arr: (n,3) array of floats
-    """
-
-    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
-
-    cov = cov.reshape(-1, 3, 3)
-
-    aa, ab, ac = cov[:, :, 0].T
-    ab, bb, bc = cov[:, :, 1].T
-    ac, bc, cc = cov[:, :, 2].T
-
-    if long:
-        return (aa, bb, cc, ab, ac, bc)
-    else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
-
-
-def get_unit_vec(vec):
-    vec = vec / np.linalg.norm(vec)
-
-    return vec
-
-
-def linear_convert(data, factor):
-    flag = False
-    if not isinstance(data, list):
-        flag = True
-        data = [data]
-    converted = [d * factor if d is not None else None for d in data]
-    if flag:
-        return converted[0]
-    else:
-        return converted
-
-
-def make_cov(a, b, c, long=False):
-    # a, b, c = np.sqrt(np.array([a, b, c]))
-    if long:
-        cov = np.array([
-            [a * a, a * b, a * c],
-            [a * b, b * b, b * c],
-            [a * c, b * c, c * c]
-        ])
-
-    else:
-        cov = np.array([
-            [a * a, np.zeros_like(a), np.zeros_like(a)],
-            [np.zeros_like(a), b * b, np.zeros_like(a)],
-            [np.zeros_like(a), np.zeros_like(a), c * c]
-        ])
-
-    return cov.T
-
-
-def make_long_cov(arr):
-    """
-    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
-    elements per station.
-
-    Parameters
-    ----------
-    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
-
-    Returns
-    -------
-    cov: (n, 3, 3) array
-    """
-    aa, ab, ac, bb, bc, cc = np.array(arr).T
-    return np.stack([
-        np.stack([aa, ab, ac], axis=-1),
-        np.stack([ab, bb, bc], axis=-1),
-        np.stack([ac, bc, cc], axis=-1),
-    ], axis=1)
-
-
-def dls_from_radius(radius):
-    """
-    Returns the dls in degrees from a radius.
-    """
-    if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
-        )
-    else:
-        if radius == 0:
-            return np.inf
-        circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
-
-    return dls
-
-
-def radius_from_dls(dls):
-    """
-    Returns the radius in meters from a DLS in deg/30m.
-    """
-    if isinstance(dls, np.ndarray):
-        circumference = np.full_like(dls, np.inf)
-        circumference = np.where(
-            dls != 0,
-            (30 / dls) * 360,
-            circumference
-        )
-    else:
-        if dls == 0:
-            return np.inf
-        circumference = (30 / dls) * 360
-    radius = circumference / (2 * np.pi)
-
-    return radius
-
-
-def cov_from_vec(arr):
-    """
-    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
-
-    Parameters
-    ----------
-    arr: (n, 3) array
-        Array of vector components.
-
-    Returns
-    -------
-    (n, 3, 3) array
-    """
-    arr = np.array(arr)
-    return arr[:, :, None] * arr[:, None, :]
-
-
-def errors_from_cov(cov, data=False):
-    """
-    Parameters
-    ----------
-    cov: (n, 3, 3) array
-        The error covariance matrices.
-    data: bool (default: False)
-        If True returns a dictionary, else returns a list.
-    """
-    nn, ne, nv, _, ee, ev, _, _, vv = (
-        cov.reshape(-1, 9).T
-    )
-
-    if data:
-        return {
-            i: {
-                'nn': _nn, 'ne': _ne, 'nv': _nv,
-                'ee': _ee, 'ev': _ev, 'vv': _vv
-            }
-            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
-            in enumerate(zip(nn, ne, nv, ee, ev, vv))
-        }
-
-    return np.array([nn, ne, nv, ee, ev, vv]).T
-
-
-def _get_arc_pos_and_vec(dogleg, radius):
-    pos = np.array([
-        np.cos(dogleg),
-        0.,
-        np.sin(dogleg)
-    ]) * radius
-    pos[0] = radius - pos[0]
-
-    vec = np.array([
-        np.sin(dogleg),
-        0.,
-        np.cos(dogleg)
-    ])
-    return (pos, vec)
-
-
-class Arc:
-    def __init__(self, dogleg, radius):
-        """
-        Generates a generic arc that can be transformed with a specific pos
-        and vec via a transform method. The arc is initialized at a local
-        origin and kicks off down and to the north (assuming an NEV coordinate
-        system).
-
-        Parameters
-        ----------
-        dogleg: float
-            The sweep angle of the arc in radians.
-        radius: float
-            The radius of the arc in meters.
-
-        Returns
-        -------
-        arc: Arc object
-        """
-        self.dogleg = dogleg
-        self.radius = radius
-        self.delta_md = dogleg * radius
-
-        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
-
-
-    def transform(self, toolface, pos=None, vec=None, target=False):
-        """
-        Transforms an Arc to a position and orientation.
-
-        Parameters
-        ----------
-        pos: (,3) array
-        The desired position to transform the arc.
-        vec: (,3) array
-            The orientation unit vector to transform the arc.
-        target: bool
-            If true, returned arc vector is reversed.
-
-        Returns
-        -------
-        tuple (pos_new, vec_new)
-        pos_new: (,3) array
-            The position at the end of the arc post transform.
-        vec_new: (,3) array
-            The unit vector at the end of the arc post transform.
-        """
-        if vec is None:
-            vec = np.array([0., 0., 1.])
-        if target:
-            vec *= -1
-        inc, azi = get_angles(vec, nev=True).reshape(2)
-        angles = [
-            toolface,
-            inc,
-            azi
-        ]
-        r = R.from_euler('zyz', angles, degrees=False)
-
-        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
-
-        # make sure vec_new is a unit vector:
-        vec_new = get_unit_vec(vec_new)
-
-        if pos is not None:
-            pos_new += pos
-        if target:
-            vec_new *= -1
-
-        return (pos_new, vec_new)
-
-
-def get_arc(
-    dogleg, radius, toolface, pos=None, vec=None, target=False
-) -> tuple:
-    """Creates an Arc instance and transforms it to the desired position
-    and orientation.
-
-    Parameters
-    ----------
-    dogleg: float
-        The swept angle of the arc (arc angle) in radians.
-    radius: float
-        The radius of the arc (in meters).
-    toolface: float
-        The toolface angle in radians (relative to the high side) to rotate the
-        arc at the desired position and orientation.
-    pos: (,3) array
-        The desired position to transform the arc.
-    vec: (,3) array
-        The orientation unit vector to transform the arc.
-    target: bool
-        If true, returned arc vector is reversed.
-
-    Returns
-    -------
-    tuple of (pos_new, vec_new, arc.delta_md)
-    pos_new: (,3) array
-        The position at the end of the arc post transform.
-    vec_new: (,3) array
-        The unit vector at the end of the arc post transform.
-    arc.delta_md: int
-        The arc length of the arc.
-    """
-    arc = Arc(dogleg, radius)
-    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
-
-    return (pos_new, vec_new, arc.delta_md)
-
-
-def annular_volume(od: float, id: float = None, length: float = None):
-    """
-    Calculate an annular volume.
-
-    If no ``id`` is provided then circular volume is calculated. If no
-    ``length`` is provided, then the unit volume is calculated (i.e. the
-    area).
-
-    Units are assumed consistent across input parameters, i.e. the
-    calculation is dimensionless.
-
-    Parameters
-    ----------
-    od: float
-        The outer diameter.
-    id: float | None, optional
-        The inner diameter, default is 0.
-    length : float | None, optional
-        The length of the annulus.
-
-    Returns
-    -------
-    annular_volume: float
-        The (unit) volume of the annulus or cylinder.
-
-    Examples
-    --------
-    In the following example we calculate annular volume along a 1,000 meter
-    section length of 9 5/8" casing inside 12 1/4" hole.
-
-    >>> from welleng.utils import annular_volume
-    >>> from welleng.units import ureg
-    >>> av = annular_volume(
-    ...     od=ureg('12.25 inch').to('meters),
-    ...     id=ureg(f'{9+5/8} inch').to('meter'),
-    ...     length=ureg('1000 meter')
-    ... )
-    >>> print(av)
-    29.096093526301622 meter ** 3
-    """
-    length = 1 if length is None else length
-    id = 0 if id is None else id
-    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
-    annular_volume = annular_unit_volume * length
-
-    return annular_volume
-
-
-def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
-    try:
-        _decimal, direction = decimal
-    except (TypeError, ValueError):
-        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
-        direction = None
-    _decimal = float(_decimal)
-    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
-
-    return np.array([
-        int(_decimal),
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits)
-    ]) if direction is None else np.array([
-        int(_decimal),
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits),
-        direction
-    ], dtype=object)
-
-
-def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
-    """Converts a decimal lat, lon to degrees, minutes and seconds.
-
-    Parameters
-    ----------
-    decimal : tuple | arraylike
-        A tuple of (lat, direction) or (lon, direction) or arraylike of
-        ((lat, direction), (lon, direction)) coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the seconds decimal to the desired number of
-        digits.
-
-    Returns
-    -------
-    dms: arraylike
-        An array of (degrees, minutes, seconds, direction).
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from decimals
-    to degrees, minutes and seconds:
-
-    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
-    >>> dms = decimal2dms((LAT, LON), ndigits=6)
-    >>> print(dms)
-    [[52 4 43.1868 'N']
-     [4 17 19.6368 'E']]
-    """
-    flag = False
-    _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
-        _decimal = _decimal.reshape((-1, 1))
-        flag = True
-    try:
-        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-    except np.exceptions.AxisError:
-        dms = _decimal2dms(_decimal, ndigits)
-
-    if dms.shape == (4,):
-        return tuple(dms)
-    else:
-        return dms.reshape((-1, 3)) if flag else dms
-
-
-def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
-    try:
-        degrees, minutes, seconds, direction = dms
-    except ValueError:
-        degrees, minutes, seconds = dms
-        direction = None
-
-    decimal = abs(degrees) + minutes / 60 + seconds / 3600
-
-    return np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        )
-    ]) if direction is None else np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        ),
-        direction
-    ], dtype=object)
-
-
-def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
-    """Converts a degrees, minutes and seconds lat, lon to decimals.
-
-    Parameters
-    ----------
-    dms : tuple | arraylike
-        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
-        and/or lon or arraylike of lat, lon coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the decimal to the desired number of digits.
-
-    Returns
-    -------
-    degrees: arraylike
-        A tuple or array of lats and/or longs in decimals.
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from degrees,
-    minutes and seconds to decimals:
-
-    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
-    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
-    >>> print(decimal)
-    [[52.078663 'N']
-     [4.288788 'E']]
-    """
-    result = np.apply_along_axis(
-        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
-    )
-
-    if result.shape == ():
-        return float(result)
-    elif result.shape == (1,):
-        return float(result[0])
-    elif result.shape[-1] == 1:
-        return result.reshape(-1)
-    else:
-        return result
-
-
-def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
-    """Pretty prints a (decimal, minutes, seconds) tuple or list.
-
-    Parameters
-    ----------
-    dms: tuple | list
-        An x or y or northing or easting (degree, minute, second).
-    symbols: bool (default: True)
-        Whether to print symbols for (deg, min, sec).
-    return_data: bool (default: False)
-        If True then will return the string rather than print it.
-    """
-    if symbols:
-        try:
-            deg, min, sec = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
-
-    else:
-        try:
-            deg, min, sec = dms
-            text = f"{deg} deg, {min} min, {sec} sec"
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg} deg, {min} min, {sec} sec {_}"
-
-    if return_data:
-        return text
-    else:
-        print(text)
-
-
-def dms_from_string(text):
-    """Extracts the values from a string dms x or y or northing or easting.
-    """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
-    matches = pattern.findall(text)
-
-    if matches:
-        deg, min, sec_str = matches[0][:3]
-        sec = float(sec_str)
-        final_data = matches[0][-1] if matches[0][-1] else None
-
-        if final_data:
-            return (int(deg), int(min), sec, final_data)
-        else:
-            return (int(deg), int(min), sec)
-
-    else:
-        return
-
-
-def make_clc_path(
-    toolface1, dogleg1, distance, toolface2, dogleg2,
-    pos0=None, vec0=None, radius=1.0
-):
-    """Generate a curve-hold-curve (CLC) path from arc parameters.
-
-    Builds the path in three steps: first arc, straight hold, second arc.
-    Useful for constructing known-geometry test cases and for quickly
-    prototyping CLC trajectories.
-
-    Parameters
-    ----------
-    toolface1: float
-        Toolface angle for the first curve in radians.
-    dogleg1: float
-        Sweep angle (dogleg) for the first curve in radians.
-    distance: float
-        Length of the straight hold section (same units as radius).
-    toolface2: float
-        Toolface angle for the second curve in radians.
-    dogleg2: float
-        Sweep angle (dogleg) for the second curve in radians.
-    pos0: (3,) array-like, optional
-        Start position [N, E, V]. Defaults to [0, 0, 0].
-    vec0: (3,) array-like, optional
-        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
-    radius: float, optional
-        Arc radius for both curves. Defaults to 1.0.
-
-    Returns
-    -------
-    dict with keys:
-        pos1, vec1  – end of first arc
-        dist_curve1 – arc length of first curve
-        pos2, vec2  – end of hold section / start of second arc
-        pos3, vec3  – end of second arc
-        dist_curve2 – arc length of second curve
-    """
-    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
-    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
-
-    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
-    pos2 = pos1 + vec1 * distance
-    vec2 = vec1.copy()
-    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
-
-    return dict(
-        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
-        pos2=pos2, vec2=vec2,
-        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
-    )
-
-
-def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
-    """Returns the toolface(s) of offset position(s) relative to reference
-    positions and vectors.  Accepts either single (3,) arrays or batches of
-    (n, 3) arrays; all three arguments must have the same leading dimension.
-
-    Parameters
-    ----------
-    pos1: ndarray, shape (3,) or (n, 3)
-        The reference NEV coordinate(s), e.g. current location.
-    vec1: ndarray, shape (3,) or (n, 3)
-        The reference NEV unit vector(s), e.g. current direction.
-    pos2: ndarray, shape (3,) or (n, 3)
-        The offset NEV coordinate(s), e.g. a target position.
-
-    Returns
-    -------
-    toolface: float or ndarray
-        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
-        Returns a scalar float when single (3,) inputs are given.
-    """
-    pos1 = np.atleast_2d(pos1)
-    vec1 = np.atleast_2d(vec1)
-    pos2 = np.atleast_2d(pos2)
-
-    angles = np.flip(get_angles(vec1, nev=True), axis=1)
-    r = R.from_euler('zy', angles * -1, degrees=False)
-    pos = r.apply(pos2 - pos1)
-    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
-    return float(result[0]) if result.size == 1 else result
-
-
-def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
-    """Returns the toolface of a single offset position using a direct
-    closed-form expression — approximately 12× faster than ``get_toolface``
-    for scalar inputs.
-
-    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
-    For batch use, prefer the vectorised ``get_toolface``.
-
-    Parameters
-    ----------
-    pos1: array-like, shape (3,)
-        The reference NEV coordinate, e.g. current location.
-    vec1: array-like, shape (3,)
-        The reference NEV unit vector, e.g. current direction.
-    pos2: array-like, shape (3,)
-        The offset NEV coordinate, e.g. a target position.
-
-    Returns
-    -------
-    toolface: float
-        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
-    """
-    n1, e1, v1 = pos1
-    n2, e2, v2 = pos2
-    vn1, ve1, vv1 = vec1
-
-    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
-    cos_azi = np.cos(azimuth_vec1)
-    sin_azi = np.sin(azimuth_vec1)
-
-    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
-    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
-    denominator = (
-        vv1 * (e2 - e1) * sin_azi
-        + vv1 * (n2 - n1) * cos_azi
-        + (v1 - v2) * horiz_mag
-    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
-
-    return np.arctan2(numerator, denominator) % (2 * np.pi)
-
-
+import re
+from typing import Annotated, Literal, Union
+
+import numpy as np
+from numpy.typing import NDArray
+from scipy.spatial.transform import Rotation as R
+
+
+def get_dogleg(inc1, azi1, inc2, azi2):
+    """
+    Compute the dogleg angle between two survey stations (vectorised).
+
+    Uses the numerically stable Haversine form to avoid arccos precision loss
+    at small angles.
+
+    Parameters
+    ----------
+    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
+    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
+
+    Returns
+    -------
+    dogleg: float or array — dogleg angle in radians
+    """
+    return 2.0 * np.arcsin(np.sqrt(
+        np.sin((inc2 - inc1) / 2) ** 2
+        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
+    ))
+
+
+def get_rf(dogleg):
+    """
+    Compute the ratio factor (RF) for minimum curvature (vectorised).
+
+    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
+
+    Parameters
+    ----------
+    dogleg: float or array — dogleg angle(s) in radians
+
+    Returns
+    -------
+    rf: float or array — ratio factor(s)
+    """
+    dogleg = np.asarray(dogleg, dtype=float)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
+    return float(rf) if rf.ndim == 0 else rf
+
+
+def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
+    """
+    Compute position increments using minimum curvature (vectorised).
+
+    All trigonometric values are computed once and shared across the three
+    coordinate directions for efficiency.
+
+    Parameters
+    ----------
+    delta_md: (n,) array — measured-depth increments
+    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
+    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
+    rf: (n,) array or None — ratio factors; computed if not supplied
+
+    Returns
+    -------
+    deltas: (n, 3) array — position increments in [N, E, V] order
+    """
+    if rf is None:
+        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
+    si1, ci1 = np.sin(inc1), np.cos(inc1)
+    si2, ci2 = np.sin(inc2), np.cos(inc2)
+    ca1, sa1 = np.cos(azi1), np.sin(azi1)
+    ca2, sa2 = np.cos(azi2), np.sin(azi2)
+    scale = delta_md * rf / 2
+    return np.stack((
+        scale * (si1 * ca1 + si2 * ca2),  # N
+        scale * (si1 * sa1 + si2 * sa2),  # E
+        scale * (ci1 + ci2),               # V
+    ), axis=-1)
+
+
+class MinCurve:
+    def __init__(
+        self,
+        md,
+        inc,
+        azi,
+        start_xyz=[0., 0., 0.],
+        unit="meters"
+    ):
+        """
+        Generate geometric data from a well bore survey.
+
+        Parameters
+        ----------
+        md: list or 1d array of floats
+            Measured depth along well path from a datum.
+        inc: list or 1d array of floats
+            Well path inclination (relative to z/tvd axis where 0
+            indicates down), in radians.
+        azi: list or 1d array of floats
+            Well path azimuth (relative to y/North axis),
+            in radians.
+        unit: str
+            Either "meters" or "feet" to determine the unit of the dogleg
+            severity.
+
+        """
+
+        assert unit == "meters" or unit == "feet", (
+            'Unknown unit, please select "meters" of "feet"'
+        )
+
+        self.md = md
+        survey_length = len(self.md)
+        assert survey_length > 1, "Survey must have at least two rows"
+
+        self.inc = inc
+        self.azi = azi
+        self.start_xyz = start_xyz
+        self.unit = unit
+
+        inc = np.array(inc)
+        azi = np.array(azi)
+        inc_1, inc_2 = inc[:-1], inc[1:]
+        azi_1, azi_2 = azi[:-1], azi[1:]
+
+        self.delta_md = np.diff(self.md, prepend=0)
+
+        self.dogleg = np.zeros(survey_length)
+        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
+
+        self.rf = np.ones(survey_length)
+        self.rf[1:] = get_rf(self.dogleg[1:])
+
+        # compute all three coordinate deltas in a single trig pass
+        deltas = min_curve_step(
+            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
+        )
+        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
+        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
+        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
+
+        # calculate the dog leg severity
+        coeff = 30 if unit == "meters" else 100
+        self.dls = np.zeros(survey_length)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
+        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
+
+        # cumulate the coordinates and add surface coordinates
+        self.poss = np.vstack(
+            np.cumsum(
+                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
+            ) + self.start_xyz
+        )
+
+
+def get_vec(inc, azi, nev=False, r=1, deg=True):
+    """
+    Convert inc and azi into a vector.
+
+    Parameters
+    ----------
+    inc: array of n floats
+        Inclination relative to the z-axis (up)
+    azi: array of n floats
+        Azimuth relative to the y-axis
+    r: float or array of n floats
+        Scalar to return a scaled vector
+
+    Returns
+    -------
+    vec: arraylike
+        An (n,3) array of vectors
+    """
+    if deg:
+        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
+    else:
+        inc_rad = inc
+        azi_rad = azi
+    y = r * np.sin(inc_rad) * np.cos(azi_rad)
+    x = r * np.sin(inc_rad) * np.sin(azi_rad)
+    z = r * np.cos(inc_rad)
+
+    if nev:
+        vec = np.column_stack([y, x, z])
+    else:
+        vec = np.column_stack([x, y, z])
+
+    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+
+def get_nev(
+    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
+):
+    """
+    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
+
+    Parameters
+    ----------
+    pos: (n,3) array of floats
+        Array of [x, y, z] coordinates
+    start_xyz: (,3) array of floats
+        The datum of the [x, y, z] cooardinates
+    start_nev: (,3) array of floats
+        The datum of the [n, e, tvd] coordinates
+
+    Returns
+    -------
+        An (n,3) array of [n, e, tvd] coordinates.
+    """
+    # e, n, v = (
+    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
+    # ).T
+    e, n, v = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
+    ).T
+
+    return np.column_stack([n, e, v]) + np.array([start_nev])
+
+
+def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
+    y, x, z = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
+    ).T
+
+    return np.column_stack([x, y, z]) + np.array([start_xyz])
+
+
+def _get_angles(vec):
+    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
+    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
+    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
+
+    return np.stack((inc, azi), axis=1)
+
+
+def get_angles(
+    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
+):
+    '''
+    Determines the inclination and azimuth from a vector.
+
+    Parameters
+    ----------
+    vec: (n,3) array of floats
+    nev: boolean (default: False)
+        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
+
+    Returns
+    -------
+    [inc, azi]: (n,2) array of floats
+        A numpy array of incs and axis in radians
+
+    '''
+    # make sure it's a unit vector
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec.reshape(-1, 3)
+
+    # if it's nev then need to do the shuffle
+    if nev:
+        y, x, z = vec.T
+        vec = np.column_stack([x, y, z])
+
+    return _get_angles(vec)
+
+
+def _get_transform(inc, azi):
+    ci, si = np.cos(inc), np.sin(inc)
+    ca, sa = np.cos(azi), np.sin(azi)
+    z = np.zeros_like(inc)
+    trans = np.stack([
+        np.stack([ci * ca,  ci * sa, -si], axis=-1),
+        np.stack([-sa,       ca,      z  ], axis=-1),
+        np.stack([si * ca,  si * sa,  ci ], axis=-1),
+    ], axis=1)
+
+    return trans
+
+
+def get_transform(
+    survey
+):
+    """
+    Determine the transform for transforming between NEV and HLA coordinate
+    systems.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+
+    Returns
+    -------
+    transform: (n,3,3) array of floats
+    """
+    survey = survey.reshape(-1, 3)
+    inc = np.array(survey[:, 1])
+    azi = np.array(survey[:, 2])
+
+    return _get_transform(inc, azi)
+
+
+def NEV_to_HLA(
+    survey: Annotated[NDArray, Literal["N", 3]],
+    NEV: Union[
+        Annotated[NDArray, Literal["N", 3]],
+        Annotated[NDArray, Literal["N", 3, 3]]
+    ],
+    cov: bool = True
+) -> Union[
+        Annotated[NDArray, Literal['N, 3']],
+        Annotated[NDArray, Literal['N, 3, 3']]
+]:
+    """
+    Transform from NEV to HLA coordinate system.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+    NEV: (n,3) or (n,3,3) array of floats
+        The NEV coordinates or covariance matrices.
+    cov: boolean
+        If cov is True then a (n,3,3) array of covariance matrices
+        is expected, else a (n,3) array of coordinates.
+
+    Returns
+    -------
+    HLAs: NDArray
+        Either a transformed (n,3) array of HLA coordinates or an
+        (n,3,3) array of HLA covariance matrices.
+    """
+
+    trans = get_transform(survey)
+
+    if cov:
+        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
+        return trans @ NEV @ trans.swapaxes(-1, -2)
+
+    else:
+        NEV = NEV.reshape(-1, 3)
+        return np.einsum('...k,...jk', NEV, trans)
+
+
+def HLA_to_NEV(survey, HLA, cov=True, trans=None):
+    if trans is None:
+        trans = get_transform(survey)
+
+    if cov:
+        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
+        return trans.swapaxes(-1, -2) @ HLA @ trans
+
+    else:
+        shape = HLA.shape
+        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
+
+
+def get_sigmas(cov, long=False):
+    """
+    Extracts the sigma values of a covariance matrix along the principle axii.
+
+    Parameters
+    ----------
+    cov: (n,3,3) array of floats
+
+    Returns
+    -------
+    arr: (n,3) array of floats
+    """
+
+    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
+
+    cov = cov.reshape(-1, 3, 3)
+
+    aa, ab, ac = cov[:, :, 0].T
+    ab, bb, bc = cov[:, :, 1].T
+    ac, bc, cc = cov[:, :, 2].T
+
+    if long:
+        return (aa, bb, cc, ab, ac, bc)
+    else:
+        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+
+
+def get_unit_vec(vec):
+    vec = vec / np.linalg.norm(vec)
+
+    return vec
+
+
+def linear_convert(data, factor):
+    flag = False
+    if not isinstance(data, list):
+        flag = True
+        data = [data]
+    converted = [d * factor if d is not None else None for d in data]
+    if flag:
+        return converted[0]
+    else:
+        return converted
+
+
+def make_cov(a, b, c, long=False):
+    # a, b, c = np.sqrt(np.array([a, b, c]))
+    if long:
+        cov = np.array([
+            [a * a, a * b, a * c],
+            [a * b, b * b, b * c],
+            [a * c, b * c, c * c]
+        ])
+
+    else:
+        cov = np.array([
+            [a * a, np.zeros_like(a), np.zeros_like(a)],
+            [np.zeros_like(a), b * b, np.zeros_like(a)],
+            [np.zeros_like(a), np.zeros_like(a), c * c]
+        ])
+
+    return cov.T
+
+
+def make_long_cov(arr):
+    """
+    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
+    elements per station.
+
+    Parameters
+    ----------
+    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
+
+    Returns
+    -------
+    cov: (n, 3, 3) array
+    """
+    aa, ab, ac, bb, bc, cc = np.array(arr).T
+    return np.stack([
+        np.stack([aa, ab, ac], axis=-1),
+        np.stack([ab, bb, bc], axis=-1),
+        np.stack([ac, bc, cc], axis=-1),
+    ], axis=1)
+
+
+def dls_from_radius(radius):
+    """
+    Returns the dls in degrees from a radius.
+    """
+    if isinstance(radius, np.ndarray):
+        circumference = np.full_like(radius, np.inf)
+        circumference = np.where(
+            radius != 0,
+            2 * np.pi * radius,
+            circumference
+        )
+    else:
+        if radius == 0:
+            return np.inf
+        circumference = 2 * np.pi * radius
+    dls = 360 / circumference * 30
+
+    return dls
+
+
+def radius_from_dls(dls):
+    """
+    Returns the radius in meters from a DLS in deg/30m.
+    """
+    if isinstance(dls, np.ndarray):
+        circumference = np.full_like(dls, np.inf)
+        circumference = np.where(
+            dls != 0,
+            (30 / dls) * 360,
+            circumference
+        )
+    else:
+        if dls == 0:
+            return np.inf
+        circumference = (30 / dls) * 360
+    radius = circumference / (2 * np.pi)
+
+    return radius
+
+
+def cov_from_vec(arr):
+    """
+    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
+
+    Parameters
+    ----------
+    arr: (n, 3) array
+        Array of vector components.
+
+    Returns
+    -------
+    (n, 3, 3) array
+    """
+    arr = np.array(arr)
+    return arr[:, :, None] * arr[:, None, :]
+
+
+def errors_from_cov(cov, data=False):
+    """
+    Parameters
+    ----------
+    cov: (n, 3, 3) array
+        The error covariance matrices.
+    data: bool (default: False)
+        If True returns a dictionary, else returns a list.
+    """
+    nn, ne, nv, _, ee, ev, _, _, vv = (
+        cov.reshape(-1, 9).T
+    )
+
+    if data:
+        return {
+            i: {
+                'nn': _nn, 'ne': _ne, 'nv': _nv,
+                'ee': _ee, 'ev': _ev, 'vv': _vv
+            }
+            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
+            in enumerate(zip(nn, ne, nv, ee, ev, vv))
+        }
+
+    return np.array([nn, ne, nv, ee, ev, vv]).T
+
+
+def _get_arc_pos_and_vec(dogleg, radius):
+    pos = np.array([
+        np.cos(dogleg),
+        0.,
+        np.sin(dogleg)
+    ]) * radius
+    pos[0] = radius - pos[0]
+
+    vec = np.array([
+        np.sin(dogleg),
+        0.,
+        np.cos(dogleg)
+    ])
+    return (pos, vec)
+
+
+class Arc:
+    def __init__(self, dogleg, radius):
+        """
+        Generates a generic arc that can be transformed with a specific pos
+        and vec via a transform method. The arc is initialized at a local
+        origin and kicks off down and to the north (assuming an NEV coordinate
+        system).
+
+        Parameters
+        ----------
+        dogleg: float
+            The sweep angle of the arc in radians.
+        radius: float
+            The radius of the arc in meters.
+
+        Returns
+        -------
+        arc: Arc object
+        """
+        self.dogleg = dogleg
+        self.radius = radius
+        self.delta_md = dogleg * radius
+
+        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
+
+
+    def transform(self, toolface, pos=None, vec=None, target=False):
+        """
+        Transforms an Arc to a position and orientation.
+
+        Parameters
+        ----------
+        pos: (,3) array
+        The desired position to transform the arc.
+        vec: (,3) array
+            The orientation unit vector to transform the arc.
+        target: bool
+            If true, returned arc vector is reversed.
+
+        Returns
+        -------
+        tuple (pos_new, vec_new)
+        pos_new: (,3) array
+            The position at the end of the arc post transform.
+        vec_new: (,3) array
+            The unit vector at the end of the arc post transform.
+        """
+        if vec is None:
+            vec = np.array([0., 0., 1.])
+        if target:
+            # don't reverse the caller's vector in place
+            vec = -np.array(vec)
+        inc, azi = get_angles(vec, nev=True).reshape(2)
+        angles = [
+            toolface,
+            inc,
+            azi
+        ]
+        r = R.from_euler('zyz', angles, degrees=False)
+
+        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
+
+        # make sure vec_new is a unit vector:
+        vec_new = get_unit_vec(vec_new)
+
+        if pos is not None:
+            pos_new += pos
+        if target:
+            vec_new *= -1
+
+        return (pos_new, vec_new)
+
+
+def get_arc(
+    dogleg, radius, toolface, pos=None, vec=None, target=False
+) -> tuple:
+    """Creates an Arc instance and transforms it to the desired position
+    and orientation.
+
+    Parameters
+    ----------
+    dogleg: float
+        The swept angle of the arc (arc angle) in radians.
+    radius: float
+        The radius of the arc (in meters).
+    toolface: float
+        The toolface angle in radians (relative to the high side) to rotate the
+        arc at the desired position and orientation.
+    pos: (,3) array
+        The desired position to transform the arc.
+    vec: (,3) array
+        The orientation unit vector to transform the arc.
+    target: bool
+        If true, returned arc vector is reversed.
+
+    Returns
+    -------
+    tuple of (pos_new, vec_new, arc.delta_md)
+    pos_new: (,3) array
+        The position at the end of the arc post transform.
+    vec_new: (,3) array
+        The unit vector at the end of the arc post transform.
+    arc.delta_md: int
+        The arc length of the arc.
+    """
+    arc = Arc(dogleg, radius)
+    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
+
+    return (pos_new, vec_new, arc.delta_md)
+
+
+def annular_volume(od: float, id: float = None, length: float = None):
+    """
+    Calculate an annular volume.
+
+    If no ``id`` is provided then circular volume is calculated. If no
+    ``length`` is provided, then the unit volume is calculated (i.e. the
+    area).
+
+    Units are assumed consistent across input parameters, i.e. the
+    calculation is dimensionless.
+
+    Parameters
+    ----------
+    od: float
+        The outer diameter.
+    id: float | None, optional
+        The inner diameter, default is 0.
+    length : float | None, optional
+        The length of the annulus.
+
+    Returns
+    -------
+    annular_volume: float
+        The (unit) volume of the annulus or cylinder.
+
+    Examples
+    --------
+    In the following example we calculate annular volume along a 1,000 meter
+    section length of 9 5/8" casing inside 12 1/4" hole.
+
+    >>> from welleng.utils import annular_volume
+    >>> from welleng.units import ureg
+    >>> av = annular_volume(
+    ...     od=ureg('12.25 inch').to('meters),
+    ...     id=ureg(f'{9+5/8} inch').to('meter'),
+    ...     length=ureg('1000 meter')
+    ... )
+    >>> print(av)
+    29.096093526301622 meter ** 3
+    """
+    length = 1 if length is None else length
+    id = 0 if id is None else id
+    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
+    annular_volume = annular_unit_volume * length
+
+    return annular_volume
+
+
+def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
+    try:
+        _decimal, direction = decimal
+    except (TypeError, ValueError):
+        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
+        direction = None
+    _decimal = float(_decimal)
+    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
+    _, minutes = divmod(minutes, 60)
+
+    return np.array([
+        int(_decimal),
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits)
+    ]) if direction is None else np.array([
+        int(_decimal),
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits),
+        direction
+    ], dtype=object)
+
+
+def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
+    """Converts a decimal lat, lon to degrees, minutes and seconds.
+
+    Parameters
+    ----------
+    decimal : tuple | arraylike
+        A tuple of (lat, direction) or (lon, direction) or arraylike of
+        ((lat, direction), (lon, direction)) coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the seconds decimal to the desired number of
+        digits.
+
+    Returns
+    -------
+    dms: arraylike
+        An array of (degrees, minutes, seconds, direction).
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from decimals
+    to degrees, minutes and seconds:
+
+    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
+    >>> dms = decimal2dms((LAT, LON), ndigits=6)
+    >>> print(dms)
+    [[52 4 43.1868 'N']
+     [4 17 19.6368 'E']]
+    """
+    flag = False
+    _decimal = np.array(decimal)
+    if _decimal.dtype == np.float64:
+        _decimal = _decimal.reshape((-1, 1))
+        flag = True
+    try:
+        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
+    except np.exceptions.AxisError:
+        dms = _decimal2dms(_decimal, ndigits)
+
+    if dms.shape == (4,):
+        return tuple(dms)
+    else:
+        return dms.reshape((-1, 3)) if flag else dms
+
+
+def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
+    try:
+        degrees, minutes, seconds, direction = dms
+    except ValueError:
+        degrees, minutes, seconds = dms
+        direction = None
+
+    decimal = abs(degrees) + minutes / 60 + seconds / 3600
+
+    return np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        )
+    ]) if direction is None else np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        ),
+        direction
+    ], dtype=object)
+
+
+def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
+    """Converts a degrees, minutes and seconds lat, lon to decimals.
+
+    Parameters
+    ----------
+    dms : tuple | arraylike
+        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
+        and/or lon or arraylike of lat, lon coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the decimal to the desired number of digits.
+
+    Returns
+    -------
+    degrees: arraylike
+        A tuple or array of lats and/or longs in decimals.
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from degrees,
+    minutes and seconds to decimals:
+
+    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
+    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
+    >>> print(decimal)
+    [[52.078663 'N']
+     [4.288788 'E']]
+    """
+    result = np.apply_along_axis(
+        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
+    )
+
+    if result.shape == ():
+        return float(result)
+    elif result.shape == (1,):
+        return float(result[0])
+    elif result.shape[-1] == 1:
+        return result.reshape(-1)
+    else:
+        return result
+
+
+def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
+    """Pretty prints a (decimal, minutes, seconds) tuple or list.
+
+    Parameters
+    ----------
+    dms: tuple | list
+        An x or y or northing or easting (degree, minute, second).
+    symbols: bool (default: True)
+        Whether to print symbols for (deg, min, sec).
+    return_data: bool (default: False)
+        If True then will return the string rather than print it.
+    """
+    if symbols:
+        try:
+            deg, min, sec = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
+
+    else:
+        try:
+            deg, min, sec = dms
+            text = f"{deg} deg, {min} min, {sec} sec"
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg} deg, {min} min, {sec} sec {_}"
+
+    if return_data:
+        return text
+    else:
+        print(text)
+
+
+def dms_from_string(text):
+    """Extracts the values from a string dms x or y or northing or easting.
+    """
+    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    matches = pattern.findall(text)
+
+    if matches:
+        deg, min, sec_str = matches[0][:3]
+        sec = float(sec_str)
+        final_data = matches[0][-1] if matches[0][-1] else None
+
+        if final_data:
+            return (int(deg), int(min), sec, final_data)
+        else:
+            return (int(deg), int(min), sec)
+
+    else:
+        return
+
+
+def make_clc_path(
+    toolface1, dogleg1, distance, toolface2, dogleg2,
+    pos0=None, vec0=None, radius=1.0
+):
+    """Generate a curve-hold-curve (CLC) path from arc parameters.
+
+    Builds the path in three steps: first arc, straight hold, second arc.
+    Useful for constructing known-geometry test cases and for quickly
+    prototyping CLC trajectories.
+
+    Parameters
+    ----------
+    toolface1: float
+        Toolface angle for the first curve in radians.
+    dogleg1: float
+        Sweep angle (dogleg) for the first curve in radians.
+    distance: float
+        Length of the straight hold section (same units as radius).
+    toolface2: float
+        Toolface angle for the second curve in radians.
+    dogleg2: float
+        Sweep angle (dogleg) for the second curve in radians.
+    pos0: (3,) array-like, optional
+        Start position [N, E, V]. Defaults to [0, 0, 0].
+    vec0: (3,) array-like, optional
+        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
+    radius: float, optional
+        Arc radius for both curves. Defaults to 1.0.
+
+    Returns
+    -------
+    dict with keys:
+        pos1, vec1  – end of first arc
+        dist_curve1 – arc length of first curve
+        pos2, vec2  – end of hold section / start of second arc
+        pos3, vec3  – end of second arc
+        dist_curve2 – arc length of second curve
+    """
+    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
+    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
+
+    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
+    pos2 = pos1 + vec1 * distance
+    vec2 = vec1.copy()
+    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
+
+    return dict(
+        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
+        pos2=pos2, vec2=vec2,
+        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
+    )
+
+
+def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
+    """Returns the toolface(s) of offset position(s) relative to reference
+    positions and vectors.  Accepts either single (3,) arrays or batches of
+    (n, 3) arrays; all three arguments must have the same leading dimension.
+
+    Parameters
+    ----------
+    pos1: ndarray, shape (3,) or (n, 3)
+        The reference NEV coordinate(s), e.g. current location.
+    vec1: ndarray, shape (3,) or (n, 3)
+        The reference NEV unit vector(s), e.g. current direction.
+    pos2: ndarray, shape (3,) or (n, 3)
+        The offset NEV coordinate(s), e.g. a target position.
+
+    Returns
+    -------
+    toolface: float or ndarray
+        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
+        Returns a scalar float when single (3,) inputs are given.
+    """
+    pos1 = np.atleast_2d(pos1)
+    vec1 = np.atleast_2d(vec1)
+    pos2 = np.atleast_2d(pos2)
+
+    angles = np.flip(get_angles(vec1, nev=True), axis=1)
+    r = R.from_euler('zy', angles * -1, degrees=False)
+    pos = r.apply(pos2 - pos1)
+    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
+    return float(result[0]) if result.size == 1 else result
+
+
+def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
+    """Returns the toolface of a single offset position using a direct
+    closed-form expression — approximately 12× faster than ``get_toolface``
+    for scalar inputs.
+
+    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
+    For batch use, prefer the vectorised ``get_toolface``.
+
+    Parameters
+    ----------
+    pos1: array-like, shape (3,)
+        The reference NEV coordinate, e.g. current location.
+    vec1: array-like, shape (3,)
+        The reference NEV unit vector, e.g. current direction.
+    pos2: array-like, shape (3,)
+        The offset NEV coordinate, e.g. a target position.
+
+    Returns
+    -------
+    toolface: float
+        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
+    """
+    n1, e1, v1 = pos1
+    n2, e2, v2 = pos2
+    vn1, ve1, vv1 = vec1
+
+    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
+    cos_azi = np.cos(azimuth_vec1)
+    sin_azi = np.sin(azimuth_vec1)
+
+    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
+    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
+    denominator = (
+        vv1 * (e2 - e1) * sin_azi
+        + vv1 * (n2 - n1) * cos_azi
+        + (v1 - v2) * horiz_mag
+    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
+
+    return np.arctan2(numerator, denominator) % (2 * np.pi)
+
+
-- 
2.43.0


From d61c7b1b409f772b8f029ae433b26a89fb9bea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 014/121] fix: projections use the survey's own unit for the
 dogleg severity

---
 welleng/survey.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index e904a3b..368dc6b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1215,7 +1215,8 @@ class Survey:
             delta_md=delta_md,
             dls=dls,
             toolface=toolface,
-            md=self.md[-1]
+            md=self.md[-1],
+            unit=self.unit
         )
 
         return node
@@ -2926,7 +2927,9 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     return s_interp
 
 
-def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
+def project_ahead(
+    pos, vec, delta_md, dls, toolface, md=0.0, unit='meters'
+):
     """
     Apply a simple arc or hold from a current position and vector.
 
@@ -2945,14 +2948,17 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         The desired toolface for the projection.
     md: float (optional)
         The current md if applicable.
+    unit: str (optional)
+        The length unit, 'meters' (dls in deg/30m) or 'feet' (deg/100ft).
 
     Returns
     -------
     node: welleng.node.Node object
     """
     if dls > 0:
-        radius = radius_from_dls(dls)
-        dogleg = np.radians(delta_md / 30 * dls)
+        coeff = 30 if unit == 'meters' else 100
+        radius = radius_from_dls(dls) * coeff / 30
+        dogleg = np.radians(delta_md / coeff * dls)
 
         pos_temp = np.array([
             np.cos(dogleg),
@@ -2989,6 +2995,7 @@ def project_ahead(pos, vec, delta_md, dls, toolface, md=0.0):
         pos=pos_new,
         vec=vec_new,
         md=md + delta_md,
+        unit=unit,
     )
 
     return node
@@ -3030,7 +3037,8 @@ def project_to_target(
     """
     connectors = []
     node_start = Node(
-            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1]
+            pos=survey.pos_nev[-1], vec=survey.vec_nev[-1], md=survey.md[-1],
+            unit=survey.unit
         )
     if dls is None:
         dls = survey.dls[-1]
@@ -3049,11 +3057,14 @@ def project_to_target(
             delta_md,
             dls,
             toolface,
-            survey.md[-1]
+            survey.md[-1],
+            unit=survey.unit
         )
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
-            Connector(node_start, node_bit, dls_design=dls_design)
+            Connector(
+                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+            )
         )
         node_bit = connectors[-1].node_end
     else:
@@ -3061,7 +3072,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design
+            node_bit, node_target, dls_design, unit=survey.unit
         )
     )
     survey_to_target = from_connections(
-- 
2.43.0


From 519e8dd40bc606a80e42201cfbc329c418494272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 015/121] fix: project_to_target does not shift azimuths by the
 convergence

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 368dc6b..1f2046e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3075,10 +3075,14 @@ def project_to_target(
             node_bit, node_target, dls_design, unit=survey.unit
         )
     )
+    # the connectors work with azimuths relative to grid north
+    header = copy(survey.header)
+    header.azi_reference = 'grid'
+
     survey_to_target = from_connections(
         connectors,
         step=step,
-        survey_header=survey.header,
+        survey_header=header,
         start_cov_nev=cov_nev,
         radius=survey.radius[-1], deg=False, error_model=survey.error_model,
         depth_unit=survey.header.depth_unit,
-- 
2.43.0


From ee59cf6d73371da26a914ab72f561f7c63131160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 016/121] fix: project_to_target follows the requested arc to
 the bit

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 1f2046e..fe48b35 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3063,7 +3063,8 @@ def project_to_target(
         node_bit.pos_nev, node_bit.pos_xyz = None, None
         connectors.append(
             Connector(
-                node_start, node_bit, dls_design=dls_design, unit=survey.unit
+                node_start, node_bit, dls_design=1e-8,
+                force_min_curve=True, unit=survey.unit
             )
         )
         node_bit = connectors[-1].node_end
-- 
2.43.0


From 456080e1ea0fffbb88bdb689addb56d53a83d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 017/121] fix: Connector does not move its start or end
 position at random

---
 welleng/connector.py | 5498 +++++++++++++++++++++---------------------
 1 file changed, 2751 insertions(+), 2747 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index ff4bb2c..fbd561e 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1,2747 +1,2751 @@
-"""Wellbore trajectory connector for computing minimum-MD CLC paths."""
-
-from copy import copy, deepcopy
-
-import numpy as np
-from scipy.optimize import minimize
-from scipy.spatial import distance
-
-from .node import Node, get_node_params
-from .utils import (
-    NEV_to_HLA, dls_from_radius, get_angles,
-    get_dogleg, get_nev, get_rf, get_unit_vec, get_vec, get_xyz,
-    radius_from_dls, get_arc
-)
-
-
-class Connector:
-    """Solves minimum-MD wellbore trajectories between two survey stations.
-
-    Automatically selects the appropriate geometric method (hold, curve-hold,
-    min-curve, or curve-hold-curve) based on the provided start/end constraints
-    and computes control points for the connecting path segment. The solver
-    honours a maximum dog-leg severity (DLS) constraint where geometrically
-    feasible.
-
-    Attributes
-    ----------
-    method : str
-        The geometric method used ('hold', 'min_curve',
-        'curve_hold_curve', 'min_dist_to_target', or
-        'min_curve_to_target').
-    node_start : Node
-        Start survey station as a Node.
-    node_end : Node
-        End survey station as a Node.
-    pos1 : ndarray of shape (3,)
-        Start position in NEV coordinates.
-    vec1 : ndarray of shape (3,)
-        Unit direction vector at the start position.
-    inc1 : float
-        Inclination at the start position (radians).
-    azi1 : float
-        Azimuth at the start position (radians).
-    md1 : float
-        Measured depth at the start position.
-    pos2 : ndarray of shape (3,) or None
-        Position at the end of the first arc section in NEV
-        coordinates. Equal to vec2 direction at this point.
-    vec2 : ndarray of shape (3,) or None
-        Unit direction vector at the end of the first arc.
-        Equals vec3 for curve-hold-curve solutions.
-    inc2 : float or None
-        Inclination at the end of the first arc (radians).
-    azi2 : float or None
-        Azimuth at the end of the first arc (radians).
-    md2 : float or None
-        Measured depth at the end of the first arc.
-    pos3 : ndarray of shape (3,) or None
-        Position at the start of the second arc (end of the
-        hold section) in NEV coordinates. Only set for
-        curve-hold-curve solutions.
-    vec3 : ndarray of shape (3,) or None
-        Unit direction vector at the start of the second arc.
-        Only set for curve-hold-curve solutions.
-    inc3 : float or None
-        Inclination at the start of the second arc (radians).
-    azi3 : float or None
-        Azimuth at the start of the second arc (radians).
-    md3 : float or None
-        Measured depth at the start of the second arc.
-    md_target : float
-        Measured depth at the target position.
-    pos_target : ndarray of shape (3,)
-        Target position in NEV coordinates.
-    vec_target : ndarray of shape (3,)
-        Target unit direction vector in NEV coordinates.
-    inc_target : float
-        Target inclination (radians).
-    azi_target : float
-        Target azimuth (radians).
-    dogleg : float
-        Dogleg angle of the first arc (radians).
-    dogleg2 : float or None
-        Dogleg angle of the second arc (radians). Only set for
-        curve-hold-curve solutions.
-    dist_curve : float
-        Arc length of the first curve section.
-    dist_curve2 : float
-        Arc length of the second curve section.
-    tangent_length : float or None
-        Length of the hold (tangent) section between the two
-        arcs.
-    dls : float
-        Dogleg severity of the first arc (radians per unit
-        length).
-    dls2 : float
-        Dogleg severity of the second arc (radians per unit
-        length).
-    dls_design : float
-        Design DLS constraint for the first arc (radians per
-        unit length).
-    dls_design2 : float
-        Design DLS constraint for the second arc (radians per
-        unit length).
-    radius_design : float
-        Design turn radius derived from dls_design.
-    radius_design2 : float
-        Design turn radius derived from dls_design2.
-    radius_critical : float
-        Critical (minimum geometric) radius for the first arc.
-    radius_critical2 : float
-        Critical radius for the second arc.
-
-    Methods
-    -------
-    interpolate(step=30)
-        Interpolate the solved trajectory at regular MD intervals.
-    """
-
-    def __init__(
-        self,
-        node1=None,
-        node2=None,
-        pos1=[0., 0., 0.],
-        vec1=None,
-        inc1=None,
-        azi1=None,
-        md1=0,
-        dls_design=3.0,
-        dls_design2=None,
-        md2=None,
-        pos2=None,
-        vec2=None,
-        inc2=None,
-        azi2=None,
-        degrees=True,
-        unit='meters',
-        min_error=1e-5,
-        delta_dls=0.1,
-        min_tangent=0.,
-        max_iterations=1_000,
-        force_min_curve=False,
-        closest_approach=False
-    ):
-        """Initializes the Connector and solves the trajectory.
-
-        Only specific combinations of input data are permitted. For example,
-        providing both a start vector and start inc/azi raises an error.
-        The solver determines the appropriate method from the provided
-        parameters and computes the connecting path immediately.
-
-        Parameters
-        ----------
-        node1 : Node or None
-            Start Node. Overrides pos1, vec1, md1 if provided.
-        node2 : Node or None
-            End Node. Overrides pos2, vec2, md2 if provided.
-        pos1 : list or ndarray
-            Start position as [n, e, v] in NEV coordinates.
-        vec1 : list or ndarray or None
-            Start unit direction vector in NEV coordinates.
-        inc1 : float or None
-            Start inclination angle.
-        azi1 : float or None
-            Start azimuth angle.
-        md1 : float
-            Start measured depth.
-        dls_design : float
-            Design DLS for the first curve section in
-            deg/30m (meters) or deg/100ft (feet).
-        dls_design2 : float or None
-            Design DLS for the second curve section. Defaults
-            to dls_design if None.
-        md2 : float or None
-            Target measured depth. Mutually exclusive with pos2.
-        pos2 : list or ndarray or None
-            Target position in NEV coordinates.
-        vec2 : list or ndarray or None
-            Target unit direction vector in NEV coordinates.
-            Mutually exclusive with inc2/azi2.
-        inc2 : float or None
-            Target inclination angle.
-        azi2 : float or None
-            Target azimuth angle.
-        degrees : bool
-            If True, angles are in degrees; if False, radians.
-        unit : str
-            Distance unit, either 'meters' or 'feet'.
-        min_error : float
-            Error tolerance for iterative convergence. Must be
-            less than 1.
-        delta_dls : float
-            DLS tolerance (deg/30m) for balancing curve sections
-            in curve-hold-curve solutions.
-        min_tangent : float
-            Minimum tangent length to stabilize
-            curve-hold-curve iteration.
-        max_iterations : int
-            Maximum iteration count for curve-hold-curve fitting.
-        force_min_curve : bool
-            If True, forces minimum-curvature method.
-        closest_approach : bool
-            If True, finds the closest-approach trajectory
-            when the target is inside the critical radius.
-
-        Raises
-        ------
-        AssertionError
-            If input parameter combinations are invalid.
-        """
-        if node1 is not None:
-            pos1, vec1, md1 = get_node_params(
-                node1
-            )
-        if node2 is not None:
-            pos2, vec2, md2 = get_node_params(
-                node2
-            )
-
-        # Set up a lookup dictionary to use with the logic to determine
-        # what connector method to deploy. Use a binary string to
-        # represent the inputs in the order:
-        # (md2, inc2, azi2, pos2, vec2)
-        # Initially I used boolean logic, but it quickly became non-
-        # transparent and difficult to debug.
-        self._get_initial_methods()
-
-        # METHODS = [
-        #     'hold',
-        #     'curve_hold',
-        #     'min_dist_to_target',
-        #     'min_curve_to_target',
-        #     'curve_hold_curve',
-        #     'min_curve'
-        # ]
-
-        # quick check that inputs are workable and if not some steer to
-        # the user.
-        assert vec1 is not None or (inc1 is not None and azi1 is not None), (
-            "Require either vec1 or (inc1 and azi1)"
-        )
-        if vec1 is not None:
-            assert inc1 is None and azi1 is None, (
-                "Either vec1 or (inc1 and azi1)"
-            )
-        if (inc1 is not None or azi1 is not None):
-            assert vec1 is None, "Either vec1 or (inc1 and azi1)"
-
-        assert (
-            md2 is not None
-            or pos2 is not None
-            or vec2 is not None
-            or inc2 is not None
-            or azi2 is not None
-        ), "Missing target parameters"
-
-        if vec2 is not None:
-            assert not (inc2 or azi2), "Either vec2 or (inc2 and azi2)"
-        if (inc2 is not None or azi2 is not None):
-            assert vec2 is None, "Either vec2 or (inc2 and azi2)"
-        if md2 is not None:
-            assert pos2 is None, "Either md2 or pos2"
-            assert md2 >= md1, "md2 must be larger than md1"
-
-        if dls_design is not None:
-            assert dls_design > 0, "dls_design must be greater than zero"
-        assert min_error < 1, "min_error must be less than 1.0"
-
-        # figure out what method is required to connect the points
-        target_input = convert_target_input_to_booleans(
-            md2, inc2, azi2, pos2, vec2
-        )
-
-        self.force_min_curve = force_min_curve
-        if self.force_min_curve:
-            self.initial_method = 'min_curve_or_hold'
-        else:
-            self.initial_method = self.initial_methods[target_input]
-
-        # do some more initialization stuff
-        self.min_error = min_error
-        self.min_tangent = min_tangent
-        self.iterations = 0
-        self.max_iterations = max_iterations
-        self.errors = []
-        self.radii = []
-        self.dogleg_old, self.dogleg2_old = 0, 0
-        self.dist_curve2 = 0
-        self.pos1 = np.array(pos1)
-
-        self.pos2, self.vec2, self.inc2, self.azi2, self.md2 = (
-            None, None, None, None, None
-        )
-
-        # fill in the input data gaps
-        if (inc1 is not None and azi1 is not None):
-            if degrees:
-                self.inc1 = np.radians(inc1)
-                self.azi1 = np.radians(azi1)
-            else:
-                self.inc1 = inc1
-                self.azi1 = azi1
-            self.vec1 = np.array(get_vec(
-                self.inc1, self.azi1, nev=True, deg=False
-            )).reshape(3)
-        else:
-            self.vec1 = np.array(vec1).reshape(3)
-            self.inc1, self.azi1 = get_angles(self.vec1, nev=True).reshape(2)
-
-        self.md1 = md1
-        self.pos_target = None if pos2 is None else np.array(pos2).reshape(3)
-        self.md_target = md2
-
-        if vec2 is not None:
-            self.vec_target = np.array(vec2).reshape(3)
-            self.inc_target, self.azi_target = get_angles(
-                self.vec_target,
-                nev=True
-            ).reshape(2)
-        elif (inc2 is not None and azi2 is not None):
-            if degrees:
-                self.inc_target = np.radians(inc2)
-                self.azi_target = np.radians(azi2)
-            else:
-                self.inc_target = inc2
-                self.azi_target = azi2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        elif inc2 is None and azi2 is None:
-            self.inc_target, self.azi_target, self.vec_target = (
-                self.inc1, self.azi1, self.vec1
-            )
-        elif inc2 is None:
-            self.inc_target = self.inc1
-            if degrees:
-                self.azi_target = np.radians(azi2)
-            else:
-                self.azi_target = azi2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        elif azi2 is None:
-            self.azi_target = self.azi1
-            if degrees:
-                self.inc_target = np.radians(inc2)
-            else:
-                self.inc_target = inc2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        else:
-            self.vec_target = vec2
-            self.inc_target = inc2
-            self.azi_target = azi2
-
-        self.unit = unit
-        if self.unit == 'meters':
-            self.denom = 30
-        else:
-            self.denom = 100
-
-        # Primary DLS / radius.  dls_design=None means "use minimum curvature
-        # required by geometry" — radius_design is set to inf so that
-        # min(radius_design, radius_critical) always resolves to radius_critical.
-        if dls_design is None:
-            self.dls_design = 0.0
-            self.radius_design = np.inf
-        else:
-            self.dls_design = np.radians(dls_design) if degrees else dls_design
-            self.radius_design = self.denom / self.dls_design
-
-        # Secondary DLS (second arc of curve_hold_curve)
-        if dls_design2:
-            self.dls_design2 = np.radians(dls_design2) if degrees else dls_design2
-            self.radius_design2 = self.denom / self.dls_design2
-        else:
-            self.dls_design2 = self.dls_design
-            self.radius_design2 = self.radius_design
-
-        self.delta_dls = delta_dls
-
-        # some more initialization stuff
-        self.tangent_length = None
-        self.dogleg2 = None
-
-        self.pos3, self.vec3, self.inc3, self.azi3, self.md3 = (
-            None, None, None, None, None
-        )
-        self.radius_critical, self.radius_critical2 = np.inf, np.inf
-        self.closest_approach = closest_approach
-
-        # Things fall apart if the start and end vectors exactly equal
-        # one another, so need to check for this and if this is the
-        # case, modify the end vector slightly. This is a lazy way of
-        # doing this, but it's fast. Probably a more precise way would
-        # be to split the dogleg in two, but that's more hassle than
-        # it's worth.
-        if (
-            self.vec_target is not None
-            and np.array_equal(self.vec_target, self.vec1 * -1)
-        ):
-            (
-                self.vec_target,
-                self.inc_target,
-                self.azi_target
-            ) = mod_vec(self.vec_target, self.min_error)
-
-        # properly figure out the method
-        self._get_method()
-
-        # and finally, actually do something...
-        self._use_method()
-
-        self._get_nodes()
-
-    def _get_nodes(self):
-        self.node_start = Node(
-            pos=self.pos1.reshape(3),
-            vec=self.vec1.reshape(3),
-            md=self.md1
-        )
-        self.node_end = Node(
-            pos=self.pos_target.reshape(3),
-            vec=self.vec_target.reshape(3),
-            md=self.md_target
-        )
-
-    def _min_dist_to_target(self):
-        (
-            self.tangent_length,
-            self.dogleg
-        ) = min_dist_to_target(self.radius_design, self.distances)
-        self.dogleg = check_dogleg(self.dogleg)
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            self.radius_design, self.dogleg
-        )
-        self.vec_target = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos_target,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-        self._get_angles_target()
-        self._get_md_target()
-        self.pos2 = (
-            self.pos_target - (
-                self.tangent_length * self.vec_target
-            )
-        )
-        self.md2 = self.md1 + abs(self.dist_curve)
-        self.md_target = self.md2 + self.tangent_length
-        self.vec2 = self.vec_target
-        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
-
-    def _min_curve_to_target(self):
-        (
-            self.tangent_length,
-            self.radius_critical,
-            self.dogleg
-        ) = min_curve_to_target(self.distances)
-        self.dogleg = check_dogleg(self.dogleg)
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            min(self.radius_design, self.radius_critical), self.dogleg
-        )
-        self.vec_target = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos_target,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-        self._get_angles_target()
-        self._get_md_target()
-        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
-
-    def _use_method(self):
-        if self.method == 'hold':
-            self._hold()
-        elif self.method == 'min_curve':
-            self._min_curve()
-        elif self.method == 'curve_hold_curve':
-            self.pos2_list, self.pos3_list = [], [deepcopy(self.pos_target)]
-            self.vec23 = [np.array([0., 0., 0.])]
-            self.delta_radius_list = []
-            # self._target_pos_and_vec_defined(deepcopy(self.pos_target))
-            self._target_pos_and_vec_defined(
-                self.pos1 + (self.pos_target - self.pos1) / 2
-            )
-        else:
-            self.distances = self._get_distances(
-                self.pos1, self.vec1, self.pos_target
-            )
-            if self.radius_design <= get_radius_critical(
-                self.radius_design, self.distances, self.min_error
-            ):
-                self.method = 'min_dist_to_target'
-                self._min_dist_to_target()
-            else:
-                if self.closest_approach:
-                    self.method = 'min_curve_to_target'
-                    self._closest_approach()
-                else:
-                    self.method = 'min_curve_to_target'
-                    self._min_curve_to_target()
-
-    def _get_method(self):
-        assert self.initial_method not in [
-            'no_input',
-            'vec_and_inc_azi',
-            'md_and_pos'
-        ], f"{self.initial_method}"
-        if self.initial_method == 'hold':
-            self.method = 'hold'
-        elif self.initial_method[-8:] == '_or_hold':
-            if np.array_equal(self.vec_target, self.vec1):
-                if self.pos_target is None:
-                    self.method = 'hold'
-                elif np.allclose(
-                        self.vec_target,
-                        (self.pos_target - self.pos1)
-                        / np.linalg.norm(self.pos_target - self.pos1)
-                ):
-                    self.method = 'hold'
-                else:
-                    self.method = self.initial_method[:-8]
-            else:
-                self.method = self.initial_method[:-8]
-        else:
-            self.method = self.initial_method
-
-    def _get_initial_methods(self):
-        # TODO: probably better to load this in from a yaml file
-        # [md2, inc2, azi2, pos2, vec2] forms the booleans
-        self.initial_methods = {
-            '00000': 'no_input',
-            '00001': 'min_curve_or_hold',
-            '00010': 'curve_hold_or_hold',
-            '00011': 'curve_hold_curve_or_hold',
-            '00100': 'min_curve_or_hold',
-            '00101': 'vec_and_inc_azi',
-            '00110': 'curve_hold',
-            '00111': 'vec_and_inc_azi',
-            '01000': 'min_curve_or_hold',
-            '01001': 'vec_and_inc_azi',
-            '01010': 'curve_hold_or_hold',
-            '01011': 'vec_and_inc_azi',
-            '01100': 'min_curve_or_hold',
-            '01101': 'vec_and_inc_azi',
-            '01110': 'curve_hold_curve_or_hold',
-            '01111': 'vec_and_inc_azi',
-            '10000': 'hold',
-            '10001': 'min_curve_or_hold',
-            '10010': 'md_and_pos',
-            '10011': 'md_and_pos',
-            '10100': 'min_curve_or_hold',
-            '10101': 'vec_and_inc_azi',
-            '10110': 'md_and_pos',
-            '10111': 'md_and_pos',
-            '11000': 'min_curve_or_hold',
-            '11001': 'vec_and_inc_azi',
-            '11010': 'md_and_pos',
-            '11011': 'md_and_pos',
-            '11100': 'min_curve_or_hold',
-            '11101': 'vec_and_inc_azi',
-            '11110': 'md_and_pos',
-            '11111': 'md_and_pos'
-        }
-
-    def _closest_approach(self):
-        vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
-
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
-        )
-
-        cc_pos_target = self.pos_target - cc
-        cc_pos_target /= np.linalg.norm(cc_pos_target)
-
-        self.pos_target_original = copy(self.pos_target)
-
-        self.pos_target = cc + cc_pos_target * self.radius_design
-
-        # recalculate self.distances with new self.pos_target
-        self.distances = self._get_distances(
-                self.pos1, self.vec1, self.pos_target
-            )
-
-        self._min_curve_to_target()
-
-    def _min_curve(self):
-        self.dogleg = get_dogleg(
-            self.inc1, self.azi1, self.inc_target, self.azi_target
-        )
-
-        self.dogleg = check_dogleg(self.dogleg)
-        if self.md_target is None:
-            if not np.isfinite(self.radius_design):
-                raise ValueError(
-                    "dls_design must be specified (not None) when only a "
-                    "target direction is given without a target position or "
-                    "measured depth."
-                )
-            self.md2 = None
-            self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        self.radius_design, self.dogleg
-                    )
-            self.md_target = self.md1 + abs(self.dist_curve)
-            self.pos_target = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec_target,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-        else:
-            with np.errstate(divide='ignore'):
-                self.radius_critical = np.nan_to_num(abs(
-                    (self.md_target - self.md1) / self.dogleg
-                ), nan=np.inf)
-            if (
-                self.radius_critical > self.radius_design
-                or (
-                    np.around(self.dogleg, decimals=5)
-                    == np.around(np.pi, decimals=5)
-                )
-            ):
-                self.md2 = (
-                    self.md1
-                    + min(self.radius_design, self.radius_critical)
-                    * self.dogleg
-                )
-                (
-                    self.inc2, self.azi2, self.vec2
-                ) = self.inc_target, self.azi_target, self.vec_target
-                self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        min(self.radius_design, self.radius_critical),
-                        self.dogleg
-                )
-                self.pos2 = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec2,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-                self.pos_target = self.pos2 + (
-                    self.vec2 * (self.md_target - self.md2)
-                )
-            else:
-                self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        self.radius_critical, self.dogleg
-                    )
-                self.md2 = None
-                self.pos_target = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec_target,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-
-    def _hold(self):
-        if self.pos_target is None:
-            self.pos_target = (
-                self.pos1 + self.vec1 * (self.md_target - self.md1)
-            )
-        if self.md_target is None:
-            self.md_target = (
-                np.linalg.norm(self.pos_target - self.pos1)
-                + self.md1
-            )
-        self.dls, self.dls2 = 0.0, 0.0
-
-    def _get_angles_target(self):
-        self.inc_target, self.azi_target = get_angles(
-            self.vec_target, nev=True
-        ).reshape(2)
-
-    def _get_md_target(self):
-        self.md_target = (
-            self.dist_curve
-            + self.tangent_length
-            + self.dist_curve2
-            + self.md1
-        )
-
-    def _get_pos2(self, pos1, vec1, pos_target, radius):
-        distances = self._get_distances(pos1, vec1, pos_target)
-
-        radius_temp = get_radius_critical(
-            self.radius_design,
-            distances,
-            self.min_error
-        )
-        if radius_temp > radius:
-            radius_temp = radius
-            assert self.radius_critical > 0
-
-        (
-            tangent_length,
-            dogleg
-        ) = min_dist_to_target(
-            radius_temp,
-            distances
-        )
-
-        dogleg = check_dogleg(dogleg)
-
-        dist_curve, func_dogleg = get_curve_hold_data(
-                    radius_temp,
-                    dogleg
-                )
-        vec3 = get_vec_target(
-            pos1,
-            vec1,
-            pos_target,
-            tangent_length,
-            dist_curve,
-            func_dogleg
-        )
-
-        tangent_temp = self._get_tangent_temp(tangent_length)
-
-        pos2 = (
-            pos_target - (
-                tangent_temp * vec3
-            )
-        )
-        return pos2
-
-    def _target_pos_and_vec_defined(self, pos3, vec_old=[0., 0., 0.]):
-        """
-        Function for fitting a curve, hold, curve path between a pair of
-        points with vectors.
-
-        It's written in this odd way to allow a solver function like scipy's
-        optimize to solve it, but so far I've not had much success using
-        these.
-
-        If the curve sections can't be achieved with the design DLS values,
-        this function will iterate until the two curve section DLSs are
-        approximately balances (in DLS terms) within the prescribed delta_dls
-        parameter.
-        """
-        minimize_target_pos_and_vec_defined(
-            [self.radius_design, self.radius_design2],
-            self, None, None, True
-        )
-        # Re-evaluate whether the outer loop is needed using the FINAL
-        # converged geometry (not the running minimum radius_critical, which
-        # may have been locked too low by transient tight iteration states).
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            _rc1 = get_radius_critical(
-                self.radius_design, self.distances1, self.min_error
-            )
-            _rc2 = get_radius_critical(
-                self.radius_design2, self.distances2, self.min_error
-            )
-            _outer_needed = not all((_rc1 >= self.radius_design, _rc2 >= self.radius_design2))
-        else:
-            _outer_needed = not all((
-                self.radius_critical > self.radius_design,
-                self.radius_critical2 > self.radius_design2
-            ))
-        if _outer_needed:
-            # Try the r_safe seeding approach first: solve at r_safe=dist/4
-            # (guaranteed to converge for any geometry), then use the result
-            # as seed for a design-radius re-solve.  This can escape the tight
-            # fixed point that the initial call converged to.
-            dist_to_target = np.linalg.norm(self.pos_target - self.pos1)
-            r_safe = dist_to_target / 4.0
-            if 0 < r_safe < min(self.radius_design, self.radius_design2):
-                minimize_target_pos_and_vec_defined(
-                    [r_safe, r_safe], self, None, None, True
-                )
-                pos3_seed = deepcopy(self.pos3)
-                vec_seed = (
-                    deepcopy(self.vec23[-1]) if len(self.vec23) > 0 else None
-                )
-                # Reset running minima (r_safe call left them at small value).
-                self.radius_critical = np.inf
-                self.radius_critical2 = np.inf
-                minimize_target_pos_and_vec_defined(
-                    [self.radius_design, self.radius_design2],
-                    self, pos3_seed, vec_seed, True
-                )
-                # Re-check with final geometry
-                if hasattr(self, 'distances1') and self.distances1 is not None:
-                    _rc1 = get_radius_critical(
-                        self.radius_design, self.distances1, self.min_error
-                    )
-                    _rc2 = get_radius_critical(
-                        self.radius_design2, self.distances2, self.min_error
-                    )
-                    _outer_needed = not all(
-                        (_rc1 >= self.radius_design, _rc2 >= self.radius_design2)
-                    )
-                else:
-                    _outer_needed = not all((
-                        self.radius_critical > self.radius_design,
-                        self.radius_critical2 > self.radius_design2
-                    ))
-
-        if _outer_needed:
-            # Design DLS still cannot be achieved; iterate to balance curvature
-            # across both arcs.  Use a *separate* counter so that the inner
-            # convergence iterations (tracked via self.iterations) do not
-            # prematurely exhaust the outer balancing budget.
-            for _outer in range(self.max_iterations):
-                self.radius_critical = (
-                    (self.md_target - self.md1)
-                    / (abs(self.dogleg) + abs(self.dogleg2))
-                )
-                if not (self.radius_critical >= 0):
-                    break
-                self.radius_critical2 = self.radius_critical
-                minimize_target_pos_and_vec_defined(
-                    [self.radius_design, self.radius_design2],
-                    self, deepcopy(self.pos3), deepcopy(self.vec23[-1]), True
-                )
-
-                # Position-stability check: compare against last 5 positions
-                # explicitly (avoids ambiguous np.allclose broadcasting with
-                # a list of arrays).
-                n_hist = min(5, len(self.pos3_list))
-                pos3_stable = n_hist >= 5 and all(
-                    np.allclose(self.pos3, p) for p in self.pos3_list[-5:]
-                )
-                pos2_stable = n_hist >= 5 and all(
-                    np.allclose(self.pos2, p) for p in self.pos2_list[-5:]
-                )
-
-                if any((
-                    abs(self.dls - self.dls2) < self.delta_dls,
-                    np.allclose(self.pos1, self.pos2),
-                    np.allclose(self.pos3, self.pos_target),
-                    pos3_stable and pos2_stable,
-                    all((
-                        self.dls == self.dls_design,
-                        self.dls2 == self.dls_design2
-                    ))
-                )):
-                    break
-            self._happy_finish()
-            self._delta_pos3_rescue()
-            self._project_tangent()
-            self._endpoint_rescue()
-            self._enforce_planarity()
-            return
-
-        self._happy_finish()
-        self._delta_pos3_rescue()
-        self._project_tangent()
-        self._endpoint_rescue()
-        self._enforce_planarity()
-
-    def _happy_finish(self):
-        # Use the critical radius at the FINAL converged geometry rather than the
-        # running-minimum radius_critical, which may have been locked too low by
-        # transient tight iteration states.  This ensures dist_curve is computed
-        # with the same effective radius that was used to derive self.dogleg in
-        # the last iteration step, keeping the arc geometry self-consistent.
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            rc1_final = get_radius_critical(
-                self.radius_design, self.distances1, self.min_error
-            )
-            r1 = min(rc1_final, self.radius_design)
-        else:
-            r1 = min(self.radius_critical, self.radius_design)
-        # get pos1 to pos2 curve data
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            r1,
-            self.dogleg
-        )
-
-        self.vec3 = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos3,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-
-        # Resync dogleg and arc-1 length from the just-computed vec3.
-        # _happy_finish may be called after _enforce_planarity changes vec3 or
-        # after any iteration that updates pos3.  The stored self.dogleg may
-        # therefore differ from the actual angle between vec1 and vec3, making
-        # dist_curve (= r1 * old_dogleg) inconsistent with the SLERP geometry.
-        # from_connections reconstructs pos2 via minimum-curvature using the
-        # actual inc/azi of vec3, so it needs dist_curve to match the true arc
-        # length for vec1→vec3 at radius r1.
-        actual_dogleg = float(np.arccos(
-            np.clip(np.dot(self.vec1, self.vec3), -1.0, 1.0)
-        ))
-        if abs(actual_dogleg - self.dogleg) > 1e-9:
-            self.dogleg = actual_dogleg
-            self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                r1, self.dogleg
-            )
-
-        self.vec2 = self.vec3
-
-        self.pos2 = get_pos(
-            self.pos1,
-            self.vec1,
-            self.vec3,
-            self.dist_curve,
-            self.func_dogleg
-        ).reshape(3)
-
-        self.md2 = self.md1 + abs(self.dist_curve)
-
-        if hasattr(self, 'distances2') and self.distances2 is not None:
-            rc2_final = get_radius_critical(
-                self.radius_design2, self.distances2, self.min_error
-            )
-            r2 = min(rc2_final, self.radius_design2)
-        else:
-            r2 = min(self.radius_critical2, self.radius_design2)
-
-        # Recompute dogleg2 from the actual directional change between vec3 and
-        # vec_target.  The iteration stores dogleg2 = min_dist_to_target result
-        # (a geometric parameter), which can differ from arccos(dot(vec3,
-        # vec_target)) after _happy_finish re-derives vec3 from arc1.  Using the
-        # wrong angle in the SLERP formula inside interpolate_curve produces
-        # incorrect (spiralling) visualisation paths.
-        self.dogleg2 = float(np.arccos(
-            np.clip(np.dot(self.vec3, self.vec_target), -1.0, 1.0)
-        ))
-        self.dist_curve2, self.func_dogleg2 = get_curve_hold_data(
-            r2,
-            self.dogleg2
-        )
-
-        # ── Endpoint-consistency fix ──────────────────────────────────────────
-        # The rendered path (from_connections / minimum-curvature integration)
-        # starts arc2 from hold_end = pos2 + T·vec3, NOT from the backward-
-        # traced pos3.  If pos3 is off the tangent ray the rendered endpoint
-        # misses pos_target by exactly the perpendicular component of
-        # (pos3_backward − pos2) w.r.t. vec3.
-        #
-        # For well-converged cases (perp < 1 mm) this is negligible and we
-        # preserve the backward-trace geometry to avoid touching dist_curve2.
-        #
-        # For DLS-violation cases the iteration may leave a large perpendicular
-        # residual.  The 2×2 projection finds T and dist_curve2 that solve:
-        #   pos2 + T·vec3 + (dist_curve2·RF/2)·(vec3+vec_target) = pos_target
-        # in the plane of {vec3, vec_target}, eliminating the in-plane part
-        # of the endpoint error.  The remaining (out-of-plane) residual can
-        # only be removed by finding a better vec3 via a tighter-radius retry.
-
-        # Step 1: backward trace to locate pos3 (guarantees arc2 → pos_target)
-        pos3_bt   = get_pos(
-            self.pos_target,
-            self.vec_target * -1,
-            self.vec3 * -1,
-            self.dist_curve2,
-            self.func_dogleg2
-        ).reshape(3)
-        t_along   = float(np.dot(pos3_bt - self.pos2, self.vec3))
-        perp_vec  = pos3_bt - self.pos2 - t_along * self.vec3
-        perp_norm = float(np.linalg.norm(perp_vec))
-
-        # Step 2: 2×2 projection only when perpendicular drift is significant
-        _PERP_THRESHOLD = 1e-3   # 1 mm — noise floor for well-converged cases
-        _applied_2x2 = False
-        if perp_norm > _PERP_THRESHOLD:
-            delta  = self.pos_target - self.pos2
-            p_comp = float(np.dot(delta, self.vec3))
-            q_comp = float(np.dot(delta, self.vec_target))
-            c_dot  = float(np.dot(self.vec3, self.vec_target))
-            sin2   = 1.0 - c_dot * c_dot
-            if sin2 > 1e-6 and abs(self.func_dogleg2) > 1e-10:
-                a_coef = (p_comp - c_dot * q_comp) / sin2
-                b_coef = (q_comp - c_dot * p_comp) / sin2
-                if b_coef >= 0.0:
-                    tangent_length   = float(max(0.0, a_coef - b_coef))
-                    self.dist_curve2 = float(
-                        max(0.0, 2.0 * b_coef / self.func_dogleg2)
-                    )
-                    self.pos3        = self.pos2 + tangent_length * self.vec3
-                    _applied_2x2 = True
-
-        if not _applied_2x2:
-            # Well-converged (or 2×2 degenerate): tangent-project only
-            tangent_length = max(0.0, t_along)
-            self.pos3      = self.pos2 + tangent_length * self.vec3
-
-        self.md3       = self.md2 + tangent_length
-        self.md_target = self.md3 + abs(self.dist_curve2)
-
-        return self
-
-    def _delta_pos3_rescue(self):
-        """
-        Final geometric-consistency check after _happy_finish.
-
-        If the tangent section is backward (dot(pos3-pos2, vec3) < 0) the
-        path doubles back on itself.  Re-seed with pos3 = pos2 (zero tangent)
-        to force the iteration to find a forward path, then only keep the
-        rescue result if it has a strictly better (higher) minimum arc radius.
-        """
-        _tangent_proj = float(np.dot(self.pos3 - self.pos2, self.vec3))
-        if _tangent_proj >= -self.min_error:
-            return  # tangent is already forward — nothing to fix
-
-        # Snapshot the current _happy_finish outputs before attempting rescue
-        _state_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-        )
-        _saved = {k: deepcopy(getattr(self, k)) for k in _state_keys}
-
-        _r_before = min(
-            self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
-            self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
-        )
-
-        for _seed in (
-            deepcopy(self.pos2),                  # zero-tangent seed
-            0.5 * (self.pos2 + self.pos_target),  # midpoint fallback
-        ):
-            self.radius_critical = np.inf
-            self.radius_critical2 = np.inf
-            minimize_target_pos_and_vec_defined(
-                [self.radius_design, self.radius_design2],
-                self, _seed, None, True
-            )
-            self._happy_finish()
-            _tp = float(np.dot(self.pos3 - self.pos2, self.vec3))
-            _r_after = min(
-                self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
-                self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
-            )
-            if _tp >= -self.min_error and _r_after >= _r_before - self.min_error:
-                return  # rescue improved or matched — keep it
-
-        # Rescue did not improve things — restore the saved state
-        for k, v in _saved.items():
-            setattr(self, k, v)
-
-    def _project_tangent(self):
-        """Project pos3 onto the tangent ray from pos2 along vec3.
-
-        _happy_finish computes pos2 (arc1 end) and pos3 (arc2 start) via
-        independent minimum-curvature traces.  When the iteration has not
-        fully converged — or when dogleg2 is near π so the minimum-curvature
-        ratio-factor blows up — pos3 may lie far off the tangent ray
-        pos2 + t*vec3.  The survey reconstruction (interpolate_hold) advances
-        strictly along vec3, so the hold section ends at pos2 + t*vec3 while
-        arc2 still starts at the raw pos3.  That geometric gap produces the
-        visually anomalous ~90° phase difference seen in the edge-case viewer.
-
-        Fix: replace pos3 with its projection onto the tangent ray.  The
-        projected tangent length is dot(pos3-pos2, vec3), clamped to ≥ 0.
-        This eliminates the hold→arc2 discontinuity.  Arc2 dogleg and arc
-        length are unchanged (they depend only on vec3, vec_target, and the
-        radius), so the path is geometrically self-consistent.
-
-        Called after _delta_pos3_rescue so that rescue still operates on the
-        un-projected geometry (its backward-tangent trigger requires the raw
-        dot-product, which is <= 0 before projection).
-        """
-        # _happy_finish now projects tangent_length inline and places pos3 via
-        # the backward arc2 trace (keeping arc2 geometrically consistent with
-        # pos_target).  This method is retained as a safety net to update MD
-        # whenever pos3 has been changed by _delta_pos3_rescue.
-        tangent_length = max(
-            0.0, float(np.dot(self.pos3 - self.pos2, self.vec3))
-        )
-        self.md3 = self.md2 + tangent_length
-        self.md_target = self.md3 + abs(self.dist_curve2)
-
-    def _rendered_endpoint_error(self):
-        """Return the distance from the rendered arc2 endpoint to pos_target.
-
-        The rendered path integrates continuously from pos1, so arc2 starts
-        from hold_end = pos2 + T·vec3 (not from pos3 directly).  Any gap
-        between hold_end and pos3 translates directly into an endpoint error.
-        """
-        t = max(0.0, float(np.dot(self.pos3 - self.pos2, self.vec3)))
-        hold_end = self.pos2 + t * self.vec3
-        rendered = (
-            hold_end
-            + (self.dist_curve2 * self.func_dogleg2 / 2)
-            * (self.vec3 + self.vec_target)
-        )
-        return float(np.linalg.norm(self.pos_target - rendered))
-
-    def _endpoint_rescue(self):
-        """Retry with progressively tighter radii when the rendered endpoint
-        still misses pos_target by more than 1 mm after _happy_finish.
-
-        The fixed-point iterator can converge to a spurious local minimum for
-        DLS-violation geometries, leaving a large out-of-plane residual that
-        the 2×2 in-plane projection cannot eliminate.  Using a tighter design
-        radius enlarges the set of reachable vec3 directions and typically
-        allows the iterator to escape the bad basin.
-
-        Each retry uses a fresh geometric seed (pos3=None) and keeps whichever
-        result achieves the smallest rendered endpoint error.
-        """
-        _THRESHOLD = 1e-3   # 1 mm
-        err0 = self._rendered_endpoint_error()
-        if err0 <= _THRESHOLD:
-            return
-
-        _save_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-        )
-        best_err   = err0
-        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-
-        r_base = min(self.radius_design, self.radius_design2)
-        for shrink in [0.5, 0.25, 0.125]:
-            r_try = r_base * shrink
-            self.radius_critical  = np.inf
-            self.radius_critical2 = np.inf
-            minimize_target_pos_and_vec_defined(
-                [r_try, r_try], self, None, None, True
-            )
-            self._happy_finish()
-            err_new = self._rendered_endpoint_error()
-            if err_new < best_err:
-                best_err   = err_new
-                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-            if best_err <= _THRESHOLD:
-                break
-
-        # Restore the geometry that achieved the smallest endpoint error
-        for k, v in best_state.items():
-            setattr(self, k, v)
-
-    def _enforce_planarity(self, max_iters=8, tol=1e-3):
-        """Adjust vec3 to lie in the {pos_target−pos2, vec_target} plane.
-
-        After _endpoint_rescue, an out-of-plane residual may remain because the
-        fixed-point iterator converged to a vec3 that is not coplanar with
-        (pos_target − pos2) and vec_target.  The 2×2 projection in _happy_finish
-        can only correct the in-plane part; the out-of-plane part can only be
-        removed by rotating vec3 itself.
-
-        Strategy: project the current vec3 onto span{delta, vec_target} (where
-        delta = pos_target − pos2) and re-seed _happy_finish so it recovers the
-        corrected direction.  Iterate until the rendered endpoint error drops
-        below tol (1 mm) or max_iters is exhausted.
-        """
-        if self._rendered_endpoint_error() <= tol:
-            return
-
-        # Determine the effective arc-1 radius from the post-rescue state.
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            r1 = min(
-                get_radius_critical(self.radius_design, self.distances1, self.min_error),
-                self.radius_design
-            )
-        elif np.isfinite(self.radius_critical) and self.radius_critical > 0:
-            r1 = min(self.radius_critical, self.radius_design)
-        else:
-            r1 = self.radius_design
-
-        _save_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-            'radius_critical', 'radius_critical2',
-        )
-        best_err = self._rendered_endpoint_error()
-        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-
-        for _ in range(max_iters):
-            # Compute arc-1 endpoint (pos2) from the current vec3 at r1
-            dc1, fd1 = get_curve_hold_data(r1, self.dogleg)
-            pos2 = get_pos(
-                self.pos1, self.vec1, self.vec3, dc1, fd1
-            ).reshape(3)
-            delta = self.pos_target - pos2
-
-            # Build an ONB for span{delta, vec_target}
-            d_norm = float(np.linalg.norm(delta))
-            if d_norm < 1e-10:
-                break  # pos_target ≈ pos2 — degenerate
-            d_hat = delta / d_norm
-
-            vt_comp = float(np.dot(self.vec_target, d_hat))
-            v_perp = self.vec_target - vt_comp * d_hat
-            v_perp_norm = float(np.linalg.norm(v_perp))
-            if v_perp_norm < 1e-8:
-                break  # vec_target ∥ delta — unconstrained direction
-
-            v_hat = v_perp / v_perp_norm
-
-            # Project vec3 onto the {d_hat, v_hat} plane
-            proj = (
-                float(np.dot(self.vec3, d_hat)) * d_hat
-                + float(np.dot(self.vec3, v_hat)) * v_hat
-            )
-            proj_norm = float(np.linalg.norm(proj))
-            if proj_norm < 1e-10:
-                break  # vec3 ⊥ plane — cannot project
-
-            new_vec3 = proj / proj_norm
-            if np.allclose(new_vec3, self.vec3, atol=1e-9):
-                break  # already in-plane — nothing to do
-
-            new_dogleg = float(np.arccos(np.clip(
-                np.dot(self.vec1, new_vec3), -1.0, 1.0
-            )))
-
-            # Compute pos2 seed so that _happy_finish recovers new_vec3:
-            #   get_vec_target(pos1, vec1, pos2_new, 0, dc1_new, fd1_new) = new_vec3
-            dc1_new, fd1_new = get_curve_hold_data(r1, new_dogleg)
-            pos2_new = get_pos(
-                self.pos1, self.vec1, new_vec3, dc1_new, fd1_new
-            ).reshape(3)
-
-            # Seed _happy_finish with the planarity-corrected direction
-            self.dogleg = new_dogleg
-            self.vec3 = new_vec3
-            self.pos3 = pos2_new        # tangent_length = 0 seed
-            self.tangent_length = 0.0
-            self.distances1 = None      # force _happy_finish to use radius_critical
-            self.radius_critical = r1
-            self.radius_critical2 = np.inf
-            self._happy_finish()
-
-            err_new = self._rendered_endpoint_error()
-            if err_new < best_err:
-                best_err = err_new
-                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-            if best_err <= tol:
-                break
-
-        # Always restore the state that achieved the smallest endpoint error
-        for k, v in best_state.items():
-            setattr(self, k, v)
-
-    def interpolate(self, step=30):
-        """Interpolates the connector trajectory at regular MD intervals.
-
-        Parameters
-        ----------
-        step : float
-            Desired delta measured depth between survey points.
-
-        Returns
-        -------
-        list
-            A list of interpolated survey data dictionaries.
-        """
-        return interpolate_well([self], step)
-
-    def _get_tangent_temp(self, tangent_length):
-        if np.isnan(tangent_length):
-            tangent_temp = self.min_tangent
-        else:
-            tangent_temp = max(tangent_length, self.min_tangent)
-
-        return tangent_temp
-
-    def _mod_pos(self, pos):
-        pos_rand = np.random.random(3)  # * self.delta_radius
-        pos += pos_rand
-
-    def _get_distances(self, pos1, vec1, pos_target):
-        # When initializing a `curve_hold_curve` and pos_target is directly
-        # ahead it can cause issues (it's a hold and not a curve). So this code
-        # checks for that condition and if it's the case, will move the
-        # target_pos a sufficient amount to prevent issues.
-        vec_temp = np.array(pos_target - pos1)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            vec_temp = vec_temp / np.linalg.norm(vec_temp)
-        if np.array_equal(vec1, vec_temp):
-            self._mod_pos(pos_target)
-        if np.allclose(pos1, pos_target):
-            return (0, 0, 0)
-
-        else:
-            dist_to_target = (
-                np.linalg.norm((pos_target - pos1))
-            )
-
-            dist_perp_to_target = (
-                np.dot((pos_target - pos1), vec1)
-            )
-            if dist_perp_to_target > dist_to_target:
-                # since a tolerance is being used, occasionally things can go
-                # wrong and need to be caught.
-                dist_perp_to_target = dist_to_target
-
-            dist_norm_to_target = (
-                (
-                    dist_to_target ** 2
-                    - dist_perp_to_target ** 2
-                ) ** 0.5
-            )
-
-            return (
-                dist_to_target,
-                dist_perp_to_target,
-                dist_norm_to_target
-            )
-
-
-def minimize_target_pos_and_vec_defined(
-    x, c, pos3=None, vec_old=None, result=False
-):
-    """Iteratively solves curve-hold-curve geometry between two nodes.
-
-    Uses a damped fixed-point iteration (alpha=0.5) on the intermediate
-    tangent point to find the curve-hold-curve path connecting the start
-    and target positions/vectors on the Connector.
-
-    Parameters
-    ----------
-    x : list
-        List of [radius1, radius2] for the two curve sections.
-    c : Connector
-        The Connector instance whose state is updated in place.
-    pos3 : ndarray or None
-        Optional initial guess for the intermediate tangent point.
-    vec_old : ndarray or None
-        Optional previous tangent direction for convergence check.
-    result : bool
-        If True, returns the Connector; if False, returns a scalar
-        residual for use with optimizers.
-
-    Returns
-    -------
-    Connector or float
-        The Connector instance if result is True, otherwise a float
-        residual measuring how much the design radii were violated.
-    """
-    if vec_old is None:
-        vec_old = np.array([0., 0., 0.])
-
-    radius1, radius2 = x
-
-    # Initialise the intermediate tangent point
-    if pos3 is None:
-        pos2_init = c._get_pos2(c.pos1, c.vec1, c.pos_target, radius1)
-        pos3_init = c._get_pos2(
-            c.pos_target, c.vec_target * -1, c.pos1, radius2
-        )
-        pos3_mid = pos2_init + (pos3_init - pos2_init) / 2
-
-        # Check whether the midpoint is inside the critical circle of either
-        # endpoint at the design DLS.  If so, the running minimum would lock
-        # in a tight radius from step 1.  Fall back to a point directly ahead
-        # of pos1 along vec1 (dist_norm = 0 → radius_critical = ∞), which is
-        # guaranteed to be in the design-DLS basin.
-        d1 = c._get_distances(c.pos1, c.vec1, pos3_mid)
-        d2 = c._get_distances(c.pos_target, c.vec_target * -1, pos3_mid)
-        rc1 = get_radius_critical(radius1, d1, c.min_error)
-        rc2 = get_radius_critical(radius2, d2, c.min_error)
-        if rc1 >= radius1 and rc2 >= radius2:
-            c.pos3 = pos3_mid
-        else:
-            # Midpoint is inside a critical circle.  Find a fallback pos3
-            # that is guaranteed to be in the design-DLS basin:
-            #   pos1 + R*vec1 + 2R*perp
-            # gives dist_norm = 2R → rc = 5R²/(4R) = 1.25R ≥ R.
-            # perp points in the component of (pos_target - pos1)
-            # perpendicular to vec1 so the guess is biased toward the target.
-            chord = c.pos_target - c.pos1
-            d_perp = chord - np.dot(chord, c.vec1) * c.vec1
-            d_perp_norm = np.linalg.norm(d_perp)
-            if d_perp_norm > 1e-10:
-                d_perp_hat = d_perp / d_perp_norm
-            else:
-                # Target is directly ahead/behind: pick any perpendicular
-                arb = np.array([1., 0., 0.])
-                if abs(np.dot(c.vec1, arb)) > 0.9:
-                    arb = np.array([0., 1., 0.])
-                d_perp_hat = np.cross(c.vec1, arb)
-                d_perp_hat /= np.linalg.norm(d_perp_hat)
-            # Try four candidate positions: ±d_perp and ±d_perp_cross
-            # (the 90°-rotated perpendicular).  Pick the first that is
-            # also outside the critical circle of pos_target.
-            d_perp_cross = np.cross(c.vec1, d_perp_hat)
-            d_perp_cross_norm = np.linalg.norm(d_perp_cross)
-            if d_perp_cross_norm > 1e-10:
-                d_perp_cross /= d_perp_cross_norm
-            else:
-                d_perp_cross = d_perp_hat  # degenerate: fallback
-            chosen = None
-            best_min_rc = -np.inf
-            best_candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * d_perp_hat
-            for perp in (d_perp_hat, -d_perp_hat, d_perp_cross, -d_perp_cross):
-                candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * perp
-                dd2 = c._get_distances(c.pos_target, c.vec_target * -1, candidate)
-                rc2_cand = get_radius_critical(radius2, dd2, c.min_error)
-                if rc2_cand >= radius2:
-                    chosen = candidate
-                    break
-                # Track the candidate with the highest minimum rc
-                if rc2_cand > best_min_rc:
-                    best_min_rc = rc2_cand
-                    best_candidate = candidate
-            c.pos3 = chosen if chosen is not None else best_candidate
-    else:
-        c.pos3 = pos3
-
-    radius_temp1, radius_temp2 = radius1, radius2
-
-    for _ in range(c.max_iterations):
-        prev_pos3 = c.pos3.copy()
-
-        # ── Curve 1: pos1 → pos2 ────────────────────────────────────────────
-        c.distances1 = c._get_distances(c.pos1, c.vec1, c.pos3)
-
-        radius_temp1 = get_radius_critical(radius1, c.distances1, c.min_error)
-        # Use the current geometry's critical radius directly — avoids NaN in
-        # min_dist_to_target and prevents the running minimum from permanently
-        # locking in tight values from transient intermediate states.
-        radius_effective1 = min(radius1, radius_temp1)
-        # Update the running minimum only for genuine violations (not noise).
-        if radius_temp1 < min(c.radius_critical, radius1 * (1.0 - c.min_error * 100)):
-            c.radius_critical = radius_temp1
-            assert c.radius_critical >= 0
-
-        c.tangent_length, c.dogleg = min_dist_to_target(
-            radius_effective1, c.distances1
-        )
-        c.dogleg = check_dogleg(c.dogleg)
-        c.dist_curve, c.func_dogleg = get_curve_hold_data(
-            radius_effective1, c.dogleg
-        )
-        c.vec3 = get_vec_target(
-            c.pos1, c.vec1, c.pos3,
-            c.tangent_length, c.dist_curve, c.func_dogleg
-        )
-
-        tangent_temp1 = c._get_tangent_temp(c.tangent_length)
-        c.pos2 = c.pos3 - tangent_temp1 * c.vec3
-
-        # ── Curve 2: pos_target → pos2 (reversed) ───────────────────────────
-        c.distances2 = c._get_distances(
-            c.pos_target, c.vec_target * -1, c.pos2
-        )
-
-        radius_temp2 = get_radius_critical(radius2, c.distances2, c.min_error)
-        # Use current geometry's critical radius directly (same rationale as arc1).
-        radius_effective2 = min(radius2, radius_temp2)
-        # Update running minimum only for genuine violations.
-        if radius_temp2 < min(c.radius_critical2, radius2 * (1.0 - c.min_error * 100)):
-            c.radius_critical2 = radius_temp2
-            assert c.radius_critical2 >= 0
-
-        c.tangent_length2, c.dogleg2 = min_dist_to_target(
-            radius_effective2, c.distances2
-        )
-        c.dogleg2 = check_dogleg(c.dogleg2)
-        c.dist_curve2, c.func_dogleg2 = get_curve_hold_data(
-            radius_effective2, c.dogleg2
-        )
-        c.vec2 = get_vec_target(
-            c.pos_target, c.vec_target * -1, c.pos2,
-            c.tangent_length2, c.dist_curve2, c.func_dogleg2
-        )
-
-        tangent_temp2 = c._get_tangent_temp(c.tangent_length2)
-        pos3_new = c.pos2 - tangent_temp2 * c.vec2
-
-        # Damped update: averaging old and new prevents oscillation when the
-        # target is close relative to the radius of curvature.
-        c.pos3 = 0.5 * pos3_new + 0.5 * prev_pos3
-
-        vec23_denom = np.linalg.norm(c.pos3 - c.pos2)
-        if vec23_denom == 0:
-            c.vec23.append(np.array([0., 0., 0.]))
-        else:
-            c.vec23.append((c.pos3 - c.pos2) / vec23_denom)
-
-        c.error = np.allclose(
-            c.vec23[-1], vec_old,
-            equal_nan=True,
-            rtol=c.min_error * 10,
-            atol=c.min_error * 0.1
-        )
-
-        c.errors.append(c.error)
-        c.pos3_list.append(c.pos3.copy())
-        c.pos2_list.append(c.pos2.copy())
-        c.md_target = c.md1 + c.dist_curve + tangent_temp2 + c.dist_curve2
-        c.delta_radius_list.append(abs(c.radius_critical - c.radius_critical2))
-        c.dls = max(
-            np.radians(dls_from_radius(c.radius_design)),
-            np.radians(dls_from_radius(c.radius_critical))
-        )
-        c.dls2 = max(
-            np.radians(dls_from_radius(c.radius_design2)),
-            np.radians(dls_from_radius(c.radius_critical2))
-        )
-
-        if c.error:
-            break
-
-        c.iterations += 1
-        vec_old = c.vec23[-1].copy()
-
-    if result:
-        return c
-    result_val = 0.
-    if radius_temp2 < c.radius_design2:
-        result_val += c.radius_design2 - radius_temp2
-    if radius_temp1 < c.radius_design:
-        result_val += c.radius_design - radius_temp1
-    return result_val
-
-
-def check_dogleg(dogleg):
-    """Ensures the dogleg angle is positive by wrapping negative values.
-
-    Accepts scalar or array-like; output shape matches input.
-
-    Parameters
-    ----------
-    dogleg : float or array_like
-        Dogleg angle(s) in radians.
-
-    Returns
-    -------
-    float or ndarray
-        The dogleg angle(s) normalized to [0, 2*pi).
-    """
-    # the code assumes angles are positive and clockwise
-    dogleg = np.asarray(dogleg, dtype=float)
-    wrapped = np.where(dogleg < 0, dogleg + 2 * np.pi, dogleg)
-    if wrapped.ndim == 0:
-        return float(wrapped)
-    return wrapped
-
-
-def mod_vec(vec, error=1e-5):
-    """Slightly perturbs a direction vector to avoid exact antiparallel degeneracy.
-
-    Parameters
-    ----------
-    vec : ndarray
-        Unit direction vector in NEV coordinates.
-    error : float
-        Perturbation magnitude applied to the vertical component.
-
-    Returns
-    -------
-    tuple
-        A tuple of (perturbed_vec, inclination, azimuth).
-    """
-    # if it's not working then twat it with a hammer
-    vec_mod = vec * np.array([1, 1, 1 - error])
-    vec_mod /= np.linalg.norm(vec_mod)
-    inc_mod, azi_mod = get_angles(vec_mod, nev=True).T
-
-    return vec_mod, inc_mod, azi_mod
-
-
-def get_pos(pos1, vec1, vec2, dist_curve, func_dogleg):
-    """Computes the end position of a minimum-curvature arc.
-
-    Parameters
-    ----------
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Start unit direction vector in NEV coordinates.
-    vec2 : ndarray
-        End unit direction vector in NEV coordinates.
-    dist_curve : float
-        Arc length of the curve section.
-    func_dogleg : float
-        Shape factor (ratio factor) for the curve.
-
-    Returns
-    -------
-    ndarray
-        End position in NEV coordinates.
-    """
-    return pos1 + (dist_curve * func_dogleg / 2) * (vec1 + vec2)
-
-
-def get_vec_target(
-    pos1,
-    vec1,
-    pos_target,
-    tangent_length,
-    dist_curve,
-    func_dogleg
-):
-    """Derives the target unit vector from curve geometry and target position.
-
-    Solves for the direction vector at the end of a curve-hold section
-    given the start state, curve parameters, and target position. Accepts
-    either scalar inputs (legacy shape-(3,) positions/vectors with scalar
-    tangent_length/dist_curve/func_dogleg) or batched inputs (leading
-    batch dims on all arrays, positions/vectors with trailing axis 3).
-
-    Parameters
-    ----------
-    pos1 : ndarray, shape (..., 3)
-        Start position in NEV coordinates.
-    vec1 : ndarray, shape (..., 3)
-        Start unit direction vector in NEV coordinates.
-    pos_target : ndarray, shape (..., 3)
-        Target position in NEV coordinates.
-    tangent_length : float or ndarray, shape (...)
-        Length of the tangent (hold) section.
-    dist_curve : float or ndarray, shape (...)
-        Arc length of the curve section. Where equal to zero, the input
-        ``vec1`` is returned unchanged (pure-hold fallback).
-    func_dogleg : float or ndarray, shape (...)
-        Shape factor (ratio factor) for the curve.
-
-    Returns
-    -------
-    ndarray, shape (..., 3)
-        Target unit direction vector in NEV coordinates.
-    """
-    pos1 = np.asarray(pos1, dtype=float)
-    vec1 = np.asarray(vec1, dtype=float)
-    pos_target = np.asarray(pos_target, dtype=float)
-    tangent_length = np.asarray(tangent_length, dtype=float)
-    dist_curve = np.asarray(dist_curve, dtype=float)
-    func_dogleg = np.asarray(func_dogleg, dtype=float)
-
-    half = dist_curve * func_dogleg / 2
-    denom = half + tangent_length
-
-    # Broadcast per-sample scalars to match pos/vec batch shape (..., 3).
-    half_b = half[..., None] if half.ndim >= 1 else half
-    denom_b = denom[..., None] if denom.ndim >= 1 else denom
-
-    vec_target = (pos_target - pos1 - half_b * vec1) / denom_b
-
-    # Axis-aware normalise — works for scalar shape-(3,) and batched (..., 3).
-    norm = np.linalg.norm(vec_target, axis=-1, keepdims=True)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        vec_target = vec_target / norm
-
-    # Pure-hold fallback: where dist_curve == 0, return vec1.
-    zero_mask = (dist_curve == 0)
-    if zero_mask.ndim == 0:
-        if bool(zero_mask):
-            return vec1
-        return vec_target
-    return np.where(zero_mask[..., None], vec1, vec_target)
-
-
-def get_curve_hold_data(radius, dogleg):
-    """Computes arc length and shape factor for a curve section.
-
-    Parameters
-    ----------
-    radius : float
-        Radius of curvature.
-    dogleg : float
-        Dogleg angle in radians.
-
-    Returns
-    -------
-    tuple
-        A tuple of (dist_curve, func_dogleg) where dist_curve is the arc
-        length and func_dogleg is the minimum-curvature shape factor.
-    """
-    dist_curve = radius * dogleg
-    func_dogleg = shape_factor(dogleg)
-
-    return (
-        dist_curve,
-        func_dogleg
-    )
-
-
-def shape_factor(dogleg):
-    """Computes the minimum-curvature shape factor for a dogleg angle.
-
-    Parameters
-    ----------
-    dogleg : float
-        Dogleg angle in radians.
-
-    Returns
-    -------
-    float
-        The ratio factor (shape factor) for minimum-curvature interpolation.
-    """
-    return get_rf(dogleg)
-
-
-def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
-    """Vectorised curve-hold connector: fixed start pose, fixed target pos.
-
-    Solves the minimum-MD curve-then-hold geometry from a start pose
-    ``(pos1, vec1)`` to a target position ``pos_target`` with a given
-    design radius. The target tangent vector is an OUTPUT of the solve —
-    computed analytically from the geometry — not an input. Equivalent
-    to ``Connector(pos1=..., vec1=..., pos2=pos_target, dls_design=...)``
-    in the ``'curve_hold'`` mode (binary code ``00110`` in
-    ``_get_initial_methods``), but operates element-wise on arrays so a
-    large sweep is one numpy call rather than a Python loop over
-    ``Connector`` instances.
-
-    Parameters
-    ----------
-    pos1 : array_like, shape (..., 3)
-        Start positions in NEV coordinates. Arbitrary leading batch shape.
-    vec1 : array_like, shape (..., 3)
-        Unit direction vectors at the start. Must share ``pos1``'s leading
-        shape.
-    pos_target : array_like, shape (..., 3)
-        Target positions in NEV coordinates. Must share ``pos1``'s leading
-        shape.
-    radius : float or array_like, shape (...)
-        Design radius of curvature. Broadcasts against the leading shape.
-
-    Returns
-    -------
-    dict
-        All entries are ndarrays whose leading shape matches the inputs.
-
-        - ``'pos2'`` shape (..., 3) — end of the curve / start of the hold.
-        - ``'vec_target'`` shape (..., 3) — computed unit tangent at target.
-        - ``'tangent_length'`` shape (...) — hold-section length.
-        - ``'dogleg'`` shape (...) — curve angle, radians.
-        - ``'dist_curve'`` shape (...) — arc length of the curve section.
-        - ``'md'`` shape (...) — total measured depth (curve + hold).
-
-    Notes
-    -----
-    When the target is exactly along ``vec1`` (pure-hold degenerate case),
-    the solver returns ``dogleg = 0``, ``tangent_length = dist_to_target``,
-    ``vec_target = vec1``, and ``pos2 = pos1``. This matches the scalar
-    ``Connector`` behaviour in that regime.
-
-    The underlying helpers (``min_dist_to_target``, ``get_curve_hold_data``,
-    ``get_vec_target``) have all been array-safe since the vectorisation
-    patch; this function is just a thin wrapper that computes the three
-    intermediate distance scalars and composes the helpers.
-    """
-    pos1 = np.asarray(pos1, dtype=float)
-    vec1 = np.asarray(vec1, dtype=float)
-    pos_target = np.asarray(pos_target, dtype=float)
-    radius = np.asarray(radius, dtype=float)
-
-    delta = pos_target - pos1
-    dist_to_target = np.linalg.norm(delta, axis=-1)
-    dist_perp_to_target = np.sum(delta * vec1, axis=-1)
-    # Same clamp the scalar Connector._get_distances applies to catch fp drift
-    # where the projected distance can marginally exceed the straight-line
-    # distance.
-    dist_perp_to_target = np.minimum(dist_perp_to_target, dist_to_target)
-    dist_norm_to_target = np.sqrt(
-        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)
-    )
-
-    distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
-    tangent_length, dogleg = min_dist_to_target(radius, distances)
-    # Wrap negative doglegs by +2π to match the scalar Connector
-    # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
-    # output before building the path). Without this, a geometry that
-    # dictates a "backward" turn yields negative dist_curve and the
-    # reported total MD ends up negative.
-    dogleg = check_dogleg(dogleg)
-    dist_curve, func_dogleg = get_curve_hold_data(radius, dogleg)
-
-    vec_target = get_vec_target(
-        pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg
-    )
-
-    # pos2 = end of arc = target - (hold-section vector)
-    tl = tangent_length[..., None] if tangent_length.ndim >= 1 else tangent_length
-    pos2 = pos_target - tl * vec_target
-    md = dist_curve + tangent_length
-
-    return {
-        "pos2": pos2,
-        "vec_target": vec_target,
-        "tangent_length": tangent_length,
-        "dogleg": dogleg,
-        "dist_curve": dist_curve,
-        "md": md,
-    }
-
-
-def min_dist_to_target(radius, distances):
-    """Computes tangent length and dogleg for a curve-hold section to a target.
-
-    Parameters
-    ----------
-    radius : float
-        Radius of curvature for the curve section.
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-
-    Returns
-    -------
-    tangent_length : float
-        Hold section length.
-    dogleg : float
-        Curve angle in radians.
-    """
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    tangent_length = (
-        dist_to_target ** 2
-        - 2 * radius * dist_norm_to_target
-    ) ** 0.5
-
-    # determine the dogleg angle of the curve section
-    dogleg = 2 * np.arctan2(
-        (dist_perp_to_target - tangent_length),
-        (
-            2 * radius - dist_norm_to_target
-        )
-    )
-
-    return tangent_length, dogleg
-
-
-def min_curve_to_target(distances):
-    """Computes minimum-curvature parameters when the design DLS is insufficient.
-
-    Used when the target cannot be reached with the design radius, so the
-    curve section uses the minimum radius geometrically required.
-
-    Parameters
-    ----------
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-
-    Returns
-    -------
-    tangent_length : float
-        Always 0 (pure curve, no hold).
-    radius_critical : float
-        Minimum required radius of curvature.
-    dogleg : float
-        Curve angle in radians.
-    """
-    if distances == (0., 0., 0,):
-        return (
-            0.,
-            np.inf,
-            0.
-        )
-
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    if dist_norm_to_target == 0.:
-        radius_critical = np.inf
-    else:
-        radius_critical = (
-            dist_to_target ** 2 / (
-                2 * dist_norm_to_target
-            )
-        )
-        if np.isnan(radius_critical):
-            radius_critical = np.nan
-        else:
-            assert radius_critical > 0
-
-    dogleg = (
-        2 * np.arctan2(
-            dist_norm_to_target,
-            dist_perp_to_target
-        )
-    )
-
-    tangent_length = 0
-
-    return (
-        tangent_length,
-        radius_critical,
-        dogleg
-    )
-
-
-def get_radius_critical(radius, distances, min_error):
-    """Computes the critical radius for a given target geometry.
-
-    The critical radius is the minimum curvature radius needed to reach
-    the target with a pure curve (no tangent). Below this radius, a
-    curve-hold path is possible; above it, minimum curvature is needed.
-
-    Parameters
-    ----------
-    radius : float
-        Design radius of curvature.
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-    min_error : float
-        Error tolerance factor applied to the result.
-
-    Returns
-    -------
-    float
-        The critical radius. Returns 0 if the normal distance is zero.
-    """
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    if dist_norm_to_target == 0:
-        return 0
-
-    radius_critical = (
-        dist_to_target ** 2 / (
-            2 * dist_norm_to_target
-        )
-    ) * (1 - min_error)
-
-    if np.isnan(radius_critical):
-        radius_critical = np.nan
-    else:
-        assert radius_critical > 0
-
-    return radius_critical
-
-
-def interpolate_well(sections, step=30):
-    """Constructs interpolated survey data from a list of Connector sections.
-
-    Parameters
-    ----------
-    sections : Connector or list of Connector
-        Connector objects defining the well trajectory.
-    step : float
-        Desired delta measured depth between interpolated survey
-        points.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    method = {
-        'hold': get_interpolate_hold,
-        'min_dist_to_target': get_interpolate_min_dist_to_target,
-        'min_curve_to_target': get_interpolate_min_curve_to_target,
-        'curve_hold_curve': get_interpololate_curve_hold_curve,
-        'min_curve': get_min_curve
-    }
-
-    data = []
-    if type(sections) is not list:
-        sections = [sections]
-    for s in sections:
-        data.extend(method[s.method](s, step))
-
-    return data
-
-
-def interpolate_curve(
-    md1,
-    pos1,
-    vec1,
-    vec2,
-    dist_curve,
-    dogleg,
-    func_dogleg,
-    step,
-    endpoint=False
-):
-    """Interpolates survey points along a curve section at regular MD intervals.
-
-    Uses Rodrigues' rotation formula for numerical stability, especially
-    for near-180-degree doglegs where SLERP becomes unstable.
-
-    Parameters
-    ----------
-    md1 : float
-        Measured depth at the start of the curve.
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Start unit direction vector in NEV coordinates.
-    vec2 : ndarray
-        End unit direction vector in NEV coordinates.
-    dist_curve : float
-        Arc length of the curve section.
-    dogleg : float
-        Total dogleg angle in radians.
-    func_dogleg : float
-        Shape factor (ratio factor) for the curve.
-    step : float
-        Desired delta measured depth between interpolated points.
-    endpoint : bool
-        If True, includes the curve endpoint in the output.
-
-    Returns
-    -------
-    dict
-        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
-        containing numpy arrays of interpolated survey data.
-    """
-    # sometimes the curve section has no length
-    # this if statement handles this event
-    if any((dist_curve == 0, np.isnan(dist_curve))):
-        inc, azi = get_angles(vec1, nev=True).T
-        data = dict(
-            md=np.array([md1]),
-            vec=np.array([vec1]),
-            inc=inc,
-            azi=azi,
-            dogleg=np.array([dogleg])
-        )
-
-        return data
-
-    end_md = abs(dist_curve)
-    if step is None:
-        md = np.array([0])
-    else:
-        start_md = step - (md1 % step)
-        md = np.arange(start_md, end_md, step)
-        md = np.concatenate(([0.], md))
-    if endpoint:
-        md = np.concatenate((md, [end_md]))
-    dogleg_interp = (dogleg / dist_curve * md).reshape(-1, 1)
-
-    # Rodrigues' rotation formula is numerically superior to SLERP when dogleg
-    # is near π.  SLERP weights contain 1/sin(dogleg) which amplifies errors
-    # by ~1/sin(π-ε) ≈ 1/ε for near-180° arcs (e.g. case #492 with dogleg≈179°
-    # amplifies errors 44×, producing spiralling visualisation paths).
-    #
-    # Rodrigues: vec(t) = cos(t)*vec1 + sin(t)*in_plane
-    # where in_plane is the unit vector in the arc plane, perpendicular to vec1.
-    # The formula never divides by sin(dogleg) during evaluation — only during
-    # the one-time setup of in_plane — so numerical errors do not accumulate.
-    cross = np.cross(vec1, vec2)
-    cross_norm = float(np.linalg.norm(cross))
-    if cross_norm < 1e-10:
-        # vec1 ≈ vec2 (zero dogleg) or exactly antiparallel (degenerate arc):
-        # return the start direction for all points.
-        vec = np.tile(vec1, (len(md), 1))
-    else:
-        rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
-        in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
-        vec = (
-            np.cos(dogleg_interp) * vec1
-            + np.sin(dogleg_interp) * in_plane
-        )
-    vec = vec / np.linalg.norm(vec, axis=1).reshape(-1, 1)
-    inc, azi = get_angles(vec, nev=True).T
-
-    data = dict(
-        md=md + md1,
-        vec=vec,
-        inc=inc,
-        azi=azi,
-        dogleg=np.concatenate((
-            np.array([0.]), np.diff(dogleg_interp.reshape(-1))
-        )),
-    )
-
-    return data
-
-
-def interpolate_hold(md1, pos1, vec1, md2, step, endpoint=False):
-    """Interpolates survey points along a hold (tangent) section.
-
-    Parameters
-    ----------
-    md1 : float
-        Measured depth at the start of the hold.
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Constant unit direction vector during the hold.
-    md2 : float
-        Measured depth at the end of the hold.
-    step : float
-        Desired delta measured depth between interpolated points.
-    endpoint : bool
-        If True, includes the hold endpoint in the output.
-
-    Returns
-    -------
-    dict
-        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
-        containing numpy arrays of interpolated survey data.
-    """
-    end_md = md2 - md1
-    if step is None:
-        md = np.array([0])
-    else:
-        start_md = step - (md1 % step)
-        md = np.arange(start_md, end_md, step)
-        md = np.concatenate(([0.], md))
-    if endpoint:
-        md = np.concatenate((md, [end_md]))
-    vec = np.full((len(md), 3), vec1)
-    inc, azi = get_angles(vec, nev=True).T
-    dogleg = np.full_like(md, 0.)
-
-    data = dict(
-        md=md + md1,
-        vec=vec,
-        inc=inc,
-        azi=azi,
-        dogleg=dogleg,
-    )
-
-    return data
-
-
-def get_min_curve(section, step=30, data=None):
-    """Interpolates a minimum-curve section, dispatching by sub-method.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_curve'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if section.md2 is None:
-        result = (
-            get_interpolate_min_curve_to_target(
-                section, step, data
-            )
-        )
-    else:
-        result = (
-            get_interpolate_min_dist_to_target(
-                section, step, data
-            )
-        )
-    return result
-
-
-def get_interpolate_hold(section, step=30, data=None):
-    """Interpolates a hold-method Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'hold'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    data.append(interpolate_hold(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        md2=section.md_target,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpolate_min_curve_to_target(section, step=30, data=None):
-    """Interpolates a min-curve-to-target Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_curve_to_target'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec_target,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpolate_min_dist_to_target(section, step=30, data=None):
-    """Interpolates a min-dist-to-target Connector section (curve + hold).
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_dist_to_target'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    # the first curve section
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec2,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step
-    ))
-
-    # the hold section
-    data.append(interpolate_hold(
-        md1=section.md2,
-        pos1=section.pos2,
-        vec1=section.vec2,
-        md2=section.md_target,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpololate_curve_hold_curve(section, step=30, data=None):
-    """Interpolates a curve-hold-curve Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'curve_hold_curve'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    # the first curve section
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec2,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step
-    ))
-
-    # the hold section
-    data.append(interpolate_hold(
-        md1=section.md2,
-        pos1=section.pos2,
-        vec1=section.vec2,
-        md2=section.md3,
-        step=step
-    ))
-
-    # the second curve section
-    data.append(interpolate_curve(
-        md1=section.md3,
-        pos1=section.pos3,
-        vec1=section.vec3,
-        vec2=section.vec_target,
-        dist_curve=section.dist_curve2,
-        dogleg=section.dogleg2,
-        func_dogleg=section.func_dogleg2,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def convert_target_input_to_booleans(*inputs):
-    """Converts target parameters to a binary string for method lookup.
-
-    Parameters
-    ----------
-    *inputs
-        Variable number of target parameters (md2, inc2, azi2,
-        pos2, vec2). Each is mapped to '1' if not None, '0' otherwise.
-
-    Returns
-    -------
-    str
-        A 5-character binary string encoding which parameters were provided.
-    """
-    input = [
-        "0" if i is None else "1" for i in inputs
-    ]
-
-    return ''.join(input)
-
-
-def connect_points(
-    cartesians, vec_start=[0., 0., 1.], dls_design=3.0, nev=True,
-    # step=30,
-    md_start=0.
-):
-    """Connects a sequence of Cartesian points with Connector sections.
-
-    Parameters
-    ----------
-    cartesians : list or ndarray
-        Array of shape (n, 3) with positions as [n, e, tvd]
-        (if nev=True) or [x, y, z] (if nev=False).
-    vec_start : list or ndarray
-        Unit start direction vector in the corresponding
-        coordinate system.
-    dls_design : float or list
-        Design DLS in deg/30m (or deg/100ft). Can be a
-        scalar or array of length n.
-    nev : bool
-        If True, cartesians are in NEV coordinates; if False, XYZ.
-    md_start : float
-        Measured depth at the first point.
-
-    Returns
-    -------
-    list
-        A list of Connector objects linking consecutive points.
-    """
-    if nev:
-        pos_nev = np.array(cartesians).reshape(-1, 3)
-        vec_nev = np.zeros_like(pos_nev)
-        vec_nev[0] = np.array(vec_start).reshape(-1, 3)
-    else:
-        pos_nev = get_nev(cartesians)
-        vec_nev = np.zeros_like(pos_nev)
-        vec_nev[0] = get_nev(vec_start)
-
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
-    else:
-        dls = np.array(dls_design).reshape(-1, 1)
-
-    connections = []
-    for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-        if i == 0:
-            node_1 = Node(
-                pos=p,
-                vec=v,
-                md=md_start
-            )
-            continue
-        if i > 1:
-            node_1 = connections[-1].node_end
-        node_2 = Node(
-            pos=p
-        )
-        c = Connector(
-            node1=node_1,
-            node2=node_2,
-            dls_design=d
-        )
-        assert np.allclose(c.pos_target, p)
-        connections.append(c)
-
-    return connections
-
-
-def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
-    """Extracts a minimal well plan from a drilled survey.
-
-    Identifies the minimum number of control points (start/end of hold
-    or build/turn sections) needed to reproduce the survey trajectory
-    within the given tolerance.
-
-    Parameters
-    ----------
-    survey : Survey
-        A welleng Survey object representing the drilled well.
-    tolerance : float
-        Fit tolerance. Higher values produce fewer control
-        points but a looser fit.
-    dls_design : float
-        Minimum design DLS in deg/30m for the planned trajectory.
-    step : float
-        Desired MD step interval for the output survey.
-
-    Returns
-    -------
-    list
-        A list of Connector objects representing the planned sections.
-
-    Raises
-    ------
-    AssertionError
-        If dls_design is not greater than 0.
-    """
-    assert dls_design > 0., "dls_design must be greater than 0"
-
-    idx = [0]
-    end = len(survey.md) - 1
-    md = survey.md[0]
-    node = None
-    sections = []
-
-    while True:
-        section, i = _get_section(
-            survey=survey,
-            start=idx[-1],
-            md=md,
-            node=node,
-            tolerance=tolerance,
-            dls_design=dls_design
-        )
-        sections.append(section)
-        idx.append(i)
-        if idx[-1] >= end:
-            break
-        node = section.node_end
-
-    # data = interpolate_well(sections, step=step)
-
-    return sections
-
-
-def _get_section(
-    survey, start, tolerance, dls_design=1., md=0., node=None
-):
-    idx = start + 2
-    nev = survey.get_nev_arr()
-
-    if idx > len(nev):
-        idx = len(nev) - 1
-
-    if node is None:
-        node_1 = Node(
-            pos=nev[start],
-            vec=survey.vec_nev[start],
-            md=md
-        )
-    else:
-        node_1 = node
-
-    scores = [0.]
-    delta_scores = []
-    c_old = None
-
-    for i, (p, v) in enumerate(zip(nev[idx:], survey.vec_nev[idx:])):
-        node_2 = Node(
-            pos=p,
-            vec=v,
-        )
-        c = Connector(
-            node1=node_1,
-            node2=node_2,
-            dls_design=dls_design
-        )
-        s = c.survey(step=1.)
-        if c_old is None:
-            c_old = deepcopy(c)
-        nev_new = s.get_nev_arr()
-
-        distances = distance.cdist(
-            nev[start: idx + i],
-            nev_new
-        )
-
-        score = np.sum(np.amin(distances, axis=1)) / (s.md[-1] - s.md[0])
-
-        delta_scores.append(score - scores[-1])
-        scores.append(score)
-
-        if all((
-            abs(delta_scores[-1]) >= tolerance,
-            idx + i < len(nev) - 2
-        )):
-            break
-        elif idx + i == len(nev) - 1:
-            c_old = deepcopy(c)
-            break
-        else:
-            c_old = deepcopy(c)
-
-    return (
-        c_old,
-        idx + i - 1 if idx + i != len(nev) - 1 else idx + i
-    )
-
-
-def drop_off(
-    target_inc: float, dls: float, delta_md: float | None = None,
-    node: Node | None = None, tol: float = 1e-5
-) -> list:
-    """Computes trajectory sections to drop off (or build) to a target inclination.
-
-    Use ``extend_to_tvd`` if a specific TVD target is also required.
-
-    Parameters
-    ----------
-    target_inc : float
-        Target inclination in degrees.
-    dls : float
-        Design DLS in deg/30m.
-    delta_md : float or None
-        Maximum section length in meters. If None, the section
-        is unconstrained.
-    node : Node or None
-        Starting Node. Defaults to surface pointing down.
-    tol : float
-        Tolerance for tangent section length; sections shorter than
-        this are omitted.
-
-    Returns
-    -------
-    list
-        A list of Nodes describing the trajectory. Contains one Node
-        (the arc endpoint) or two (arc endpoint plus tangent endpoint)
-        if the target inclination was achieved within the section.
-    """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
-    node.md = 0 if node.md is None else node.md
-    radius = radius_from_dls(dls)
-    if isinstance(delta_md, np.ndarray):
-        delta_md = delta_md[0]
-    max_dogleg = (
-        2 * np.pi if delta_md is None
-        else delta_md / radius
-    )
-
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
-    )
-    tangent_length = (
-        0 if delta_md is None
-        else delta_md - arc_length
-    )
-    node2 = Node(
-        pos=pos2, vec=vec2, md=node.md + arc_length
-    )
-    if tangent_length > tol:
-        pos3 = pos2 + tangent_length * vec2
-        node3 = Node(
-            pos=pos3, vec=vec2, md=node2.md + tangent_length
-        )
-        return [node2, node3]
-    else:
-        return [node2]
-
-
-def extend_to_tvd(
-    target_tvd: float, node: Node | None = None,
-    delta_md: float | None = None,
-    target_inc: float | None = None, dls: float | None = None
-) -> list:
-    """Computes Connector sections to reach a target TVD with optional inclination change.
-
-    Parameters
-    ----------
-    target_tvd : float
-        Target true vertical depth in meters.
-    node : Node or None
-        Starting Node. Defaults to surface pointing down.
-    delta_md : float or None
-        Maximum section length in meters. If None, unconstrained.
-    target_inc : float or None
-        Target inclination in degrees at the target TVD.
-        If provided, the solver attempts to achieve this inclination
-        and holds tangent to the target TVD.
-    dls : float or None
-        Design DLS in deg/30m. Defaults to 2.5 if None and
-        target_inc is provided.
-
-    Returns
-    -------
-    list
-        A list of Connector objects. Contains one Connector (curve only)
-        or two (curve plus tangent hold) if the target inclination was
-        achieved within the section.
-
-    Examples
-    --------
-    A well at 30 degrees inclination dropping to vertical:
-
-    >>> import welleng as we
-    >>> node = we.node.Node(pos=[0, 0, 3000], md=4000, inc=30, azi=135)
-    >>> connectors = we.connector.extend_to_tvd(
-    ...     target_tvd=3200, node=node, target_inc=0, dls=3
-    ... )
-    """
-    if node is None:
-        node = Node()
-    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
-    _delta_md = 1e-8 if delta_md is None else delta_md
-    connections = []
-    if target_inc is None:
-        def _extend_tvd(
-            delta_md, pos, vec, target_tvd, return_data=False
-        ):
-            pos2 = np.array(pos) + delta_md * np.array(vec)
-            if return_data:
-                return pos2
-            else:
-                return abs(pos2[2] - target_tvd)
-
-        args = (node.pos_nev, node.vec_nev, target_tvd)
-        bounds = [[0, None]]
-        result = minimize(
-            _extend_tvd,
-            _delta_md,
-            args=args,
-            bounds=bounds,
-            method="Powell"
-        )
-        pos2 = _extend_tvd(result.x, *args, return_data=True)
-        connections.append(Connector(
-            pos1=node.pos_nev, vec1=node.vec_nev,
-            md1=0 if node.md is None else node.md,
-            pos2=pos2,
-            dls_design=dls, force_min_curve=True
-        ))
-    else:
-        def _drop_off(
-            delta_md, target_inc, target_tvd, dls, node,
-            return_data=False
-        ):
-            nodes = drop_off(
-                target_inc, dls, delta_md, node
-            )
-            if return_data:
-                return nodes
-            else:
-                return abs(nodes[-1].pos_nev[2] - target_tvd)
-
-        dls = 2.5 if dls is None else dls
-        args = (target_inc, target_tvd, dls, node)
-        bounds = [
-            [min(target_tvd - node.pos_nev[2], _delta_md), None]
-        ]
-        x0 = _delta_md
-        result = minimize(
-            _drop_off,
-            x0,
-            args=args,
-            bounds=bounds,
-            method='Powell'
-        )
-        nodes = _drop_off(
-            result.x, *args, return_data=True
-        )
-        connections.append(Connector(
-            node1=node,
-            pos2=nodes[0].pos_nev, vec2=nodes[0].vec_nev,
-            dls_design=dls, force_min_curve=True
-        ))
-        if len(nodes) > 1:
-            connections.append(Connector(
-                node1=connections[-1].node_end,
-                pos2=nodes[-1].pos_nev,
-                dls_design=dls, force_min_curve=True
-            ))
-    return connections
-
-
+"""Wellbore trajectory connector for computing minimum-MD CLC paths."""
+
+from copy import copy, deepcopy
+
+import numpy as np
+from scipy.optimize import minimize
+from scipy.spatial import distance
+
+from .node import Node, get_node_params
+from .utils import (
+    NEV_to_HLA, dls_from_radius, get_angles,
+    get_dogleg, get_nev, get_rf, get_unit_vec, get_vec, get_xyz,
+    radius_from_dls, get_arc
+)
+
+
+class Connector:
+    """Solves minimum-MD wellbore trajectories between two survey stations.
+
+    Automatically selects the appropriate geometric method (hold, curve-hold,
+    min-curve, or curve-hold-curve) based on the provided start/end constraints
+    and computes control points for the connecting path segment. The solver
+    honours a maximum dog-leg severity (DLS) constraint where geometrically
+    feasible.
+
+    Attributes
+    ----------
+    method : str
+        The geometric method used ('hold', 'min_curve',
+        'curve_hold_curve', 'min_dist_to_target', or
+        'min_curve_to_target').
+    node_start : Node
+        Start survey station as a Node.
+    node_end : Node
+        End survey station as a Node.
+    pos1 : ndarray of shape (3,)
+        Start position in NEV coordinates.
+    vec1 : ndarray of shape (3,)
+        Unit direction vector at the start position.
+    inc1 : float
+        Inclination at the start position (radians).
+    azi1 : float
+        Azimuth at the start position (radians).
+    md1 : float
+        Measured depth at the start position.
+    pos2 : ndarray of shape (3,) or None
+        Position at the end of the first arc section in NEV
+        coordinates. Equal to vec2 direction at this point.
+    vec2 : ndarray of shape (3,) or None
+        Unit direction vector at the end of the first arc.
+        Equals vec3 for curve-hold-curve solutions.
+    inc2 : float or None
+        Inclination at the end of the first arc (radians).
+    azi2 : float or None
+        Azimuth at the end of the first arc (radians).
+    md2 : float or None
+        Measured depth at the end of the first arc.
+    pos3 : ndarray of shape (3,) or None
+        Position at the start of the second arc (end of the
+        hold section) in NEV coordinates. Only set for
+        curve-hold-curve solutions.
+    vec3 : ndarray of shape (3,) or None
+        Unit direction vector at the start of the second arc.
+        Only set for curve-hold-curve solutions.
+    inc3 : float or None
+        Inclination at the start of the second arc (radians).
+    azi3 : float or None
+        Azimuth at the start of the second arc (radians).
+    md3 : float or None
+        Measured depth at the start of the second arc.
+    md_target : float
+        Measured depth at the target position.
+    pos_target : ndarray of shape (3,)
+        Target position in NEV coordinates.
+    vec_target : ndarray of shape (3,)
+        Target unit direction vector in NEV coordinates.
+    inc_target : float
+        Target inclination (radians).
+    azi_target : float
+        Target azimuth (radians).
+    dogleg : float
+        Dogleg angle of the first arc (radians).
+    dogleg2 : float or None
+        Dogleg angle of the second arc (radians). Only set for
+        curve-hold-curve solutions.
+    dist_curve : float
+        Arc length of the first curve section.
+    dist_curve2 : float
+        Arc length of the second curve section.
+    tangent_length : float or None
+        Length of the hold (tangent) section between the two
+        arcs.
+    dls : float
+        Dogleg severity of the first arc (radians per unit
+        length).
+    dls2 : float
+        Dogleg severity of the second arc (radians per unit
+        length).
+    dls_design : float
+        Design DLS constraint for the first arc (radians per
+        unit length).
+    dls_design2 : float
+        Design DLS constraint for the second arc (radians per
+        unit length).
+    radius_design : float
+        Design turn radius derived from dls_design.
+    radius_design2 : float
+        Design turn radius derived from dls_design2.
+    radius_critical : float
+        Critical (minimum geometric) radius for the first arc.
+    radius_critical2 : float
+        Critical radius for the second arc.
+
+    Methods
+    -------
+    interpolate(step=30)
+        Interpolate the solved trajectory at regular MD intervals.
+    """
+
+    def __init__(
+        self,
+        node1=None,
+        node2=None,
+        pos1=[0., 0., 0.],
+        vec1=None,
+        inc1=None,
+        azi1=None,
+        md1=0,
+        dls_design=3.0,
+        dls_design2=None,
+        md2=None,
+        pos2=None,
+        vec2=None,
+        inc2=None,
+        azi2=None,
+        degrees=True,
+        unit='meters',
+        min_error=1e-5,
+        delta_dls=0.1,
+        min_tangent=0.,
+        max_iterations=1_000,
+        force_min_curve=False,
+        closest_approach=False
+    ):
+        """Initializes the Connector and solves the trajectory.
+
+        Only specific combinations of input data are permitted. For example,
+        providing both a start vector and start inc/azi raises an error.
+        The solver determines the appropriate method from the provided
+        parameters and computes the connecting path immediately.
+
+        Parameters
+        ----------
+        node1 : Node or None
+            Start Node. Overrides pos1, vec1, md1 if provided.
+        node2 : Node or None
+            End Node. Overrides pos2, vec2, md2 if provided.
+        pos1 : list or ndarray
+            Start position as [n, e, v] in NEV coordinates.
+        vec1 : list or ndarray or None
+            Start unit direction vector in NEV coordinates.
+        inc1 : float or None
+            Start inclination angle.
+        azi1 : float or None
+            Start azimuth angle.
+        md1 : float
+            Start measured depth.
+        dls_design : float
+            Design DLS for the first curve section in
+            deg/30m (meters) or deg/100ft (feet).
+        dls_design2 : float or None
+            Design DLS for the second curve section. Defaults
+            to dls_design if None.
+        md2 : float or None
+            Target measured depth. Mutually exclusive with pos2.
+        pos2 : list or ndarray or None
+            Target position in NEV coordinates.
+        vec2 : list or ndarray or None
+            Target unit direction vector in NEV coordinates.
+            Mutually exclusive with inc2/azi2.
+        inc2 : float or None
+            Target inclination angle.
+        azi2 : float or None
+            Target azimuth angle.
+        degrees : bool
+            If True, angles are in degrees; if False, radians.
+        unit : str
+            Distance unit, either 'meters' or 'feet'.
+        min_error : float
+            Error tolerance for iterative convergence. Must be
+            less than 1.
+        delta_dls : float
+            DLS tolerance (deg/30m) for balancing curve sections
+            in curve-hold-curve solutions.
+        min_tangent : float
+            Minimum tangent length to stabilize
+            curve-hold-curve iteration.
+        max_iterations : int
+            Maximum iteration count for curve-hold-curve fitting.
+        force_min_curve : bool
+            If True, forces minimum-curvature method.
+        closest_approach : bool
+            If True, finds the closest-approach trajectory
+            when the target is inside the critical radius.
+
+        Raises
+        ------
+        AssertionError
+            If input parameter combinations are invalid.
+        """
+        if node1 is not None:
+            pos1, vec1, md1 = get_node_params(
+                node1
+            )
+        if node2 is not None:
+            pos2, vec2, md2 = get_node_params(
+                node2
+            )
+
+        # Set up a lookup dictionary to use with the logic to determine
+        # what connector method to deploy. Use a binary string to
+        # represent the inputs in the order:
+        # (md2, inc2, azi2, pos2, vec2)
+        # Initially I used boolean logic, but it quickly became non-
+        # transparent and difficult to debug.
+        self._get_initial_methods()
+
+        # METHODS = [
+        #     'hold',
+        #     'curve_hold',
+        #     'min_dist_to_target',
+        #     'min_curve_to_target',
+        #     'curve_hold_curve',
+        #     'min_curve'
+        # ]
+
+        # quick check that inputs are workable and if not some steer to
+        # the user.
+        assert vec1 is not None or (inc1 is not None and azi1 is not None), (
+            "Require either vec1 or (inc1 and azi1)"
+        )
+        if vec1 is not None:
+            assert inc1 is None and azi1 is None, (
+                "Either vec1 or (inc1 and azi1)"
+            )
+        if (inc1 is not None or azi1 is not None):
+            assert vec1 is None, "Either vec1 or (inc1 and azi1)"
+
+        assert (
+            md2 is not None
+            or pos2 is not None
+            or vec2 is not None
+            or inc2 is not None
+            or azi2 is not None
+        ), "Missing target parameters"
+
+        if vec2 is not None:
+            assert not (inc2 or azi2), "Either vec2 or (inc2 and azi2)"
+        if (inc2 is not None or azi2 is not None):
+            assert vec2 is None, "Either vec2 or (inc2 and azi2)"
+        if md2 is not None:
+            assert pos2 is None, "Either md2 or pos2"
+            assert md2 >= md1, "md2 must be larger than md1"
+
+        if dls_design is not None:
+            assert dls_design > 0, "dls_design must be greater than zero"
+        assert min_error < 1, "min_error must be less than 1.0"
+
+        # figure out what method is required to connect the points
+        target_input = convert_target_input_to_booleans(
+            md2, inc2, azi2, pos2, vec2
+        )
+
+        self.force_min_curve = force_min_curve
+        if self.force_min_curve:
+            self.initial_method = 'min_curve_or_hold'
+        else:
+            self.initial_method = self.initial_methods[target_input]
+
+        # do some more initialization stuff
+        self.min_error = min_error
+        self.min_tangent = min_tangent
+        self.iterations = 0
+        self.max_iterations = max_iterations
+        self.errors = []
+        self.radii = []
+        self.dogleg_old, self.dogleg2_old = 0, 0
+        self.dist_curve2 = 0
+        self.pos1 = np.array(pos1)
+
+        self.pos2, self.vec2, self.inc2, self.azi2, self.md2 = (
+            None, None, None, None, None
+        )
+
+        # fill in the input data gaps
+        if (inc1 is not None and azi1 is not None):
+            if degrees:
+                self.inc1 = np.radians(inc1)
+                self.azi1 = np.radians(azi1)
+            else:
+                self.inc1 = inc1
+                self.azi1 = azi1
+            self.vec1 = np.array(get_vec(
+                self.inc1, self.azi1, nev=True, deg=False
+            )).reshape(3)
+        else:
+            self.vec1 = np.array(vec1).reshape(3)
+            self.inc1, self.azi1 = get_angles(self.vec1, nev=True).reshape(2)
+
+        self.md1 = md1
+        self.pos_target = None if pos2 is None else np.array(pos2).reshape(3)
+        self.md_target = md2
+
+        if vec2 is not None:
+            self.vec_target = np.array(vec2).reshape(3)
+            self.inc_target, self.azi_target = get_angles(
+                self.vec_target,
+                nev=True
+            ).reshape(2)
+        elif (inc2 is not None and azi2 is not None):
+            if degrees:
+                self.inc_target = np.radians(inc2)
+                self.azi_target = np.radians(azi2)
+            else:
+                self.inc_target = inc2
+                self.azi_target = azi2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        elif inc2 is None and azi2 is None:
+            self.inc_target, self.azi_target, self.vec_target = (
+                self.inc1, self.azi1, self.vec1
+            )
+        elif inc2 is None:
+            self.inc_target = self.inc1
+            if degrees:
+                self.azi_target = np.radians(azi2)
+            else:
+                self.azi_target = azi2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        elif azi2 is None:
+            self.azi_target = self.azi1
+            if degrees:
+                self.inc_target = np.radians(inc2)
+            else:
+                self.inc_target = inc2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        else:
+            self.vec_target = vec2
+            self.inc_target = inc2
+            self.azi_target = azi2
+
+        self.unit = unit
+        if self.unit == 'meters':
+            self.denom = 30
+        else:
+            self.denom = 100
+
+        # Primary DLS / radius.  dls_design=None means "use minimum curvature
+        # required by geometry" — radius_design is set to inf so that
+        # min(radius_design, radius_critical) always resolves to radius_critical.
+        if dls_design is None:
+            self.dls_design = 0.0
+            self.radius_design = np.inf
+        else:
+            self.dls_design = np.radians(dls_design) if degrees else dls_design
+            self.radius_design = self.denom / self.dls_design
+
+        # Secondary DLS (second arc of curve_hold_curve)
+        if dls_design2:
+            self.dls_design2 = np.radians(dls_design2) if degrees else dls_design2
+            self.radius_design2 = self.denom / self.dls_design2
+        else:
+            self.dls_design2 = self.dls_design
+            self.radius_design2 = self.radius_design
+
+        self.delta_dls = delta_dls
+
+        # some more initialization stuff
+        self.tangent_length = None
+        self.dogleg2 = None
+
+        self.pos3, self.vec3, self.inc3, self.azi3, self.md3 = (
+            None, None, None, None, None
+        )
+        self.radius_critical, self.radius_critical2 = np.inf, np.inf
+        self.closest_approach = closest_approach
+
+        # Things fall apart if the start and end vectors exactly equal
+        # one another, so need to check for this and if this is the
+        # case, modify the end vector slightly. This is a lazy way of
+        # doing this, but it's fast. Probably a more precise way would
+        # be to split the dogleg in two, but that's more hassle than
+        # it's worth.
+        if (
+            self.vec_target is not None
+            and np.array_equal(self.vec_target, self.vec1 * -1)
+        ):
+            (
+                self.vec_target,
+                self.inc_target,
+                self.azi_target
+            ) = mod_vec(self.vec_target, self.min_error)
+
+        # properly figure out the method
+        self._get_method()
+
+        # and finally, actually do something...
+        self._use_method()
+
+        self._get_nodes()
+
+    def _get_nodes(self):
+        self.node_start = Node(
+            pos=self.pos1.reshape(3),
+            vec=self.vec1.reshape(3),
+            md=self.md1
+        )
+        self.node_end = Node(
+            pos=self.pos_target.reshape(3),
+            vec=self.vec_target.reshape(3),
+            md=self.md_target
+        )
+
+    def _min_dist_to_target(self):
+        (
+            self.tangent_length,
+            self.dogleg
+        ) = min_dist_to_target(self.radius_design, self.distances)
+        self.dogleg = check_dogleg(self.dogleg)
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            self.radius_design, self.dogleg
+        )
+        self.vec_target = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos_target,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+        self._get_angles_target()
+        self._get_md_target()
+        self.pos2 = (
+            self.pos_target - (
+                self.tangent_length * self.vec_target
+            )
+        )
+        self.md2 = self.md1 + abs(self.dist_curve)
+        self.md_target = self.md2 + self.tangent_length
+        self.vec2 = self.vec_target
+        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
+
+    def _min_curve_to_target(self):
+        (
+            self.tangent_length,
+            self.radius_critical,
+            self.dogleg
+        ) = min_curve_to_target(self.distances)
+        self.dogleg = check_dogleg(self.dogleg)
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            min(self.radius_design, self.radius_critical), self.dogleg
+        )
+        self.vec_target = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos_target,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+        self._get_angles_target()
+        self._get_md_target()
+        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
+
+    def _use_method(self):
+        if self.method == 'hold':
+            self._hold()
+        elif self.method == 'min_curve':
+            self._min_curve()
+        elif self.method == 'curve_hold_curve':
+            self.pos2_list, self.pos3_list = [], [deepcopy(self.pos_target)]
+            self.vec23 = [np.array([0., 0., 0.])]
+            self.delta_radius_list = []
+            # self._target_pos_and_vec_defined(deepcopy(self.pos_target))
+            self._target_pos_and_vec_defined(
+                self.pos1 + (self.pos_target - self.pos1) / 2
+            )
+        else:
+            self.distances = self._get_distances(
+                self.pos1, self.vec1, self.pos_target
+            )
+            if self.radius_design <= get_radius_critical(
+                self.radius_design, self.distances, self.min_error
+            ):
+                self.method = 'min_dist_to_target'
+                self._min_dist_to_target()
+            else:
+                if self.closest_approach:
+                    self.method = 'min_curve_to_target'
+                    self._closest_approach()
+                else:
+                    self.method = 'min_curve_to_target'
+                    self._min_curve_to_target()
+
+    def _get_method(self):
+        assert self.initial_method not in [
+            'no_input',
+            'vec_and_inc_azi',
+            'md_and_pos'
+        ], f"{self.initial_method}"
+        if self.initial_method == 'hold':
+            self.method = 'hold'
+        elif self.initial_method[-8:] == '_or_hold':
+            if np.array_equal(self.vec_target, self.vec1):
+                if self.pos_target is None:
+                    self.method = 'hold'
+                elif np.allclose(
+                        self.vec_target,
+                        (self.pos_target - self.pos1)
+                        / np.linalg.norm(self.pos_target - self.pos1)
+                ):
+                    self.method = 'hold'
+                else:
+                    self.method = self.initial_method[:-8]
+            else:
+                self.method = self.initial_method[:-8]
+        else:
+            self.method = self.initial_method
+
+    def _get_initial_methods(self):
+        # TODO: probably better to load this in from a yaml file
+        # [md2, inc2, azi2, pos2, vec2] forms the booleans
+        self.initial_methods = {
+            '00000': 'no_input',
+            '00001': 'min_curve_or_hold',
+            '00010': 'curve_hold_or_hold',
+            '00011': 'curve_hold_curve_or_hold',
+            '00100': 'min_curve_or_hold',
+            '00101': 'vec_and_inc_azi',
+            '00110': 'curve_hold',
+            '00111': 'vec_and_inc_azi',
+            '01000': 'min_curve_or_hold',
+            '01001': 'vec_and_inc_azi',
+            '01010': 'curve_hold_or_hold',
+            '01011': 'vec_and_inc_azi',
+            '01100': 'min_curve_or_hold',
+            '01101': 'vec_and_inc_azi',
+            '01110': 'curve_hold_curve_or_hold',
+            '01111': 'vec_and_inc_azi',
+            '10000': 'hold',
+            '10001': 'min_curve_or_hold',
+            '10010': 'md_and_pos',
+            '10011': 'md_and_pos',
+            '10100': 'min_curve_or_hold',
+            '10101': 'vec_and_inc_azi',
+            '10110': 'md_and_pos',
+            '10111': 'md_and_pos',
+            '11000': 'min_curve_or_hold',
+            '11001': 'vec_and_inc_azi',
+            '11010': 'md_and_pos',
+            '11011': 'md_and_pos',
+            '11100': 'min_curve_or_hold',
+            '11101': 'vec_and_inc_azi',
+            '11110': 'md_and_pos',
+            '11111': 'md_and_pos'
+        }
+
+    def _closest_approach(self):
+        vec_pos1_pos_target = self.pos_target - self.pos1
+        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
+
+        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
+        cross_product /= np.linalg.norm(cross_product)
+
+        factor = cross_product / vec_pos1_pos_target
+        factor /= abs(factor)
+
+        cc = (
+            self.pos1 + cross_product * factor * self.radius_design
+        )
+
+        cc_pos_target = self.pos_target - cc
+        cc_pos_target /= np.linalg.norm(cc_pos_target)
+
+        self.pos_target_original = copy(self.pos_target)
+
+        self.pos_target = cc + cc_pos_target * self.radius_design
+
+        # recalculate self.distances with new self.pos_target
+        self.distances = self._get_distances(
+                self.pos1, self.vec1, self.pos_target
+            )
+
+        self._min_curve_to_target()
+
+    def _min_curve(self):
+        self.dogleg = get_dogleg(
+            self.inc1, self.azi1, self.inc_target, self.azi_target
+        )
+
+        self.dogleg = check_dogleg(self.dogleg)
+        if self.md_target is None:
+            if not np.isfinite(self.radius_design):
+                raise ValueError(
+                    "dls_design must be specified (not None) when only a "
+                    "target direction is given without a target position or "
+                    "measured depth."
+                )
+            self.md2 = None
+            self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        self.radius_design, self.dogleg
+                    )
+            self.md_target = self.md1 + abs(self.dist_curve)
+            self.pos_target = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec_target,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+        else:
+            with np.errstate(divide='ignore'):
+                self.radius_critical = np.nan_to_num(abs(
+                    (self.md_target - self.md1) / self.dogleg
+                ), nan=np.inf)
+            if (
+                self.radius_critical > self.radius_design
+                or (
+                    np.around(self.dogleg, decimals=5)
+                    == np.around(np.pi, decimals=5)
+                )
+            ):
+                self.md2 = (
+                    self.md1
+                    + min(self.radius_design, self.radius_critical)
+                    * self.dogleg
+                )
+                (
+                    self.inc2, self.azi2, self.vec2
+                ) = self.inc_target, self.azi_target, self.vec_target
+                self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        min(self.radius_design, self.radius_critical),
+                        self.dogleg
+                )
+                self.pos2 = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec2,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+                self.pos_target = self.pos2 + (
+                    self.vec2 * (self.md_target - self.md2)
+                )
+            else:
+                self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        self.radius_critical, self.dogleg
+                    )
+                self.md2 = None
+                self.pos_target = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec_target,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+
+    def _hold(self):
+        if self.pos_target is None:
+            self.pos_target = (
+                self.pos1 + self.vec1 * (self.md_target - self.md1)
+            )
+        if self.md_target is None:
+            self.md_target = (
+                np.linalg.norm(self.pos_target - self.pos1)
+                + self.md1
+            )
+        self.dls, self.dls2 = 0.0, 0.0
+
+    def _get_angles_target(self):
+        self.inc_target, self.azi_target = get_angles(
+            self.vec_target, nev=True
+        ).reshape(2)
+
+    def _get_md_target(self):
+        self.md_target = (
+            self.dist_curve
+            + self.tangent_length
+            + self.dist_curve2
+            + self.md1
+        )
+
+    def _get_pos2(self, pos1, vec1, pos_target, radius):
+        # _get_distances might move pos_target in place, which may never be
+        # the start or the end position of the connector itself.
+        pos_target = np.array(pos_target, dtype=float)
+        distances = self._get_distances(pos1, vec1, pos_target)
+
+        radius_temp = get_radius_critical(
+            self.radius_design,
+            distances,
+            self.min_error
+        )
+        if radius_temp > radius:
+            radius_temp = radius
+            assert self.radius_critical > 0
+
+        (
+            tangent_length,
+            dogleg
+        ) = min_dist_to_target(
+            radius_temp,
+            distances
+        )
+
+        dogleg = check_dogleg(dogleg)
+
+        dist_curve, func_dogleg = get_curve_hold_data(
+                    radius_temp,
+                    dogleg
+                )
+        vec3 = get_vec_target(
+            pos1,
+            vec1,
+            pos_target,
+            tangent_length,
+            dist_curve,
+            func_dogleg
+        )
+
+        tangent_temp = self._get_tangent_temp(tangent_length)
+
+        pos2 = (
+            pos_target - (
+                tangent_temp * vec3
+            )
+        )
+        return pos2
+
+    def _target_pos_and_vec_defined(self, pos3, vec_old=[0., 0., 0.]):
+        """
+        Function for fitting a curve, hold, curve path between a pair of
+        points with vectors.
+
+        It's written in this odd way to allow a solver function like scipy's
+        optimize to solve it, but so far I've not had much success using
+        these.
+
+        If the curve sections can't be achieved with the design DLS values,
+        this function will iterate until the two curve section DLSs are
+        approximately balances (in DLS terms) within the prescribed delta_dls
+        parameter.
+        """
+        minimize_target_pos_and_vec_defined(
+            [self.radius_design, self.radius_design2],
+            self, None, None, True
+        )
+        # Re-evaluate whether the outer loop is needed using the FINAL
+        # converged geometry (not the running minimum radius_critical, which
+        # may have been locked too low by transient tight iteration states).
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            _rc1 = get_radius_critical(
+                self.radius_design, self.distances1, self.min_error
+            )
+            _rc2 = get_radius_critical(
+                self.radius_design2, self.distances2, self.min_error
+            )
+            _outer_needed = not all((_rc1 >= self.radius_design, _rc2 >= self.radius_design2))
+        else:
+            _outer_needed = not all((
+                self.radius_critical > self.radius_design,
+                self.radius_critical2 > self.radius_design2
+            ))
+        if _outer_needed:
+            # Try the r_safe seeding approach first: solve at r_safe=dist/4
+            # (guaranteed to converge for any geometry), then use the result
+            # as seed for a design-radius re-solve.  This can escape the tight
+            # fixed point that the initial call converged to.
+            dist_to_target = np.linalg.norm(self.pos_target - self.pos1)
+            r_safe = dist_to_target / 4.0
+            if 0 < r_safe < min(self.radius_design, self.radius_design2):
+                minimize_target_pos_and_vec_defined(
+                    [r_safe, r_safe], self, None, None, True
+                )
+                pos3_seed = deepcopy(self.pos3)
+                vec_seed = (
+                    deepcopy(self.vec23[-1]) if len(self.vec23) > 0 else None
+                )
+                # Reset running minima (r_safe call left them at small value).
+                self.radius_critical = np.inf
+                self.radius_critical2 = np.inf
+                minimize_target_pos_and_vec_defined(
+                    [self.radius_design, self.radius_design2],
+                    self, pos3_seed, vec_seed, True
+                )
+                # Re-check with final geometry
+                if hasattr(self, 'distances1') and self.distances1 is not None:
+                    _rc1 = get_radius_critical(
+                        self.radius_design, self.distances1, self.min_error
+                    )
+                    _rc2 = get_radius_critical(
+                        self.radius_design2, self.distances2, self.min_error
+                    )
+                    _outer_needed = not all(
+                        (_rc1 >= self.radius_design, _rc2 >= self.radius_design2)
+                    )
+                else:
+                    _outer_needed = not all((
+                        self.radius_critical > self.radius_design,
+                        self.radius_critical2 > self.radius_design2
+                    ))
+
+        if _outer_needed:
+            # Design DLS still cannot be achieved; iterate to balance curvature
+            # across both arcs.  Use a *separate* counter so that the inner
+            # convergence iterations (tracked via self.iterations) do not
+            # prematurely exhaust the outer balancing budget.
+            for _outer in range(self.max_iterations):
+                self.radius_critical = (
+                    (self.md_target - self.md1)
+                    / (abs(self.dogleg) + abs(self.dogleg2))
+                )
+                if not (self.radius_critical >= 0):
+                    break
+                self.radius_critical2 = self.radius_critical
+                minimize_target_pos_and_vec_defined(
+                    [self.radius_design, self.radius_design2],
+                    self, deepcopy(self.pos3), deepcopy(self.vec23[-1]), True
+                )
+
+                # Position-stability check: compare against last 5 positions
+                # explicitly (avoids ambiguous np.allclose broadcasting with
+                # a list of arrays).
+                n_hist = min(5, len(self.pos3_list))
+                pos3_stable = n_hist >= 5 and all(
+                    np.allclose(self.pos3, p) for p in self.pos3_list[-5:]
+                )
+                pos2_stable = n_hist >= 5 and all(
+                    np.allclose(self.pos2, p) for p in self.pos2_list[-5:]
+                )
+
+                if any((
+                    abs(self.dls - self.dls2) < self.delta_dls,
+                    np.allclose(self.pos1, self.pos2),
+                    np.allclose(self.pos3, self.pos_target),
+                    pos3_stable and pos2_stable,
+                    all((
+                        self.dls == self.dls_design,
+                        self.dls2 == self.dls_design2
+                    ))
+                )):
+                    break
+            self._happy_finish()
+            self._delta_pos3_rescue()
+            self._project_tangent()
+            self._endpoint_rescue()
+            self._enforce_planarity()
+            return
+
+        self._happy_finish()
+        self._delta_pos3_rescue()
+        self._project_tangent()
+        self._endpoint_rescue()
+        self._enforce_planarity()
+
+    def _happy_finish(self):
+        # Use the critical radius at the FINAL converged geometry rather than the
+        # running-minimum radius_critical, which may have been locked too low by
+        # transient tight iteration states.  This ensures dist_curve is computed
+        # with the same effective radius that was used to derive self.dogleg in
+        # the last iteration step, keeping the arc geometry self-consistent.
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            rc1_final = get_radius_critical(
+                self.radius_design, self.distances1, self.min_error
+            )
+            r1 = min(rc1_final, self.radius_design)
+        else:
+            r1 = min(self.radius_critical, self.radius_design)
+        # get pos1 to pos2 curve data
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            r1,
+            self.dogleg
+        )
+
+        self.vec3 = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos3,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+
+        # Resync dogleg and arc-1 length from the just-computed vec3.
+        # _happy_finish may be called after _enforce_planarity changes vec3 or
+        # after any iteration that updates pos3.  The stored self.dogleg may
+        # therefore differ from the actual angle between vec1 and vec3, making
+        # dist_curve (= r1 * old_dogleg) inconsistent with the SLERP geometry.
+        # from_connections reconstructs pos2 via minimum-curvature using the
+        # actual inc/azi of vec3, so it needs dist_curve to match the true arc
+        # length for vec1→vec3 at radius r1.
+        actual_dogleg = float(np.arccos(
+            np.clip(np.dot(self.vec1, self.vec3), -1.0, 1.0)
+        ))
+        if abs(actual_dogleg - self.dogleg) > 1e-9:
+            self.dogleg = actual_dogleg
+            self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                r1, self.dogleg
+            )
+
+        self.vec2 = self.vec3
+
+        self.pos2 = get_pos(
+            self.pos1,
+            self.vec1,
+            self.vec3,
+            self.dist_curve,
+            self.func_dogleg
+        ).reshape(3)
+
+        self.md2 = self.md1 + abs(self.dist_curve)
+
+        if hasattr(self, 'distances2') and self.distances2 is not None:
+            rc2_final = get_radius_critical(
+                self.radius_design2, self.distances2, self.min_error
+            )
+            r2 = min(rc2_final, self.radius_design2)
+        else:
+            r2 = min(self.radius_critical2, self.radius_design2)
+
+        # Recompute dogleg2 from the actual directional change between vec3 and
+        # vec_target.  The iteration stores dogleg2 = min_dist_to_target result
+        # (a geometric parameter), which can differ from arccos(dot(vec3,
+        # vec_target)) after _happy_finish re-derives vec3 from arc1.  Using the
+        # wrong angle in the SLERP formula inside interpolate_curve produces
+        # incorrect (spiralling) visualisation paths.
+        self.dogleg2 = float(np.arccos(
+            np.clip(np.dot(self.vec3, self.vec_target), -1.0, 1.0)
+        ))
+        self.dist_curve2, self.func_dogleg2 = get_curve_hold_data(
+            r2,
+            self.dogleg2
+        )
+
+        # ── Endpoint-consistency fix ──────────────────────────────────────────
+        # The rendered path (from_connections / minimum-curvature integration)
+        # starts arc2 from hold_end = pos2 + T·vec3, NOT from the backward-
+        # traced pos3.  If pos3 is off the tangent ray the rendered endpoint
+        # misses pos_target by exactly the perpendicular component of
+        # (pos3_backward − pos2) w.r.t. vec3.
+        #
+        # For well-converged cases (perp < 1 mm) this is negligible and we
+        # preserve the backward-trace geometry to avoid touching dist_curve2.
+        #
+        # For DLS-violation cases the iteration may leave a large perpendicular
+        # residual.  The 2×2 projection finds T and dist_curve2 that solve:
+        #   pos2 + T·vec3 + (dist_curve2·RF/2)·(vec3+vec_target) = pos_target
+        # in the plane of {vec3, vec_target}, eliminating the in-plane part
+        # of the endpoint error.  The remaining (out-of-plane) residual can
+        # only be removed by finding a better vec3 via a tighter-radius retry.
+
+        # Step 1: backward trace to locate pos3 (guarantees arc2 → pos_target)
+        pos3_bt   = get_pos(
+            self.pos_target,
+            self.vec_target * -1,
+            self.vec3 * -1,
+            self.dist_curve2,
+            self.func_dogleg2
+        ).reshape(3)
+        t_along   = float(np.dot(pos3_bt - self.pos2, self.vec3))
+        perp_vec  = pos3_bt - self.pos2 - t_along * self.vec3
+        perp_norm = float(np.linalg.norm(perp_vec))
+
+        # Step 2: 2×2 projection only when perpendicular drift is significant
+        _PERP_THRESHOLD = 1e-3   # 1 mm — noise floor for well-converged cases
+        _applied_2x2 = False
+        if perp_norm > _PERP_THRESHOLD:
+            delta  = self.pos_target - self.pos2
+            p_comp = float(np.dot(delta, self.vec3))
+            q_comp = float(np.dot(delta, self.vec_target))
+            c_dot  = float(np.dot(self.vec3, self.vec_target))
+            sin2   = 1.0 - c_dot * c_dot
+            if sin2 > 1e-6 and abs(self.func_dogleg2) > 1e-10:
+                a_coef = (p_comp - c_dot * q_comp) / sin2
+                b_coef = (q_comp - c_dot * p_comp) / sin2
+                if b_coef >= 0.0:
+                    tangent_length   = float(max(0.0, a_coef - b_coef))
+                    self.dist_curve2 = float(
+                        max(0.0, 2.0 * b_coef / self.func_dogleg2)
+                    )
+                    self.pos3        = self.pos2 + tangent_length * self.vec3
+                    _applied_2x2 = True
+
+        if not _applied_2x2:
+            # Well-converged (or 2×2 degenerate): tangent-project only
+            tangent_length = max(0.0, t_along)
+            self.pos3      = self.pos2 + tangent_length * self.vec3
+
+        self.md3       = self.md2 + tangent_length
+        self.md_target = self.md3 + abs(self.dist_curve2)
+
+        return self
+
+    def _delta_pos3_rescue(self):
+        """
+        Final geometric-consistency check after _happy_finish.
+
+        If the tangent section is backward (dot(pos3-pos2, vec3) < 0) the
+        path doubles back on itself.  Re-seed with pos3 = pos2 (zero tangent)
+        to force the iteration to find a forward path, then only keep the
+        rescue result if it has a strictly better (higher) minimum arc radius.
+        """
+        _tangent_proj = float(np.dot(self.pos3 - self.pos2, self.vec3))
+        if _tangent_proj >= -self.min_error:
+            return  # tangent is already forward — nothing to fix
+
+        # Snapshot the current _happy_finish outputs before attempting rescue
+        _state_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+        )
+        _saved = {k: deepcopy(getattr(self, k)) for k in _state_keys}
+
+        _r_before = min(
+            self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
+            self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
+        )
+
+        for _seed in (
+            deepcopy(self.pos2),                  # zero-tangent seed
+            0.5 * (self.pos2 + self.pos_target),  # midpoint fallback
+        ):
+            self.radius_critical = np.inf
+            self.radius_critical2 = np.inf
+            minimize_target_pos_and_vec_defined(
+                [self.radius_design, self.radius_design2],
+                self, _seed, None, True
+            )
+            self._happy_finish()
+            _tp = float(np.dot(self.pos3 - self.pos2, self.vec3))
+            _r_after = min(
+                self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
+                self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
+            )
+            if _tp >= -self.min_error and _r_after >= _r_before - self.min_error:
+                return  # rescue improved or matched — keep it
+
+        # Rescue did not improve things — restore the saved state
+        for k, v in _saved.items():
+            setattr(self, k, v)
+
+    def _project_tangent(self):
+        """Project pos3 onto the tangent ray from pos2 along vec3.
+
+        _happy_finish computes pos2 (arc1 end) and pos3 (arc2 start) via
+        independent minimum-curvature traces.  When the iteration has not
+        fully converged — or when dogleg2 is near π so the minimum-curvature
+        ratio-factor blows up — pos3 may lie far off the tangent ray
+        pos2 + t*vec3.  The survey reconstruction (interpolate_hold) advances
+        strictly along vec3, so the hold section ends at pos2 + t*vec3 while
+        arc2 still starts at the raw pos3.  That geometric gap produces the
+        visually anomalous ~90° phase difference seen in the edge-case viewer.
+
+        Fix: replace pos3 with its projection onto the tangent ray.  The
+        projected tangent length is dot(pos3-pos2, vec3), clamped to ≥ 0.
+        This eliminates the hold→arc2 discontinuity.  Arc2 dogleg and arc
+        length are unchanged (they depend only on vec3, vec_target, and the
+        radius), so the path is geometrically self-consistent.
+
+        Called after _delta_pos3_rescue so that rescue still operates on the
+        un-projected geometry (its backward-tangent trigger requires the raw
+        dot-product, which is <= 0 before projection).
+        """
+        # _happy_finish now projects tangent_length inline and places pos3 via
+        # the backward arc2 trace (keeping arc2 geometrically consistent with
+        # pos_target).  This method is retained as a safety net to update MD
+        # whenever pos3 has been changed by _delta_pos3_rescue.
+        tangent_length = max(
+            0.0, float(np.dot(self.pos3 - self.pos2, self.vec3))
+        )
+        self.md3 = self.md2 + tangent_length
+        self.md_target = self.md3 + abs(self.dist_curve2)
+
+    def _rendered_endpoint_error(self):
+        """Return the distance from the rendered arc2 endpoint to pos_target.
+
+        The rendered path integrates continuously from pos1, so arc2 starts
+        from hold_end = pos2 + T·vec3 (not from pos3 directly).  Any gap
+        between hold_end and pos3 translates directly into an endpoint error.
+        """
+        t = max(0.0, float(np.dot(self.pos3 - self.pos2, self.vec3)))
+        hold_end = self.pos2 + t * self.vec3
+        rendered = (
+            hold_end
+            + (self.dist_curve2 * self.func_dogleg2 / 2)
+            * (self.vec3 + self.vec_target)
+        )
+        return float(np.linalg.norm(self.pos_target - rendered))
+
+    def _endpoint_rescue(self):
+        """Retry with progressively tighter radii when the rendered endpoint
+        still misses pos_target by more than 1 mm after _happy_finish.
+
+        The fixed-point iterator can converge to a spurious local minimum for
+        DLS-violation geometries, leaving a large out-of-plane residual that
+        the 2×2 in-plane projection cannot eliminate.  Using a tighter design
+        radius enlarges the set of reachable vec3 directions and typically
+        allows the iterator to escape the bad basin.
+
+        Each retry uses a fresh geometric seed (pos3=None) and keeps whichever
+        result achieves the smallest rendered endpoint error.
+        """
+        _THRESHOLD = 1e-3   # 1 mm
+        err0 = self._rendered_endpoint_error()
+        if err0 <= _THRESHOLD:
+            return
+
+        _save_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+        )
+        best_err   = err0
+        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+
+        r_base = min(self.radius_design, self.radius_design2)
+        for shrink in [0.5, 0.25, 0.125]:
+            r_try = r_base * shrink
+            self.radius_critical  = np.inf
+            self.radius_critical2 = np.inf
+            minimize_target_pos_and_vec_defined(
+                [r_try, r_try], self, None, None, True
+            )
+            self._happy_finish()
+            err_new = self._rendered_endpoint_error()
+            if err_new < best_err:
+                best_err   = err_new
+                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+            if best_err <= _THRESHOLD:
+                break
+
+        # Restore the geometry that achieved the smallest endpoint error
+        for k, v in best_state.items():
+            setattr(self, k, v)
+
+    def _enforce_planarity(self, max_iters=8, tol=1e-3):
+        """Adjust vec3 to lie in the {pos_target−pos2, vec_target} plane.
+
+        After _endpoint_rescue, an out-of-plane residual may remain because the
+        fixed-point iterator converged to a vec3 that is not coplanar with
+        (pos_target − pos2) and vec_target.  The 2×2 projection in _happy_finish
+        can only correct the in-plane part; the out-of-plane part can only be
+        removed by rotating vec3 itself.
+
+        Strategy: project the current vec3 onto span{delta, vec_target} (where
+        delta = pos_target − pos2) and re-seed _happy_finish so it recovers the
+        corrected direction.  Iterate until the rendered endpoint error drops
+        below tol (1 mm) or max_iters is exhausted.
+        """
+        if self._rendered_endpoint_error() <= tol:
+            return
+
+        # Determine the effective arc-1 radius from the post-rescue state.
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            r1 = min(
+                get_radius_critical(self.radius_design, self.distances1, self.min_error),
+                self.radius_design
+            )
+        elif np.isfinite(self.radius_critical) and self.radius_critical > 0:
+            r1 = min(self.radius_critical, self.radius_design)
+        else:
+            r1 = self.radius_design
+
+        _save_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+            'radius_critical', 'radius_critical2',
+        )
+        best_err = self._rendered_endpoint_error()
+        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+
+        for _ in range(max_iters):
+            # Compute arc-1 endpoint (pos2) from the current vec3 at r1
+            dc1, fd1 = get_curve_hold_data(r1, self.dogleg)
+            pos2 = get_pos(
+                self.pos1, self.vec1, self.vec3, dc1, fd1
+            ).reshape(3)
+            delta = self.pos_target - pos2
+
+            # Build an ONB for span{delta, vec_target}
+            d_norm = float(np.linalg.norm(delta))
+            if d_norm < 1e-10:
+                break  # pos_target ≈ pos2 — degenerate
+            d_hat = delta / d_norm
+
+            vt_comp = float(np.dot(self.vec_target, d_hat))
+            v_perp = self.vec_target - vt_comp * d_hat
+            v_perp_norm = float(np.linalg.norm(v_perp))
+            if v_perp_norm < 1e-8:
+                break  # vec_target ∥ delta — unconstrained direction
+
+            v_hat = v_perp / v_perp_norm
+
+            # Project vec3 onto the {d_hat, v_hat} plane
+            proj = (
+                float(np.dot(self.vec3, d_hat)) * d_hat
+                + float(np.dot(self.vec3, v_hat)) * v_hat
+            )
+            proj_norm = float(np.linalg.norm(proj))
+            if proj_norm < 1e-10:
+                break  # vec3 ⊥ plane — cannot project
+
+            new_vec3 = proj / proj_norm
+            if np.allclose(new_vec3, self.vec3, atol=1e-9):
+                break  # already in-plane — nothing to do
+
+            new_dogleg = float(np.arccos(np.clip(
+                np.dot(self.vec1, new_vec3), -1.0, 1.0
+            )))
+
+            # Compute pos2 seed so that _happy_finish recovers new_vec3:
+            #   get_vec_target(pos1, vec1, pos2_new, 0, dc1_new, fd1_new) = new_vec3
+            dc1_new, fd1_new = get_curve_hold_data(r1, new_dogleg)
+            pos2_new = get_pos(
+                self.pos1, self.vec1, new_vec3, dc1_new, fd1_new
+            ).reshape(3)
+
+            # Seed _happy_finish with the planarity-corrected direction
+            self.dogleg = new_dogleg
+            self.vec3 = new_vec3
+            self.pos3 = pos2_new        # tangent_length = 0 seed
+            self.tangent_length = 0.0
+            self.distances1 = None      # force _happy_finish to use radius_critical
+            self.radius_critical = r1
+            self.radius_critical2 = np.inf
+            self._happy_finish()
+
+            err_new = self._rendered_endpoint_error()
+            if err_new < best_err:
+                best_err = err_new
+                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+            if best_err <= tol:
+                break
+
+        # Always restore the state that achieved the smallest endpoint error
+        for k, v in best_state.items():
+            setattr(self, k, v)
+
+    def interpolate(self, step=30):
+        """Interpolates the connector trajectory at regular MD intervals.
+
+        Parameters
+        ----------
+        step : float
+            Desired delta measured depth between survey points.
+
+        Returns
+        -------
+        list
+            A list of interpolated survey data dictionaries.
+        """
+        return interpolate_well([self], step)
+
+    def _get_tangent_temp(self, tangent_length):
+        if np.isnan(tangent_length):
+            tangent_temp = self.min_tangent
+        else:
+            tangent_temp = max(tangent_length, self.min_tangent)
+
+        return tangent_temp
+
+    def _mod_pos(self, pos):
+        # reproducible, so that the same connection always has the same result
+        pos_rand = np.random.default_rng(0).random(3)  # * self.delta_radius
+        pos += pos_rand
+
+    def _get_distances(self, pos1, vec1, pos_target):
+        # When initializing a `curve_hold_curve` and pos_target is directly
+        # ahead it can cause issues (it's a hold and not a curve). So this code
+        # checks for that condition and if it's the case, will move the
+        # target_pos a sufficient amount to prevent issues.
+        vec_temp = np.array(pos_target - pos1)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            vec_temp = vec_temp / np.linalg.norm(vec_temp)
+        if np.array_equal(vec1, vec_temp):
+            self._mod_pos(pos_target)
+        if np.allclose(pos1, pos_target):
+            return (0, 0, 0)
+
+        else:
+            dist_to_target = (
+                np.linalg.norm((pos_target - pos1))
+            )
+
+            dist_perp_to_target = (
+                np.dot((pos_target - pos1), vec1)
+            )
+            if dist_perp_to_target > dist_to_target:
+                # since a tolerance is being used, occasionally things can go
+                # wrong and need to be caught.
+                dist_perp_to_target = dist_to_target
+
+            dist_norm_to_target = (
+                (
+                    dist_to_target ** 2
+                    - dist_perp_to_target ** 2
+                ) ** 0.5
+            )
+
+            return (
+                dist_to_target,
+                dist_perp_to_target,
+                dist_norm_to_target
+            )
+
+
+def minimize_target_pos_and_vec_defined(
+    x, c, pos3=None, vec_old=None, result=False
+):
+    """Iteratively solves curve-hold-curve geometry between two nodes.
+
+    Uses a damped fixed-point iteration (alpha=0.5) on the intermediate
+    tangent point to find the curve-hold-curve path connecting the start
+    and target positions/vectors on the Connector.
+
+    Parameters
+    ----------
+    x : list
+        List of [radius1, radius2] for the two curve sections.
+    c : Connector
+        The Connector instance whose state is updated in place.
+    pos3 : ndarray or None
+        Optional initial guess for the intermediate tangent point.
+    vec_old : ndarray or None
+        Optional previous tangent direction for convergence check.
+    result : bool
+        If True, returns the Connector; if False, returns a scalar
+        residual for use with optimizers.
+
+    Returns
+    -------
+    Connector or float
+        The Connector instance if result is True, otherwise a float
+        residual measuring how much the design radii were violated.
+    """
+    if vec_old is None:
+        vec_old = np.array([0., 0., 0.])
+
+    radius1, radius2 = x
+
+    # Initialise the intermediate tangent point
+    if pos3 is None:
+        pos2_init = c._get_pos2(c.pos1, c.vec1, c.pos_target, radius1)
+        pos3_init = c._get_pos2(
+            c.pos_target, c.vec_target * -1, c.pos1, radius2
+        )
+        pos3_mid = pos2_init + (pos3_init - pos2_init) / 2
+
+        # Check whether the midpoint is inside the critical circle of either
+        # endpoint at the design DLS.  If so, the running minimum would lock
+        # in a tight radius from step 1.  Fall back to a point directly ahead
+        # of pos1 along vec1 (dist_norm = 0 → radius_critical = ∞), which is
+        # guaranteed to be in the design-DLS basin.
+        d1 = c._get_distances(c.pos1, c.vec1, pos3_mid)
+        d2 = c._get_distances(c.pos_target, c.vec_target * -1, pos3_mid)
+        rc1 = get_radius_critical(radius1, d1, c.min_error)
+        rc2 = get_radius_critical(radius2, d2, c.min_error)
+        if rc1 >= radius1 and rc2 >= radius2:
+            c.pos3 = pos3_mid
+        else:
+            # Midpoint is inside a critical circle.  Find a fallback pos3
+            # that is guaranteed to be in the design-DLS basin:
+            #   pos1 + R*vec1 + 2R*perp
+            # gives dist_norm = 2R → rc = 5R²/(4R) = 1.25R ≥ R.
+            # perp points in the component of (pos_target - pos1)
+            # perpendicular to vec1 so the guess is biased toward the target.
+            chord = c.pos_target - c.pos1
+            d_perp = chord - np.dot(chord, c.vec1) * c.vec1
+            d_perp_norm = np.linalg.norm(d_perp)
+            if d_perp_norm > 1e-10:
+                d_perp_hat = d_perp / d_perp_norm
+            else:
+                # Target is directly ahead/behind: pick any perpendicular
+                arb = np.array([1., 0., 0.])
+                if abs(np.dot(c.vec1, arb)) > 0.9:
+                    arb = np.array([0., 1., 0.])
+                d_perp_hat = np.cross(c.vec1, arb)
+                d_perp_hat /= np.linalg.norm(d_perp_hat)
+            # Try four candidate positions: ±d_perp and ±d_perp_cross
+            # (the 90°-rotated perpendicular).  Pick the first that is
+            # also outside the critical circle of pos_target.
+            d_perp_cross = np.cross(c.vec1, d_perp_hat)
+            d_perp_cross_norm = np.linalg.norm(d_perp_cross)
+            if d_perp_cross_norm > 1e-10:
+                d_perp_cross /= d_perp_cross_norm
+            else:
+                d_perp_cross = d_perp_hat  # degenerate: fallback
+            chosen = None
+            best_min_rc = -np.inf
+            best_candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * d_perp_hat
+            for perp in (d_perp_hat, -d_perp_hat, d_perp_cross, -d_perp_cross):
+                candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * perp
+                dd2 = c._get_distances(c.pos_target, c.vec_target * -1, candidate)
+                rc2_cand = get_radius_critical(radius2, dd2, c.min_error)
+                if rc2_cand >= radius2:
+                    chosen = candidate
+                    break
+                # Track the candidate with the highest minimum rc
+                if rc2_cand > best_min_rc:
+                    best_min_rc = rc2_cand
+                    best_candidate = candidate
+            c.pos3 = chosen if chosen is not None else best_candidate
+    else:
+        c.pos3 = pos3
+
+    radius_temp1, radius_temp2 = radius1, radius2
+
+    for _ in range(c.max_iterations):
+        prev_pos3 = c.pos3.copy()
+
+        # ── Curve 1: pos1 → pos2 ────────────────────────────────────────────
+        c.distances1 = c._get_distances(c.pos1, c.vec1, c.pos3)
+
+        radius_temp1 = get_radius_critical(radius1, c.distances1, c.min_error)
+        # Use the current geometry's critical radius directly — avoids NaN in
+        # min_dist_to_target and prevents the running minimum from permanently
+        # locking in tight values from transient intermediate states.
+        radius_effective1 = min(radius1, radius_temp1)
+        # Update the running minimum only for genuine violations (not noise).
+        if radius_temp1 < min(c.radius_critical, radius1 * (1.0 - c.min_error * 100)):
+            c.radius_critical = radius_temp1
+            assert c.radius_critical >= 0
+
+        c.tangent_length, c.dogleg = min_dist_to_target(
+            radius_effective1, c.distances1
+        )
+        c.dogleg = check_dogleg(c.dogleg)
+        c.dist_curve, c.func_dogleg = get_curve_hold_data(
+            radius_effective1, c.dogleg
+        )
+        c.vec3 = get_vec_target(
+            c.pos1, c.vec1, c.pos3,
+            c.tangent_length, c.dist_curve, c.func_dogleg
+        )
+
+        tangent_temp1 = c._get_tangent_temp(c.tangent_length)
+        c.pos2 = c.pos3 - tangent_temp1 * c.vec3
+
+        # ── Curve 2: pos_target → pos2 (reversed) ───────────────────────────
+        c.distances2 = c._get_distances(
+            c.pos_target, c.vec_target * -1, c.pos2
+        )
+
+        radius_temp2 = get_radius_critical(radius2, c.distances2, c.min_error)
+        # Use current geometry's critical radius directly (same rationale as arc1).
+        radius_effective2 = min(radius2, radius_temp2)
+        # Update running minimum only for genuine violations.
+        if radius_temp2 < min(c.radius_critical2, radius2 * (1.0 - c.min_error * 100)):
+            c.radius_critical2 = radius_temp2
+            assert c.radius_critical2 >= 0
+
+        c.tangent_length2, c.dogleg2 = min_dist_to_target(
+            radius_effective2, c.distances2
+        )
+        c.dogleg2 = check_dogleg(c.dogleg2)
+        c.dist_curve2, c.func_dogleg2 = get_curve_hold_data(
+            radius_effective2, c.dogleg2
+        )
+        c.vec2 = get_vec_target(
+            c.pos_target, c.vec_target * -1, c.pos2,
+            c.tangent_length2, c.dist_curve2, c.func_dogleg2
+        )
+
+        tangent_temp2 = c._get_tangent_temp(c.tangent_length2)
+        pos3_new = c.pos2 - tangent_temp2 * c.vec2
+
+        # Damped update: averaging old and new prevents oscillation when the
+        # target is close relative to the radius of curvature.
+        c.pos3 = 0.5 * pos3_new + 0.5 * prev_pos3
+
+        vec23_denom = np.linalg.norm(c.pos3 - c.pos2)
+        if vec23_denom == 0:
+            c.vec23.append(np.array([0., 0., 0.]))
+        else:
+            c.vec23.append((c.pos3 - c.pos2) / vec23_denom)
+
+        c.error = np.allclose(
+            c.vec23[-1], vec_old,
+            equal_nan=True,
+            rtol=c.min_error * 10,
+            atol=c.min_error * 0.1
+        )
+
+        c.errors.append(c.error)
+        c.pos3_list.append(c.pos3.copy())
+        c.pos2_list.append(c.pos2.copy())
+        c.md_target = c.md1 + c.dist_curve + tangent_temp2 + c.dist_curve2
+        c.delta_radius_list.append(abs(c.radius_critical - c.radius_critical2))
+        c.dls = max(
+            np.radians(dls_from_radius(c.radius_design)),
+            np.radians(dls_from_radius(c.radius_critical))
+        )
+        c.dls2 = max(
+            np.radians(dls_from_radius(c.radius_design2)),
+            np.radians(dls_from_radius(c.radius_critical2))
+        )
+
+        if c.error:
+            break
+
+        c.iterations += 1
+        vec_old = c.vec23[-1].copy()
+
+    if result:
+        return c
+    result_val = 0.
+    if radius_temp2 < c.radius_design2:
+        result_val += c.radius_design2 - radius_temp2
+    if radius_temp1 < c.radius_design:
+        result_val += c.radius_design - radius_temp1
+    return result_val
+
+
+def check_dogleg(dogleg):
+    """Ensures the dogleg angle is positive by wrapping negative values.
+
+    Accepts scalar or array-like; output shape matches input.
+
+    Parameters
+    ----------
+    dogleg : float or array_like
+        Dogleg angle(s) in radians.
+
+    Returns
+    -------
+    float or ndarray
+        The dogleg angle(s) normalized to [0, 2*pi).
+    """
+    # the code assumes angles are positive and clockwise
+    dogleg = np.asarray(dogleg, dtype=float)
+    wrapped = np.where(dogleg < 0, dogleg + 2 * np.pi, dogleg)
+    if wrapped.ndim == 0:
+        return float(wrapped)
+    return wrapped
+
+
+def mod_vec(vec, error=1e-5):
+    """Slightly perturbs a direction vector to avoid exact antiparallel degeneracy.
+
+    Parameters
+    ----------
+    vec : ndarray
+        Unit direction vector in NEV coordinates.
+    error : float
+        Perturbation magnitude applied to the vertical component.
+
+    Returns
+    -------
+    tuple
+        A tuple of (perturbed_vec, inclination, azimuth).
+    """
+    # if it's not working then twat it with a hammer
+    vec_mod = vec * np.array([1, 1, 1 - error])
+    vec_mod /= np.linalg.norm(vec_mod)
+    inc_mod, azi_mod = get_angles(vec_mod, nev=True).T
+
+    return vec_mod, inc_mod, azi_mod
+
+
+def get_pos(pos1, vec1, vec2, dist_curve, func_dogleg):
+    """Computes the end position of a minimum-curvature arc.
+
+    Parameters
+    ----------
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Start unit direction vector in NEV coordinates.
+    vec2 : ndarray
+        End unit direction vector in NEV coordinates.
+    dist_curve : float
+        Arc length of the curve section.
+    func_dogleg : float
+        Shape factor (ratio factor) for the curve.
+
+    Returns
+    -------
+    ndarray
+        End position in NEV coordinates.
+    """
+    return pos1 + (dist_curve * func_dogleg / 2) * (vec1 + vec2)
+
+
+def get_vec_target(
+    pos1,
+    vec1,
+    pos_target,
+    tangent_length,
+    dist_curve,
+    func_dogleg
+):
+    """Derives the target unit vector from curve geometry and target position.
+
+    Solves for the direction vector at the end of a curve-hold section
+    given the start state, curve parameters, and target position. Accepts
+    either scalar inputs (legacy shape-(3,) positions/vectors with scalar
+    tangent_length/dist_curve/func_dogleg) or batched inputs (leading
+    batch dims on all arrays, positions/vectors with trailing axis 3).
+
+    Parameters
+    ----------
+    pos1 : ndarray, shape (..., 3)
+        Start position in NEV coordinates.
+    vec1 : ndarray, shape (..., 3)
+        Start unit direction vector in NEV coordinates.
+    pos_target : ndarray, shape (..., 3)
+        Target position in NEV coordinates.
+    tangent_length : float or ndarray, shape (...)
+        Length of the tangent (hold) section.
+    dist_curve : float or ndarray, shape (...)
+        Arc length of the curve section. Where equal to zero, the input
+        ``vec1`` is returned unchanged (pure-hold fallback).
+    func_dogleg : float or ndarray, shape (...)
+        Shape factor (ratio factor) for the curve.
+
+    Returns
+    -------
+    ndarray, shape (..., 3)
+        Target unit direction vector in NEV coordinates.
+    """
+    pos1 = np.asarray(pos1, dtype=float)
+    vec1 = np.asarray(vec1, dtype=float)
+    pos_target = np.asarray(pos_target, dtype=float)
+    tangent_length = np.asarray(tangent_length, dtype=float)
+    dist_curve = np.asarray(dist_curve, dtype=float)
+    func_dogleg = np.asarray(func_dogleg, dtype=float)
+
+    half = dist_curve * func_dogleg / 2
+    denom = half + tangent_length
+
+    # Broadcast per-sample scalars to match pos/vec batch shape (..., 3).
+    half_b = half[..., None] if half.ndim >= 1 else half
+    denom_b = denom[..., None] if denom.ndim >= 1 else denom
+
+    vec_target = (pos_target - pos1 - half_b * vec1) / denom_b
+
+    # Axis-aware normalise — works for scalar shape-(3,) and batched (..., 3).
+    norm = np.linalg.norm(vec_target, axis=-1, keepdims=True)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        vec_target = vec_target / norm
+
+    # Pure-hold fallback: where dist_curve == 0, return vec1.
+    zero_mask = (dist_curve == 0)
+    if zero_mask.ndim == 0:
+        if bool(zero_mask):
+            return vec1
+        return vec_target
+    return np.where(zero_mask[..., None], vec1, vec_target)
+
+
+def get_curve_hold_data(radius, dogleg):
+    """Computes arc length and shape factor for a curve section.
+
+    Parameters
+    ----------
+    radius : float
+        Radius of curvature.
+    dogleg : float
+        Dogleg angle in radians.
+
+    Returns
+    -------
+    tuple
+        A tuple of (dist_curve, func_dogleg) where dist_curve is the arc
+        length and func_dogleg is the minimum-curvature shape factor.
+    """
+    dist_curve = radius * dogleg
+    func_dogleg = shape_factor(dogleg)
+
+    return (
+        dist_curve,
+        func_dogleg
+    )
+
+
+def shape_factor(dogleg):
+    """Computes the minimum-curvature shape factor for a dogleg angle.
+
+    Parameters
+    ----------
+    dogleg : float
+        Dogleg angle in radians.
+
+    Returns
+    -------
+    float
+        The ratio factor (shape factor) for minimum-curvature interpolation.
+    """
+    return get_rf(dogleg)
+
+
+def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
+    """Vectorised curve-hold connector: fixed start pose, fixed target pos.
+
+    Solves the minimum-MD curve-then-hold geometry from a start pose
+    ``(pos1, vec1)`` to a target position ``pos_target`` with a given
+    design radius. The target tangent vector is an OUTPUT of the solve —
+    computed analytically from the geometry — not an input. Equivalent
+    to ``Connector(pos1=..., vec1=..., pos2=pos_target, dls_design=...)``
+    in the ``'curve_hold'`` mode (binary code ``00110`` in
+    ``_get_initial_methods``), but operates element-wise on arrays so a
+    large sweep is one numpy call rather than a Python loop over
+    ``Connector`` instances.
+
+    Parameters
+    ----------
+    pos1 : array_like, shape (..., 3)
+        Start positions in NEV coordinates. Arbitrary leading batch shape.
+    vec1 : array_like, shape (..., 3)
+        Unit direction vectors at the start. Must share ``pos1``'s leading
+        shape.
+    pos_target : array_like, shape (..., 3)
+        Target positions in NEV coordinates. Must share ``pos1``'s leading
+        shape.
+    radius : float or array_like, shape (...)
+        Design radius of curvature. Broadcasts against the leading shape.
+
+    Returns
+    -------
+    dict
+        All entries are ndarrays whose leading shape matches the inputs.
+
+        - ``'pos2'`` shape (..., 3) — end of the curve / start of the hold.
+        - ``'vec_target'`` shape (..., 3) — computed unit tangent at target.
+        - ``'tangent_length'`` shape (...) — hold-section length.
+        - ``'dogleg'`` shape (...) — curve angle, radians.
+        - ``'dist_curve'`` shape (...) — arc length of the curve section.
+        - ``'md'`` shape (...) — total measured depth (curve + hold).
+
+    Notes
+    -----
+    When the target is exactly along ``vec1`` (pure-hold degenerate case),
+    the solver returns ``dogleg = 0``, ``tangent_length = dist_to_target``,
+    ``vec_target = vec1``, and ``pos2 = pos1``. This matches the scalar
+    ``Connector`` behaviour in that regime.
+
+    The underlying helpers (``min_dist_to_target``, ``get_curve_hold_data``,
+    ``get_vec_target``) have all been array-safe since the vectorisation
+    patch; this function is just a thin wrapper that computes the three
+    intermediate distance scalars and composes the helpers.
+    """
+    pos1 = np.asarray(pos1, dtype=float)
+    vec1 = np.asarray(vec1, dtype=float)
+    pos_target = np.asarray(pos_target, dtype=float)
+    radius = np.asarray(radius, dtype=float)
+
+    delta = pos_target - pos1
+    dist_to_target = np.linalg.norm(delta, axis=-1)
+    dist_perp_to_target = np.sum(delta * vec1, axis=-1)
+    # Same clamp the scalar Connector._get_distances applies to catch fp drift
+    # where the projected distance can marginally exceed the straight-line
+    # distance.
+    dist_perp_to_target = np.minimum(dist_perp_to_target, dist_to_target)
+    dist_norm_to_target = np.sqrt(
+        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)
+    )
+
+    distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
+    tangent_length, dogleg = min_dist_to_target(radius, distances)
+    # Wrap negative doglegs by +2π to match the scalar Connector
+    # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
+    # output before building the path). Without this, a geometry that
+    # dictates a "backward" turn yields negative dist_curve and the
+    # reported total MD ends up negative.
+    dogleg = check_dogleg(dogleg)
+    dist_curve, func_dogleg = get_curve_hold_data(radius, dogleg)
+
+    vec_target = get_vec_target(
+        pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg
+    )
+
+    # pos2 = end of arc = target - (hold-section vector)
+    tl = tangent_length[..., None] if tangent_length.ndim >= 1 else tangent_length
+    pos2 = pos_target - tl * vec_target
+    md = dist_curve + tangent_length
+
+    return {
+        "pos2": pos2,
+        "vec_target": vec_target,
+        "tangent_length": tangent_length,
+        "dogleg": dogleg,
+        "dist_curve": dist_curve,
+        "md": md,
+    }
+
+
+def min_dist_to_target(radius, distances):
+    """Computes tangent length and dogleg for a curve-hold section to a target.
+
+    Parameters
+    ----------
+    radius : float
+        Radius of curvature for the curve section.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    tangent_length : float
+        Hold section length.
+    dogleg : float
+        Curve angle in radians.
+    """
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    tangent_length = (
+        dist_to_target ** 2
+        - 2 * radius * dist_norm_to_target
+    ) ** 0.5
+
+    # determine the dogleg angle of the curve section
+    dogleg = 2 * np.arctan2(
+        (dist_perp_to_target - tangent_length),
+        (
+            2 * radius - dist_norm_to_target
+        )
+    )
+
+    return tangent_length, dogleg
+
+
+def min_curve_to_target(distances):
+    """Computes minimum-curvature parameters when the design DLS is insufficient.
+
+    Used when the target cannot be reached with the design radius, so the
+    curve section uses the minimum radius geometrically required.
+
+    Parameters
+    ----------
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    tangent_length : float
+        Always 0 (pure curve, no hold).
+    radius_critical : float
+        Minimum required radius of curvature.
+    dogleg : float
+        Curve angle in radians.
+    """
+    if distances == (0., 0., 0,):
+        return (
+            0.,
+            np.inf,
+            0.
+        )
+
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    if dist_norm_to_target == 0.:
+        radius_critical = np.inf
+    else:
+        radius_critical = (
+            dist_to_target ** 2 / (
+                2 * dist_norm_to_target
+            )
+        )
+        if np.isnan(radius_critical):
+            radius_critical = np.nan
+        else:
+            assert radius_critical > 0
+
+    dogleg = (
+        2 * np.arctan2(
+            dist_norm_to_target,
+            dist_perp_to_target
+        )
+    )
+
+    tangent_length = 0
+
+    return (
+        tangent_length,
+        radius_critical,
+        dogleg
+    )
+
+
+def get_radius_critical(radius, distances, min_error):
+    """Computes the critical radius for a given target geometry.
+
+    The critical radius is the minimum curvature radius needed to reach
+    the target with a pure curve (no tangent). Below this radius, a
+    curve-hold path is possible; above it, minimum curvature is needed.
+
+    Parameters
+    ----------
+    radius : float
+        Design radius of curvature.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+    min_error : float
+        Error tolerance factor applied to the result.
+
+    Returns
+    -------
+    float
+        The critical radius. Returns 0 if the normal distance is zero.
+    """
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    if dist_norm_to_target == 0:
+        return 0
+
+    radius_critical = (
+        dist_to_target ** 2 / (
+            2 * dist_norm_to_target
+        )
+    ) * (1 - min_error)
+
+    if np.isnan(radius_critical):
+        radius_critical = np.nan
+    else:
+        assert radius_critical > 0
+
+    return radius_critical
+
+
+def interpolate_well(sections, step=30):
+    """Constructs interpolated survey data from a list of Connector sections.
+
+    Parameters
+    ----------
+    sections : Connector or list of Connector
+        Connector objects defining the well trajectory.
+    step : float
+        Desired delta measured depth between interpolated survey
+        points.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    method = {
+        'hold': get_interpolate_hold,
+        'min_dist_to_target': get_interpolate_min_dist_to_target,
+        'min_curve_to_target': get_interpolate_min_curve_to_target,
+        'curve_hold_curve': get_interpololate_curve_hold_curve,
+        'min_curve': get_min_curve
+    }
+
+    data = []
+    if type(sections) is not list:
+        sections = [sections]
+    for s in sections:
+        data.extend(method[s.method](s, step))
+
+    return data
+
+
+def interpolate_curve(
+    md1,
+    pos1,
+    vec1,
+    vec2,
+    dist_curve,
+    dogleg,
+    func_dogleg,
+    step,
+    endpoint=False
+):
+    """Interpolates survey points along a curve section at regular MD intervals.
+
+    Uses Rodrigues' rotation formula for numerical stability, especially
+    for near-180-degree doglegs where SLERP becomes unstable.
+
+    Parameters
+    ----------
+    md1 : float
+        Measured depth at the start of the curve.
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Start unit direction vector in NEV coordinates.
+    vec2 : ndarray
+        End unit direction vector in NEV coordinates.
+    dist_curve : float
+        Arc length of the curve section.
+    dogleg : float
+        Total dogleg angle in radians.
+    func_dogleg : float
+        Shape factor (ratio factor) for the curve.
+    step : float
+        Desired delta measured depth between interpolated points.
+    endpoint : bool
+        If True, includes the curve endpoint in the output.
+
+    Returns
+    -------
+    dict
+        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
+        containing numpy arrays of interpolated survey data.
+    """
+    # sometimes the curve section has no length
+    # this if statement handles this event
+    if any((dist_curve == 0, np.isnan(dist_curve))):
+        inc, azi = get_angles(vec1, nev=True).T
+        data = dict(
+            md=np.array([md1]),
+            vec=np.array([vec1]),
+            inc=inc,
+            azi=azi,
+            dogleg=np.array([dogleg])
+        )
+
+        return data
+
+    end_md = abs(dist_curve)
+    if step is None:
+        md = np.array([0])
+    else:
+        start_md = step - (md1 % step)
+        md = np.arange(start_md, end_md, step)
+        md = np.concatenate(([0.], md))
+    if endpoint:
+        md = np.concatenate((md, [end_md]))
+    dogleg_interp = (dogleg / dist_curve * md).reshape(-1, 1)
+
+    # Rodrigues' rotation formula is numerically superior to SLERP when dogleg
+    # is near π.  SLERP weights contain 1/sin(dogleg) which amplifies errors
+    # by ~1/sin(π-ε) ≈ 1/ε for near-180° arcs (e.g. case #492 with dogleg≈179°
+    # amplifies errors 44×, producing spiralling visualisation paths).
+    #
+    # Rodrigues: vec(t) = cos(t)*vec1 + sin(t)*in_plane
+    # where in_plane is the unit vector in the arc plane, perpendicular to vec1.
+    # The formula never divides by sin(dogleg) during evaluation — only during
+    # the one-time setup of in_plane — so numerical errors do not accumulate.
+    cross = np.cross(vec1, vec2)
+    cross_norm = float(np.linalg.norm(cross))
+    if cross_norm < 1e-10:
+        # vec1 ≈ vec2 (zero dogleg) or exactly antiparallel (degenerate arc):
+        # return the start direction for all points.
+        vec = np.tile(vec1, (len(md), 1))
+    else:
+        rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
+        in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
+        vec = (
+            np.cos(dogleg_interp) * vec1
+            + np.sin(dogleg_interp) * in_plane
+        )
+    vec = vec / np.linalg.norm(vec, axis=1).reshape(-1, 1)
+    inc, azi = get_angles(vec, nev=True).T
+
+    data = dict(
+        md=md + md1,
+        vec=vec,
+        inc=inc,
+        azi=azi,
+        dogleg=np.concatenate((
+            np.array([0.]), np.diff(dogleg_interp.reshape(-1))
+        )),
+    )
+
+    return data
+
+
+def interpolate_hold(md1, pos1, vec1, md2, step, endpoint=False):
+    """Interpolates survey points along a hold (tangent) section.
+
+    Parameters
+    ----------
+    md1 : float
+        Measured depth at the start of the hold.
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Constant unit direction vector during the hold.
+    md2 : float
+        Measured depth at the end of the hold.
+    step : float
+        Desired delta measured depth between interpolated points.
+    endpoint : bool
+        If True, includes the hold endpoint in the output.
+
+    Returns
+    -------
+    dict
+        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
+        containing numpy arrays of interpolated survey data.
+    """
+    end_md = md2 - md1
+    if step is None:
+        md = np.array([0])
+    else:
+        start_md = step - (md1 % step)
+        md = np.arange(start_md, end_md, step)
+        md = np.concatenate(([0.], md))
+    if endpoint:
+        md = np.concatenate((md, [end_md]))
+    vec = np.full((len(md), 3), vec1)
+    inc, azi = get_angles(vec, nev=True).T
+    dogleg = np.full_like(md, 0.)
+
+    data = dict(
+        md=md + md1,
+        vec=vec,
+        inc=inc,
+        azi=azi,
+        dogleg=dogleg,
+    )
+
+    return data
+
+
+def get_min_curve(section, step=30, data=None):
+    """Interpolates a minimum-curve section, dispatching by sub-method.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_curve'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if section.md2 is None:
+        result = (
+            get_interpolate_min_curve_to_target(
+                section, step, data
+            )
+        )
+    else:
+        result = (
+            get_interpolate_min_dist_to_target(
+                section, step, data
+            )
+        )
+    return result
+
+
+def get_interpolate_hold(section, step=30, data=None):
+    """Interpolates a hold-method Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'hold'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    data.append(interpolate_hold(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        md2=section.md_target,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpolate_min_curve_to_target(section, step=30, data=None):
+    """Interpolates a min-curve-to-target Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_curve_to_target'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec_target,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpolate_min_dist_to_target(section, step=30, data=None):
+    """Interpolates a min-dist-to-target Connector section (curve + hold).
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_dist_to_target'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    # the first curve section
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec2,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step
+    ))
+
+    # the hold section
+    data.append(interpolate_hold(
+        md1=section.md2,
+        pos1=section.pos2,
+        vec1=section.vec2,
+        md2=section.md_target,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpololate_curve_hold_curve(section, step=30, data=None):
+    """Interpolates a curve-hold-curve Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'curve_hold_curve'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    # the first curve section
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec2,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step
+    ))
+
+    # the hold section
+    data.append(interpolate_hold(
+        md1=section.md2,
+        pos1=section.pos2,
+        vec1=section.vec2,
+        md2=section.md3,
+        step=step
+    ))
+
+    # the second curve section
+    data.append(interpolate_curve(
+        md1=section.md3,
+        pos1=section.pos3,
+        vec1=section.vec3,
+        vec2=section.vec_target,
+        dist_curve=section.dist_curve2,
+        dogleg=section.dogleg2,
+        func_dogleg=section.func_dogleg2,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def convert_target_input_to_booleans(*inputs):
+    """Converts target parameters to a binary string for method lookup.
+
+    Parameters
+    ----------
+    *inputs
+        Variable number of target parameters (md2, inc2, azi2,
+        pos2, vec2). Each is mapped to '1' if not None, '0' otherwise.
+
+    Returns
+    -------
+    str
+        A 5-character binary string encoding which parameters were provided.
+    """
+    input = [
+        "0" if i is None else "1" for i in inputs
+    ]
+
+    return ''.join(input)
+
+
+def connect_points(
+    cartesians, vec_start=[0., 0., 1.], dls_design=3.0, nev=True,
+    # step=30,
+    md_start=0.
+):
+    """Connects a sequence of Cartesian points with Connector sections.
+
+    Parameters
+    ----------
+    cartesians : list or ndarray
+        Array of shape (n, 3) with positions as [n, e, tvd]
+        (if nev=True) or [x, y, z] (if nev=False).
+    vec_start : list or ndarray
+        Unit start direction vector in the corresponding
+        coordinate system.
+    dls_design : float or list
+        Design DLS in deg/30m (or deg/100ft). Can be a
+        scalar or array of length n.
+    nev : bool
+        If True, cartesians are in NEV coordinates; if False, XYZ.
+    md_start : float
+        Measured depth at the first point.
+
+    Returns
+    -------
+    list
+        A list of Connector objects linking consecutive points.
+    """
+    if nev:
+        pos_nev = np.array(cartesians).reshape(-1, 3)
+        vec_nev = np.zeros_like(pos_nev)
+        vec_nev[0] = np.array(vec_start).reshape(-1, 3)
+    else:
+        pos_nev = get_nev(cartesians)
+        vec_nev = np.zeros_like(pos_nev)
+        vec_nev[0] = get_nev(vec_start)
+
+    if type(dls_design) is float:
+        dls = np.full(len(pos_nev), dls_design)
+    else:
+        dls = np.array(dls_design).reshape(-1, 1)
+
+    connections = []
+    for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
+        if i == 0:
+            node_1 = Node(
+                pos=p,
+                vec=v,
+                md=md_start
+            )
+            continue
+        if i > 1:
+            node_1 = connections[-1].node_end
+        node_2 = Node(
+            pos=p
+        )
+        c = Connector(
+            node1=node_1,
+            node2=node_2,
+            dls_design=d
+        )
+        assert np.allclose(c.pos_target, p)
+        connections.append(c)
+
+    return connections
+
+
+def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
+    """Extracts a minimal well plan from a drilled survey.
+
+    Identifies the minimum number of control points (start/end of hold
+    or build/turn sections) needed to reproduce the survey trajectory
+    within the given tolerance.
+
+    Parameters
+    ----------
+    survey : Survey
+        A welleng Survey object representing the drilled well.
+    tolerance : float
+        Fit tolerance. Higher values produce fewer control
+        points but a looser fit.
+    dls_design : float
+        Minimum design DLS in deg/30m for the planned trajectory.
+    step : float
+        Desired MD step interval for the output survey.
+
+    Returns
+    -------
+    list
+        A list of Connector objects representing the planned sections.
+
+    Raises
+    ------
+    AssertionError
+        If dls_design is not greater than 0.
+    """
+    assert dls_design > 0., "dls_design must be greater than 0"
+
+    idx = [0]
+    end = len(survey.md) - 1
+    md = survey.md[0]
+    node = None
+    sections = []
+
+    while True:
+        section, i = _get_section(
+            survey=survey,
+            start=idx[-1],
+            md=md,
+            node=node,
+            tolerance=tolerance,
+            dls_design=dls_design
+        )
+        sections.append(section)
+        idx.append(i)
+        if idx[-1] >= end:
+            break
+        node = section.node_end
+
+    # data = interpolate_well(sections, step=step)
+
+    return sections
+
+
+def _get_section(
+    survey, start, tolerance, dls_design=1., md=0., node=None
+):
+    idx = start + 2
+    nev = survey.get_nev_arr()
+
+    if idx > len(nev):
+        idx = len(nev) - 1
+
+    if node is None:
+        node_1 = Node(
+            pos=nev[start],
+            vec=survey.vec_nev[start],
+            md=md
+        )
+    else:
+        node_1 = node
+
+    scores = [0.]
+    delta_scores = []
+    c_old = None
+
+    for i, (p, v) in enumerate(zip(nev[idx:], survey.vec_nev[idx:])):
+        node_2 = Node(
+            pos=p,
+            vec=v,
+        )
+        c = Connector(
+            node1=node_1,
+            node2=node_2,
+            dls_design=dls_design
+        )
+        s = c.survey(step=1.)
+        if c_old is None:
+            c_old = deepcopy(c)
+        nev_new = s.get_nev_arr()
+
+        distances = distance.cdist(
+            nev[start: idx + i],
+            nev_new
+        )
+
+        score = np.sum(np.amin(distances, axis=1)) / (s.md[-1] - s.md[0])
+
+        delta_scores.append(score - scores[-1])
+        scores.append(score)
+
+        if all((
+            abs(delta_scores[-1]) >= tolerance,
+            idx + i < len(nev) - 2
+        )):
+            break
+        elif idx + i == len(nev) - 1:
+            c_old = deepcopy(c)
+            break
+        else:
+            c_old = deepcopy(c)
+
+    return (
+        c_old,
+        idx + i - 1 if idx + i != len(nev) - 1 else idx + i
+    )
+
+
+def drop_off(
+    target_inc: float, dls: float, delta_md: float | None = None,
+    node: Node | None = None, tol: float = 1e-5
+) -> list:
+    """Computes trajectory sections to drop off (or build) to a target inclination.
+
+    Use ``extend_to_tvd`` if a specific TVD target is also required.
+
+    Parameters
+    ----------
+    target_inc : float
+        Target inclination in degrees.
+    dls : float
+        Design DLS in deg/30m.
+    delta_md : float or None
+        Maximum section length in meters. If None, the section
+        is unconstrained.
+    node : Node or None
+        Starting Node. Defaults to surface pointing down.
+    tol : float
+        Tolerance for tangent section length; sections shorter than
+        this are omitted.
+
+    Returns
+    -------
+    list
+        A list of Nodes describing the trajectory. Contains one Node
+        (the arc endpoint) or two (arc endpoint plus tangent endpoint)
+        if the target inclination was achieved within the section.
+    """
+    def _drop_off(
+            x: tuple,
+            node,
+            return_data: bool = False
+    ) -> tuple:
+        dogleg, toolface = x
+        pos2, vec2, arc_length = get_arc(
+            dogleg, radius,
+            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
+            node.pos_nev, node.vec_nev
+        )
+        if return_data:
+            return (pos2, vec2, arc_length)
+        else:
+            inc, _ = np.degrees(
+                get_angles(vec2, nev=True)[0]
+            )
+            return abs(inc - target_inc)
+
+    node = Node() if node is None else node
+    node.md = 0 if node.md is None else node.md
+    radius = radius_from_dls(dls)
+    if isinstance(delta_md, np.ndarray):
+        delta_md = delta_md[0]
+    max_dogleg = (
+        2 * np.pi if delta_md is None
+        else delta_md / radius
+    )
+
+    args = (node,)
+    bounds = [
+        [0, min(2 * np.pi, max_dogleg)],
+        [-np.pi, np.pi]
+    ]
+    x0 = [bounds[0][1] / 2, np.pi]
+    result = minimize(
+        _drop_off, x0, args=args, bounds=bounds,
+        method="SLSQP"
+    )
+    pos2, vec2, arc_length = _drop_off(
+        result.x, *args, return_data=True
+    )
+    tangent_length = (
+        0 if delta_md is None
+        else delta_md - arc_length
+    )
+    node2 = Node(
+        pos=pos2, vec=vec2, md=node.md + arc_length
+    )
+    if tangent_length > tol:
+        pos3 = pos2 + tangent_length * vec2
+        node3 = Node(
+            pos=pos3, vec=vec2, md=node2.md + tangent_length
+        )
+        return [node2, node3]
+    else:
+        return [node2]
+
+
+def extend_to_tvd(
+    target_tvd: float, node: Node | None = None,
+    delta_md: float | None = None,
+    target_inc: float | None = None, dls: float | None = None
+) -> list:
+    """Computes Connector sections to reach a target TVD with optional inclination change.
+
+    Parameters
+    ----------
+    target_tvd : float
+        Target true vertical depth in meters.
+    node : Node or None
+        Starting Node. Defaults to surface pointing down.
+    delta_md : float or None
+        Maximum section length in meters. If None, unconstrained.
+    target_inc : float or None
+        Target inclination in degrees at the target TVD.
+        If provided, the solver attempts to achieve this inclination
+        and holds tangent to the target TVD.
+    dls : float or None
+        Design DLS in deg/30m. Defaults to 2.5 if None and
+        target_inc is provided.
+
+    Returns
+    -------
+    list
+        A list of Connector objects. Contains one Connector (curve only)
+        or two (curve plus tangent hold) if the target inclination was
+        achieved within the section.
+
+    Examples
+    --------
+    A well at 30 degrees inclination dropping to vertical:
+
+    >>> import welleng as we
+    >>> node = we.node.Node(pos=[0, 0, 3000], md=4000, inc=30, azi=135)
+    >>> connectors = we.connector.extend_to_tvd(
+    ...     target_tvd=3200, node=node, target_inc=0, dls=3
+    ... )
+    """
+    if node is None:
+        node = Node()
+    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
+    _delta_md = 1e-8 if delta_md is None else delta_md
+    connections = []
+    if target_inc is None:
+        def _extend_tvd(
+            delta_md, pos, vec, target_tvd, return_data=False
+        ):
+            pos2 = np.array(pos) + delta_md * np.array(vec)
+            if return_data:
+                return pos2
+            else:
+                return abs(pos2[2] - target_tvd)
+
+        args = (node.pos_nev, node.vec_nev, target_tvd)
+        bounds = [[0, None]]
+        result = minimize(
+            _extend_tvd,
+            _delta_md,
+            args=args,
+            bounds=bounds,
+            method="Powell"
+        )
+        pos2 = _extend_tvd(result.x, *args, return_data=True)
+        connections.append(Connector(
+            pos1=node.pos_nev, vec1=node.vec_nev,
+            md1=0 if node.md is None else node.md,
+            pos2=pos2,
+            dls_design=dls, force_min_curve=True
+        ))
+    else:
+        def _drop_off(
+            delta_md, target_inc, target_tvd, dls, node,
+            return_data=False
+        ):
+            nodes = drop_off(
+                target_inc, dls, delta_md, node
+            )
+            if return_data:
+                return nodes
+            else:
+                return abs(nodes[-1].pos_nev[2] - target_tvd)
+
+        dls = 2.5 if dls is None else dls
+        args = (target_inc, target_tvd, dls, node)
+        bounds = [
+            [min(target_tvd - node.pos_nev[2], _delta_md), None]
+        ]
+        x0 = _delta_md
+        result = minimize(
+            _drop_off,
+            x0,
+            args=args,
+            bounds=bounds,
+            method='Powell'
+        )
+        nodes = _drop_off(
+            result.x, *args, return_data=True
+        )
+        connections.append(Connector(
+            node1=node,
+            pos2=nodes[0].pos_nev, vec2=nodes[0].vec_nev,
+            dls_design=dls, force_min_curve=True
+        ))
+        if len(nodes) > 1:
+            connections.append(Connector(
+                node1=connections[-1].node_end,
+                pos2=nodes[-1].pos_nev,
+                dls_design=dls, force_min_curve=True
+            ))
+    return connections
+
+
-- 
2.43.0


From 0b5228232acd1e5ca80178553d205fb164357f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 018/121] fix: project_to_target uses the design dogleg
 severity

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index fe48b35..f92b0ed 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -3073,7 +3073,7 @@ def project_to_target(
 
     connectors.append(
         Connector(
-            node_bit, node_target, dls_design, unit=survey.unit
+            node_bit, node_target, dls_design=dls_design, unit=survey.unit
         )
     )
     # the connectors work with azimuths relative to grid north
-- 
2.43.0


From 5dfa8735606e0cb899c0025b7ae7f3be6fd652b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 019/121] fix: curve-hold-curve iterates until the position has
 settled, not only the direction

---
 welleng/connector.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index fbd561e..ec923d3 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1491,11 +1491,21 @@ def minimize_target_pos_and_vec_defined(
         else:
             c.vec23.append((c.pos3 - c.pos2) / vec23_denom)
 
+        # The remaining error in the direction acts over the whole length of
+        # the path, so as long as the design radii can be met the position
+        # needs to have settled as well.
         c.error = np.allclose(
             c.vec23[-1], vec_old,
             equal_nan=True,
             rtol=c.min_error * 10,
             atol=c.min_error * 0.1
+        ) and (
+            radius_temp1 < radius1
+            or radius_temp2 < radius2
+            or np.allclose(
+                c.pos3, prev_pos3,
+                equal_nan=True, rtol=0, atol=c.min_error * 10
+            )
         )
 
         c.errors.append(c.error)
-- 
2.43.0


From f204f4b0434254faa4d961f30017181671a98b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 020/121] fix: a curve-hold connection is exact when the target
 is two radii beside the start

---
 welleng/connector.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/welleng/connector.py b/welleng/connector.py
index ec923d3..8c55a4b 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -431,6 +431,9 @@ class Connector:
             self.tangent_length,
             self.dogleg
         ) = min_dist_to_target(self.radius_design, self.distances)
+        self.dogleg = get_dogleg_to_target(
+            self.tangent_length, self.dogleg, self.distances
+        )
         self.dogleg = check_dogleg(self.dogleg)
         self.dist_curve, self.func_dogleg = get_curve_hold_data(
             self.radius_design, self.dogleg
@@ -1784,6 +1787,7 @@ def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
 
     distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
     tangent_length, dogleg = min_dist_to_target(radius, distances)
+    dogleg = get_dogleg_to_target(tangent_length, dogleg, distances)
     # Wrap negative doglegs by +2π to match the scalar Connector
     # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
     # output before building the path). Without this, a geometry that
@@ -1851,6 +1855,39 @@ def min_dist_to_target(radius, distances):
     return tangent_length, dogleg
 
 
+def get_dogleg_to_target(tangent_length, dogleg, distances):
+    """Computes the dogleg to a target that is not behind the start.
+
+    The angle is the one of ``min_dist_to_target``, but expressed such that it
+    is also exact for a target beside the start at a distance of two radii,
+    where the former is 0 / 0.
+
+    Parameters
+    ----------
+    tangent_length : float or ndarray
+        Hold section length from ``min_dist_to_target``.
+    dogleg : float or ndarray
+        Curve angle from ``min_dist_to_target`` in radians.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    float or ndarray
+        Curve angle in radians.
+    """
+    _, dist_perp_to_target, dist_norm_to_target = distances
+
+    return np.where(
+        np.asarray(dist_perp_to_target) < 0,
+        dogleg,
+        2 * np.arctan2(
+            dist_norm_to_target, dist_perp_to_target + tangent_length
+        )
+    )[()]
+
+
 def min_curve_to_target(distances):
     """Computes minimum-curvature parameters when the design DLS is insufficient.
 
-- 
2.43.0


From f160c3539f20bc775c5b7aedeba7b07a070babf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 021/121] fix: get_vec returns vectors of the requested length

---
 welleng/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index cfcd5fb..b7b2cc6 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -180,16 +180,18 @@ def get_vec(inc, azi, nev=False, r=1, deg=True):
     else:
         inc_rad = inc
         azi_rad = azi
-    y = r * np.sin(inc_rad) * np.cos(azi_rad)
-    x = r * np.sin(inc_rad) * np.sin(azi_rad)
-    z = r * np.cos(inc_rad)
+    y = np.sin(inc_rad) * np.cos(azi_rad)
+    x = np.sin(inc_rad) * np.sin(azi_rad)
+    z = np.cos(inc_rad)
 
     if nev:
         vec = np.column_stack([y, x, z])
     else:
         vec = np.column_stack([x, y, z])
 
-    return vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+    return vec * np.reshape(r, (-1, 1))
 
 
 def get_nev(
-- 
2.43.0


From 1dbdc9e604bf3426b10d3111090ca0b1c24d569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 022/121] fix: radius and severity conversions handle zero and
 integer arrays

---
 welleng/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index b7b2cc6..ba4bc7e 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -450,17 +450,16 @@ def dls_from_radius(radius):
     Returns the dls in degrees from a radius.
     """
     if isinstance(radius, np.ndarray):
-        circumference = np.full_like(radius, np.inf)
-        circumference = np.where(
-            radius != 0,
-            2 * np.pi * radius,
-            circumference
+        circumference = 2 * np.pi * radius
+        dls = np.divide(
+            360 * 30, circumference,
+            out=np.full(radius.shape, np.inf), where=radius != 0
         )
     else:
         if radius == 0:
             return np.inf
         circumference = 2 * np.pi * radius
-    dls = 360 / circumference * 30
+        dls = 360 / circumference * 30
 
     return dls
 
@@ -470,11 +469,9 @@ def radius_from_dls(dls):
     Returns the radius in meters from a DLS in deg/30m.
     """
     if isinstance(dls, np.ndarray):
-        circumference = np.full_like(dls, np.inf)
-        circumference = np.where(
-            dls != 0,
-            (30 / dls) * 360,
-            circumference
+        circumference = np.divide(
+            30 * 360, dls,
+            out=np.full(dls.shape, np.inf), where=dls != 0
         )
     else:
         if dls == 0:
-- 
2.43.0


From a25aeee3c7aaa2010dd44079aa8431f6d27363ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 023/121] fix: decimal2dms keeps the sign below one degree and
 carries 60 seconds

---
 welleng/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ba4bc7e..a64cd7b 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -707,15 +707,23 @@ def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
         _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
         direction = None
     _decimal = float(_decimal)
-    minutes, seconds = divmod(abs(_decimal) * 3600, 60)
-    _, minutes = divmod(minutes, 60)
+    seconds = abs(_decimal) * 3600
+    if ndigits is not None:
+        # round before splitting so that 60 seconds are carried
+        seconds = round(seconds, ndigits)
+    minutes, seconds = divmod(seconds, 60)
+    degrees, minutes = divmod(minutes, 60)
+    degrees = int(degrees)
+    if _decimal < 0:
+        # minus zero degrees keeps the sign of angles between -1 and 0
+        degrees = -degrees if degrees else -0.0
 
     return np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits)
     ]) if direction is None else np.array([
-        int(_decimal),
+        degrees,
         int(minutes),
         seconds if ndigits is None else round(seconds, ndigits),
         direction
-- 
2.43.0


From 2177e99e30dca5b4d0e764db530db30b8cf0d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 024/121] fix: decimal2dms accepts whole numbers of degrees

---
 welleng/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index a64cd7b..ac124be 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -760,7 +760,7 @@ def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArra
     """
     flag = False
     _decimal = np.array(decimal)
-    if _decimal.dtype == np.float64:
+    if np.issubdtype(_decimal.dtype, np.number):
         _decimal = _decimal.reshape((-1, 1))
         flag = True
     try:
-- 
2.43.0


From bcb7b010637aedd97eb956c6ffb115a2c4fa8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 025/121] fix: dms_from_string reads back everything pprint_dms
 prints

---
 welleng/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index ac124be..f5b506f 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -875,7 +875,12 @@ def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
 def dms_from_string(text):
     """Extracts the values from a string dms x or y or northing or easting.
     """
-    pattern = re.compile(r'(\d+)\s*(?:°|deg)?,\s*(\d+)\s*(?:\'|min)?,\s*(\d+(?:\.\d+)?)\s*(sec)?\s*.*?(\S+)?$', re.IGNORECASE)
+    pattern = re.compile(
+        r'(?<![\d.])(-?\d+(?:\.0*)?)\s*(?:°|deg)?,'
+        r'\s*(\d+(?:\.0*)?)\s*(?:\'|min)?,'
+        r'\s*(\d+(?:\.\d+)?(?:e[+-]?\d+)?)\s*(?:"|sec)?\s*.*?(\S+)?$',
+        re.IGNORECASE
+    )
     matches = pattern.findall(text)
 
     if matches:
@@ -883,10 +888,14 @@ def dms_from_string(text):
         sec = float(sec_str)
         final_data = matches[0][-1] if matches[0][-1] else None
 
+        # minus zero degrees keeps the sign of angles between -1 and 0
+        deg = float(deg)
+        deg = int(deg) if deg else deg if np.signbit(deg) else 0
+
         if final_data:
-            return (int(deg), int(min), sec, final_data)
+            return (deg, int(float(min)), sec, final_data)
         else:
-            return (int(deg), int(min), sec)
+            return (deg, int(float(min)), sec)
 
     else:
         return
-- 
2.43.0


From 6d2b040effd796531f0904d946202160983db3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 026/121] fix: formula functions do not take surplus arguments
 as output arrays

---
 welleng/errors/interpreter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index 062d805..cb8306c 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 import ast
 import math
 import re
+from functools import reduce
 from typing import Any
 
 import numpy as np
@@ -79,6 +80,7 @@ _ALLOWED_NODES = (
 _ALLOWED_FUNCS = {"sin", "cos", "tan", "asin", "acos", "atan",
                   "abs", "sqrt", "exp", "log", "pi",
                   "maximum", "minimum"}
+_VARIADIC_FUNCS = {"maximum", "minimum"}
 
 
 def _validate(tree: ast.AST) -> None:
@@ -92,6 +94,12 @@ def _validate(tree: ast.AST) -> None:
                 raise ValueError("only direct function calls allowed")
             if node.func.id not in _ALLOWED_FUNCS:
                 raise ValueError(f"function {node.func.id!r} not whitelisted")
+            # NumPy takes surplus arguments as output arrays, which would
+            # overwrite the caller's values.
+            if node.func.id not in _VARIADIC_FUNCS and len(node.args) != 1:
+                raise ValueError(
+                    f"function {node.func.id!r} takes exactly one argument"
+                )
         if isinstance(node, ast.Name) and node.id == "__builtins__":
             raise ValueError("__builtins__ access forbidden")
 
@@ -118,7 +126,8 @@ def evaluate_formula(
         "sin": np.sin, "cos": np.cos, "tan": np.tan,
         "asin": np.arcsin, "acos": np.arccos, "atan": np.arctan,
         "abs": np.abs, "sqrt": np.sqrt, "exp": np.exp, "log": np.log,
-        "maximum": np.maximum, "minimum": np.minimum,
+        "maximum": lambda *args: reduce(np.maximum, args),
+        "minimum": lambda *args: reduce(np.minimum, args),
         "pi": math.pi,
     }
     ns.update(bindings)
-- 
2.43.0


From 4241b309a6f327ad8c162e645b14871edbb7c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 027/121] fix: formulas with constants or names that are not
 numbers are refused

---
 welleng/errors/interpreter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index cb8306c..58766cc 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -84,6 +84,9 @@ _VARIADIC_FUNCS = {"maximum", "minimum"}
 
 
 def _validate(tree: ast.AST) -> None:
+    called = {
+        id(node.func) for node in ast.walk(tree) if isinstance(node, ast.Call)
+    }
     for node in ast.walk(tree):
         if not isinstance(node, _ALLOWED_NODES):
             raise ValueError(
@@ -100,6 +103,15 @@ def _validate(tree: ast.AST) -> None:
                 raise ValueError(
                     f"function {node.func.id!r} takes exactly one argument"
                 )
+        if isinstance(node, ast.Constant) and type(node.value) not in (
+            int, float
+        ):
+            raise ValueError(f"disallowed constant {node.value!r} in formula")
+        if (
+            isinstance(node, ast.Name) and id(node) not in called
+            and node.id in _ALLOWED_FUNCS - {"pi"}
+        ):
+            raise ValueError(f"function {node.id!r} used without arguments")
         if isinstance(node, ast.Name) and node.id == "__builtins__":
             raise ValueError("__builtins__ access forbidden")
 
-- 
2.43.0


From 8ed2a45fd4fe5193425d097aa86dcec9410d2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 028/121] fix: formulas may start with white space

---
 welleng/errors/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index 58766cc..4a747e7 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -129,7 +129,7 @@ def evaluate_formula(
     """
     if isinstance(formula, (int, float)):
         return float(formula)
-    s = _rewrite_excel_to_python(formula)
+    s = _rewrite_excel_to_python(formula).strip()
     tree = ast.parse(s, mode="eval")
     _validate(tree)
     # Build the eval namespace: numpy ufuncs for trig (vectorised),
-- 
2.43.0


From 09ecc7eb4adf58fb9ba9ac7ade48162982a19361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 029/121] fix: whole numbers in formulas are real numbers

---
 welleng/errors/interpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/welleng/errors/interpreter.py b/welleng/errors/interpreter.py
index 4a747e7..e3fb670 100644
--- a/welleng/errors/interpreter.py
+++ b/welleng/errors/interpreter.py
@@ -132,6 +132,11 @@ def evaluate_formula(
     s = _rewrite_excel_to_python(formula).strip()
     tree = ast.parse(s, mode="eval")
     _validate(tree)
+    # Whole numbers are real numbers here: NumPy integers would overflow and
+    # cannot be raised to a negative power.
+    for node in ast.walk(tree):
+        if isinstance(node, ast.Constant):
+            node.value = float(node.value)
     # Build the eval namespace: numpy ufuncs for trig (vectorised),
     # math.pi for pi, and the user bindings on top.
     ns: dict[str, Any] = {
-- 
2.43.0


From a8b76b7818dc3b2c5f2fd8a6d8dd238f0444cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 030/121] fix: a rejected section leaves the string as it was

---
 welleng/architecture.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index f626079..0f29bb3 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -83,24 +83,26 @@ class String:
             temp = len(self.sections)
             top = self.sections[temp - 1]['bottom']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
+        # work on a copy so that a rejected section leaves no trace
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['top']
+                sections.items(), key=lambda item: item[1]['top']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
@@ -148,25 +150,27 @@ class String:
             top = self.top
             length = self.sections[0]['top']
 
-        self.sections[temp] = {}
-        self.sections[temp]['top'] = top
-        self.sections[temp]['bottom'] = bottom
+        # work on a copy so that a rejected section leaves no trace
+        sections = dict(self.sections)
+        sections[temp] = {}
+        sections[temp]['top'] = top
+        sections[temp]['bottom'] = bottom
 
         # add the section to the sections dict
         for k, v in kwargs.items():
-            self.sections[temp][k] = v
+            sections[temp][k] = v
 
         # sort the dict on depth of tops
-        self.sections = {
+        sections = {
             k: v
             for k, v in sorted(
-                self.sections.items(), key=lambda item: item[1]['bottom']
+                sections.items(), key=lambda item: item[1]['bottom']
             )
         }
 
         # re-index the keys
         temp = {}
-        for i, (k, v) in enumerate(self.sections.items()):
+        for i, (k, v) in enumerate(sections.items()):
             temp[i] = v
 
         # check inputs
-- 
2.43.0


From df652d1e3d1c2a30442bb212e506b38d0b4caeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 031/121] fix: sections without length are rejected

---
 welleng/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 0f29bb3..9796cdf 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -111,7 +111,7 @@ class String:
                 assert v['top'] == self.top
             else:
                 assert v['top'] == temp[k - 1]['bottom']
-            assert v['bottom'] <= self.bottom
+            assert v['top'] < v['bottom'] <= self.bottom
 
         if temp[len(temp) - 1]['bottom'] == self.bottom:
             self.complete = True
@@ -180,7 +180,7 @@ class String:
                 assert v['bottom'] == self.bottom
             else:
                 assert v['bottom'] == temp[k + 1]['top']
-            assert v['top'] >= self.top
+            assert self.top <= v['top'] < v['bottom']
 
         if temp[0]['top'] == self.top:
             self.complete = True
-- 
2.43.0


From 31350d0a37b52126dac7cbde3f2304da0860d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 032/121] fix: bottom up sections can be given by their top and
 report their length

---
 welleng/architecture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 9796cdf..265f108 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -139,16 +139,15 @@ class String:
             temp = len(self.sections)
             bottom = self.sections[0]['top']
 
-        if bool(kwargs.get('length')):
-            top = bottom - kwargs.get('length')
+        length = kwargs.get('length')
+        if length is not None:
+            top = bottom - length
             if top < self.top:
                 top = self.top
                 length = bottom - top
-        elif bool(kwargs.get('top')):
-            length = bottom - kwargs.get('top')
         else:
-            top = self.top
-            length = self.sections[0]['top']
+            top = self.top if kwargs.get('top') is None else kwargs['top']
+            length = bottom - top
 
         # work on a copy so that a rejected section leaves no trace
         sections = dict(self.sections)
@@ -159,6 +158,7 @@ class String:
         # add the section to the sections dict
         for k, v in kwargs.items():
             sections[temp][k] = v
+        sections[temp].update(top=top, length=length)
 
         # sort the dict on depth of tops
         sections = {
-- 
2.43.0


From e79cb923e324e9985161d7549ed398db35f3e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 033/121] fix: String.depth works for strings built from the
 top down

---
 welleng/architecture.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/architecture.py b/welleng/architecture.py
index 265f108..d331233 100644
--- a/welleng/architecture.py
+++ b/welleng/architecture.py
@@ -49,7 +49,10 @@ class String:
                     if k not in ['top', 'bottom', 'length', 'buoyancy_factor']
             }
             string_new.add_section(
-                length=self.sections[section]['length'], **params
+                length=(
+                    self.sections[section]['bottom']
+                    - self.sections[section]['top']
+                ), **params
             )
             if string_new.sections[0]['top'] == self.top:
                 reached_top = True
-- 
2.43.0


From 70b15a8de14846b2d0396ba5df55c9d3b4e0fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 034/121] fix: torque and drag reads the sections of a string

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index de7811c..e09b27b 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -196,7 +196,7 @@ class TorqueDrag:
     def get_weight_buoyed_and_radius(self):
         """Calculate buoyed weight and contact radius for each survey interval."""
         sections = self.string.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         delta_mds = self.survey.delta_md[1:]
         mask = mds <= self.string.bottom
@@ -212,7 +212,7 @@ class TorqueDrag:
     def get_coeff_friction_sliding(self):
         """Build an array of sliding friction coefficients mapped to survey stations."""
         sections = self.wellbore.sections
-        bottoms = np.array([s['bottom'] for s in sections])
+        bottoms = np.array([s['bottom'] for s in sections.values()])
         mds = self.survey.md[1:]
         mask = mds <= self.wellbore.bottom
         mds = mds[mask]
-- 
2.43.0


From d5424272add4adf94aa1a06c648de0d0893a8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 035/121] fix: torque and drag uses the shortest azimuth change

---
 welleng/torque_drag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index e09b27b..9540a0d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -171,7 +171,8 @@ class TorqueDrag:
         self.azi_delta = np.zeros_like(self.survey.azi_grid_rad)
         self.azi_delta[1:] = (
             self.survey.azi_grid_rad[1:] - self.survey.azi_grid_rad[:-1]
-        )
+            + np.pi
+        ) % (2 * np.pi) - np.pi
 
     def get_characteristic_od(self, section):
         """Return the effective outer diameter for a string section.
-- 
2.43.0


From 223f565ae9adc0a447bcb926b3773364bd649eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 036/121] fix: torque uses the radius of the string at the same
 depth

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index 9540a0d..b87e565 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -256,7 +256,7 @@ class TorqueDrag:
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
-            self.radius
+            self.radius[::-1]
         ):
             (
                 inc_average, inc_delta, azi_delta, weight_buoyed,
-- 
2.43.0


From bd3a9760a3dcdf5871a100d9c1a31ae0c9c05f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 037/121] fix: tension lifts the string off the low side in a
 build section

---
 welleng/torque_drag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index b87e565..a167a5d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -252,7 +252,8 @@ class TorqueDrag:
         fn = []
         for row in zip(
             self.inc_average[:self.index][::-1],
-            self.inc_delta[:self.index][::-1],
+            # the string is followed upwards, so a build is a drop here
+            -self.inc_delta[:self.index][::-1],
             self.azi_delta[:self.index][::-1],
             self.weight_buoyed[::-1],
             self.coeff_friction_sliding[:self.index][::-1],
@@ -323,7 +324,8 @@ def force_normal(
     inc_average : float
         Average inclination of the interval in radians.
     inc_delta : float
-        Inclination change over the interval in radians.
+        Inclination change over the interval in radians, positive when the
+        inclination increases upwards (tension then adds to the weight).
     azi_delta : float
         Azimuth change over the interval in radians.
     weight_buoyed : float
-- 
2.43.0


From 1de5b339b19be3c795c412a9477a42c808b8d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 038/121] fix: torque and drag adds each section depth to the
 survey once

---
 welleng/torque_drag.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index a167a5d..e524b67 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -106,23 +106,16 @@ class TorqueDrag:
         the string sections to ensure that the torque and drag is
         calculated for these key locations.
         """
-        q = []
-
-        for k, v in self.wellbore.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
-
-        for k, v in self.string.sections.items():
-            if v['bottom'] in self.survey_original.md:
-                continue
-            else:
-                q.append(interpolate_md(
-                    self.survey_original, v['bottom']
-                ))
+        bottoms = {
+            v['bottom']
+            for sections in (self.wellbore.sections, self.string.sections)
+            for v in sections.values()
+        }
+        q = [
+            interpolate_md(self.survey_original, bottom)
+            for bottom in sorted(bottoms)
+            if bottom not in self.survey_original.md
+        ]
 
         md, inc, azi = (
             self.survey_original.md.tolist(),
-- 
2.43.0


From 0c0936e61224d83a15d7c780cc89e160714f5e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 039/121] fix: density profile accepts a list of temperatures

---
 welleng/fluid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index b33ae53..f9b3261 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -237,8 +237,9 @@ class Fluid:
         """
 
         # Convert to (n) array to manage single float or list/array
-        depth = np.array([depth]).reshape(-1)
-        with np.errstate(invalid='ignore'):
+        depth = np.array([depth], dtype=float).reshape(-1)
+        temperature = np.array([temperature], dtype=float).reshape(-1)
+        with np.errstate(invalid='ignore', divide='ignore'):
             temperature_thermal_gradient = np.nan_to_num((
                 temperature - self.temp_reference
             ) / depth
-- 
2.43.0


From c5c633cc0a1665e3c5df112423fb08c3c70fc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 040/121] fix: the constituents of a fluid add up to its
 density

---
 welleng/fluid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index f9b3261..bdbf620 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -130,7 +130,9 @@ class Fluid:
         volume_weighting_material = (
             self.density_fluid_reference
             - self.base_fluid_density_reference
-        ) / self.density_weighting_material
+        ) / (
+            self.density_weighting_material - self.density_fluid_reference
+        )
 
         volume_total = 1 + volume_weighting_material
 
-- 
2.43.0


From a879308e2c34ac71bbe63a948bd69ff6b686e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 041/121] fix: diesel density does not use an interpolator that
 SciPy removed

---
 welleng/fluid.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/welleng/fluid.py b/welleng/fluid.py
index bdbf620..f689b38 100644
--- a/welleng/fluid.py
+++ b/welleng/fluid.py
@@ -31,8 +31,6 @@ class DensityDiesel:
         psia = np.array([15., 3_000., 7_000., 10_000., 12_500.])
         temp = np.array([100., 200., 300., 350.])
 
-        psia_psia, temp_temp = np.meshgrid(psia, temp)
-
         rho = np.array([
             [6.9597, 7.0597, 7.1621, 7.2254, 7.2721],
             [6.6598, 6.7690, 6.8789, 6.9464, 6.9930],
@@ -40,8 +38,8 @@ class DensityDiesel:
             [6.2083, 6.3350, 6.4624, 6.5366, 6.5874]
         ])
 
-        self.density_diesel = interpolate.interp2d(
-            psia_psia, temp_temp, rho, kind='cubic'
+        self.density_diesel = interpolate.RectBivariateSpline(
+            psia, temp, rho.T
         )
 
     def get_density(self, pressure, temperature):
@@ -51,7 +49,7 @@ class DensityDiesel:
         """
         density = self.density_diesel(
             pressure, temperature
-        )
+        ).T
 
         return density
 
-- 
2.43.0


From 4f5d44b6f3bda91b550db11e3aae3f62d696d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 042/121] fix: a failed field lookup does not replace the
 user's survey date

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f92b0ed..69cc198 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -431,7 +431,7 @@ class SurveyHeader:
                         latitude=self.latitude,
                         longitude=self.longitude,
                         altitude=self.altitude,
-                        date=self._get_date(date=None)
+                        date=datetime.today().strftime('%Y-%m-%d')
                     )
                 except:  # prevents crashing if there's no connection to the internet - need to have a log that captures when this occurs.
                     # TODO: log when no internet connection prvents updating the result var
-- 
2.43.0


From 91a3bfa8a7df348e989cf4f4bb91cd38f05840f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 043/121] fix: well-by-well terms of JSON error models are
 within_pad terms

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ea036c2..4d6472e 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -18,7 +18,7 @@ _JSON_PROP_TO_LEGACY = {
     "Random": "random",
     "Systematic": "systematic",
     "Global": "global",
-    "Well": "well",
+    "Well": "within_pad",
 }
 
 
-- 
2.43.0


From 7939b04ede203b80155601c6874947c051098723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 044/121] fix: JSON error models are looked up by their unique
 short name

---
 welleng/errors/tool_errors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 4d6472e..0046898 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -173,7 +173,12 @@ class ToolError:
         # default), so we walk the iscwsa_json/ tree looking at both
         # the OWSG prefix and the metadata.short_name of each JSON.
         yaml_filename = os.path.join(PATH, 'tool_codes', f"{model}.yaml")
-        json_filename = _resolve_json_model(model)
+        # The floating rig variants share their OWSG prefix with the normal
+        # ones, only the Short Name is unique.
+        json_filename = (
+            _resolve_json_model(self.e.error_model)
+            or _resolve_json_model(model)
+        )
 
         self._json_path = None
         if os.path.isfile(yaml_filename):
-- 
2.43.0


From 80c9603242ab96119a0311f763cf37825ab9a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 045/121] fix: the last station keeps its uncertainty when it
 is vertical

---
 welleng/error.py              |  2 ++
 welleng/errors/iscwsa_mwd.py  | 18 ++++-------
 welleng/errors/tool_errors.py | 58 +++++++++++------------------------
 3 files changed, 26 insertions(+), 52 deletions(-)

diff --git a/welleng/error.py b/welleng/error.py
index 28a8154..77faad2 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -517,6 +517,8 @@ class ErrorModel():
         survey2 is current survey station
         survey3 is next survey station (with inc and azi in radians)
         '''
+        # there's nothing after the last station, so it's its own next one
+        survey = np.vstack((survey, survey[-1:]))
         md1, inc1, azi1 = np.array(survey[:-2]).T
         md2, inc2, azi2 = np.array(survey[1:-1]).T
         md3, inc3, azi3 = np.array(survey[2:]).T
diff --git a/welleng/errors/iscwsa_mwd.py b/welleng/errors/iscwsa_mwd.py
index 45ca9f0..ffa3eb9 100644
--- a/welleng/errors/iscwsa_mwd.py
+++ b/welleng/errors/iscwsa_mwd.py
@@ -213,8 +213,7 @@ def ABXY_TI2(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.split('_')[-1] == 'rev5':
@@ -242,8 +241,7 @@ def ABXY_TI2(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.split('_')[-1] == 'rev5':
@@ -565,8 +563,7 @@ def XYM3(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -578,8 +575,7 @@ def XYM3(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -621,8 +617,7 @@ def XYM4(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -634,8 +629,7 @@ def XYM4(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 0046898..2c908a2 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -587,8 +587,7 @@ def ABIXY_TI2(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
@@ -616,8 +615,7 @@ def ABIXY_TI2(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
 
@@ -673,8 +671,7 @@ def ABXY_TI2(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
@@ -702,8 +699,7 @@ def ABXY_TI2(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         if error.error_model.lower().split(' ')[-1] != 'rev4':
@@ -944,22 +940,21 @@ def CNA(
             np.array(0.5 * error.drdp_sing['double_delta_md'])
             * -sin(getattr(
                 error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            )[1:])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
             * cos(getattr(
                 error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            )[1:])
             * mag
         )
         v = np.zeros_like(n)
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -969,21 +964,20 @@ def CNA(
             np.array(0.5 * error.drdp_sing['delta_md'])
             * -sin(getattr(
                 error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            )[1:])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
             * cos(getattr(
                 error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1: -1])
+            )[1:])
             * mag
         )
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1405,8 +1399,7 @@ def XYM3(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -1418,8 +1411,7 @@ def XYM3(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1431,18 +1423,12 @@ def XYM3(
 
 def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     coeff = np.ones(len(error.survey.md))
-    coeff[1:-1] = np.amax(np.stack((
-        coeff[1:-1],
+    coeff[1:] = np.amax(np.stack((
+        coeff[1:],
         sqrt(
             10 / error.drdp_sing['delta_md']
         )
     ), axis=-1), axis=-1)
-    coeff[-1] = np.amax(np.stack((
-        coeff[-1],
-        sqrt(
-            10 / (error.survey.md[-1] - error.survey.md[-2])
-        )
-    ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
     dpde[1:, 1] = np.absolute(
@@ -1523,8 +1509,7 @@ def XYM4(
         e_NEV_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV[sing] = e_NEV_sing[sing]
@@ -1536,8 +1521,7 @@ def XYM4(
         e_NEV_star_sing = np.vstack(
             (
                 np.zeros((1, 3)),
-                np.stack((n, e, v), axis=-1),
-                np.zeros((1, 3))
+                np.stack((n, e, v), axis=-1)
             )
         )
         e_NEV_star[sing] = e_NEV_star_sing[sing]
@@ -1549,18 +1533,12 @@ def XYM4(
 
 def XYM4E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     coeff = np.ones(len(error.survey.md))
-    coeff[1:-1] = np.amax(np.stack((
-        coeff[1:-1],
+    coeff[1:] = np.amax(np.stack((
+        coeff[1:],
         sqrt(
             10 / error.drdp_sing['delta_md']
         )
     ), axis=-1), axis=-1)
-    coeff[-1] = np.amax(np.stack((
-        coeff[-1],
-        sqrt(
-            10 / (error.survey.md[-1] - error.survey.md[-2])
-        )
-    ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
     dpde[1:, 1] = (
-- 
2.43.0


From b5aee1883ed1a191406473472f494b4f22e98e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 046/121] fix: vertical surveys of two stations have an
 uncertainty

---
 welleng/errors/tool_errors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 2c908a2..a0236fc 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -593,7 +593,7 @@ def ABIXY_TI2(
 
         e_NEV_sing[1, 1] = (
             (
-                error.survey.md[2]
+                error.survey.md[:3][-1]
                 + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
@@ -677,7 +677,7 @@ def ABXY_TI2(
         if error.error_model.lower().split(' ')[-1] != 'rev4':
             e_NEV_sing[1, 1] = (
                 (
-                    error.survey.md[2]
+                    error.survey.md[:3][-1]
                     + error.survey.md[1]
                     - 2 * error.survey.md[0]
                 ) / 2
@@ -1766,9 +1766,9 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
             * mag
         )
         e_NEV_sing[1, 0] = (
-            coeff[1]
+            coeff[0]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
@@ -1861,7 +1861,7 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         e_NEV_sing[1, 1] = (
             coeff[1]
             * (
-                error.survey.md[2] + error.survey.md[1]
+                error.survey.md[:3][-1] + error.survey.md[1]
                 - 2 * error.survey.md[0]
             ) / 2
             * mag
-- 
2.43.0


From d0710c92cb8156cef51bbccfd657a4aaa6c0a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 047/121] fix: XYM3L and XYM4L weigh short vertical legs at
 every station

---
 welleng/errors/tool_errors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index a0236fc..b920835 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1786,7 +1786,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
-        e_NEV_star_sing[1:, 0] = (
+        e_NEV_star_sing[1:, 0] = coeff * (
             (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
@@ -1795,7 +1795,7 @@ def XYM3L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
         )
         # Rev 5.11 "funny stuff": at SING station 1 the workbook uses the full
         # first interval, not the halved value (see ABXY precedent at line ~409).
-        e_NEV_star_sing[1, 0] = (
+        e_NEV_star_sing[1, 0] = coeff[0] * (
             (error.survey.md[1] - error.survey.md[0])
             * mag
         )
@@ -1879,14 +1879,14 @@ def XYM4L(code, error, mag=0.0167, propagation='random', NEV=True, **kwargs):
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV)
-        e_NEV_star_sing[1:, 1] = (
+        e_NEV_star_sing[1:, 1] = coeff[1:] * (
             (
                 error.survey.md[1:]
                 - error.survey.md[:-1]
             ) / 2
             * mag
         )
-        e_NEV_star_sing[1, 1] = (
+        e_NEV_star_sing[1, 1] = coeff[1] * (
             (
                 error.survey.md[1]
                 - error.survey.md[0]
-- 
2.43.0


From af4ccca8a3a4befa900a51c97f608d5ffb1594ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 048/121] fix: CNA works for surveys referenced to magnetic
 north

---
 welleng/errors/tool_errors.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index b920835..499e2e9 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -938,16 +938,12 @@ def CNA(
         e_NEV = error._e_NEV(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1:])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['double_delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1:])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         v = np.zeros_like(n)
@@ -962,16 +958,12 @@ def CNA(
         e_NEV_star = error._e_NEV_star(e_DIA)
         n = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * -sin(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1:])
+            * -sin(error.drdp_sing['azi2'])
             * mag
         )
         e = (
             np.array(0.5 * error.drdp_sing['delta_md'])
-            * cos(getattr(
-                error.survey, f"azi_{error.survey.header.azi_reference}_rad"
-            )[1:])
+            * cos(error.drdp_sing['azi2'])
             * mag
         )
         e_NEV_star_sing = np.vstack(
-- 
2.43.0


From abde88db1dd0038341d7e1e135c8c79340f732f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 049/121] fix: XYM3E keeps the sign of the azimuth

---
 welleng/errors/tool_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 499e2e9..1fc92ae 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1423,8 +1423,8 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     ), axis=-1), axis=-1)
 
     dpde = np.zeros((len(error.survey.md), 3))
-    dpde[1:, 1] = np.absolute(
-        cos(error.survey.inc_rad[1:])
+    dpde[1:, 1] = (
+        np.absolute(cos(error.survey.inc_rad[1:]))
         * cos(error.survey.azi_true_rad[1:])
         * coeff[1:]
     )
-- 
2.43.0


From 3137524219b8513a1f0de162f8d67e91e7630431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 050/121] fix: XYM3E does not depend on the azimuth of a
 vertical station

---
 welleng/errors/tool_errors.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 1fc92ae..ee7261c 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -1454,12 +1454,23 @@ def XYM3E(code, error, mag=0.00524, propagation='random', NEV=True, **kwargs):
     else:
         e_NEV = error._e_NEV(e_DIA)
         e_NEV_sing = np.zeros_like(e_NEV)
-        e_NEV_sing[:, 0] = e_NEV[:, 0]
+        e_NEV_sing[1:, 0] = (
+            0.5 * error.drdp_sing['double_delta_md'] * coeff[1:] * mag
+        )
+        if error.error_model.lower().split(' ')[-1] != 'rev4':
+            # the first interval is not halved, see ErrorModel.drk_dInc
+            e_NEV_sing[1, 0] += (
+                0.5 * error.drdp_sing['delta_md'][0] * coeff[1] * mag
+            )
         e_NEV[sing] = e_NEV_sing[sing]
 
         e_NEV_star = error._e_NEV_star(e_DIA)
         e_NEV_star_sing = np.zeros_like(e_NEV_star)
-        e_NEV_star_sing[:, 0] = e_NEV_star[:, 0]
+        e_NEV_star_sing[1:, 0] = (
+            0.5 * error.drdp_sing['delta_md'] * coeff[1:] * mag
+        )
+        if error.error_model.lower().split(' ')[-1] != 'rev4':
+            e_NEV_star_sing[1, 0] *= 2
         e_NEV_star[sing] = e_NEV_star_sing[sing]
 
         return error._generate_error(
-- 
2.43.0


From 4b59b1ca8eff5104682bf08e40b73f913c3ad518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 051/121] fix: error models without a listed tortuosity use the
 default

---
 welleng/errors/tool_errors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ee7261c..ce1d8be 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -210,7 +210,8 @@ class ToolError:
             # TODO use pint to handle this string inputs
             self.tortuosity = (np.radians(1.) / 100) * 3.281
         else:
-            self.tortuosity = None
+            # the models that don't list it use the same default
+            self.tortuosity = (np.radians(1.) / 100) * 3.281
 
         # if model == "iscwsa_mwd_rev5":
         # if model == "ISCWSA MWD Rev5":
-- 
2.43.0


From c2928616e15de67ec65c2e7aaa2b922e83e84390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 052/121] fix: models without a model file are not listed

---
 welleng/errors/tool_index.yaml | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/welleng/errors/tool_index.yaml b/welleng/errors/tool_index.yaml
index 6782594..3141677 100644
--- a/welleng/errors/tool_index.yaml
+++ b/welleng/errors/tool_index.yaml
@@ -477,9 +477,3 @@ ISCWSA MWD Rev5.11:
   OWSG Prefix: None
   Rev.: 5.11
   Short Name: ISCWSA MWD Rev5.11
-spe-90408-ma_example_table_3:
-  Application: None
-  Long Name: spe-90408-ma_example_table_3
-  OWSG Prefix: None
-  Rev.: 5
-  Short Name: spe-90408-ma_example_table_3
-- 
2.43.0


From fa1c0d54763ea8485e2259989c7c09ab1c64b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 053/121] fix: JSON error models use their singularity formulas
 at vertical stations

---
 welleng/errors/tool_errors.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index ce1d8be..5044291 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -330,6 +330,10 @@ class ToolError:
             d = evaluate_formula(term["depth_formula"], bindings)
             i = evaluate_formula(term["inclination_formula"], bindings)
             a = evaluate_formula(term["azimuth_formula"], bindings)
+            sing_NEV = [
+                evaluate_formula(term.get(f"{axis}_singularity") or "0", bindings)
+                for axis in ("north", "east", "vertical")
+            ]
         except Exception as exc:
             # Term references variables the interpreter doesn't know how
             # to bind -- typically cross-station refs (MDPrev/AzPrev/
@@ -352,6 +356,7 @@ class ToolError:
             d = np.zeros(n)
             i = np.zeros(n)
             a = np.zeros(n)
+            sing_NEV = [0., 0., 0.]
         d = np.broadcast_to(np.asarray(d, dtype=float), (n,))
         i = np.broadcast_to(np.asarray(i, dtype=float), (n,))
         a = np.broadcast_to(np.asarray(a, dtype=float), (n,))
@@ -364,7 +369,32 @@ class ToolError:
         unit = term.get("units") or term.get("unit") or "-"
         scale = _MAG_UNIT_TO_BASE.get(unit, 1.0)
         e_DIA = dpde * (mag * scale)
-        return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+
+        sing = survey.inc_rad < survey.header.vertical_inc_limit
+        if not sing.any() or not any(
+            term.get(f"{axis}_singularity")
+            for axis in ("north", "east", "vertical")
+        ):
+            return self.e._generate_error(code, e_DIA, propagation, NEV=True)
+
+        # At vertical stations the term is given directly in NEV.
+        e_DIA[sing] = 0.
+        sing_NEV = np.column_stack([
+            np.broadcast_to(np.asarray(w, dtype=float), (n,))
+            for w in sing_NEV
+        ]) * (mag * scale)
+        delta_md, double_delta_md = (
+            np.hstack((0., self.e.drdp_sing[k])).reshape(-1, 1)
+            for k in ("delta_md", "double_delta_md")
+        )
+        e_NEV = self.e._e_NEV(e_DIA)
+        e_NEV[sing] = (0.5 * double_delta_md * sing_NEV)[sing]
+        e_NEV_star = self.e._e_NEV_star(e_DIA)
+        e_NEV_star[sing] = (0.5 * delta_md * sing_NEV)[sing]
+        return self.e._generate_error(
+            code, e_DIA, propagation, NEV=True,
+            e_NEV=e_NEV, e_NEV_star=e_NEV_star
+        )
 
     def _initiate_func_dict(self):
         """
-- 
2.43.0


From 7a9f9fc9dfbaa480a3e220af997afcec65b9fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 054/121] fix: adding a start covariance does not change the
 caller's covariances

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 69cc198..50f3f5f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -970,7 +970,7 @@ class Survey:
             self.start_cov_nev is not None
             and self.cov_nev is not None
         ):
-            self.cov_nev += self.start_cov_nev
+            self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
     def _curvature_to_rate(self, curvature):
-- 
2.43.0


From 2c259e48d891578b28081a875ccfe344c52befe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 055/121] fix: covariances of a survey are relative to grid
 north like its positions

---
 welleng/survey.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index 50f3f5f..e036467 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -958,6 +958,7 @@ class Survey:
             self.cov_nev_systematic = self.err.errors.cov_NEVs_systematic
             self.cov_nev_global = self.err.errors.cov_NEVs_global
             self.cov_nev_within_pad = self.err.errors.cov_NEVs_within_pad
+            self._cov_nev_true_to_grid()
         else:
             if self.cov_nev is not None and self.cov_hla is None:
                 self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
@@ -973,6 +974,22 @@ class Survey:
             self.cov_nev = self.cov_nev + self.start_cov_nev
             self.cov_hla = NEV_to_HLA(self.survey_rad, self.cov_nev)
 
+    def _cov_nev_true_to_grid(self):
+        """
+        The error models work relative to true north, while the positions of
+        a survey (and so its covariances) are relative to grid north.
+        """
+        if not self.header.convergence:
+            return
+        c = math.cos(self.header.convergence)
+        s = math.sin(self.header.convergence)
+        rotation = np.array([[c, s, 0.], [-s, c, 0.], [0., 0., 1.]])
+        for cov in (
+            'cov_nev', 'cov_nev_random', 'cov_nev_systematic',
+            'cov_nev_global', 'cov_nev_within_pad'
+        ):
+            setattr(self, cov, rotation @ getattr(self, cov) @ rotation.T)
+
     def _curvature_to_rate(self, curvature):
         with np.errstate(divide='ignore', invalid='ignore'):
             radius = 1 / curvature
-- 
2.43.0


From 43a8ea8fecd7ffabc5978476b9cc834adcddadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 056/121] fix: error models treat the lengths of surveys in
 feet as feet

---
 welleng/survey.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index e036467..aaea4ce 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -948,8 +948,14 @@ class Survey:
         """
         if self.error_model:
             # if self.error_model == "iscwsa_mwd_rev4":
+            # the magnitudes of the error models are in meters
+            survey, scale = self, 1.0
+            if self.unit == 'feet':
+                survey, scale = copy(self), 0.3048
+                survey.md = self.md * scale
+                survey.tvd = self.tvd * scale
             self.err = ErrorModel(
-                self,
+                survey,
                 error_model=self.error_model
             )
             self.cov_hla = self.err.errors.cov_HLAs
@@ -958,6 +964,13 @@ class Survey:
             self.cov_nev_systematic = self.err.errors.cov_NEVs_systematic
             self.cov_nev_global = self.err.errors.cov_NEVs_global
             self.cov_nev_within_pad = self.err.errors.cov_NEVs_within_pad
+            if scale != 1.0:
+                for cov in (
+                    'cov_hla', 'cov_nev', 'cov_nev_random',
+                    'cov_nev_systematic', 'cov_nev_global',
+                    'cov_nev_within_pad'
+                ):
+                    setattr(self, cov, getattr(self, cov) / scale ** 2)
             self._cov_nev_true_to_grid()
         else:
             if self.cov_nev is not None and self.cov_hla is None:
-- 
2.43.0


From 3a3522d67023bd08d2c5373ebbd4d1b718193a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 057/121] fix: a survey accepts the deprecated alias of an
 error model

---
 welleng/survey.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index aaea4ce..47762eb 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -35,7 +35,9 @@ from .utils import (
     radius_from_dls,
     get_arc
 )
-from .error import ErrorModel, ERROR_MODELS
+from .error import (
+    ErrorModel, ERROR_MODELS, _DEPRECATED_ERROR_MODEL_ALIASES
+)
 from .node import Node
 from .connector import Connector, interpolate_well
 from .visual import figure
@@ -746,7 +748,7 @@ class Survey:
 
         # initialize errors
         # TODO: read this from a yaml file in errors
-        error_models = ERROR_MODELS
+        error_models = [*ERROR_MODELS, *_DEPRECATED_ERROR_MODEL_ALIASES]
         if error_model is not None:
             assert error_model in error_models, "Unrecognized error model"
         self.error_model = error_model
@@ -931,7 +933,8 @@ class Survey:
         AssertionError
             If ``error_model`` is not a recognized model name.
         """
-        assert error_model in ERROR_MODELS, "Undefined error model"
+        error_models = [*ERROR_MODELS, *_DEPRECATED_ERROR_MODEL_ALIASES]
+        assert error_model in error_models, "Undefined error model"
 
         self.error_model = error_model
         self._get_errors()
-- 
2.43.0


From d0a60ccfc01e9f3bc8e1327881195f07dfe096ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 058/121] fix: ABIZ divides its azimuth weight by gravity

---
 welleng/errors/tool_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 5044291..7cde5c8 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -515,7 +515,7 @@ def DST(
 def ABIZ(
     code, error, mag=0.0040, propagation='systematic', NEV=True, **kwargs
 ):
-    denom = _funky_denominator(error) / error.survey.header.G
+    denom = _funky_denominator(error) * error.survey.header.G
     denom = np.where(denom > ACCURACY, denom, ACCURACY)
 
     dpde = np.zeros((len(error.survey_rad), 3))
-- 
2.43.0


From f2b3d311fd48a6efbdf8a49dd4c55c2731b7d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 059/121] fix: diagnostic data of the zero error model

---
 welleng/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/error.py b/welleng/error.py
index 77faad2..22d88d9 100644
--- a/welleng/error.py
+++ b/welleng/error.py
@@ -576,5 +576,5 @@ def make_diagnostic_data(survey):
             total.extend(diagnostic[d][k])
         diagnostic[d]['TOTAL'] = np.sum((np.array(
             total
-        ).reshape(-1, len(diagnostic[d][k]))), axis=0)
+        ).reshape(-1, 6)), axis=0)
     return diagnostic
-- 
2.43.0


From f141cb73f24309d50abad2139f89bf46da756493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 060/121] fix: restore the line endings of utils and connector

---
 welleng/connector.py | 5596 +++++++++++++++++++++---------------------
 welleng/utils.py     | 2056 ++++++++--------
 2 files changed, 3826 insertions(+), 3826 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 8c55a4b..89e77c8 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -1,2798 +1,2798 @@
-"""Wellbore trajectory connector for computing minimum-MD CLC paths."""
-
-from copy import copy, deepcopy
-
-import numpy as np
-from scipy.optimize import minimize
-from scipy.spatial import distance
-
-from .node import Node, get_node_params
-from .utils import (
-    NEV_to_HLA, dls_from_radius, get_angles,
-    get_dogleg, get_nev, get_rf, get_unit_vec, get_vec, get_xyz,
-    radius_from_dls, get_arc
-)
-
-
-class Connector:
-    """Solves minimum-MD wellbore trajectories between two survey stations.
-
-    Automatically selects the appropriate geometric method (hold, curve-hold,
-    min-curve, or curve-hold-curve) based on the provided start/end constraints
-    and computes control points for the connecting path segment. The solver
-    honours a maximum dog-leg severity (DLS) constraint where geometrically
-    feasible.
-
-    Attributes
-    ----------
-    method : str
-        The geometric method used ('hold', 'min_curve',
-        'curve_hold_curve', 'min_dist_to_target', or
-        'min_curve_to_target').
-    node_start : Node
-        Start survey station as a Node.
-    node_end : Node
-        End survey station as a Node.
-    pos1 : ndarray of shape (3,)
-        Start position in NEV coordinates.
-    vec1 : ndarray of shape (3,)
-        Unit direction vector at the start position.
-    inc1 : float
-        Inclination at the start position (radians).
-    azi1 : float
-        Azimuth at the start position (radians).
-    md1 : float
-        Measured depth at the start position.
-    pos2 : ndarray of shape (3,) or None
-        Position at the end of the first arc section in NEV
-        coordinates. Equal to vec2 direction at this point.
-    vec2 : ndarray of shape (3,) or None
-        Unit direction vector at the end of the first arc.
-        Equals vec3 for curve-hold-curve solutions.
-    inc2 : float or None
-        Inclination at the end of the first arc (radians).
-    azi2 : float or None
-        Azimuth at the end of the first arc (radians).
-    md2 : float or None
-        Measured depth at the end of the first arc.
-    pos3 : ndarray of shape (3,) or None
-        Position at the start of the second arc (end of the
-        hold section) in NEV coordinates. Only set for
-        curve-hold-curve solutions.
-    vec3 : ndarray of shape (3,) or None
-        Unit direction vector at the start of the second arc.
-        Only set for curve-hold-curve solutions.
-    inc3 : float or None
-        Inclination at the start of the second arc (radians).
-    azi3 : float or None
-        Azimuth at the start of the second arc (radians).
-    md3 : float or None
-        Measured depth at the start of the second arc.
-    md_target : float
-        Measured depth at the target position.
-    pos_target : ndarray of shape (3,)
-        Target position in NEV coordinates.
-    vec_target : ndarray of shape (3,)
-        Target unit direction vector in NEV coordinates.
-    inc_target : float
-        Target inclination (radians).
-    azi_target : float
-        Target azimuth (radians).
-    dogleg : float
-        Dogleg angle of the first arc (radians).
-    dogleg2 : float or None
-        Dogleg angle of the second arc (radians). Only set for
-        curve-hold-curve solutions.
-    dist_curve : float
-        Arc length of the first curve section.
-    dist_curve2 : float
-        Arc length of the second curve section.
-    tangent_length : float or None
-        Length of the hold (tangent) section between the two
-        arcs.
-    dls : float
-        Dogleg severity of the first arc (radians per unit
-        length).
-    dls2 : float
-        Dogleg severity of the second arc (radians per unit
-        length).
-    dls_design : float
-        Design DLS constraint for the first arc (radians per
-        unit length).
-    dls_design2 : float
-        Design DLS constraint for the second arc (radians per
-        unit length).
-    radius_design : float
-        Design turn radius derived from dls_design.
-    radius_design2 : float
-        Design turn radius derived from dls_design2.
-    radius_critical : float
-        Critical (minimum geometric) radius for the first arc.
-    radius_critical2 : float
-        Critical radius for the second arc.
-
-    Methods
-    -------
-    interpolate(step=30)
-        Interpolate the solved trajectory at regular MD intervals.
-    """
-
-    def __init__(
-        self,
-        node1=None,
-        node2=None,
-        pos1=[0., 0., 0.],
-        vec1=None,
-        inc1=None,
-        azi1=None,
-        md1=0,
-        dls_design=3.0,
-        dls_design2=None,
-        md2=None,
-        pos2=None,
-        vec2=None,
-        inc2=None,
-        azi2=None,
-        degrees=True,
-        unit='meters',
-        min_error=1e-5,
-        delta_dls=0.1,
-        min_tangent=0.,
-        max_iterations=1_000,
-        force_min_curve=False,
-        closest_approach=False
-    ):
-        """Initializes the Connector and solves the trajectory.
-
-        Only specific combinations of input data are permitted. For example,
-        providing both a start vector and start inc/azi raises an error.
-        The solver determines the appropriate method from the provided
-        parameters and computes the connecting path immediately.
-
-        Parameters
-        ----------
-        node1 : Node or None
-            Start Node. Overrides pos1, vec1, md1 if provided.
-        node2 : Node or None
-            End Node. Overrides pos2, vec2, md2 if provided.
-        pos1 : list or ndarray
-            Start position as [n, e, v] in NEV coordinates.
-        vec1 : list or ndarray or None
-            Start unit direction vector in NEV coordinates.
-        inc1 : float or None
-            Start inclination angle.
-        azi1 : float or None
-            Start azimuth angle.
-        md1 : float
-            Start measured depth.
-        dls_design : float
-            Design DLS for the first curve section in
-            deg/30m (meters) or deg/100ft (feet).
-        dls_design2 : float or None
-            Design DLS for the second curve section. Defaults
-            to dls_design if None.
-        md2 : float or None
-            Target measured depth. Mutually exclusive with pos2.
-        pos2 : list or ndarray or None
-            Target position in NEV coordinates.
-        vec2 : list or ndarray or None
-            Target unit direction vector in NEV coordinates.
-            Mutually exclusive with inc2/azi2.
-        inc2 : float or None
-            Target inclination angle.
-        azi2 : float or None
-            Target azimuth angle.
-        degrees : bool
-            If True, angles are in degrees; if False, radians.
-        unit : str
-            Distance unit, either 'meters' or 'feet'.
-        min_error : float
-            Error tolerance for iterative convergence. Must be
-            less than 1.
-        delta_dls : float
-            DLS tolerance (deg/30m) for balancing curve sections
-            in curve-hold-curve solutions.
-        min_tangent : float
-            Minimum tangent length to stabilize
-            curve-hold-curve iteration.
-        max_iterations : int
-            Maximum iteration count for curve-hold-curve fitting.
-        force_min_curve : bool
-            If True, forces minimum-curvature method.
-        closest_approach : bool
-            If True, finds the closest-approach trajectory
-            when the target is inside the critical radius.
-
-        Raises
-        ------
-        AssertionError
-            If input parameter combinations are invalid.
-        """
-        if node1 is not None:
-            pos1, vec1, md1 = get_node_params(
-                node1
-            )
-        if node2 is not None:
-            pos2, vec2, md2 = get_node_params(
-                node2
-            )
-
-        # Set up a lookup dictionary to use with the logic to determine
-        # what connector method to deploy. Use a binary string to
-        # represent the inputs in the order:
-        # (md2, inc2, azi2, pos2, vec2)
-        # Initially I used boolean logic, but it quickly became non-
-        # transparent and difficult to debug.
-        self._get_initial_methods()
-
-        # METHODS = [
-        #     'hold',
-        #     'curve_hold',
-        #     'min_dist_to_target',
-        #     'min_curve_to_target',
-        #     'curve_hold_curve',
-        #     'min_curve'
-        # ]
-
-        # quick check that inputs are workable and if not some steer to
-        # the user.
-        assert vec1 is not None or (inc1 is not None and azi1 is not None), (
-            "Require either vec1 or (inc1 and azi1)"
-        )
-        if vec1 is not None:
-            assert inc1 is None and azi1 is None, (
-                "Either vec1 or (inc1 and azi1)"
-            )
-        if (inc1 is not None or azi1 is not None):
-            assert vec1 is None, "Either vec1 or (inc1 and azi1)"
-
-        assert (
-            md2 is not None
-            or pos2 is not None
-            or vec2 is not None
-            or inc2 is not None
-            or azi2 is not None
-        ), "Missing target parameters"
-
-        if vec2 is not None:
-            assert not (inc2 or azi2), "Either vec2 or (inc2 and azi2)"
-        if (inc2 is not None or azi2 is not None):
-            assert vec2 is None, "Either vec2 or (inc2 and azi2)"
-        if md2 is not None:
-            assert pos2 is None, "Either md2 or pos2"
-            assert md2 >= md1, "md2 must be larger than md1"
-
-        if dls_design is not None:
-            assert dls_design > 0, "dls_design must be greater than zero"
-        assert min_error < 1, "min_error must be less than 1.0"
-
-        # figure out what method is required to connect the points
-        target_input = convert_target_input_to_booleans(
-            md2, inc2, azi2, pos2, vec2
-        )
-
-        self.force_min_curve = force_min_curve
-        if self.force_min_curve:
-            self.initial_method = 'min_curve_or_hold'
-        else:
-            self.initial_method = self.initial_methods[target_input]
-
-        # do some more initialization stuff
-        self.min_error = min_error
-        self.min_tangent = min_tangent
-        self.iterations = 0
-        self.max_iterations = max_iterations
-        self.errors = []
-        self.radii = []
-        self.dogleg_old, self.dogleg2_old = 0, 0
-        self.dist_curve2 = 0
-        self.pos1 = np.array(pos1)
-
-        self.pos2, self.vec2, self.inc2, self.azi2, self.md2 = (
-            None, None, None, None, None
-        )
-
-        # fill in the input data gaps
-        if (inc1 is not None and azi1 is not None):
-            if degrees:
-                self.inc1 = np.radians(inc1)
-                self.azi1 = np.radians(azi1)
-            else:
-                self.inc1 = inc1
-                self.azi1 = azi1
-            self.vec1 = np.array(get_vec(
-                self.inc1, self.azi1, nev=True, deg=False
-            )).reshape(3)
-        else:
-            self.vec1 = np.array(vec1).reshape(3)
-            self.inc1, self.azi1 = get_angles(self.vec1, nev=True).reshape(2)
-
-        self.md1 = md1
-        self.pos_target = None if pos2 is None else np.array(pos2).reshape(3)
-        self.md_target = md2
-
-        if vec2 is not None:
-            self.vec_target = np.array(vec2).reshape(3)
-            self.inc_target, self.azi_target = get_angles(
-                self.vec_target,
-                nev=True
-            ).reshape(2)
-        elif (inc2 is not None and azi2 is not None):
-            if degrees:
-                self.inc_target = np.radians(inc2)
-                self.azi_target = np.radians(azi2)
-            else:
-                self.inc_target = inc2
-                self.azi_target = azi2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        elif inc2 is None and azi2 is None:
-            self.inc_target, self.azi_target, self.vec_target = (
-                self.inc1, self.azi1, self.vec1
-            )
-        elif inc2 is None:
-            self.inc_target = self.inc1
-            if degrees:
-                self.azi_target = np.radians(azi2)
-            else:
-                self.azi_target = azi2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        elif azi2 is None:
-            self.azi_target = self.azi1
-            if degrees:
-                self.inc_target = np.radians(inc2)
-            else:
-                self.inc_target = inc2
-            self.vec_target = get_vec(
-                self.inc_target, self.azi_target, nev=True, deg=False
-            ).reshape(3)
-        else:
-            self.vec_target = vec2
-            self.inc_target = inc2
-            self.azi_target = azi2
-
-        self.unit = unit
-        if self.unit == 'meters':
-            self.denom = 30
-        else:
-            self.denom = 100
-
-        # Primary DLS / radius.  dls_design=None means "use minimum curvature
-        # required by geometry" — radius_design is set to inf so that
-        # min(radius_design, radius_critical) always resolves to radius_critical.
-        if dls_design is None:
-            self.dls_design = 0.0
-            self.radius_design = np.inf
-        else:
-            self.dls_design = np.radians(dls_design) if degrees else dls_design
-            self.radius_design = self.denom / self.dls_design
-
-        # Secondary DLS (second arc of curve_hold_curve)
-        if dls_design2:
-            self.dls_design2 = np.radians(dls_design2) if degrees else dls_design2
-            self.radius_design2 = self.denom / self.dls_design2
-        else:
-            self.dls_design2 = self.dls_design
-            self.radius_design2 = self.radius_design
-
-        self.delta_dls = delta_dls
-
-        # some more initialization stuff
-        self.tangent_length = None
-        self.dogleg2 = None
-
-        self.pos3, self.vec3, self.inc3, self.azi3, self.md3 = (
-            None, None, None, None, None
-        )
-        self.radius_critical, self.radius_critical2 = np.inf, np.inf
-        self.closest_approach = closest_approach
-
-        # Things fall apart if the start and end vectors exactly equal
-        # one another, so need to check for this and if this is the
-        # case, modify the end vector slightly. This is a lazy way of
-        # doing this, but it's fast. Probably a more precise way would
-        # be to split the dogleg in two, but that's more hassle than
-        # it's worth.
-        if (
-            self.vec_target is not None
-            and np.array_equal(self.vec_target, self.vec1 * -1)
-        ):
-            (
-                self.vec_target,
-                self.inc_target,
-                self.azi_target
-            ) = mod_vec(self.vec_target, self.min_error)
-
-        # properly figure out the method
-        self._get_method()
-
-        # and finally, actually do something...
-        self._use_method()
-
-        self._get_nodes()
-
-    def _get_nodes(self):
-        self.node_start = Node(
-            pos=self.pos1.reshape(3),
-            vec=self.vec1.reshape(3),
-            md=self.md1
-        )
-        self.node_end = Node(
-            pos=self.pos_target.reshape(3),
-            vec=self.vec_target.reshape(3),
-            md=self.md_target
-        )
-
-    def _min_dist_to_target(self):
-        (
-            self.tangent_length,
-            self.dogleg
-        ) = min_dist_to_target(self.radius_design, self.distances)
-        self.dogleg = get_dogleg_to_target(
-            self.tangent_length, self.dogleg, self.distances
-        )
-        self.dogleg = check_dogleg(self.dogleg)
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            self.radius_design, self.dogleg
-        )
-        self.vec_target = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos_target,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-        self._get_angles_target()
-        self._get_md_target()
-        self.pos2 = (
-            self.pos_target - (
-                self.tangent_length * self.vec_target
-            )
-        )
-        self.md2 = self.md1 + abs(self.dist_curve)
-        self.md_target = self.md2 + self.tangent_length
-        self.vec2 = self.vec_target
-        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
-
-    def _min_curve_to_target(self):
-        (
-            self.tangent_length,
-            self.radius_critical,
-            self.dogleg
-        ) = min_curve_to_target(self.distances)
-        self.dogleg = check_dogleg(self.dogleg)
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            min(self.radius_design, self.radius_critical), self.dogleg
-        )
-        self.vec_target = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos_target,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-        self._get_angles_target()
-        self._get_md_target()
-        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
-
-    def _use_method(self):
-        if self.method == 'hold':
-            self._hold()
-        elif self.method == 'min_curve':
-            self._min_curve()
-        elif self.method == 'curve_hold_curve':
-            self.pos2_list, self.pos3_list = [], [deepcopy(self.pos_target)]
-            self.vec23 = [np.array([0., 0., 0.])]
-            self.delta_radius_list = []
-            # self._target_pos_and_vec_defined(deepcopy(self.pos_target))
-            self._target_pos_and_vec_defined(
-                self.pos1 + (self.pos_target - self.pos1) / 2
-            )
-        else:
-            self.distances = self._get_distances(
-                self.pos1, self.vec1, self.pos_target
-            )
-            if self.radius_design <= get_radius_critical(
-                self.radius_design, self.distances, self.min_error
-            ):
-                self.method = 'min_dist_to_target'
-                self._min_dist_to_target()
-            else:
-                if self.closest_approach:
-                    self.method = 'min_curve_to_target'
-                    self._closest_approach()
-                else:
-                    self.method = 'min_curve_to_target'
-                    self._min_curve_to_target()
-
-    def _get_method(self):
-        assert self.initial_method not in [
-            'no_input',
-            'vec_and_inc_azi',
-            'md_and_pos'
-        ], f"{self.initial_method}"
-        if self.initial_method == 'hold':
-            self.method = 'hold'
-        elif self.initial_method[-8:] == '_or_hold':
-            if np.array_equal(self.vec_target, self.vec1):
-                if self.pos_target is None:
-                    self.method = 'hold'
-                elif np.allclose(
-                        self.vec_target,
-                        (self.pos_target - self.pos1)
-                        / np.linalg.norm(self.pos_target - self.pos1)
-                ):
-                    self.method = 'hold'
-                else:
-                    self.method = self.initial_method[:-8]
-            else:
-                self.method = self.initial_method[:-8]
-        else:
-            self.method = self.initial_method
-
-    def _get_initial_methods(self):
-        # TODO: probably better to load this in from a yaml file
-        # [md2, inc2, azi2, pos2, vec2] forms the booleans
-        self.initial_methods = {
-            '00000': 'no_input',
-            '00001': 'min_curve_or_hold',
-            '00010': 'curve_hold_or_hold',
-            '00011': 'curve_hold_curve_or_hold',
-            '00100': 'min_curve_or_hold',
-            '00101': 'vec_and_inc_azi',
-            '00110': 'curve_hold',
-            '00111': 'vec_and_inc_azi',
-            '01000': 'min_curve_or_hold',
-            '01001': 'vec_and_inc_azi',
-            '01010': 'curve_hold_or_hold',
-            '01011': 'vec_and_inc_azi',
-            '01100': 'min_curve_or_hold',
-            '01101': 'vec_and_inc_azi',
-            '01110': 'curve_hold_curve_or_hold',
-            '01111': 'vec_and_inc_azi',
-            '10000': 'hold',
-            '10001': 'min_curve_or_hold',
-            '10010': 'md_and_pos',
-            '10011': 'md_and_pos',
-            '10100': 'min_curve_or_hold',
-            '10101': 'vec_and_inc_azi',
-            '10110': 'md_and_pos',
-            '10111': 'md_and_pos',
-            '11000': 'min_curve_or_hold',
-            '11001': 'vec_and_inc_azi',
-            '11010': 'md_and_pos',
-            '11011': 'md_and_pos',
-            '11100': 'min_curve_or_hold',
-            '11101': 'vec_and_inc_azi',
-            '11110': 'md_and_pos',
-            '11111': 'md_and_pos'
-        }
-
-    def _closest_approach(self):
-        vec_pos1_pos_target = self.pos_target - self.pos1
-        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
-
-        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
-        cross_product /= np.linalg.norm(cross_product)
-
-        factor = cross_product / vec_pos1_pos_target
-        factor /= abs(factor)
-
-        cc = (
-            self.pos1 + cross_product * factor * self.radius_design
-        )
-
-        cc_pos_target = self.pos_target - cc
-        cc_pos_target /= np.linalg.norm(cc_pos_target)
-
-        self.pos_target_original = copy(self.pos_target)
-
-        self.pos_target = cc + cc_pos_target * self.radius_design
-
-        # recalculate self.distances with new self.pos_target
-        self.distances = self._get_distances(
-                self.pos1, self.vec1, self.pos_target
-            )
-
-        self._min_curve_to_target()
-
-    def _min_curve(self):
-        self.dogleg = get_dogleg(
-            self.inc1, self.azi1, self.inc_target, self.azi_target
-        )
-
-        self.dogleg = check_dogleg(self.dogleg)
-        if self.md_target is None:
-            if not np.isfinite(self.radius_design):
-                raise ValueError(
-                    "dls_design must be specified (not None) when only a "
-                    "target direction is given without a target position or "
-                    "measured depth."
-                )
-            self.md2 = None
-            self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        self.radius_design, self.dogleg
-                    )
-            self.md_target = self.md1 + abs(self.dist_curve)
-            self.pos_target = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec_target,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-        else:
-            with np.errstate(divide='ignore'):
-                self.radius_critical = np.nan_to_num(abs(
-                    (self.md_target - self.md1) / self.dogleg
-                ), nan=np.inf)
-            if (
-                self.radius_critical > self.radius_design
-                or (
-                    np.around(self.dogleg, decimals=5)
-                    == np.around(np.pi, decimals=5)
-                )
-            ):
-                self.md2 = (
-                    self.md1
-                    + min(self.radius_design, self.radius_critical)
-                    * self.dogleg
-                )
-                (
-                    self.inc2, self.azi2, self.vec2
-                ) = self.inc_target, self.azi_target, self.vec_target
-                self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        min(self.radius_design, self.radius_critical),
-                        self.dogleg
-                )
-                self.pos2 = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec2,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-                self.pos_target = self.pos2 + (
-                    self.vec2 * (self.md_target - self.md2)
-                )
-            else:
-                self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                        self.radius_critical, self.dogleg
-                    )
-                self.md2 = None
-                self.pos_target = get_pos(
-                    self.pos1,
-                    self.vec1,
-                    self.vec_target,
-                    self.dist_curve,
-                    self.func_dogleg
-                ).reshape(3)
-
-    def _hold(self):
-        if self.pos_target is None:
-            self.pos_target = (
-                self.pos1 + self.vec1 * (self.md_target - self.md1)
-            )
-        if self.md_target is None:
-            self.md_target = (
-                np.linalg.norm(self.pos_target - self.pos1)
-                + self.md1
-            )
-        self.dls, self.dls2 = 0.0, 0.0
-
-    def _get_angles_target(self):
-        self.inc_target, self.azi_target = get_angles(
-            self.vec_target, nev=True
-        ).reshape(2)
-
-    def _get_md_target(self):
-        self.md_target = (
-            self.dist_curve
-            + self.tangent_length
-            + self.dist_curve2
-            + self.md1
-        )
-
-    def _get_pos2(self, pos1, vec1, pos_target, radius):
-        # _get_distances might move pos_target in place, which may never be
-        # the start or the end position of the connector itself.
-        pos_target = np.array(pos_target, dtype=float)
-        distances = self._get_distances(pos1, vec1, pos_target)
-
-        radius_temp = get_radius_critical(
-            self.radius_design,
-            distances,
-            self.min_error
-        )
-        if radius_temp > radius:
-            radius_temp = radius
-            assert self.radius_critical > 0
-
-        (
-            tangent_length,
-            dogleg
-        ) = min_dist_to_target(
-            radius_temp,
-            distances
-        )
-
-        dogleg = check_dogleg(dogleg)
-
-        dist_curve, func_dogleg = get_curve_hold_data(
-                    radius_temp,
-                    dogleg
-                )
-        vec3 = get_vec_target(
-            pos1,
-            vec1,
-            pos_target,
-            tangent_length,
-            dist_curve,
-            func_dogleg
-        )
-
-        tangent_temp = self._get_tangent_temp(tangent_length)
-
-        pos2 = (
-            pos_target - (
-                tangent_temp * vec3
-            )
-        )
-        return pos2
-
-    def _target_pos_and_vec_defined(self, pos3, vec_old=[0., 0., 0.]):
-        """
-        Function for fitting a curve, hold, curve path between a pair of
-        points with vectors.
-
-        It's written in this odd way to allow a solver function like scipy's
-        optimize to solve it, but so far I've not had much success using
-        these.
-
-        If the curve sections can't be achieved with the design DLS values,
-        this function will iterate until the two curve section DLSs are
-        approximately balances (in DLS terms) within the prescribed delta_dls
-        parameter.
-        """
-        minimize_target_pos_and_vec_defined(
-            [self.radius_design, self.radius_design2],
-            self, None, None, True
-        )
-        # Re-evaluate whether the outer loop is needed using the FINAL
-        # converged geometry (not the running minimum radius_critical, which
-        # may have been locked too low by transient tight iteration states).
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            _rc1 = get_radius_critical(
-                self.radius_design, self.distances1, self.min_error
-            )
-            _rc2 = get_radius_critical(
-                self.radius_design2, self.distances2, self.min_error
-            )
-            _outer_needed = not all((_rc1 >= self.radius_design, _rc2 >= self.radius_design2))
-        else:
-            _outer_needed = not all((
-                self.radius_critical > self.radius_design,
-                self.radius_critical2 > self.radius_design2
-            ))
-        if _outer_needed:
-            # Try the r_safe seeding approach first: solve at r_safe=dist/4
-            # (guaranteed to converge for any geometry), then use the result
-            # as seed for a design-radius re-solve.  This can escape the tight
-            # fixed point that the initial call converged to.
-            dist_to_target = np.linalg.norm(self.pos_target - self.pos1)
-            r_safe = dist_to_target / 4.0
-            if 0 < r_safe < min(self.radius_design, self.radius_design2):
-                minimize_target_pos_and_vec_defined(
-                    [r_safe, r_safe], self, None, None, True
-                )
-                pos3_seed = deepcopy(self.pos3)
-                vec_seed = (
-                    deepcopy(self.vec23[-1]) if len(self.vec23) > 0 else None
-                )
-                # Reset running minima (r_safe call left them at small value).
-                self.radius_critical = np.inf
-                self.radius_critical2 = np.inf
-                minimize_target_pos_and_vec_defined(
-                    [self.radius_design, self.radius_design2],
-                    self, pos3_seed, vec_seed, True
-                )
-                # Re-check with final geometry
-                if hasattr(self, 'distances1') and self.distances1 is not None:
-                    _rc1 = get_radius_critical(
-                        self.radius_design, self.distances1, self.min_error
-                    )
-                    _rc2 = get_radius_critical(
-                        self.radius_design2, self.distances2, self.min_error
-                    )
-                    _outer_needed = not all(
-                        (_rc1 >= self.radius_design, _rc2 >= self.radius_design2)
-                    )
-                else:
-                    _outer_needed = not all((
-                        self.radius_critical > self.radius_design,
-                        self.radius_critical2 > self.radius_design2
-                    ))
-
-        if _outer_needed:
-            # Design DLS still cannot be achieved; iterate to balance curvature
-            # across both arcs.  Use a *separate* counter so that the inner
-            # convergence iterations (tracked via self.iterations) do not
-            # prematurely exhaust the outer balancing budget.
-            for _outer in range(self.max_iterations):
-                self.radius_critical = (
-                    (self.md_target - self.md1)
-                    / (abs(self.dogleg) + abs(self.dogleg2))
-                )
-                if not (self.radius_critical >= 0):
-                    break
-                self.radius_critical2 = self.radius_critical
-                minimize_target_pos_and_vec_defined(
-                    [self.radius_design, self.radius_design2],
-                    self, deepcopy(self.pos3), deepcopy(self.vec23[-1]), True
-                )
-
-                # Position-stability check: compare against last 5 positions
-                # explicitly (avoids ambiguous np.allclose broadcasting with
-                # a list of arrays).
-                n_hist = min(5, len(self.pos3_list))
-                pos3_stable = n_hist >= 5 and all(
-                    np.allclose(self.pos3, p) for p in self.pos3_list[-5:]
-                )
-                pos2_stable = n_hist >= 5 and all(
-                    np.allclose(self.pos2, p) for p in self.pos2_list[-5:]
-                )
-
-                if any((
-                    abs(self.dls - self.dls2) < self.delta_dls,
-                    np.allclose(self.pos1, self.pos2),
-                    np.allclose(self.pos3, self.pos_target),
-                    pos3_stable and pos2_stable,
-                    all((
-                        self.dls == self.dls_design,
-                        self.dls2 == self.dls_design2
-                    ))
-                )):
-                    break
-            self._happy_finish()
-            self._delta_pos3_rescue()
-            self._project_tangent()
-            self._endpoint_rescue()
-            self._enforce_planarity()
-            return
-
-        self._happy_finish()
-        self._delta_pos3_rescue()
-        self._project_tangent()
-        self._endpoint_rescue()
-        self._enforce_planarity()
-
-    def _happy_finish(self):
-        # Use the critical radius at the FINAL converged geometry rather than the
-        # running-minimum radius_critical, which may have been locked too low by
-        # transient tight iteration states.  This ensures dist_curve is computed
-        # with the same effective radius that was used to derive self.dogleg in
-        # the last iteration step, keeping the arc geometry self-consistent.
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            rc1_final = get_radius_critical(
-                self.radius_design, self.distances1, self.min_error
-            )
-            r1 = min(rc1_final, self.radius_design)
-        else:
-            r1 = min(self.radius_critical, self.radius_design)
-        # get pos1 to pos2 curve data
-        self.dist_curve, self.func_dogleg = get_curve_hold_data(
-            r1,
-            self.dogleg
-        )
-
-        self.vec3 = get_vec_target(
-            self.pos1,
-            self.vec1,
-            self.pos3,
-            self.tangent_length,
-            self.dist_curve,
-            self.func_dogleg
-        )
-
-        # Resync dogleg and arc-1 length from the just-computed vec3.
-        # _happy_finish may be called after _enforce_planarity changes vec3 or
-        # after any iteration that updates pos3.  The stored self.dogleg may
-        # therefore differ from the actual angle between vec1 and vec3, making
-        # dist_curve (= r1 * old_dogleg) inconsistent with the SLERP geometry.
-        # from_connections reconstructs pos2 via minimum-curvature using the
-        # actual inc/azi of vec3, so it needs dist_curve to match the true arc
-        # length for vec1→vec3 at radius r1.
-        actual_dogleg = float(np.arccos(
-            np.clip(np.dot(self.vec1, self.vec3), -1.0, 1.0)
-        ))
-        if abs(actual_dogleg - self.dogleg) > 1e-9:
-            self.dogleg = actual_dogleg
-            self.dist_curve, self.func_dogleg = get_curve_hold_data(
-                r1, self.dogleg
-            )
-
-        self.vec2 = self.vec3
-
-        self.pos2 = get_pos(
-            self.pos1,
-            self.vec1,
-            self.vec3,
-            self.dist_curve,
-            self.func_dogleg
-        ).reshape(3)
-
-        self.md2 = self.md1 + abs(self.dist_curve)
-
-        if hasattr(self, 'distances2') and self.distances2 is not None:
-            rc2_final = get_radius_critical(
-                self.radius_design2, self.distances2, self.min_error
-            )
-            r2 = min(rc2_final, self.radius_design2)
-        else:
-            r2 = min(self.radius_critical2, self.radius_design2)
-
-        # Recompute dogleg2 from the actual directional change between vec3 and
-        # vec_target.  The iteration stores dogleg2 = min_dist_to_target result
-        # (a geometric parameter), which can differ from arccos(dot(vec3,
-        # vec_target)) after _happy_finish re-derives vec3 from arc1.  Using the
-        # wrong angle in the SLERP formula inside interpolate_curve produces
-        # incorrect (spiralling) visualisation paths.
-        self.dogleg2 = float(np.arccos(
-            np.clip(np.dot(self.vec3, self.vec_target), -1.0, 1.0)
-        ))
-        self.dist_curve2, self.func_dogleg2 = get_curve_hold_data(
-            r2,
-            self.dogleg2
-        )
-
-        # ── Endpoint-consistency fix ──────────────────────────────────────────
-        # The rendered path (from_connections / minimum-curvature integration)
-        # starts arc2 from hold_end = pos2 + T·vec3, NOT from the backward-
-        # traced pos3.  If pos3 is off the tangent ray the rendered endpoint
-        # misses pos_target by exactly the perpendicular component of
-        # (pos3_backward − pos2) w.r.t. vec3.
-        #
-        # For well-converged cases (perp < 1 mm) this is negligible and we
-        # preserve the backward-trace geometry to avoid touching dist_curve2.
-        #
-        # For DLS-violation cases the iteration may leave a large perpendicular
-        # residual.  The 2×2 projection finds T and dist_curve2 that solve:
-        #   pos2 + T·vec3 + (dist_curve2·RF/2)·(vec3+vec_target) = pos_target
-        # in the plane of {vec3, vec_target}, eliminating the in-plane part
-        # of the endpoint error.  The remaining (out-of-plane) residual can
-        # only be removed by finding a better vec3 via a tighter-radius retry.
-
-        # Step 1: backward trace to locate pos3 (guarantees arc2 → pos_target)
-        pos3_bt   = get_pos(
-            self.pos_target,
-            self.vec_target * -1,
-            self.vec3 * -1,
-            self.dist_curve2,
-            self.func_dogleg2
-        ).reshape(3)
-        t_along   = float(np.dot(pos3_bt - self.pos2, self.vec3))
-        perp_vec  = pos3_bt - self.pos2 - t_along * self.vec3
-        perp_norm = float(np.linalg.norm(perp_vec))
-
-        # Step 2: 2×2 projection only when perpendicular drift is significant
-        _PERP_THRESHOLD = 1e-3   # 1 mm — noise floor for well-converged cases
-        _applied_2x2 = False
-        if perp_norm > _PERP_THRESHOLD:
-            delta  = self.pos_target - self.pos2
-            p_comp = float(np.dot(delta, self.vec3))
-            q_comp = float(np.dot(delta, self.vec_target))
-            c_dot  = float(np.dot(self.vec3, self.vec_target))
-            sin2   = 1.0 - c_dot * c_dot
-            if sin2 > 1e-6 and abs(self.func_dogleg2) > 1e-10:
-                a_coef = (p_comp - c_dot * q_comp) / sin2
-                b_coef = (q_comp - c_dot * p_comp) / sin2
-                if b_coef >= 0.0:
-                    tangent_length   = float(max(0.0, a_coef - b_coef))
-                    self.dist_curve2 = float(
-                        max(0.0, 2.0 * b_coef / self.func_dogleg2)
-                    )
-                    self.pos3        = self.pos2 + tangent_length * self.vec3
-                    _applied_2x2 = True
-
-        if not _applied_2x2:
-            # Well-converged (or 2×2 degenerate): tangent-project only
-            tangent_length = max(0.0, t_along)
-            self.pos3      = self.pos2 + tangent_length * self.vec3
-
-        self.md3       = self.md2 + tangent_length
-        self.md_target = self.md3 + abs(self.dist_curve2)
-
-        return self
-
-    def _delta_pos3_rescue(self):
-        """
-        Final geometric-consistency check after _happy_finish.
-
-        If the tangent section is backward (dot(pos3-pos2, vec3) < 0) the
-        path doubles back on itself.  Re-seed with pos3 = pos2 (zero tangent)
-        to force the iteration to find a forward path, then only keep the
-        rescue result if it has a strictly better (higher) minimum arc radius.
-        """
-        _tangent_proj = float(np.dot(self.pos3 - self.pos2, self.vec3))
-        if _tangent_proj >= -self.min_error:
-            return  # tangent is already forward — nothing to fix
-
-        # Snapshot the current _happy_finish outputs before attempting rescue
-        _state_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-        )
-        _saved = {k: deepcopy(getattr(self, k)) for k in _state_keys}
-
-        _r_before = min(
-            self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
-            self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
-        )
-
-        for _seed in (
-            deepcopy(self.pos2),                  # zero-tangent seed
-            0.5 * (self.pos2 + self.pos_target),  # midpoint fallback
-        ):
-            self.radius_critical = np.inf
-            self.radius_critical2 = np.inf
-            minimize_target_pos_and_vec_defined(
-                [self.radius_design, self.radius_design2],
-                self, _seed, None, True
-            )
-            self._happy_finish()
-            _tp = float(np.dot(self.pos3 - self.pos2, self.vec3))
-            _r_after = min(
-                self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
-                self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
-            )
-            if _tp >= -self.min_error and _r_after >= _r_before - self.min_error:
-                return  # rescue improved or matched — keep it
-
-        # Rescue did not improve things — restore the saved state
-        for k, v in _saved.items():
-            setattr(self, k, v)
-
-    def _project_tangent(self):
-        """Project pos3 onto the tangent ray from pos2 along vec3.
-
-        _happy_finish computes pos2 (arc1 end) and pos3 (arc2 start) via
-        independent minimum-curvature traces.  When the iteration has not
-        fully converged — or when dogleg2 is near π so the minimum-curvature
-        ratio-factor blows up — pos3 may lie far off the tangent ray
-        pos2 + t*vec3.  The survey reconstruction (interpolate_hold) advances
-        strictly along vec3, so the hold section ends at pos2 + t*vec3 while
-        arc2 still starts at the raw pos3.  That geometric gap produces the
-        visually anomalous ~90° phase difference seen in the edge-case viewer.
-
-        Fix: replace pos3 with its projection onto the tangent ray.  The
-        projected tangent length is dot(pos3-pos2, vec3), clamped to ≥ 0.
-        This eliminates the hold→arc2 discontinuity.  Arc2 dogleg and arc
-        length are unchanged (they depend only on vec3, vec_target, and the
-        radius), so the path is geometrically self-consistent.
-
-        Called after _delta_pos3_rescue so that rescue still operates on the
-        un-projected geometry (its backward-tangent trigger requires the raw
-        dot-product, which is <= 0 before projection).
-        """
-        # _happy_finish now projects tangent_length inline and places pos3 via
-        # the backward arc2 trace (keeping arc2 geometrically consistent with
-        # pos_target).  This method is retained as a safety net to update MD
-        # whenever pos3 has been changed by _delta_pos3_rescue.
-        tangent_length = max(
-            0.0, float(np.dot(self.pos3 - self.pos2, self.vec3))
-        )
-        self.md3 = self.md2 + tangent_length
-        self.md_target = self.md3 + abs(self.dist_curve2)
-
-    def _rendered_endpoint_error(self):
-        """Return the distance from the rendered arc2 endpoint to pos_target.
-
-        The rendered path integrates continuously from pos1, so arc2 starts
-        from hold_end = pos2 + T·vec3 (not from pos3 directly).  Any gap
-        between hold_end and pos3 translates directly into an endpoint error.
-        """
-        t = max(0.0, float(np.dot(self.pos3 - self.pos2, self.vec3)))
-        hold_end = self.pos2 + t * self.vec3
-        rendered = (
-            hold_end
-            + (self.dist_curve2 * self.func_dogleg2 / 2)
-            * (self.vec3 + self.vec_target)
-        )
-        return float(np.linalg.norm(self.pos_target - rendered))
-
-    def _endpoint_rescue(self):
-        """Retry with progressively tighter radii when the rendered endpoint
-        still misses pos_target by more than 1 mm after _happy_finish.
-
-        The fixed-point iterator can converge to a spurious local minimum for
-        DLS-violation geometries, leaving a large out-of-plane residual that
-        the 2×2 in-plane projection cannot eliminate.  Using a tighter design
-        radius enlarges the set of reachable vec3 directions and typically
-        allows the iterator to escape the bad basin.
-
-        Each retry uses a fresh geometric seed (pos3=None) and keeps whichever
-        result achieves the smallest rendered endpoint error.
-        """
-        _THRESHOLD = 1e-3   # 1 mm
-        err0 = self._rendered_endpoint_error()
-        if err0 <= _THRESHOLD:
-            return
-
-        _save_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-        )
-        best_err   = err0
-        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-
-        r_base = min(self.radius_design, self.radius_design2)
-        for shrink in [0.5, 0.25, 0.125]:
-            r_try = r_base * shrink
-            self.radius_critical  = np.inf
-            self.radius_critical2 = np.inf
-            minimize_target_pos_and_vec_defined(
-                [r_try, r_try], self, None, None, True
-            )
-            self._happy_finish()
-            err_new = self._rendered_endpoint_error()
-            if err_new < best_err:
-                best_err   = err_new
-                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-            if best_err <= _THRESHOLD:
-                break
-
-        # Restore the geometry that achieved the smallest endpoint error
-        for k, v in best_state.items():
-            setattr(self, k, v)
-
-    def _enforce_planarity(self, max_iters=8, tol=1e-3):
-        """Adjust vec3 to lie in the {pos_target−pos2, vec_target} plane.
-
-        After _endpoint_rescue, an out-of-plane residual may remain because the
-        fixed-point iterator converged to a vec3 that is not coplanar with
-        (pos_target − pos2) and vec_target.  The 2×2 projection in _happy_finish
-        can only correct the in-plane part; the out-of-plane part can only be
-        removed by rotating vec3 itself.
-
-        Strategy: project the current vec3 onto span{delta, vec_target} (where
-        delta = pos_target − pos2) and re-seed _happy_finish so it recovers the
-        corrected direction.  Iterate until the rendered endpoint error drops
-        below tol (1 mm) or max_iters is exhausted.
-        """
-        if self._rendered_endpoint_error() <= tol:
-            return
-
-        # Determine the effective arc-1 radius from the post-rescue state.
-        if hasattr(self, 'distances1') and self.distances1 is not None:
-            r1 = min(
-                get_radius_critical(self.radius_design, self.distances1, self.min_error),
-                self.radius_design
-            )
-        elif np.isfinite(self.radius_critical) and self.radius_critical > 0:
-            r1 = min(self.radius_critical, self.radius_design)
-        else:
-            r1 = self.radius_design
-
-        _save_keys = (
-            'pos2', 'pos3', 'vec2', 'vec3',
-            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
-            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
-            'radius_critical', 'radius_critical2',
-        )
-        best_err = self._rendered_endpoint_error()
-        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-
-        for _ in range(max_iters):
-            # Compute arc-1 endpoint (pos2) from the current vec3 at r1
-            dc1, fd1 = get_curve_hold_data(r1, self.dogleg)
-            pos2 = get_pos(
-                self.pos1, self.vec1, self.vec3, dc1, fd1
-            ).reshape(3)
-            delta = self.pos_target - pos2
-
-            # Build an ONB for span{delta, vec_target}
-            d_norm = float(np.linalg.norm(delta))
-            if d_norm < 1e-10:
-                break  # pos_target ≈ pos2 — degenerate
-            d_hat = delta / d_norm
-
-            vt_comp = float(np.dot(self.vec_target, d_hat))
-            v_perp = self.vec_target - vt_comp * d_hat
-            v_perp_norm = float(np.linalg.norm(v_perp))
-            if v_perp_norm < 1e-8:
-                break  # vec_target ∥ delta — unconstrained direction
-
-            v_hat = v_perp / v_perp_norm
-
-            # Project vec3 onto the {d_hat, v_hat} plane
-            proj = (
-                float(np.dot(self.vec3, d_hat)) * d_hat
-                + float(np.dot(self.vec3, v_hat)) * v_hat
-            )
-            proj_norm = float(np.linalg.norm(proj))
-            if proj_norm < 1e-10:
-                break  # vec3 ⊥ plane — cannot project
-
-            new_vec3 = proj / proj_norm
-            if np.allclose(new_vec3, self.vec3, atol=1e-9):
-                break  # already in-plane — nothing to do
-
-            new_dogleg = float(np.arccos(np.clip(
-                np.dot(self.vec1, new_vec3), -1.0, 1.0
-            )))
-
-            # Compute pos2 seed so that _happy_finish recovers new_vec3:
-            #   get_vec_target(pos1, vec1, pos2_new, 0, dc1_new, fd1_new) = new_vec3
-            dc1_new, fd1_new = get_curve_hold_data(r1, new_dogleg)
-            pos2_new = get_pos(
-                self.pos1, self.vec1, new_vec3, dc1_new, fd1_new
-            ).reshape(3)
-
-            # Seed _happy_finish with the planarity-corrected direction
-            self.dogleg = new_dogleg
-            self.vec3 = new_vec3
-            self.pos3 = pos2_new        # tangent_length = 0 seed
-            self.tangent_length = 0.0
-            self.distances1 = None      # force _happy_finish to use radius_critical
-            self.radius_critical = r1
-            self.radius_critical2 = np.inf
-            self._happy_finish()
-
-            err_new = self._rendered_endpoint_error()
-            if err_new < best_err:
-                best_err = err_new
-                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
-            if best_err <= tol:
-                break
-
-        # Always restore the state that achieved the smallest endpoint error
-        for k, v in best_state.items():
-            setattr(self, k, v)
-
-    def interpolate(self, step=30):
-        """Interpolates the connector trajectory at regular MD intervals.
-
-        Parameters
-        ----------
-        step : float
-            Desired delta measured depth between survey points.
-
-        Returns
-        -------
-        list
-            A list of interpolated survey data dictionaries.
-        """
-        return interpolate_well([self], step)
-
-    def _get_tangent_temp(self, tangent_length):
-        if np.isnan(tangent_length):
-            tangent_temp = self.min_tangent
-        else:
-            tangent_temp = max(tangent_length, self.min_tangent)
-
-        return tangent_temp
-
-    def _mod_pos(self, pos):
-        # reproducible, so that the same connection always has the same result
-        pos_rand = np.random.default_rng(0).random(3)  # * self.delta_radius
-        pos += pos_rand
-
-    def _get_distances(self, pos1, vec1, pos_target):
-        # When initializing a `curve_hold_curve` and pos_target is directly
-        # ahead it can cause issues (it's a hold and not a curve). So this code
-        # checks for that condition and if it's the case, will move the
-        # target_pos a sufficient amount to prevent issues.
-        vec_temp = np.array(pos_target - pos1)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            vec_temp = vec_temp / np.linalg.norm(vec_temp)
-        if np.array_equal(vec1, vec_temp):
-            self._mod_pos(pos_target)
-        if np.allclose(pos1, pos_target):
-            return (0, 0, 0)
-
-        else:
-            dist_to_target = (
-                np.linalg.norm((pos_target - pos1))
-            )
-
-            dist_perp_to_target = (
-                np.dot((pos_target - pos1), vec1)
-            )
-            if dist_perp_to_target > dist_to_target:
-                # since a tolerance is being used, occasionally things can go
-                # wrong and need to be caught.
-                dist_perp_to_target = dist_to_target
-
-            dist_norm_to_target = (
-                (
-                    dist_to_target ** 2
-                    - dist_perp_to_target ** 2
-                ) ** 0.5
-            )
-
-            return (
-                dist_to_target,
-                dist_perp_to_target,
-                dist_norm_to_target
-            )
-
-
-def minimize_target_pos_and_vec_defined(
-    x, c, pos3=None, vec_old=None, result=False
-):
-    """Iteratively solves curve-hold-curve geometry between two nodes.
-
-    Uses a damped fixed-point iteration (alpha=0.5) on the intermediate
-    tangent point to find the curve-hold-curve path connecting the start
-    and target positions/vectors on the Connector.
-
-    Parameters
-    ----------
-    x : list
-        List of [radius1, radius2] for the two curve sections.
-    c : Connector
-        The Connector instance whose state is updated in place.
-    pos3 : ndarray or None
-        Optional initial guess for the intermediate tangent point.
-    vec_old : ndarray or None
-        Optional previous tangent direction for convergence check.
-    result : bool
-        If True, returns the Connector; if False, returns a scalar
-        residual for use with optimizers.
-
-    Returns
-    -------
-    Connector or float
-        The Connector instance if result is True, otherwise a float
-        residual measuring how much the design radii were violated.
-    """
-    if vec_old is None:
-        vec_old = np.array([0., 0., 0.])
-
-    radius1, radius2 = x
-
-    # Initialise the intermediate tangent point
-    if pos3 is None:
-        pos2_init = c._get_pos2(c.pos1, c.vec1, c.pos_target, radius1)
-        pos3_init = c._get_pos2(
-            c.pos_target, c.vec_target * -1, c.pos1, radius2
-        )
-        pos3_mid = pos2_init + (pos3_init - pos2_init) / 2
-
-        # Check whether the midpoint is inside the critical circle of either
-        # endpoint at the design DLS.  If so, the running minimum would lock
-        # in a tight radius from step 1.  Fall back to a point directly ahead
-        # of pos1 along vec1 (dist_norm = 0 → radius_critical = ∞), which is
-        # guaranteed to be in the design-DLS basin.
-        d1 = c._get_distances(c.pos1, c.vec1, pos3_mid)
-        d2 = c._get_distances(c.pos_target, c.vec_target * -1, pos3_mid)
-        rc1 = get_radius_critical(radius1, d1, c.min_error)
-        rc2 = get_radius_critical(radius2, d2, c.min_error)
-        if rc1 >= radius1 and rc2 >= radius2:
-            c.pos3 = pos3_mid
-        else:
-            # Midpoint is inside a critical circle.  Find a fallback pos3
-            # that is guaranteed to be in the design-DLS basin:
-            #   pos1 + R*vec1 + 2R*perp
-            # gives dist_norm = 2R → rc = 5R²/(4R) = 1.25R ≥ R.
-            # perp points in the component of (pos_target - pos1)
-            # perpendicular to vec1 so the guess is biased toward the target.
-            chord = c.pos_target - c.pos1
-            d_perp = chord - np.dot(chord, c.vec1) * c.vec1
-            d_perp_norm = np.linalg.norm(d_perp)
-            if d_perp_norm > 1e-10:
-                d_perp_hat = d_perp / d_perp_norm
-            else:
-                # Target is directly ahead/behind: pick any perpendicular
-                arb = np.array([1., 0., 0.])
-                if abs(np.dot(c.vec1, arb)) > 0.9:
-                    arb = np.array([0., 1., 0.])
-                d_perp_hat = np.cross(c.vec1, arb)
-                d_perp_hat /= np.linalg.norm(d_perp_hat)
-            # Try four candidate positions: ±d_perp and ±d_perp_cross
-            # (the 90°-rotated perpendicular).  Pick the first that is
-            # also outside the critical circle of pos_target.
-            d_perp_cross = np.cross(c.vec1, d_perp_hat)
-            d_perp_cross_norm = np.linalg.norm(d_perp_cross)
-            if d_perp_cross_norm > 1e-10:
-                d_perp_cross /= d_perp_cross_norm
-            else:
-                d_perp_cross = d_perp_hat  # degenerate: fallback
-            chosen = None
-            best_min_rc = -np.inf
-            best_candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * d_perp_hat
-            for perp in (d_perp_hat, -d_perp_hat, d_perp_cross, -d_perp_cross):
-                candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * perp
-                dd2 = c._get_distances(c.pos_target, c.vec_target * -1, candidate)
-                rc2_cand = get_radius_critical(radius2, dd2, c.min_error)
-                if rc2_cand >= radius2:
-                    chosen = candidate
-                    break
-                # Track the candidate with the highest minimum rc
-                if rc2_cand > best_min_rc:
-                    best_min_rc = rc2_cand
-                    best_candidate = candidate
-            c.pos3 = chosen if chosen is not None else best_candidate
-    else:
-        c.pos3 = pos3
-
-    radius_temp1, radius_temp2 = radius1, radius2
-
-    for _ in range(c.max_iterations):
-        prev_pos3 = c.pos3.copy()
-
-        # ── Curve 1: pos1 → pos2 ────────────────────────────────────────────
-        c.distances1 = c._get_distances(c.pos1, c.vec1, c.pos3)
-
-        radius_temp1 = get_radius_critical(radius1, c.distances1, c.min_error)
-        # Use the current geometry's critical radius directly — avoids NaN in
-        # min_dist_to_target and prevents the running minimum from permanently
-        # locking in tight values from transient intermediate states.
-        radius_effective1 = min(radius1, radius_temp1)
-        # Update the running minimum only for genuine violations (not noise).
-        if radius_temp1 < min(c.radius_critical, radius1 * (1.0 - c.min_error * 100)):
-            c.radius_critical = radius_temp1
-            assert c.radius_critical >= 0
-
-        c.tangent_length, c.dogleg = min_dist_to_target(
-            radius_effective1, c.distances1
-        )
-        c.dogleg = check_dogleg(c.dogleg)
-        c.dist_curve, c.func_dogleg = get_curve_hold_data(
-            radius_effective1, c.dogleg
-        )
-        c.vec3 = get_vec_target(
-            c.pos1, c.vec1, c.pos3,
-            c.tangent_length, c.dist_curve, c.func_dogleg
-        )
-
-        tangent_temp1 = c._get_tangent_temp(c.tangent_length)
-        c.pos2 = c.pos3 - tangent_temp1 * c.vec3
-
-        # ── Curve 2: pos_target → pos2 (reversed) ───────────────────────────
-        c.distances2 = c._get_distances(
-            c.pos_target, c.vec_target * -1, c.pos2
-        )
-
-        radius_temp2 = get_radius_critical(radius2, c.distances2, c.min_error)
-        # Use current geometry's critical radius directly (same rationale as arc1).
-        radius_effective2 = min(radius2, radius_temp2)
-        # Update running minimum only for genuine violations.
-        if radius_temp2 < min(c.radius_critical2, radius2 * (1.0 - c.min_error * 100)):
-            c.radius_critical2 = radius_temp2
-            assert c.radius_critical2 >= 0
-
-        c.tangent_length2, c.dogleg2 = min_dist_to_target(
-            radius_effective2, c.distances2
-        )
-        c.dogleg2 = check_dogleg(c.dogleg2)
-        c.dist_curve2, c.func_dogleg2 = get_curve_hold_data(
-            radius_effective2, c.dogleg2
-        )
-        c.vec2 = get_vec_target(
-            c.pos_target, c.vec_target * -1, c.pos2,
-            c.tangent_length2, c.dist_curve2, c.func_dogleg2
-        )
-
-        tangent_temp2 = c._get_tangent_temp(c.tangent_length2)
-        pos3_new = c.pos2 - tangent_temp2 * c.vec2
-
-        # Damped update: averaging old and new prevents oscillation when the
-        # target is close relative to the radius of curvature.
-        c.pos3 = 0.5 * pos3_new + 0.5 * prev_pos3
-
-        vec23_denom = np.linalg.norm(c.pos3 - c.pos2)
-        if vec23_denom == 0:
-            c.vec23.append(np.array([0., 0., 0.]))
-        else:
-            c.vec23.append((c.pos3 - c.pos2) / vec23_denom)
-
-        # The remaining error in the direction acts over the whole length of
-        # the path, so as long as the design radii can be met the position
-        # needs to have settled as well.
-        c.error = np.allclose(
-            c.vec23[-1], vec_old,
-            equal_nan=True,
-            rtol=c.min_error * 10,
-            atol=c.min_error * 0.1
-        ) and (
-            radius_temp1 < radius1
-            or radius_temp2 < radius2
-            or np.allclose(
-                c.pos3, prev_pos3,
-                equal_nan=True, rtol=0, atol=c.min_error * 10
-            )
-        )
-
-        c.errors.append(c.error)
-        c.pos3_list.append(c.pos3.copy())
-        c.pos2_list.append(c.pos2.copy())
-        c.md_target = c.md1 + c.dist_curve + tangent_temp2 + c.dist_curve2
-        c.delta_radius_list.append(abs(c.radius_critical - c.radius_critical2))
-        c.dls = max(
-            np.radians(dls_from_radius(c.radius_design)),
-            np.radians(dls_from_radius(c.radius_critical))
-        )
-        c.dls2 = max(
-            np.radians(dls_from_radius(c.radius_design2)),
-            np.radians(dls_from_radius(c.radius_critical2))
-        )
-
-        if c.error:
-            break
-
-        c.iterations += 1
-        vec_old = c.vec23[-1].copy()
-
-    if result:
-        return c
-    result_val = 0.
-    if radius_temp2 < c.radius_design2:
-        result_val += c.radius_design2 - radius_temp2
-    if radius_temp1 < c.radius_design:
-        result_val += c.radius_design - radius_temp1
-    return result_val
-
-
-def check_dogleg(dogleg):
-    """Ensures the dogleg angle is positive by wrapping negative values.
-
-    Accepts scalar or array-like; output shape matches input.
-
-    Parameters
-    ----------
-    dogleg : float or array_like
-        Dogleg angle(s) in radians.
-
-    Returns
-    -------
-    float or ndarray
-        The dogleg angle(s) normalized to [0, 2*pi).
-    """
-    # the code assumes angles are positive and clockwise
-    dogleg = np.asarray(dogleg, dtype=float)
-    wrapped = np.where(dogleg < 0, dogleg + 2 * np.pi, dogleg)
-    if wrapped.ndim == 0:
-        return float(wrapped)
-    return wrapped
-
-
-def mod_vec(vec, error=1e-5):
-    """Slightly perturbs a direction vector to avoid exact antiparallel degeneracy.
-
-    Parameters
-    ----------
-    vec : ndarray
-        Unit direction vector in NEV coordinates.
-    error : float
-        Perturbation magnitude applied to the vertical component.
-
-    Returns
-    -------
-    tuple
-        A tuple of (perturbed_vec, inclination, azimuth).
-    """
-    # if it's not working then twat it with a hammer
-    vec_mod = vec * np.array([1, 1, 1 - error])
-    vec_mod /= np.linalg.norm(vec_mod)
-    inc_mod, azi_mod = get_angles(vec_mod, nev=True).T
-
-    return vec_mod, inc_mod, azi_mod
-
-
-def get_pos(pos1, vec1, vec2, dist_curve, func_dogleg):
-    """Computes the end position of a minimum-curvature arc.
-
-    Parameters
-    ----------
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Start unit direction vector in NEV coordinates.
-    vec2 : ndarray
-        End unit direction vector in NEV coordinates.
-    dist_curve : float
-        Arc length of the curve section.
-    func_dogleg : float
-        Shape factor (ratio factor) for the curve.
-
-    Returns
-    -------
-    ndarray
-        End position in NEV coordinates.
-    """
-    return pos1 + (dist_curve * func_dogleg / 2) * (vec1 + vec2)
-
-
-def get_vec_target(
-    pos1,
-    vec1,
-    pos_target,
-    tangent_length,
-    dist_curve,
-    func_dogleg
-):
-    """Derives the target unit vector from curve geometry and target position.
-
-    Solves for the direction vector at the end of a curve-hold section
-    given the start state, curve parameters, and target position. Accepts
-    either scalar inputs (legacy shape-(3,) positions/vectors with scalar
-    tangent_length/dist_curve/func_dogleg) or batched inputs (leading
-    batch dims on all arrays, positions/vectors with trailing axis 3).
-
-    Parameters
-    ----------
-    pos1 : ndarray, shape (..., 3)
-        Start position in NEV coordinates.
-    vec1 : ndarray, shape (..., 3)
-        Start unit direction vector in NEV coordinates.
-    pos_target : ndarray, shape (..., 3)
-        Target position in NEV coordinates.
-    tangent_length : float or ndarray, shape (...)
-        Length of the tangent (hold) section.
-    dist_curve : float or ndarray, shape (...)
-        Arc length of the curve section. Where equal to zero, the input
-        ``vec1`` is returned unchanged (pure-hold fallback).
-    func_dogleg : float or ndarray, shape (...)
-        Shape factor (ratio factor) for the curve.
-
-    Returns
-    -------
-    ndarray, shape (..., 3)
-        Target unit direction vector in NEV coordinates.
-    """
-    pos1 = np.asarray(pos1, dtype=float)
-    vec1 = np.asarray(vec1, dtype=float)
-    pos_target = np.asarray(pos_target, dtype=float)
-    tangent_length = np.asarray(tangent_length, dtype=float)
-    dist_curve = np.asarray(dist_curve, dtype=float)
-    func_dogleg = np.asarray(func_dogleg, dtype=float)
-
-    half = dist_curve * func_dogleg / 2
-    denom = half + tangent_length
-
-    # Broadcast per-sample scalars to match pos/vec batch shape (..., 3).
-    half_b = half[..., None] if half.ndim >= 1 else half
-    denom_b = denom[..., None] if denom.ndim >= 1 else denom
-
-    vec_target = (pos_target - pos1 - half_b * vec1) / denom_b
-
-    # Axis-aware normalise — works for scalar shape-(3,) and batched (..., 3).
-    norm = np.linalg.norm(vec_target, axis=-1, keepdims=True)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        vec_target = vec_target / norm
-
-    # Pure-hold fallback: where dist_curve == 0, return vec1.
-    zero_mask = (dist_curve == 0)
-    if zero_mask.ndim == 0:
-        if bool(zero_mask):
-            return vec1
-        return vec_target
-    return np.where(zero_mask[..., None], vec1, vec_target)
-
-
-def get_curve_hold_data(radius, dogleg):
-    """Computes arc length and shape factor for a curve section.
-
-    Parameters
-    ----------
-    radius : float
-        Radius of curvature.
-    dogleg : float
-        Dogleg angle in radians.
-
-    Returns
-    -------
-    tuple
-        A tuple of (dist_curve, func_dogleg) where dist_curve is the arc
-        length and func_dogleg is the minimum-curvature shape factor.
-    """
-    dist_curve = radius * dogleg
-    func_dogleg = shape_factor(dogleg)
-
-    return (
-        dist_curve,
-        func_dogleg
-    )
-
-
-def shape_factor(dogleg):
-    """Computes the minimum-curvature shape factor for a dogleg angle.
-
-    Parameters
-    ----------
-    dogleg : float
-        Dogleg angle in radians.
-
-    Returns
-    -------
-    float
-        The ratio factor (shape factor) for minimum-curvature interpolation.
-    """
-    return get_rf(dogleg)
-
-
-def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
-    """Vectorised curve-hold connector: fixed start pose, fixed target pos.
-
-    Solves the minimum-MD curve-then-hold geometry from a start pose
-    ``(pos1, vec1)`` to a target position ``pos_target`` with a given
-    design radius. The target tangent vector is an OUTPUT of the solve —
-    computed analytically from the geometry — not an input. Equivalent
-    to ``Connector(pos1=..., vec1=..., pos2=pos_target, dls_design=...)``
-    in the ``'curve_hold'`` mode (binary code ``00110`` in
-    ``_get_initial_methods``), but operates element-wise on arrays so a
-    large sweep is one numpy call rather than a Python loop over
-    ``Connector`` instances.
-
-    Parameters
-    ----------
-    pos1 : array_like, shape (..., 3)
-        Start positions in NEV coordinates. Arbitrary leading batch shape.
-    vec1 : array_like, shape (..., 3)
-        Unit direction vectors at the start. Must share ``pos1``'s leading
-        shape.
-    pos_target : array_like, shape (..., 3)
-        Target positions in NEV coordinates. Must share ``pos1``'s leading
-        shape.
-    radius : float or array_like, shape (...)
-        Design radius of curvature. Broadcasts against the leading shape.
-
-    Returns
-    -------
-    dict
-        All entries are ndarrays whose leading shape matches the inputs.
-
-        - ``'pos2'`` shape (..., 3) — end of the curve / start of the hold.
-        - ``'vec_target'`` shape (..., 3) — computed unit tangent at target.
-        - ``'tangent_length'`` shape (...) — hold-section length.
-        - ``'dogleg'`` shape (...) — curve angle, radians.
-        - ``'dist_curve'`` shape (...) — arc length of the curve section.
-        - ``'md'`` shape (...) — total measured depth (curve + hold).
-
-    Notes
-    -----
-    When the target is exactly along ``vec1`` (pure-hold degenerate case),
-    the solver returns ``dogleg = 0``, ``tangent_length = dist_to_target``,
-    ``vec_target = vec1``, and ``pos2 = pos1``. This matches the scalar
-    ``Connector`` behaviour in that regime.
-
-    The underlying helpers (``min_dist_to_target``, ``get_curve_hold_data``,
-    ``get_vec_target``) have all been array-safe since the vectorisation
-    patch; this function is just a thin wrapper that computes the three
-    intermediate distance scalars and composes the helpers.
-    """
-    pos1 = np.asarray(pos1, dtype=float)
-    vec1 = np.asarray(vec1, dtype=float)
-    pos_target = np.asarray(pos_target, dtype=float)
-    radius = np.asarray(radius, dtype=float)
-
-    delta = pos_target - pos1
-    dist_to_target = np.linalg.norm(delta, axis=-1)
-    dist_perp_to_target = np.sum(delta * vec1, axis=-1)
-    # Same clamp the scalar Connector._get_distances applies to catch fp drift
-    # where the projected distance can marginally exceed the straight-line
-    # distance.
-    dist_perp_to_target = np.minimum(dist_perp_to_target, dist_to_target)
-    dist_norm_to_target = np.sqrt(
-        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)
-    )
-
-    distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
-    tangent_length, dogleg = min_dist_to_target(radius, distances)
-    dogleg = get_dogleg_to_target(tangent_length, dogleg, distances)
-    # Wrap negative doglegs by +2π to match the scalar Connector
-    # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
-    # output before building the path). Without this, a geometry that
-    # dictates a "backward" turn yields negative dist_curve and the
-    # reported total MD ends up negative.
-    dogleg = check_dogleg(dogleg)
-    dist_curve, func_dogleg = get_curve_hold_data(radius, dogleg)
-
-    vec_target = get_vec_target(
-        pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg
-    )
-
-    # pos2 = end of arc = target - (hold-section vector)
-    tl = tangent_length[..., None] if tangent_length.ndim >= 1 else tangent_length
-    pos2 = pos_target - tl * vec_target
-    md = dist_curve + tangent_length
-
-    return {
-        "pos2": pos2,
-        "vec_target": vec_target,
-        "tangent_length": tangent_length,
-        "dogleg": dogleg,
-        "dist_curve": dist_curve,
-        "md": md,
-    }
-
-
-def min_dist_to_target(radius, distances):
-    """Computes tangent length and dogleg for a curve-hold section to a target.
-
-    Parameters
-    ----------
-    radius : float
-        Radius of curvature for the curve section.
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-
-    Returns
-    -------
-    tangent_length : float
-        Hold section length.
-    dogleg : float
-        Curve angle in radians.
-    """
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    tangent_length = (
-        dist_to_target ** 2
-        - 2 * radius * dist_norm_to_target
-    ) ** 0.5
-
-    # determine the dogleg angle of the curve section
-    dogleg = 2 * np.arctan2(
-        (dist_perp_to_target - tangent_length),
-        (
-            2 * radius - dist_norm_to_target
-        )
-    )
-
-    return tangent_length, dogleg
-
-
-def get_dogleg_to_target(tangent_length, dogleg, distances):
-    """Computes the dogleg to a target that is not behind the start.
-
-    The angle is the one of ``min_dist_to_target``, but expressed such that it
-    is also exact for a target beside the start at a distance of two radii,
-    where the former is 0 / 0.
-
-    Parameters
-    ----------
-    tangent_length : float or ndarray
-        Hold section length from ``min_dist_to_target``.
-    dogleg : float or ndarray
-        Curve angle from ``min_dist_to_target`` in radians.
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-
-    Returns
-    -------
-    float or ndarray
-        Curve angle in radians.
-    """
-    _, dist_perp_to_target, dist_norm_to_target = distances
-
-    return np.where(
-        np.asarray(dist_perp_to_target) < 0,
-        dogleg,
-        2 * np.arctan2(
-            dist_norm_to_target, dist_perp_to_target + tangent_length
-        )
-    )[()]
-
-
-def min_curve_to_target(distances):
-    """Computes minimum-curvature parameters when the design DLS is insufficient.
-
-    Used when the target cannot be reached with the design radius, so the
-    curve section uses the minimum radius geometrically required.
-
-    Parameters
-    ----------
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-
-    Returns
-    -------
-    tangent_length : float
-        Always 0 (pure curve, no hold).
-    radius_critical : float
-        Minimum required radius of curvature.
-    dogleg : float
-        Curve angle in radians.
-    """
-    if distances == (0., 0., 0,):
-        return (
-            0.,
-            np.inf,
-            0.
-        )
-
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    if dist_norm_to_target == 0.:
-        radius_critical = np.inf
-    else:
-        radius_critical = (
-            dist_to_target ** 2 / (
-                2 * dist_norm_to_target
-            )
-        )
-        if np.isnan(radius_critical):
-            radius_critical = np.nan
-        else:
-            assert radius_critical > 0
-
-    dogleg = (
-        2 * np.arctan2(
-            dist_norm_to_target,
-            dist_perp_to_target
-        )
-    )
-
-    tangent_length = 0
-
-    return (
-        tangent_length,
-        radius_critical,
-        dogleg
-    )
-
-
-def get_radius_critical(radius, distances, min_error):
-    """Computes the critical radius for a given target geometry.
-
-    The critical radius is the minimum curvature radius needed to reach
-    the target with a pure curve (no tangent). Below this radius, a
-    curve-hold path is possible; above it, minimum curvature is needed.
-
-    Parameters
-    ----------
-    radius : float
-        Design radius of curvature.
-    distances : tuple
-        Tuple of (dist_to_target, dist_perp_to_target,
-        dist_norm_to_target) geometric distances.
-    min_error : float
-        Error tolerance factor applied to the result.
-
-    Returns
-    -------
-    float
-        The critical radius. Returns 0 if the normal distance is zero.
-    """
-    (
-        dist_to_target,
-        dist_perp_to_target,
-        dist_norm_to_target
-    ) = distances
-
-    if dist_norm_to_target == 0:
-        return 0
-
-    radius_critical = (
-        dist_to_target ** 2 / (
-            2 * dist_norm_to_target
-        )
-    ) * (1 - min_error)
-
-    if np.isnan(radius_critical):
-        radius_critical = np.nan
-    else:
-        assert radius_critical > 0
-
-    return radius_critical
-
-
-def interpolate_well(sections, step=30):
-    """Constructs interpolated survey data from a list of Connector sections.
-
-    Parameters
-    ----------
-    sections : Connector or list of Connector
-        Connector objects defining the well trajectory.
-    step : float
-        Desired delta measured depth between interpolated survey
-        points.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    method = {
-        'hold': get_interpolate_hold,
-        'min_dist_to_target': get_interpolate_min_dist_to_target,
-        'min_curve_to_target': get_interpolate_min_curve_to_target,
-        'curve_hold_curve': get_interpololate_curve_hold_curve,
-        'min_curve': get_min_curve
-    }
-
-    data = []
-    if type(sections) is not list:
-        sections = [sections]
-    for s in sections:
-        data.extend(method[s.method](s, step))
-
-    return data
-
-
-def interpolate_curve(
-    md1,
-    pos1,
-    vec1,
-    vec2,
-    dist_curve,
-    dogleg,
-    func_dogleg,
-    step,
-    endpoint=False
-):
-    """Interpolates survey points along a curve section at regular MD intervals.
-
-    Uses Rodrigues' rotation formula for numerical stability, especially
-    for near-180-degree doglegs where SLERP becomes unstable.
-
-    Parameters
-    ----------
-    md1 : float
-        Measured depth at the start of the curve.
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Start unit direction vector in NEV coordinates.
-    vec2 : ndarray
-        End unit direction vector in NEV coordinates.
-    dist_curve : float
-        Arc length of the curve section.
-    dogleg : float
-        Total dogleg angle in radians.
-    func_dogleg : float
-        Shape factor (ratio factor) for the curve.
-    step : float
-        Desired delta measured depth between interpolated points.
-    endpoint : bool
-        If True, includes the curve endpoint in the output.
-
-    Returns
-    -------
-    dict
-        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
-        containing numpy arrays of interpolated survey data.
-    """
-    # sometimes the curve section has no length
-    # this if statement handles this event
-    if any((dist_curve == 0, np.isnan(dist_curve))):
-        inc, azi = get_angles(vec1, nev=True).T
-        data = dict(
-            md=np.array([md1]),
-            vec=np.array([vec1]),
-            inc=inc,
-            azi=azi,
-            dogleg=np.array([dogleg])
-        )
-
-        return data
-
-    end_md = abs(dist_curve)
-    if step is None:
-        md = np.array([0])
-    else:
-        start_md = step - (md1 % step)
-        md = np.arange(start_md, end_md, step)
-        md = np.concatenate(([0.], md))
-    if endpoint:
-        md = np.concatenate((md, [end_md]))
-    dogleg_interp = (dogleg / dist_curve * md).reshape(-1, 1)
-
-    # Rodrigues' rotation formula is numerically superior to SLERP when dogleg
-    # is near π.  SLERP weights contain 1/sin(dogleg) which amplifies errors
-    # by ~1/sin(π-ε) ≈ 1/ε for near-180° arcs (e.g. case #492 with dogleg≈179°
-    # amplifies errors 44×, producing spiralling visualisation paths).
-    #
-    # Rodrigues: vec(t) = cos(t)*vec1 + sin(t)*in_plane
-    # where in_plane is the unit vector in the arc plane, perpendicular to vec1.
-    # The formula never divides by sin(dogleg) during evaluation — only during
-    # the one-time setup of in_plane — so numerical errors do not accumulate.
-    cross = np.cross(vec1, vec2)
-    cross_norm = float(np.linalg.norm(cross))
-    if cross_norm < 1e-10:
-        # vec1 ≈ vec2 (zero dogleg) or exactly antiparallel (degenerate arc):
-        # return the start direction for all points.
-        vec = np.tile(vec1, (len(md), 1))
-    else:
-        rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
-        in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
-        vec = (
-            np.cos(dogleg_interp) * vec1
-            + np.sin(dogleg_interp) * in_plane
-        )
-    vec = vec / np.linalg.norm(vec, axis=1).reshape(-1, 1)
-    inc, azi = get_angles(vec, nev=True).T
-
-    data = dict(
-        md=md + md1,
-        vec=vec,
-        inc=inc,
-        azi=azi,
-        dogleg=np.concatenate((
-            np.array([0.]), np.diff(dogleg_interp.reshape(-1))
-        )),
-    )
-
-    return data
-
-
-def interpolate_hold(md1, pos1, vec1, md2, step, endpoint=False):
-    """Interpolates survey points along a hold (tangent) section.
-
-    Parameters
-    ----------
-    md1 : float
-        Measured depth at the start of the hold.
-    pos1 : ndarray
-        Start position in NEV coordinates.
-    vec1 : ndarray
-        Constant unit direction vector during the hold.
-    md2 : float
-        Measured depth at the end of the hold.
-    step : float
-        Desired delta measured depth between interpolated points.
-    endpoint : bool
-        If True, includes the hold endpoint in the output.
-
-    Returns
-    -------
-    dict
-        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
-        containing numpy arrays of interpolated survey data.
-    """
-    end_md = md2 - md1
-    if step is None:
-        md = np.array([0])
-    else:
-        start_md = step - (md1 % step)
-        md = np.arange(start_md, end_md, step)
-        md = np.concatenate(([0.], md))
-    if endpoint:
-        md = np.concatenate((md, [end_md]))
-    vec = np.full((len(md), 3), vec1)
-    inc, azi = get_angles(vec, nev=True).T
-    dogleg = np.full_like(md, 0.)
-
-    data = dict(
-        md=md + md1,
-        vec=vec,
-        inc=inc,
-        azi=azi,
-        dogleg=dogleg,
-    )
-
-    return data
-
-
-def get_min_curve(section, step=30, data=None):
-    """Interpolates a minimum-curve section, dispatching by sub-method.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_curve'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if section.md2 is None:
-        result = (
-            get_interpolate_min_curve_to_target(
-                section, step, data
-            )
-        )
-    else:
-        result = (
-            get_interpolate_min_dist_to_target(
-                section, step, data
-            )
-        )
-    return result
-
-
-def get_interpolate_hold(section, step=30, data=None):
-    """Interpolates a hold-method Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'hold'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    data.append(interpolate_hold(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        md2=section.md_target,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpolate_min_curve_to_target(section, step=30, data=None):
-    """Interpolates a min-curve-to-target Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_curve_to_target'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec_target,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpolate_min_dist_to_target(section, step=30, data=None):
-    """Interpolates a min-dist-to-target Connector section (curve + hold).
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'min_dist_to_target'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    # the first curve section
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec2,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step
-    ))
-
-    # the hold section
-    data.append(interpolate_hold(
-        md1=section.md2,
-        pos1=section.pos2,
-        vec1=section.vec2,
-        md2=section.md_target,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def get_interpololate_curve_hold_curve(section, step=30, data=None):
-    """Interpolates a curve-hold-curve Connector section.
-
-    Parameters
-    ----------
-    section : Connector
-        A Connector object with method 'curve_hold_curve'.
-    step : float
-        Desired delta measured depth between interpolated points.
-    data : list or None
-        Optional list to append results to.
-
-    Returns
-    -------
-    list
-        A list of interpolated survey data dictionaries.
-    """
-    if data is None:
-        data = []
-
-    # the first curve section
-    data.append(interpolate_curve(
-        md1=section.md1,
-        pos1=section.pos1,
-        vec1=section.vec1,
-        vec2=section.vec2,
-        dist_curve=section.dist_curve,
-        dogleg=section.dogleg,
-        func_dogleg=section.func_dogleg,
-        step=step
-    ))
-
-    # the hold section
-    data.append(interpolate_hold(
-        md1=section.md2,
-        pos1=section.pos2,
-        vec1=section.vec2,
-        md2=section.md3,
-        step=step
-    ))
-
-    # the second curve section
-    data.append(interpolate_curve(
-        md1=section.md3,
-        pos1=section.pos3,
-        vec1=section.vec3,
-        vec2=section.vec_target,
-        dist_curve=section.dist_curve2,
-        dogleg=section.dogleg2,
-        func_dogleg=section.func_dogleg2,
-        step=step,
-        endpoint=True
-    ))
-
-    return data
-
-
-def convert_target_input_to_booleans(*inputs):
-    """Converts target parameters to a binary string for method lookup.
-
-    Parameters
-    ----------
-    *inputs
-        Variable number of target parameters (md2, inc2, azi2,
-        pos2, vec2). Each is mapped to '1' if not None, '0' otherwise.
-
-    Returns
-    -------
-    str
-        A 5-character binary string encoding which parameters were provided.
-    """
-    input = [
-        "0" if i is None else "1" for i in inputs
-    ]
-
-    return ''.join(input)
-
-
-def connect_points(
-    cartesians, vec_start=[0., 0., 1.], dls_design=3.0, nev=True,
-    # step=30,
-    md_start=0.
-):
-    """Connects a sequence of Cartesian points with Connector sections.
-
-    Parameters
-    ----------
-    cartesians : list or ndarray
-        Array of shape (n, 3) with positions as [n, e, tvd]
-        (if nev=True) or [x, y, z] (if nev=False).
-    vec_start : list or ndarray
-        Unit start direction vector in the corresponding
-        coordinate system.
-    dls_design : float or list
-        Design DLS in deg/30m (or deg/100ft). Can be a
-        scalar or array of length n.
-    nev : bool
-        If True, cartesians are in NEV coordinates; if False, XYZ.
-    md_start : float
-        Measured depth at the first point.
-
-    Returns
-    -------
-    list
-        A list of Connector objects linking consecutive points.
-    """
-    if nev:
-        pos_nev = np.array(cartesians).reshape(-1, 3)
-        vec_nev = np.zeros_like(pos_nev)
-        vec_nev[0] = np.array(vec_start).reshape(-1, 3)
-    else:
-        pos_nev = get_nev(cartesians)
-        vec_nev = np.zeros_like(pos_nev)
-        vec_nev[0] = get_nev(vec_start)
-
-    if type(dls_design) is float:
-        dls = np.full(len(pos_nev), dls_design)
-    else:
-        dls = np.array(dls_design).reshape(-1, 1)
-
-    connections = []
-    for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
-        if i == 0:
-            node_1 = Node(
-                pos=p,
-                vec=v,
-                md=md_start
-            )
-            continue
-        if i > 1:
-            node_1 = connections[-1].node_end
-        node_2 = Node(
-            pos=p
-        )
-        c = Connector(
-            node1=node_1,
-            node2=node_2,
-            dls_design=d
-        )
-        assert np.allclose(c.pos_target, p)
-        connections.append(c)
-
-    return connections
-
-
-def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
-    """Extracts a minimal well plan from a drilled survey.
-
-    Identifies the minimum number of control points (start/end of hold
-    or build/turn sections) needed to reproduce the survey trajectory
-    within the given tolerance.
-
-    Parameters
-    ----------
-    survey : Survey
-        A welleng Survey object representing the drilled well.
-    tolerance : float
-        Fit tolerance. Higher values produce fewer control
-        points but a looser fit.
-    dls_design : float
-        Minimum design DLS in deg/30m for the planned trajectory.
-    step : float
-        Desired MD step interval for the output survey.
-
-    Returns
-    -------
-    list
-        A list of Connector objects representing the planned sections.
-
-    Raises
-    ------
-    AssertionError
-        If dls_design is not greater than 0.
-    """
-    assert dls_design > 0., "dls_design must be greater than 0"
-
-    idx = [0]
-    end = len(survey.md) - 1
-    md = survey.md[0]
-    node = None
-    sections = []
-
-    while True:
-        section, i = _get_section(
-            survey=survey,
-            start=idx[-1],
-            md=md,
-            node=node,
-            tolerance=tolerance,
-            dls_design=dls_design
-        )
-        sections.append(section)
-        idx.append(i)
-        if idx[-1] >= end:
-            break
-        node = section.node_end
-
-    # data = interpolate_well(sections, step=step)
-
-    return sections
-
-
-def _get_section(
-    survey, start, tolerance, dls_design=1., md=0., node=None
-):
-    idx = start + 2
-    nev = survey.get_nev_arr()
-
-    if idx > len(nev):
-        idx = len(nev) - 1
-
-    if node is None:
-        node_1 = Node(
-            pos=nev[start],
-            vec=survey.vec_nev[start],
-            md=md
-        )
-    else:
-        node_1 = node
-
-    scores = [0.]
-    delta_scores = []
-    c_old = None
-
-    for i, (p, v) in enumerate(zip(nev[idx:], survey.vec_nev[idx:])):
-        node_2 = Node(
-            pos=p,
-            vec=v,
-        )
-        c = Connector(
-            node1=node_1,
-            node2=node_2,
-            dls_design=dls_design
-        )
-        s = c.survey(step=1.)
-        if c_old is None:
-            c_old = deepcopy(c)
-        nev_new = s.get_nev_arr()
-
-        distances = distance.cdist(
-            nev[start: idx + i],
-            nev_new
-        )
-
-        score = np.sum(np.amin(distances, axis=1)) / (s.md[-1] - s.md[0])
-
-        delta_scores.append(score - scores[-1])
-        scores.append(score)
-
-        if all((
-            abs(delta_scores[-1]) >= tolerance,
-            idx + i < len(nev) - 2
-        )):
-            break
-        elif idx + i == len(nev) - 1:
-            c_old = deepcopy(c)
-            break
-        else:
-            c_old = deepcopy(c)
-
-    return (
-        c_old,
-        idx + i - 1 if idx + i != len(nev) - 1 else idx + i
-    )
-
-
-def drop_off(
-    target_inc: float, dls: float, delta_md: float | None = None,
-    node: Node | None = None, tol: float = 1e-5
-) -> list:
-    """Computes trajectory sections to drop off (or build) to a target inclination.
-
-    Use ``extend_to_tvd`` if a specific TVD target is also required.
-
-    Parameters
-    ----------
-    target_inc : float
-        Target inclination in degrees.
-    dls : float
-        Design DLS in deg/30m.
-    delta_md : float or None
-        Maximum section length in meters. If None, the section
-        is unconstrained.
-    node : Node or None
-        Starting Node. Defaults to surface pointing down.
-    tol : float
-        Tolerance for tangent section length; sections shorter than
-        this are omitted.
-
-    Returns
-    -------
-    list
-        A list of Nodes describing the trajectory. Contains one Node
-        (the arc endpoint) or two (arc endpoint plus tangent endpoint)
-        if the target inclination was achieved within the section.
-    """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
-    node.md = 0 if node.md is None else node.md
-    radius = radius_from_dls(dls)
-    if isinstance(delta_md, np.ndarray):
-        delta_md = delta_md[0]
-    max_dogleg = (
-        2 * np.pi if delta_md is None
-        else delta_md / radius
-    )
-
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
-    )
-    tangent_length = (
-        0 if delta_md is None
-        else delta_md - arc_length
-    )
-    node2 = Node(
-        pos=pos2, vec=vec2, md=node.md + arc_length
-    )
-    if tangent_length > tol:
-        pos3 = pos2 + tangent_length * vec2
-        node3 = Node(
-            pos=pos3, vec=vec2, md=node2.md + tangent_length
-        )
-        return [node2, node3]
-    else:
-        return [node2]
-
-
-def extend_to_tvd(
-    target_tvd: float, node: Node | None = None,
-    delta_md: float | None = None,
-    target_inc: float | None = None, dls: float | None = None
-) -> list:
-    """Computes Connector sections to reach a target TVD with optional inclination change.
-
-    Parameters
-    ----------
-    target_tvd : float
-        Target true vertical depth in meters.
-    node : Node or None
-        Starting Node. Defaults to surface pointing down.
-    delta_md : float or None
-        Maximum section length in meters. If None, unconstrained.
-    target_inc : float or None
-        Target inclination in degrees at the target TVD.
-        If provided, the solver attempts to achieve this inclination
-        and holds tangent to the target TVD.
-    dls : float or None
-        Design DLS in deg/30m. Defaults to 2.5 if None and
-        target_inc is provided.
-
-    Returns
-    -------
-    list
-        A list of Connector objects. Contains one Connector (curve only)
-        or two (curve plus tangent hold) if the target inclination was
-        achieved within the section.
-
-    Examples
-    --------
-    A well at 30 degrees inclination dropping to vertical:
-
-    >>> import welleng as we
-    >>> node = we.node.Node(pos=[0, 0, 3000], md=4000, inc=30, azi=135)
-    >>> connectors = we.connector.extend_to_tvd(
-    ...     target_tvd=3200, node=node, target_inc=0, dls=3
-    ... )
-    """
-    if node is None:
-        node = Node()
-    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
-    _delta_md = 1e-8 if delta_md is None else delta_md
-    connections = []
-    if target_inc is None:
-        def _extend_tvd(
-            delta_md, pos, vec, target_tvd, return_data=False
-        ):
-            pos2 = np.array(pos) + delta_md * np.array(vec)
-            if return_data:
-                return pos2
-            else:
-                return abs(pos2[2] - target_tvd)
-
-        args = (node.pos_nev, node.vec_nev, target_tvd)
-        bounds = [[0, None]]
-        result = minimize(
-            _extend_tvd,
-            _delta_md,
-            args=args,
-            bounds=bounds,
-            method="Powell"
-        )
-        pos2 = _extend_tvd(result.x, *args, return_data=True)
-        connections.append(Connector(
-            pos1=node.pos_nev, vec1=node.vec_nev,
-            md1=0 if node.md is None else node.md,
-            pos2=pos2,
-            dls_design=dls, force_min_curve=True
-        ))
-    else:
-        def _drop_off(
-            delta_md, target_inc, target_tvd, dls, node,
-            return_data=False
-        ):
-            nodes = drop_off(
-                target_inc, dls, delta_md, node
-            )
-            if return_data:
-                return nodes
-            else:
-                return abs(nodes[-1].pos_nev[2] - target_tvd)
-
-        dls = 2.5 if dls is None else dls
-        args = (target_inc, target_tvd, dls, node)
-        bounds = [
-            [min(target_tvd - node.pos_nev[2], _delta_md), None]
-        ]
-        x0 = _delta_md
-        result = minimize(
-            _drop_off,
-            x0,
-            args=args,
-            bounds=bounds,
-            method='Powell'
-        )
-        nodes = _drop_off(
-            result.x, *args, return_data=True
-        )
-        connections.append(Connector(
-            node1=node,
-            pos2=nodes[0].pos_nev, vec2=nodes[0].vec_nev,
-            dls_design=dls, force_min_curve=True
-        ))
-        if len(nodes) > 1:
-            connections.append(Connector(
-                node1=connections[-1].node_end,
-                pos2=nodes[-1].pos_nev,
-                dls_design=dls, force_min_curve=True
-            ))
-    return connections
-
-
+"""Wellbore trajectory connector for computing minimum-MD CLC paths."""
+
+from copy import copy, deepcopy
+
+import numpy as np
+from scipy.optimize import minimize
+from scipy.spatial import distance
+
+from .node import Node, get_node_params
+from .utils import (
+    NEV_to_HLA, dls_from_radius, get_angles,
+    get_dogleg, get_nev, get_rf, get_unit_vec, get_vec, get_xyz,
+    radius_from_dls, get_arc
+)
+
+
+class Connector:
+    """Solves minimum-MD wellbore trajectories between two survey stations.
+
+    Automatically selects the appropriate geometric method (hold, curve-hold,
+    min-curve, or curve-hold-curve) based on the provided start/end constraints
+    and computes control points for the connecting path segment. The solver
+    honours a maximum dog-leg severity (DLS) constraint where geometrically
+    feasible.
+
+    Attributes
+    ----------
+    method : str
+        The geometric method used ('hold', 'min_curve',
+        'curve_hold_curve', 'min_dist_to_target', or
+        'min_curve_to_target').
+    node_start : Node
+        Start survey station as a Node.
+    node_end : Node
+        End survey station as a Node.
+    pos1 : ndarray of shape (3,)
+        Start position in NEV coordinates.
+    vec1 : ndarray of shape (3,)
+        Unit direction vector at the start position.
+    inc1 : float
+        Inclination at the start position (radians).
+    azi1 : float
+        Azimuth at the start position (radians).
+    md1 : float
+        Measured depth at the start position.
+    pos2 : ndarray of shape (3,) or None
+        Position at the end of the first arc section in NEV
+        coordinates. Equal to vec2 direction at this point.
+    vec2 : ndarray of shape (3,) or None
+        Unit direction vector at the end of the first arc.
+        Equals vec3 for curve-hold-curve solutions.
+    inc2 : float or None
+        Inclination at the end of the first arc (radians).
+    azi2 : float or None
+        Azimuth at the end of the first arc (radians).
+    md2 : float or None
+        Measured depth at the end of the first arc.
+    pos3 : ndarray of shape (3,) or None
+        Position at the start of the second arc (end of the
+        hold section) in NEV coordinates. Only set for
+        curve-hold-curve solutions.
+    vec3 : ndarray of shape (3,) or None
+        Unit direction vector at the start of the second arc.
+        Only set for curve-hold-curve solutions.
+    inc3 : float or None
+        Inclination at the start of the second arc (radians).
+    azi3 : float or None
+        Azimuth at the start of the second arc (radians).
+    md3 : float or None
+        Measured depth at the start of the second arc.
+    md_target : float
+        Measured depth at the target position.
+    pos_target : ndarray of shape (3,)
+        Target position in NEV coordinates.
+    vec_target : ndarray of shape (3,)
+        Target unit direction vector in NEV coordinates.
+    inc_target : float
+        Target inclination (radians).
+    azi_target : float
+        Target azimuth (radians).
+    dogleg : float
+        Dogleg angle of the first arc (radians).
+    dogleg2 : float or None
+        Dogleg angle of the second arc (radians). Only set for
+        curve-hold-curve solutions.
+    dist_curve : float
+        Arc length of the first curve section.
+    dist_curve2 : float
+        Arc length of the second curve section.
+    tangent_length : float or None
+        Length of the hold (tangent) section between the two
+        arcs.
+    dls : float
+        Dogleg severity of the first arc (radians per unit
+        length).
+    dls2 : float
+        Dogleg severity of the second arc (radians per unit
+        length).
+    dls_design : float
+        Design DLS constraint for the first arc (radians per
+        unit length).
+    dls_design2 : float
+        Design DLS constraint for the second arc (radians per
+        unit length).
+    radius_design : float
+        Design turn radius derived from dls_design.
+    radius_design2 : float
+        Design turn radius derived from dls_design2.
+    radius_critical : float
+        Critical (minimum geometric) radius for the first arc.
+    radius_critical2 : float
+        Critical radius for the second arc.
+
+    Methods
+    -------
+    interpolate(step=30)
+        Interpolate the solved trajectory at regular MD intervals.
+    """
+
+    def __init__(
+        self,
+        node1=None,
+        node2=None,
+        pos1=[0., 0., 0.],
+        vec1=None,
+        inc1=None,
+        azi1=None,
+        md1=0,
+        dls_design=3.0,
+        dls_design2=None,
+        md2=None,
+        pos2=None,
+        vec2=None,
+        inc2=None,
+        azi2=None,
+        degrees=True,
+        unit='meters',
+        min_error=1e-5,
+        delta_dls=0.1,
+        min_tangent=0.,
+        max_iterations=1_000,
+        force_min_curve=False,
+        closest_approach=False
+    ):
+        """Initializes the Connector and solves the trajectory.
+
+        Only specific combinations of input data are permitted. For example,
+        providing both a start vector and start inc/azi raises an error.
+        The solver determines the appropriate method from the provided
+        parameters and computes the connecting path immediately.
+
+        Parameters
+        ----------
+        node1 : Node or None
+            Start Node. Overrides pos1, vec1, md1 if provided.
+        node2 : Node or None
+            End Node. Overrides pos2, vec2, md2 if provided.
+        pos1 : list or ndarray
+            Start position as [n, e, v] in NEV coordinates.
+        vec1 : list or ndarray or None
+            Start unit direction vector in NEV coordinates.
+        inc1 : float or None
+            Start inclination angle.
+        azi1 : float or None
+            Start azimuth angle.
+        md1 : float
+            Start measured depth.
+        dls_design : float
+            Design DLS for the first curve section in
+            deg/30m (meters) or deg/100ft (feet).
+        dls_design2 : float or None
+            Design DLS for the second curve section. Defaults
+            to dls_design if None.
+        md2 : float or None
+            Target measured depth. Mutually exclusive with pos2.
+        pos2 : list or ndarray or None
+            Target position in NEV coordinates.
+        vec2 : list or ndarray or None
+            Target unit direction vector in NEV coordinates.
+            Mutually exclusive with inc2/azi2.
+        inc2 : float or None
+            Target inclination angle.
+        azi2 : float or None
+            Target azimuth angle.
+        degrees : bool
+            If True, angles are in degrees; if False, radians.
+        unit : str
+            Distance unit, either 'meters' or 'feet'.
+        min_error : float
+            Error tolerance for iterative convergence. Must be
+            less than 1.
+        delta_dls : float
+            DLS tolerance (deg/30m) for balancing curve sections
+            in curve-hold-curve solutions.
+        min_tangent : float
+            Minimum tangent length to stabilize
+            curve-hold-curve iteration.
+        max_iterations : int
+            Maximum iteration count for curve-hold-curve fitting.
+        force_min_curve : bool
+            If True, forces minimum-curvature method.
+        closest_approach : bool
+            If True, finds the closest-approach trajectory
+            when the target is inside the critical radius.
+
+        Raises
+        ------
+        AssertionError
+            If input parameter combinations are invalid.
+        """
+        if node1 is not None:
+            pos1, vec1, md1 = get_node_params(
+                node1
+            )
+        if node2 is not None:
+            pos2, vec2, md2 = get_node_params(
+                node2
+            )
+
+        # Set up a lookup dictionary to use with the logic to determine
+        # what connector method to deploy. Use a binary string to
+        # represent the inputs in the order:
+        # (md2, inc2, azi2, pos2, vec2)
+        # Initially I used boolean logic, but it quickly became non-
+        # transparent and difficult to debug.
+        self._get_initial_methods()
+
+        # METHODS = [
+        #     'hold',
+        #     'curve_hold',
+        #     'min_dist_to_target',
+        #     'min_curve_to_target',
+        #     'curve_hold_curve',
+        #     'min_curve'
+        # ]
+
+        # quick check that inputs are workable and if not some steer to
+        # the user.
+        assert vec1 is not None or (inc1 is not None and azi1 is not None), (
+            "Require either vec1 or (inc1 and azi1)"
+        )
+        if vec1 is not None:
+            assert inc1 is None and azi1 is None, (
+                "Either vec1 or (inc1 and azi1)"
+            )
+        if (inc1 is not None or azi1 is not None):
+            assert vec1 is None, "Either vec1 or (inc1 and azi1)"
+
+        assert (
+            md2 is not None
+            or pos2 is not None
+            or vec2 is not None
+            or inc2 is not None
+            or azi2 is not None
+        ), "Missing target parameters"
+
+        if vec2 is not None:
+            assert not (inc2 or azi2), "Either vec2 or (inc2 and azi2)"
+        if (inc2 is not None or azi2 is not None):
+            assert vec2 is None, "Either vec2 or (inc2 and azi2)"
+        if md2 is not None:
+            assert pos2 is None, "Either md2 or pos2"
+            assert md2 >= md1, "md2 must be larger than md1"
+
+        if dls_design is not None:
+            assert dls_design > 0, "dls_design must be greater than zero"
+        assert min_error < 1, "min_error must be less than 1.0"
+
+        # figure out what method is required to connect the points
+        target_input = convert_target_input_to_booleans(
+            md2, inc2, azi2, pos2, vec2
+        )
+
+        self.force_min_curve = force_min_curve
+        if self.force_min_curve:
+            self.initial_method = 'min_curve_or_hold'
+        else:
+            self.initial_method = self.initial_methods[target_input]
+
+        # do some more initialization stuff
+        self.min_error = min_error
+        self.min_tangent = min_tangent
+        self.iterations = 0
+        self.max_iterations = max_iterations
+        self.errors = []
+        self.radii = []
+        self.dogleg_old, self.dogleg2_old = 0, 0
+        self.dist_curve2 = 0
+        self.pos1 = np.array(pos1)
+
+        self.pos2, self.vec2, self.inc2, self.azi2, self.md2 = (
+            None, None, None, None, None
+        )
+
+        # fill in the input data gaps
+        if (inc1 is not None and azi1 is not None):
+            if degrees:
+                self.inc1 = np.radians(inc1)
+                self.azi1 = np.radians(azi1)
+            else:
+                self.inc1 = inc1
+                self.azi1 = azi1
+            self.vec1 = np.array(get_vec(
+                self.inc1, self.azi1, nev=True, deg=False
+            )).reshape(3)
+        else:
+            self.vec1 = np.array(vec1).reshape(3)
+            self.inc1, self.azi1 = get_angles(self.vec1, nev=True).reshape(2)
+
+        self.md1 = md1
+        self.pos_target = None if pos2 is None else np.array(pos2).reshape(3)
+        self.md_target = md2
+
+        if vec2 is not None:
+            self.vec_target = np.array(vec2).reshape(3)
+            self.inc_target, self.azi_target = get_angles(
+                self.vec_target,
+                nev=True
+            ).reshape(2)
+        elif (inc2 is not None and azi2 is not None):
+            if degrees:
+                self.inc_target = np.radians(inc2)
+                self.azi_target = np.radians(azi2)
+            else:
+                self.inc_target = inc2
+                self.azi_target = azi2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        elif inc2 is None and azi2 is None:
+            self.inc_target, self.azi_target, self.vec_target = (
+                self.inc1, self.azi1, self.vec1
+            )
+        elif inc2 is None:
+            self.inc_target = self.inc1
+            if degrees:
+                self.azi_target = np.radians(azi2)
+            else:
+                self.azi_target = azi2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        elif azi2 is None:
+            self.azi_target = self.azi1
+            if degrees:
+                self.inc_target = np.radians(inc2)
+            else:
+                self.inc_target = inc2
+            self.vec_target = get_vec(
+                self.inc_target, self.azi_target, nev=True, deg=False
+            ).reshape(3)
+        else:
+            self.vec_target = vec2
+            self.inc_target = inc2
+            self.azi_target = azi2
+
+        self.unit = unit
+        if self.unit == 'meters':
+            self.denom = 30
+        else:
+            self.denom = 100
+
+        # Primary DLS / radius.  dls_design=None means "use minimum curvature
+        # required by geometry" — radius_design is set to inf so that
+        # min(radius_design, radius_critical) always resolves to radius_critical.
+        if dls_design is None:
+            self.dls_design = 0.0
+            self.radius_design = np.inf
+        else:
+            self.dls_design = np.radians(dls_design) if degrees else dls_design
+            self.radius_design = self.denom / self.dls_design
+
+        # Secondary DLS (second arc of curve_hold_curve)
+        if dls_design2:
+            self.dls_design2 = np.radians(dls_design2) if degrees else dls_design2
+            self.radius_design2 = self.denom / self.dls_design2
+        else:
+            self.dls_design2 = self.dls_design
+            self.radius_design2 = self.radius_design
+
+        self.delta_dls = delta_dls
+
+        # some more initialization stuff
+        self.tangent_length = None
+        self.dogleg2 = None
+
+        self.pos3, self.vec3, self.inc3, self.azi3, self.md3 = (
+            None, None, None, None, None
+        )
+        self.radius_critical, self.radius_critical2 = np.inf, np.inf
+        self.closest_approach = closest_approach
+
+        # Things fall apart if the start and end vectors exactly equal
+        # one another, so need to check for this and if this is the
+        # case, modify the end vector slightly. This is a lazy way of
+        # doing this, but it's fast. Probably a more precise way would
+        # be to split the dogleg in two, but that's more hassle than
+        # it's worth.
+        if (
+            self.vec_target is not None
+            and np.array_equal(self.vec_target, self.vec1 * -1)
+        ):
+            (
+                self.vec_target,
+                self.inc_target,
+                self.azi_target
+            ) = mod_vec(self.vec_target, self.min_error)
+
+        # properly figure out the method
+        self._get_method()
+
+        # and finally, actually do something...
+        self._use_method()
+
+        self._get_nodes()
+
+    def _get_nodes(self):
+        self.node_start = Node(
+            pos=self.pos1.reshape(3),
+            vec=self.vec1.reshape(3),
+            md=self.md1
+        )
+        self.node_end = Node(
+            pos=self.pos_target.reshape(3),
+            vec=self.vec_target.reshape(3),
+            md=self.md_target
+        )
+
+    def _min_dist_to_target(self):
+        (
+            self.tangent_length,
+            self.dogleg
+        ) = min_dist_to_target(self.radius_design, self.distances)
+        self.dogleg = get_dogleg_to_target(
+            self.tangent_length, self.dogleg, self.distances
+        )
+        self.dogleg = check_dogleg(self.dogleg)
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            self.radius_design, self.dogleg
+        )
+        self.vec_target = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos_target,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+        self._get_angles_target()
+        self._get_md_target()
+        self.pos2 = (
+            self.pos_target - (
+                self.tangent_length * self.vec_target
+            )
+        )
+        self.md2 = self.md1 + abs(self.dist_curve)
+        self.md_target = self.md2 + self.tangent_length
+        self.vec2 = self.vec_target
+        self.dls = np.degrees(self.dogleg) / abs(self.dist_curve) * 30
+
+    def _min_curve_to_target(self):
+        (
+            self.tangent_length,
+            self.radius_critical,
+            self.dogleg
+        ) = min_curve_to_target(self.distances)
+        self.dogleg = check_dogleg(self.dogleg)
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            min(self.radius_design, self.radius_critical), self.dogleg
+        )
+        self.vec_target = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos_target,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+        self._get_angles_target()
+        self._get_md_target()
+        self.dls = np.degrees(self.dogleg) / self.dist_curve * 30
+
+    def _use_method(self):
+        if self.method == 'hold':
+            self._hold()
+        elif self.method == 'min_curve':
+            self._min_curve()
+        elif self.method == 'curve_hold_curve':
+            self.pos2_list, self.pos3_list = [], [deepcopy(self.pos_target)]
+            self.vec23 = [np.array([0., 0., 0.])]
+            self.delta_radius_list = []
+            # self._target_pos_and_vec_defined(deepcopy(self.pos_target))
+            self._target_pos_and_vec_defined(
+                self.pos1 + (self.pos_target - self.pos1) / 2
+            )
+        else:
+            self.distances = self._get_distances(
+                self.pos1, self.vec1, self.pos_target
+            )
+            if self.radius_design <= get_radius_critical(
+                self.radius_design, self.distances, self.min_error
+            ):
+                self.method = 'min_dist_to_target'
+                self._min_dist_to_target()
+            else:
+                if self.closest_approach:
+                    self.method = 'min_curve_to_target'
+                    self._closest_approach()
+                else:
+                    self.method = 'min_curve_to_target'
+                    self._min_curve_to_target()
+
+    def _get_method(self):
+        assert self.initial_method not in [
+            'no_input',
+            'vec_and_inc_azi',
+            'md_and_pos'
+        ], f"{self.initial_method}"
+        if self.initial_method == 'hold':
+            self.method = 'hold'
+        elif self.initial_method[-8:] == '_or_hold':
+            if np.array_equal(self.vec_target, self.vec1):
+                if self.pos_target is None:
+                    self.method = 'hold'
+                elif np.allclose(
+                        self.vec_target,
+                        (self.pos_target - self.pos1)
+                        / np.linalg.norm(self.pos_target - self.pos1)
+                ):
+                    self.method = 'hold'
+                else:
+                    self.method = self.initial_method[:-8]
+            else:
+                self.method = self.initial_method[:-8]
+        else:
+            self.method = self.initial_method
+
+    def _get_initial_methods(self):
+        # TODO: probably better to load this in from a yaml file
+        # [md2, inc2, azi2, pos2, vec2] forms the booleans
+        self.initial_methods = {
+            '00000': 'no_input',
+            '00001': 'min_curve_or_hold',
+            '00010': 'curve_hold_or_hold',
+            '00011': 'curve_hold_curve_or_hold',
+            '00100': 'min_curve_or_hold',
+            '00101': 'vec_and_inc_azi',
+            '00110': 'curve_hold',
+            '00111': 'vec_and_inc_azi',
+            '01000': 'min_curve_or_hold',
+            '01001': 'vec_and_inc_azi',
+            '01010': 'curve_hold_or_hold',
+            '01011': 'vec_and_inc_azi',
+            '01100': 'min_curve_or_hold',
+            '01101': 'vec_and_inc_azi',
+            '01110': 'curve_hold_curve_or_hold',
+            '01111': 'vec_and_inc_azi',
+            '10000': 'hold',
+            '10001': 'min_curve_or_hold',
+            '10010': 'md_and_pos',
+            '10011': 'md_and_pos',
+            '10100': 'min_curve_or_hold',
+            '10101': 'vec_and_inc_azi',
+            '10110': 'md_and_pos',
+            '10111': 'md_and_pos',
+            '11000': 'min_curve_or_hold',
+            '11001': 'vec_and_inc_azi',
+            '11010': 'md_and_pos',
+            '11011': 'md_and_pos',
+            '11100': 'min_curve_or_hold',
+            '11101': 'vec_and_inc_azi',
+            '11110': 'md_and_pos',
+            '11111': 'md_and_pos'
+        }
+
+    def _closest_approach(self):
+        vec_pos1_pos_target = self.pos_target - self.pos1
+        vec_pos1_pos_target /= np.linalg.norm(vec_pos1_pos_target)
+
+        cross_product = np.cross(vec_pos1_pos_target, self.vec1)
+        cross_product /= np.linalg.norm(cross_product)
+
+        factor = cross_product / vec_pos1_pos_target
+        factor /= abs(factor)
+
+        cc = (
+            self.pos1 + cross_product * factor * self.radius_design
+        )
+
+        cc_pos_target = self.pos_target - cc
+        cc_pos_target /= np.linalg.norm(cc_pos_target)
+
+        self.pos_target_original = copy(self.pos_target)
+
+        self.pos_target = cc + cc_pos_target * self.radius_design
+
+        # recalculate self.distances with new self.pos_target
+        self.distances = self._get_distances(
+                self.pos1, self.vec1, self.pos_target
+            )
+
+        self._min_curve_to_target()
+
+    def _min_curve(self):
+        self.dogleg = get_dogleg(
+            self.inc1, self.azi1, self.inc_target, self.azi_target
+        )
+
+        self.dogleg = check_dogleg(self.dogleg)
+        if self.md_target is None:
+            if not np.isfinite(self.radius_design):
+                raise ValueError(
+                    "dls_design must be specified (not None) when only a "
+                    "target direction is given without a target position or "
+                    "measured depth."
+                )
+            self.md2 = None
+            self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        self.radius_design, self.dogleg
+                    )
+            self.md_target = self.md1 + abs(self.dist_curve)
+            self.pos_target = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec_target,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+        else:
+            with np.errstate(divide='ignore'):
+                self.radius_critical = np.nan_to_num(abs(
+                    (self.md_target - self.md1) / self.dogleg
+                ), nan=np.inf)
+            if (
+                self.radius_critical > self.radius_design
+                or (
+                    np.around(self.dogleg, decimals=5)
+                    == np.around(np.pi, decimals=5)
+                )
+            ):
+                self.md2 = (
+                    self.md1
+                    + min(self.radius_design, self.radius_critical)
+                    * self.dogleg
+                )
+                (
+                    self.inc2, self.azi2, self.vec2
+                ) = self.inc_target, self.azi_target, self.vec_target
+                self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        min(self.radius_design, self.radius_critical),
+                        self.dogleg
+                )
+                self.pos2 = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec2,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+                self.pos_target = self.pos2 + (
+                    self.vec2 * (self.md_target - self.md2)
+                )
+            else:
+                self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                        self.radius_critical, self.dogleg
+                    )
+                self.md2 = None
+                self.pos_target = get_pos(
+                    self.pos1,
+                    self.vec1,
+                    self.vec_target,
+                    self.dist_curve,
+                    self.func_dogleg
+                ).reshape(3)
+
+    def _hold(self):
+        if self.pos_target is None:
+            self.pos_target = (
+                self.pos1 + self.vec1 * (self.md_target - self.md1)
+            )
+        if self.md_target is None:
+            self.md_target = (
+                np.linalg.norm(self.pos_target - self.pos1)
+                + self.md1
+            )
+        self.dls, self.dls2 = 0.0, 0.0
+
+    def _get_angles_target(self):
+        self.inc_target, self.azi_target = get_angles(
+            self.vec_target, nev=True
+        ).reshape(2)
+
+    def _get_md_target(self):
+        self.md_target = (
+            self.dist_curve
+            + self.tangent_length
+            + self.dist_curve2
+            + self.md1
+        )
+
+    def _get_pos2(self, pos1, vec1, pos_target, radius):
+        # _get_distances might move pos_target in place, which may never be
+        # the start or the end position of the connector itself.
+        pos_target = np.array(pos_target, dtype=float)
+        distances = self._get_distances(pos1, vec1, pos_target)
+
+        radius_temp = get_radius_critical(
+            self.radius_design,
+            distances,
+            self.min_error
+        )
+        if radius_temp > radius:
+            radius_temp = radius
+            assert self.radius_critical > 0
+
+        (
+            tangent_length,
+            dogleg
+        ) = min_dist_to_target(
+            radius_temp,
+            distances
+        )
+
+        dogleg = check_dogleg(dogleg)
+
+        dist_curve, func_dogleg = get_curve_hold_data(
+                    radius_temp,
+                    dogleg
+                )
+        vec3 = get_vec_target(
+            pos1,
+            vec1,
+            pos_target,
+            tangent_length,
+            dist_curve,
+            func_dogleg
+        )
+
+        tangent_temp = self._get_tangent_temp(tangent_length)
+
+        pos2 = (
+            pos_target - (
+                tangent_temp * vec3
+            )
+        )
+        return pos2
+
+    def _target_pos_and_vec_defined(self, pos3, vec_old=[0., 0., 0.]):
+        """
+        Function for fitting a curve, hold, curve path between a pair of
+        points with vectors.
+
+        It's written in this odd way to allow a solver function like scipy's
+        optimize to solve it, but so far I've not had much success using
+        these.
+
+        If the curve sections can't be achieved with the design DLS values,
+        this function will iterate until the two curve section DLSs are
+        approximately balances (in DLS terms) within the prescribed delta_dls
+        parameter.
+        """
+        minimize_target_pos_and_vec_defined(
+            [self.radius_design, self.radius_design2],
+            self, None, None, True
+        )
+        # Re-evaluate whether the outer loop is needed using the FINAL
+        # converged geometry (not the running minimum radius_critical, which
+        # may have been locked too low by transient tight iteration states).
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            _rc1 = get_radius_critical(
+                self.radius_design, self.distances1, self.min_error
+            )
+            _rc2 = get_radius_critical(
+                self.radius_design2, self.distances2, self.min_error
+            )
+            _outer_needed = not all((_rc1 >= self.radius_design, _rc2 >= self.radius_design2))
+        else:
+            _outer_needed = not all((
+                self.radius_critical > self.radius_design,
+                self.radius_critical2 > self.radius_design2
+            ))
+        if _outer_needed:
+            # Try the r_safe seeding approach first: solve at r_safe=dist/4
+            # (guaranteed to converge for any geometry), then use the result
+            # as seed for a design-radius re-solve.  This can escape the tight
+            # fixed point that the initial call converged to.
+            dist_to_target = np.linalg.norm(self.pos_target - self.pos1)
+            r_safe = dist_to_target / 4.0
+            if 0 < r_safe < min(self.radius_design, self.radius_design2):
+                minimize_target_pos_and_vec_defined(
+                    [r_safe, r_safe], self, None, None, True
+                )
+                pos3_seed = deepcopy(self.pos3)
+                vec_seed = (
+                    deepcopy(self.vec23[-1]) if len(self.vec23) > 0 else None
+                )
+                # Reset running minima (r_safe call left them at small value).
+                self.radius_critical = np.inf
+                self.radius_critical2 = np.inf
+                minimize_target_pos_and_vec_defined(
+                    [self.radius_design, self.radius_design2],
+                    self, pos3_seed, vec_seed, True
+                )
+                # Re-check with final geometry
+                if hasattr(self, 'distances1') and self.distances1 is not None:
+                    _rc1 = get_radius_critical(
+                        self.radius_design, self.distances1, self.min_error
+                    )
+                    _rc2 = get_radius_critical(
+                        self.radius_design2, self.distances2, self.min_error
+                    )
+                    _outer_needed = not all(
+                        (_rc1 >= self.radius_design, _rc2 >= self.radius_design2)
+                    )
+                else:
+                    _outer_needed = not all((
+                        self.radius_critical > self.radius_design,
+                        self.radius_critical2 > self.radius_design2
+                    ))
+
+        if _outer_needed:
+            # Design DLS still cannot be achieved; iterate to balance curvature
+            # across both arcs.  Use a *separate* counter so that the inner
+            # convergence iterations (tracked via self.iterations) do not
+            # prematurely exhaust the outer balancing budget.
+            for _outer in range(self.max_iterations):
+                self.radius_critical = (
+                    (self.md_target - self.md1)
+                    / (abs(self.dogleg) + abs(self.dogleg2))
+                )
+                if not (self.radius_critical >= 0):
+                    break
+                self.radius_critical2 = self.radius_critical
+                minimize_target_pos_and_vec_defined(
+                    [self.radius_design, self.radius_design2],
+                    self, deepcopy(self.pos3), deepcopy(self.vec23[-1]), True
+                )
+
+                # Position-stability check: compare against last 5 positions
+                # explicitly (avoids ambiguous np.allclose broadcasting with
+                # a list of arrays).
+                n_hist = min(5, len(self.pos3_list))
+                pos3_stable = n_hist >= 5 and all(
+                    np.allclose(self.pos3, p) for p in self.pos3_list[-5:]
+                )
+                pos2_stable = n_hist >= 5 and all(
+                    np.allclose(self.pos2, p) for p in self.pos2_list[-5:]
+                )
+
+                if any((
+                    abs(self.dls - self.dls2) < self.delta_dls,
+                    np.allclose(self.pos1, self.pos2),
+                    np.allclose(self.pos3, self.pos_target),
+                    pos3_stable and pos2_stable,
+                    all((
+                        self.dls == self.dls_design,
+                        self.dls2 == self.dls_design2
+                    ))
+                )):
+                    break
+            self._happy_finish()
+            self._delta_pos3_rescue()
+            self._project_tangent()
+            self._endpoint_rescue()
+            self._enforce_planarity()
+            return
+
+        self._happy_finish()
+        self._delta_pos3_rescue()
+        self._project_tangent()
+        self._endpoint_rescue()
+        self._enforce_planarity()
+
+    def _happy_finish(self):
+        # Use the critical radius at the FINAL converged geometry rather than the
+        # running-minimum radius_critical, which may have been locked too low by
+        # transient tight iteration states.  This ensures dist_curve is computed
+        # with the same effective radius that was used to derive self.dogleg in
+        # the last iteration step, keeping the arc geometry self-consistent.
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            rc1_final = get_radius_critical(
+                self.radius_design, self.distances1, self.min_error
+            )
+            r1 = min(rc1_final, self.radius_design)
+        else:
+            r1 = min(self.radius_critical, self.radius_design)
+        # get pos1 to pos2 curve data
+        self.dist_curve, self.func_dogleg = get_curve_hold_data(
+            r1,
+            self.dogleg
+        )
+
+        self.vec3 = get_vec_target(
+            self.pos1,
+            self.vec1,
+            self.pos3,
+            self.tangent_length,
+            self.dist_curve,
+            self.func_dogleg
+        )
+
+        # Resync dogleg and arc-1 length from the just-computed vec3.
+        # _happy_finish may be called after _enforce_planarity changes vec3 or
+        # after any iteration that updates pos3.  The stored self.dogleg may
+        # therefore differ from the actual angle between vec1 and vec3, making
+        # dist_curve (= r1 * old_dogleg) inconsistent with the SLERP geometry.
+        # from_connections reconstructs pos2 via minimum-curvature using the
+        # actual inc/azi of vec3, so it needs dist_curve to match the true arc
+        # length for vec1→vec3 at radius r1.
+        actual_dogleg = float(np.arccos(
+            np.clip(np.dot(self.vec1, self.vec3), -1.0, 1.0)
+        ))
+        if abs(actual_dogleg - self.dogleg) > 1e-9:
+            self.dogleg = actual_dogleg
+            self.dist_curve, self.func_dogleg = get_curve_hold_data(
+                r1, self.dogleg
+            )
+
+        self.vec2 = self.vec3
+
+        self.pos2 = get_pos(
+            self.pos1,
+            self.vec1,
+            self.vec3,
+            self.dist_curve,
+            self.func_dogleg
+        ).reshape(3)
+
+        self.md2 = self.md1 + abs(self.dist_curve)
+
+        if hasattr(self, 'distances2') and self.distances2 is not None:
+            rc2_final = get_radius_critical(
+                self.radius_design2, self.distances2, self.min_error
+            )
+            r2 = min(rc2_final, self.radius_design2)
+        else:
+            r2 = min(self.radius_critical2, self.radius_design2)
+
+        # Recompute dogleg2 from the actual directional change between vec3 and
+        # vec_target.  The iteration stores dogleg2 = min_dist_to_target result
+        # (a geometric parameter), which can differ from arccos(dot(vec3,
+        # vec_target)) after _happy_finish re-derives vec3 from arc1.  Using the
+        # wrong angle in the SLERP formula inside interpolate_curve produces
+        # incorrect (spiralling) visualisation paths.
+        self.dogleg2 = float(np.arccos(
+            np.clip(np.dot(self.vec3, self.vec_target), -1.0, 1.0)
+        ))
+        self.dist_curve2, self.func_dogleg2 = get_curve_hold_data(
+            r2,
+            self.dogleg2
+        )
+
+        # ── Endpoint-consistency fix ──────────────────────────────────────────
+        # The rendered path (from_connections / minimum-curvature integration)
+        # starts arc2 from hold_end = pos2 + T·vec3, NOT from the backward-
+        # traced pos3.  If pos3 is off the tangent ray the rendered endpoint
+        # misses pos_target by exactly the perpendicular component of
+        # (pos3_backward − pos2) w.r.t. vec3.
+        #
+        # For well-converged cases (perp < 1 mm) this is negligible and we
+        # preserve the backward-trace geometry to avoid touching dist_curve2.
+        #
+        # For DLS-violation cases the iteration may leave a large perpendicular
+        # residual.  The 2×2 projection finds T and dist_curve2 that solve:
+        #   pos2 + T·vec3 + (dist_curve2·RF/2)·(vec3+vec_target) = pos_target
+        # in the plane of {vec3, vec_target}, eliminating the in-plane part
+        # of the endpoint error.  The remaining (out-of-plane) residual can
+        # only be removed by finding a better vec3 via a tighter-radius retry.
+
+        # Step 1: backward trace to locate pos3 (guarantees arc2 → pos_target)
+        pos3_bt   = get_pos(
+            self.pos_target,
+            self.vec_target * -1,
+            self.vec3 * -1,
+            self.dist_curve2,
+            self.func_dogleg2
+        ).reshape(3)
+        t_along   = float(np.dot(pos3_bt - self.pos2, self.vec3))
+        perp_vec  = pos3_bt - self.pos2 - t_along * self.vec3
+        perp_norm = float(np.linalg.norm(perp_vec))
+
+        # Step 2: 2×2 projection only when perpendicular drift is significant
+        _PERP_THRESHOLD = 1e-3   # 1 mm — noise floor for well-converged cases
+        _applied_2x2 = False
+        if perp_norm > _PERP_THRESHOLD:
+            delta  = self.pos_target - self.pos2
+            p_comp = float(np.dot(delta, self.vec3))
+            q_comp = float(np.dot(delta, self.vec_target))
+            c_dot  = float(np.dot(self.vec3, self.vec_target))
+            sin2   = 1.0 - c_dot * c_dot
+            if sin2 > 1e-6 and abs(self.func_dogleg2) > 1e-10:
+                a_coef = (p_comp - c_dot * q_comp) / sin2
+                b_coef = (q_comp - c_dot * p_comp) / sin2
+                if b_coef >= 0.0:
+                    tangent_length   = float(max(0.0, a_coef - b_coef))
+                    self.dist_curve2 = float(
+                        max(0.0, 2.0 * b_coef / self.func_dogleg2)
+                    )
+                    self.pos3        = self.pos2 + tangent_length * self.vec3
+                    _applied_2x2 = True
+
+        if not _applied_2x2:
+            # Well-converged (or 2×2 degenerate): tangent-project only
+            tangent_length = max(0.0, t_along)
+            self.pos3      = self.pos2 + tangent_length * self.vec3
+
+        self.md3       = self.md2 + tangent_length
+        self.md_target = self.md3 + abs(self.dist_curve2)
+
+        return self
+
+    def _delta_pos3_rescue(self):
+        """
+        Final geometric-consistency check after _happy_finish.
+
+        If the tangent section is backward (dot(pos3-pos2, vec3) < 0) the
+        path doubles back on itself.  Re-seed with pos3 = pos2 (zero tangent)
+        to force the iteration to find a forward path, then only keep the
+        rescue result if it has a strictly better (higher) minimum arc radius.
+        """
+        _tangent_proj = float(np.dot(self.pos3 - self.pos2, self.vec3))
+        if _tangent_proj >= -self.min_error:
+            return  # tangent is already forward — nothing to fix
+
+        # Snapshot the current _happy_finish outputs before attempting rescue
+        _state_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+        )
+        _saved = {k: deepcopy(getattr(self, k)) for k in _state_keys}
+
+        _r_before = min(
+            self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
+            self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
+        )
+
+        for _seed in (
+            deepcopy(self.pos2),                  # zero-tangent seed
+            0.5 * (self.pos2 + self.pos_target),  # midpoint fallback
+        ):
+            self.radius_critical = np.inf
+            self.radius_critical2 = np.inf
+            minimize_target_pos_and_vec_defined(
+                [self.radius_design, self.radius_design2],
+                self, _seed, None, True
+            )
+            self._happy_finish()
+            _tp = float(np.dot(self.pos3 - self.pos2, self.vec3))
+            _r_after = min(
+                self.dist_curve / self.dogleg if self.dogleg > 1e-10 else self.radius_design,
+                self.dist_curve2 / self.dogleg2 if self.dogleg2 > 1e-10 else self.radius_design,
+            )
+            if _tp >= -self.min_error and _r_after >= _r_before - self.min_error:
+                return  # rescue improved or matched — keep it
+
+        # Rescue did not improve things — restore the saved state
+        for k, v in _saved.items():
+            setattr(self, k, v)
+
+    def _project_tangent(self):
+        """Project pos3 onto the tangent ray from pos2 along vec3.
+
+        _happy_finish computes pos2 (arc1 end) and pos3 (arc2 start) via
+        independent minimum-curvature traces.  When the iteration has not
+        fully converged — or when dogleg2 is near π so the minimum-curvature
+        ratio-factor blows up — pos3 may lie far off the tangent ray
+        pos2 + t*vec3.  The survey reconstruction (interpolate_hold) advances
+        strictly along vec3, so the hold section ends at pos2 + t*vec3 while
+        arc2 still starts at the raw pos3.  That geometric gap produces the
+        visually anomalous ~90° phase difference seen in the edge-case viewer.
+
+        Fix: replace pos3 with its projection onto the tangent ray.  The
+        projected tangent length is dot(pos3-pos2, vec3), clamped to ≥ 0.
+        This eliminates the hold→arc2 discontinuity.  Arc2 dogleg and arc
+        length are unchanged (they depend only on vec3, vec_target, and the
+        radius), so the path is geometrically self-consistent.
+
+        Called after _delta_pos3_rescue so that rescue still operates on the
+        un-projected geometry (its backward-tangent trigger requires the raw
+        dot-product, which is <= 0 before projection).
+        """
+        # _happy_finish now projects tangent_length inline and places pos3 via
+        # the backward arc2 trace (keeping arc2 geometrically consistent with
+        # pos_target).  This method is retained as a safety net to update MD
+        # whenever pos3 has been changed by _delta_pos3_rescue.
+        tangent_length = max(
+            0.0, float(np.dot(self.pos3 - self.pos2, self.vec3))
+        )
+        self.md3 = self.md2 + tangent_length
+        self.md_target = self.md3 + abs(self.dist_curve2)
+
+    def _rendered_endpoint_error(self):
+        """Return the distance from the rendered arc2 endpoint to pos_target.
+
+        The rendered path integrates continuously from pos1, so arc2 starts
+        from hold_end = pos2 + T·vec3 (not from pos3 directly).  Any gap
+        between hold_end and pos3 translates directly into an endpoint error.
+        """
+        t = max(0.0, float(np.dot(self.pos3 - self.pos2, self.vec3)))
+        hold_end = self.pos2 + t * self.vec3
+        rendered = (
+            hold_end
+            + (self.dist_curve2 * self.func_dogleg2 / 2)
+            * (self.vec3 + self.vec_target)
+        )
+        return float(np.linalg.norm(self.pos_target - rendered))
+
+    def _endpoint_rescue(self):
+        """Retry with progressively tighter radii when the rendered endpoint
+        still misses pos_target by more than 1 mm after _happy_finish.
+
+        The fixed-point iterator can converge to a spurious local minimum for
+        DLS-violation geometries, leaving a large out-of-plane residual that
+        the 2×2 in-plane projection cannot eliminate.  Using a tighter design
+        radius enlarges the set of reachable vec3 directions and typically
+        allows the iterator to escape the bad basin.
+
+        Each retry uses a fresh geometric seed (pos3=None) and keeps whichever
+        result achieves the smallest rendered endpoint error.
+        """
+        _THRESHOLD = 1e-3   # 1 mm
+        err0 = self._rendered_endpoint_error()
+        if err0 <= _THRESHOLD:
+            return
+
+        _save_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+        )
+        best_err   = err0
+        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+
+        r_base = min(self.radius_design, self.radius_design2)
+        for shrink in [0.5, 0.25, 0.125]:
+            r_try = r_base * shrink
+            self.radius_critical  = np.inf
+            self.radius_critical2 = np.inf
+            minimize_target_pos_and_vec_defined(
+                [r_try, r_try], self, None, None, True
+            )
+            self._happy_finish()
+            err_new = self._rendered_endpoint_error()
+            if err_new < best_err:
+                best_err   = err_new
+                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+            if best_err <= _THRESHOLD:
+                break
+
+        # Restore the geometry that achieved the smallest endpoint error
+        for k, v in best_state.items():
+            setattr(self, k, v)
+
+    def _enforce_planarity(self, max_iters=8, tol=1e-3):
+        """Adjust vec3 to lie in the {pos_target−pos2, vec_target} plane.
+
+        After _endpoint_rescue, an out-of-plane residual may remain because the
+        fixed-point iterator converged to a vec3 that is not coplanar with
+        (pos_target − pos2) and vec_target.  The 2×2 projection in _happy_finish
+        can only correct the in-plane part; the out-of-plane part can only be
+        removed by rotating vec3 itself.
+
+        Strategy: project the current vec3 onto span{delta, vec_target} (where
+        delta = pos_target − pos2) and re-seed _happy_finish so it recovers the
+        corrected direction.  Iterate until the rendered endpoint error drops
+        below tol (1 mm) or max_iters is exhausted.
+        """
+        if self._rendered_endpoint_error() <= tol:
+            return
+
+        # Determine the effective arc-1 radius from the post-rescue state.
+        if hasattr(self, 'distances1') and self.distances1 is not None:
+            r1 = min(
+                get_radius_critical(self.radius_design, self.distances1, self.min_error),
+                self.radius_design
+            )
+        elif np.isfinite(self.radius_critical) and self.radius_critical > 0:
+            r1 = min(self.radius_critical, self.radius_design)
+        else:
+            r1 = self.radius_design
+
+        _save_keys = (
+            'pos2', 'pos3', 'vec2', 'vec3',
+            'dist_curve', 'dist_curve2', 'func_dogleg', 'func_dogleg2',
+            'dogleg', 'dogleg2', 'md2', 'md3', 'md_target',
+            'radius_critical', 'radius_critical2',
+        )
+        best_err = self._rendered_endpoint_error()
+        best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+
+        for _ in range(max_iters):
+            # Compute arc-1 endpoint (pos2) from the current vec3 at r1
+            dc1, fd1 = get_curve_hold_data(r1, self.dogleg)
+            pos2 = get_pos(
+                self.pos1, self.vec1, self.vec3, dc1, fd1
+            ).reshape(3)
+            delta = self.pos_target - pos2
+
+            # Build an ONB for span{delta, vec_target}
+            d_norm = float(np.linalg.norm(delta))
+            if d_norm < 1e-10:
+                break  # pos_target ≈ pos2 — degenerate
+            d_hat = delta / d_norm
+
+            vt_comp = float(np.dot(self.vec_target, d_hat))
+            v_perp = self.vec_target - vt_comp * d_hat
+            v_perp_norm = float(np.linalg.norm(v_perp))
+            if v_perp_norm < 1e-8:
+                break  # vec_target ∥ delta — unconstrained direction
+
+            v_hat = v_perp / v_perp_norm
+
+            # Project vec3 onto the {d_hat, v_hat} plane
+            proj = (
+                float(np.dot(self.vec3, d_hat)) * d_hat
+                + float(np.dot(self.vec3, v_hat)) * v_hat
+            )
+            proj_norm = float(np.linalg.norm(proj))
+            if proj_norm < 1e-10:
+                break  # vec3 ⊥ plane — cannot project
+
+            new_vec3 = proj / proj_norm
+            if np.allclose(new_vec3, self.vec3, atol=1e-9):
+                break  # already in-plane — nothing to do
+
+            new_dogleg = float(np.arccos(np.clip(
+                np.dot(self.vec1, new_vec3), -1.0, 1.0
+            )))
+
+            # Compute pos2 seed so that _happy_finish recovers new_vec3:
+            #   get_vec_target(pos1, vec1, pos2_new, 0, dc1_new, fd1_new) = new_vec3
+            dc1_new, fd1_new = get_curve_hold_data(r1, new_dogleg)
+            pos2_new = get_pos(
+                self.pos1, self.vec1, new_vec3, dc1_new, fd1_new
+            ).reshape(3)
+
+            # Seed _happy_finish with the planarity-corrected direction
+            self.dogleg = new_dogleg
+            self.vec3 = new_vec3
+            self.pos3 = pos2_new        # tangent_length = 0 seed
+            self.tangent_length = 0.0
+            self.distances1 = None      # force _happy_finish to use radius_critical
+            self.radius_critical = r1
+            self.radius_critical2 = np.inf
+            self._happy_finish()
+
+            err_new = self._rendered_endpoint_error()
+            if err_new < best_err:
+                best_err = err_new
+                best_state = {k: deepcopy(getattr(self, k)) for k in _save_keys}
+            if best_err <= tol:
+                break
+
+        # Always restore the state that achieved the smallest endpoint error
+        for k, v in best_state.items():
+            setattr(self, k, v)
+
+    def interpolate(self, step=30):
+        """Interpolates the connector trajectory at regular MD intervals.
+
+        Parameters
+        ----------
+        step : float
+            Desired delta measured depth between survey points.
+
+        Returns
+        -------
+        list
+            A list of interpolated survey data dictionaries.
+        """
+        return interpolate_well([self], step)
+
+    def _get_tangent_temp(self, tangent_length):
+        if np.isnan(tangent_length):
+            tangent_temp = self.min_tangent
+        else:
+            tangent_temp = max(tangent_length, self.min_tangent)
+
+        return tangent_temp
+
+    def _mod_pos(self, pos):
+        # reproducible, so that the same connection always has the same result
+        pos_rand = np.random.default_rng(0).random(3)  # * self.delta_radius
+        pos += pos_rand
+
+    def _get_distances(self, pos1, vec1, pos_target):
+        # When initializing a `curve_hold_curve` and pos_target is directly
+        # ahead it can cause issues (it's a hold and not a curve). So this code
+        # checks for that condition and if it's the case, will move the
+        # target_pos a sufficient amount to prevent issues.
+        vec_temp = np.array(pos_target - pos1)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            vec_temp = vec_temp / np.linalg.norm(vec_temp)
+        if np.array_equal(vec1, vec_temp):
+            self._mod_pos(pos_target)
+        if np.allclose(pos1, pos_target):
+            return (0, 0, 0)
+
+        else:
+            dist_to_target = (
+                np.linalg.norm((pos_target - pos1))
+            )
+
+            dist_perp_to_target = (
+                np.dot((pos_target - pos1), vec1)
+            )
+            if dist_perp_to_target > dist_to_target:
+                # since a tolerance is being used, occasionally things can go
+                # wrong and need to be caught.
+                dist_perp_to_target = dist_to_target
+
+            dist_norm_to_target = (
+                (
+                    dist_to_target ** 2
+                    - dist_perp_to_target ** 2
+                ) ** 0.5
+            )
+
+            return (
+                dist_to_target,
+                dist_perp_to_target,
+                dist_norm_to_target
+            )
+
+
+def minimize_target_pos_and_vec_defined(
+    x, c, pos3=None, vec_old=None, result=False
+):
+    """Iteratively solves curve-hold-curve geometry between two nodes.
+
+    Uses a damped fixed-point iteration (alpha=0.5) on the intermediate
+    tangent point to find the curve-hold-curve path connecting the start
+    and target positions/vectors on the Connector.
+
+    Parameters
+    ----------
+    x : list
+        List of [radius1, radius2] for the two curve sections.
+    c : Connector
+        The Connector instance whose state is updated in place.
+    pos3 : ndarray or None
+        Optional initial guess for the intermediate tangent point.
+    vec_old : ndarray or None
+        Optional previous tangent direction for convergence check.
+    result : bool
+        If True, returns the Connector; if False, returns a scalar
+        residual for use with optimizers.
+
+    Returns
+    -------
+    Connector or float
+        The Connector instance if result is True, otherwise a float
+        residual measuring how much the design radii were violated.
+    """
+    if vec_old is None:
+        vec_old = np.array([0., 0., 0.])
+
+    radius1, radius2 = x
+
+    # Initialise the intermediate tangent point
+    if pos3 is None:
+        pos2_init = c._get_pos2(c.pos1, c.vec1, c.pos_target, radius1)
+        pos3_init = c._get_pos2(
+            c.pos_target, c.vec_target * -1, c.pos1, radius2
+        )
+        pos3_mid = pos2_init + (pos3_init - pos2_init) / 2
+
+        # Check whether the midpoint is inside the critical circle of either
+        # endpoint at the design DLS.  If so, the running minimum would lock
+        # in a tight radius from step 1.  Fall back to a point directly ahead
+        # of pos1 along vec1 (dist_norm = 0 → radius_critical = ∞), which is
+        # guaranteed to be in the design-DLS basin.
+        d1 = c._get_distances(c.pos1, c.vec1, pos3_mid)
+        d2 = c._get_distances(c.pos_target, c.vec_target * -1, pos3_mid)
+        rc1 = get_radius_critical(radius1, d1, c.min_error)
+        rc2 = get_radius_critical(radius2, d2, c.min_error)
+        if rc1 >= radius1 and rc2 >= radius2:
+            c.pos3 = pos3_mid
+        else:
+            # Midpoint is inside a critical circle.  Find a fallback pos3
+            # that is guaranteed to be in the design-DLS basin:
+            #   pos1 + R*vec1 + 2R*perp
+            # gives dist_norm = 2R → rc = 5R²/(4R) = 1.25R ≥ R.
+            # perp points in the component of (pos_target - pos1)
+            # perpendicular to vec1 so the guess is biased toward the target.
+            chord = c.pos_target - c.pos1
+            d_perp = chord - np.dot(chord, c.vec1) * c.vec1
+            d_perp_norm = np.linalg.norm(d_perp)
+            if d_perp_norm > 1e-10:
+                d_perp_hat = d_perp / d_perp_norm
+            else:
+                # Target is directly ahead/behind: pick any perpendicular
+                arb = np.array([1., 0., 0.])
+                if abs(np.dot(c.vec1, arb)) > 0.9:
+                    arb = np.array([0., 1., 0.])
+                d_perp_hat = np.cross(c.vec1, arb)
+                d_perp_hat /= np.linalg.norm(d_perp_hat)
+            # Try four candidate positions: ±d_perp and ±d_perp_cross
+            # (the 90°-rotated perpendicular).  Pick the first that is
+            # also outside the critical circle of pos_target.
+            d_perp_cross = np.cross(c.vec1, d_perp_hat)
+            d_perp_cross_norm = np.linalg.norm(d_perp_cross)
+            if d_perp_cross_norm > 1e-10:
+                d_perp_cross /= d_perp_cross_norm
+            else:
+                d_perp_cross = d_perp_hat  # degenerate: fallback
+            chosen = None
+            best_min_rc = -np.inf
+            best_candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * d_perp_hat
+            for perp in (d_perp_hat, -d_perp_hat, d_perp_cross, -d_perp_cross):
+                candidate = c.pos1 + radius1 * c.vec1 + 2.0 * radius1 * perp
+                dd2 = c._get_distances(c.pos_target, c.vec_target * -1, candidate)
+                rc2_cand = get_radius_critical(radius2, dd2, c.min_error)
+                if rc2_cand >= radius2:
+                    chosen = candidate
+                    break
+                # Track the candidate with the highest minimum rc
+                if rc2_cand > best_min_rc:
+                    best_min_rc = rc2_cand
+                    best_candidate = candidate
+            c.pos3 = chosen if chosen is not None else best_candidate
+    else:
+        c.pos3 = pos3
+
+    radius_temp1, radius_temp2 = radius1, radius2
+
+    for _ in range(c.max_iterations):
+        prev_pos3 = c.pos3.copy()
+
+        # ── Curve 1: pos1 → pos2 ────────────────────────────────────────────
+        c.distances1 = c._get_distances(c.pos1, c.vec1, c.pos3)
+
+        radius_temp1 = get_radius_critical(radius1, c.distances1, c.min_error)
+        # Use the current geometry's critical radius directly — avoids NaN in
+        # min_dist_to_target and prevents the running minimum from permanently
+        # locking in tight values from transient intermediate states.
+        radius_effective1 = min(radius1, radius_temp1)
+        # Update the running minimum only for genuine violations (not noise).
+        if radius_temp1 < min(c.radius_critical, radius1 * (1.0 - c.min_error * 100)):
+            c.radius_critical = radius_temp1
+            assert c.radius_critical >= 0
+
+        c.tangent_length, c.dogleg = min_dist_to_target(
+            radius_effective1, c.distances1
+        )
+        c.dogleg = check_dogleg(c.dogleg)
+        c.dist_curve, c.func_dogleg = get_curve_hold_data(
+            radius_effective1, c.dogleg
+        )
+        c.vec3 = get_vec_target(
+            c.pos1, c.vec1, c.pos3,
+            c.tangent_length, c.dist_curve, c.func_dogleg
+        )
+
+        tangent_temp1 = c._get_tangent_temp(c.tangent_length)
+        c.pos2 = c.pos3 - tangent_temp1 * c.vec3
+
+        # ── Curve 2: pos_target → pos2 (reversed) ───────────────────────────
+        c.distances2 = c._get_distances(
+            c.pos_target, c.vec_target * -1, c.pos2
+        )
+
+        radius_temp2 = get_radius_critical(radius2, c.distances2, c.min_error)
+        # Use current geometry's critical radius directly (same rationale as arc1).
+        radius_effective2 = min(radius2, radius_temp2)
+        # Update running minimum only for genuine violations.
+        if radius_temp2 < min(c.radius_critical2, radius2 * (1.0 - c.min_error * 100)):
+            c.radius_critical2 = radius_temp2
+            assert c.radius_critical2 >= 0
+
+        c.tangent_length2, c.dogleg2 = min_dist_to_target(
+            radius_effective2, c.distances2
+        )
+        c.dogleg2 = check_dogleg(c.dogleg2)
+        c.dist_curve2, c.func_dogleg2 = get_curve_hold_data(
+            radius_effective2, c.dogleg2
+        )
+        c.vec2 = get_vec_target(
+            c.pos_target, c.vec_target * -1, c.pos2,
+            c.tangent_length2, c.dist_curve2, c.func_dogleg2
+        )
+
+        tangent_temp2 = c._get_tangent_temp(c.tangent_length2)
+        pos3_new = c.pos2 - tangent_temp2 * c.vec2
+
+        # Damped update: averaging old and new prevents oscillation when the
+        # target is close relative to the radius of curvature.
+        c.pos3 = 0.5 * pos3_new + 0.5 * prev_pos3
+
+        vec23_denom = np.linalg.norm(c.pos3 - c.pos2)
+        if vec23_denom == 0:
+            c.vec23.append(np.array([0., 0., 0.]))
+        else:
+            c.vec23.append((c.pos3 - c.pos2) / vec23_denom)
+
+        # The remaining error in the direction acts over the whole length of
+        # the path, so as long as the design radii can be met the position
+        # needs to have settled as well.
+        c.error = np.allclose(
+            c.vec23[-1], vec_old,
+            equal_nan=True,
+            rtol=c.min_error * 10,
+            atol=c.min_error * 0.1
+        ) and (
+            radius_temp1 < radius1
+            or radius_temp2 < radius2
+            or np.allclose(
+                c.pos3, prev_pos3,
+                equal_nan=True, rtol=0, atol=c.min_error * 10
+            )
+        )
+
+        c.errors.append(c.error)
+        c.pos3_list.append(c.pos3.copy())
+        c.pos2_list.append(c.pos2.copy())
+        c.md_target = c.md1 + c.dist_curve + tangent_temp2 + c.dist_curve2
+        c.delta_radius_list.append(abs(c.radius_critical - c.radius_critical2))
+        c.dls = max(
+            np.radians(dls_from_radius(c.radius_design)),
+            np.radians(dls_from_radius(c.radius_critical))
+        )
+        c.dls2 = max(
+            np.radians(dls_from_radius(c.radius_design2)),
+            np.radians(dls_from_radius(c.radius_critical2))
+        )
+
+        if c.error:
+            break
+
+        c.iterations += 1
+        vec_old = c.vec23[-1].copy()
+
+    if result:
+        return c
+    result_val = 0.
+    if radius_temp2 < c.radius_design2:
+        result_val += c.radius_design2 - radius_temp2
+    if radius_temp1 < c.radius_design:
+        result_val += c.radius_design - radius_temp1
+    return result_val
+
+
+def check_dogleg(dogleg):
+    """Ensures the dogleg angle is positive by wrapping negative values.
+
+    Accepts scalar or array-like; output shape matches input.
+
+    Parameters
+    ----------
+    dogleg : float or array_like
+        Dogleg angle(s) in radians.
+
+    Returns
+    -------
+    float or ndarray
+        The dogleg angle(s) normalized to [0, 2*pi).
+    """
+    # the code assumes angles are positive and clockwise
+    dogleg = np.asarray(dogleg, dtype=float)
+    wrapped = np.where(dogleg < 0, dogleg + 2 * np.pi, dogleg)
+    if wrapped.ndim == 0:
+        return float(wrapped)
+    return wrapped
+
+
+def mod_vec(vec, error=1e-5):
+    """Slightly perturbs a direction vector to avoid exact antiparallel degeneracy.
+
+    Parameters
+    ----------
+    vec : ndarray
+        Unit direction vector in NEV coordinates.
+    error : float
+        Perturbation magnitude applied to the vertical component.
+
+    Returns
+    -------
+    tuple
+        A tuple of (perturbed_vec, inclination, azimuth).
+    """
+    # if it's not working then twat it with a hammer
+    vec_mod = vec * np.array([1, 1, 1 - error])
+    vec_mod /= np.linalg.norm(vec_mod)
+    inc_mod, azi_mod = get_angles(vec_mod, nev=True).T
+
+    return vec_mod, inc_mod, azi_mod
+
+
+def get_pos(pos1, vec1, vec2, dist_curve, func_dogleg):
+    """Computes the end position of a minimum-curvature arc.
+
+    Parameters
+    ----------
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Start unit direction vector in NEV coordinates.
+    vec2 : ndarray
+        End unit direction vector in NEV coordinates.
+    dist_curve : float
+        Arc length of the curve section.
+    func_dogleg : float
+        Shape factor (ratio factor) for the curve.
+
+    Returns
+    -------
+    ndarray
+        End position in NEV coordinates.
+    """
+    return pos1 + (dist_curve * func_dogleg / 2) * (vec1 + vec2)
+
+
+def get_vec_target(
+    pos1,
+    vec1,
+    pos_target,
+    tangent_length,
+    dist_curve,
+    func_dogleg
+):
+    """Derives the target unit vector from curve geometry and target position.
+
+    Solves for the direction vector at the end of a curve-hold section
+    given the start state, curve parameters, and target position. Accepts
+    either scalar inputs (legacy shape-(3,) positions/vectors with scalar
+    tangent_length/dist_curve/func_dogleg) or batched inputs (leading
+    batch dims on all arrays, positions/vectors with trailing axis 3).
+
+    Parameters
+    ----------
+    pos1 : ndarray, shape (..., 3)
+        Start position in NEV coordinates.
+    vec1 : ndarray, shape (..., 3)
+        Start unit direction vector in NEV coordinates.
+    pos_target : ndarray, shape (..., 3)
+        Target position in NEV coordinates.
+    tangent_length : float or ndarray, shape (...)
+        Length of the tangent (hold) section.
+    dist_curve : float or ndarray, shape (...)
+        Arc length of the curve section. Where equal to zero, the input
+        ``vec1`` is returned unchanged (pure-hold fallback).
+    func_dogleg : float or ndarray, shape (...)
+        Shape factor (ratio factor) for the curve.
+
+    Returns
+    -------
+    ndarray, shape (..., 3)
+        Target unit direction vector in NEV coordinates.
+    """
+    pos1 = np.asarray(pos1, dtype=float)
+    vec1 = np.asarray(vec1, dtype=float)
+    pos_target = np.asarray(pos_target, dtype=float)
+    tangent_length = np.asarray(tangent_length, dtype=float)
+    dist_curve = np.asarray(dist_curve, dtype=float)
+    func_dogleg = np.asarray(func_dogleg, dtype=float)
+
+    half = dist_curve * func_dogleg / 2
+    denom = half + tangent_length
+
+    # Broadcast per-sample scalars to match pos/vec batch shape (..., 3).
+    half_b = half[..., None] if half.ndim >= 1 else half
+    denom_b = denom[..., None] if denom.ndim >= 1 else denom
+
+    vec_target = (pos_target - pos1 - half_b * vec1) / denom_b
+
+    # Axis-aware normalise — works for scalar shape-(3,) and batched (..., 3).
+    norm = np.linalg.norm(vec_target, axis=-1, keepdims=True)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        vec_target = vec_target / norm
+
+    # Pure-hold fallback: where dist_curve == 0, return vec1.
+    zero_mask = (dist_curve == 0)
+    if zero_mask.ndim == 0:
+        if bool(zero_mask):
+            return vec1
+        return vec_target
+    return np.where(zero_mask[..., None], vec1, vec_target)
+
+
+def get_curve_hold_data(radius, dogleg):
+    """Computes arc length and shape factor for a curve section.
+
+    Parameters
+    ----------
+    radius : float
+        Radius of curvature.
+    dogleg : float
+        Dogleg angle in radians.
+
+    Returns
+    -------
+    tuple
+        A tuple of (dist_curve, func_dogleg) where dist_curve is the arc
+        length and func_dogleg is the minimum-curvature shape factor.
+    """
+    dist_curve = radius * dogleg
+    func_dogleg = shape_factor(dogleg)
+
+    return (
+        dist_curve,
+        func_dogleg
+    )
+
+
+def shape_factor(dogleg):
+    """Computes the minimum-curvature shape factor for a dogleg angle.
+
+    Parameters
+    ----------
+    dogleg : float
+        Dogleg angle in radians.
+
+    Returns
+    -------
+    float
+        The ratio factor (shape factor) for minimum-curvature interpolation.
+    """
+    return get_rf(dogleg)
+
+
+def solve_curve_hold_batch(pos1, vec1, pos_target, radius):
+    """Vectorised curve-hold connector: fixed start pose, fixed target pos.
+
+    Solves the minimum-MD curve-then-hold geometry from a start pose
+    ``(pos1, vec1)`` to a target position ``pos_target`` with a given
+    design radius. The target tangent vector is an OUTPUT of the solve —
+    computed analytically from the geometry — not an input. Equivalent
+    to ``Connector(pos1=..., vec1=..., pos2=pos_target, dls_design=...)``
+    in the ``'curve_hold'`` mode (binary code ``00110`` in
+    ``_get_initial_methods``), but operates element-wise on arrays so a
+    large sweep is one numpy call rather than a Python loop over
+    ``Connector`` instances.
+
+    Parameters
+    ----------
+    pos1 : array_like, shape (..., 3)
+        Start positions in NEV coordinates. Arbitrary leading batch shape.
+    vec1 : array_like, shape (..., 3)
+        Unit direction vectors at the start. Must share ``pos1``'s leading
+        shape.
+    pos_target : array_like, shape (..., 3)
+        Target positions in NEV coordinates. Must share ``pos1``'s leading
+        shape.
+    radius : float or array_like, shape (...)
+        Design radius of curvature. Broadcasts against the leading shape.
+
+    Returns
+    -------
+    dict
+        All entries are ndarrays whose leading shape matches the inputs.
+
+        - ``'pos2'`` shape (..., 3) — end of the curve / start of the hold.
+        - ``'vec_target'`` shape (..., 3) — computed unit tangent at target.
+        - ``'tangent_length'`` shape (...) — hold-section length.
+        - ``'dogleg'`` shape (...) — curve angle, radians.
+        - ``'dist_curve'`` shape (...) — arc length of the curve section.
+        - ``'md'`` shape (...) — total measured depth (curve + hold).
+
+    Notes
+    -----
+    When the target is exactly along ``vec1`` (pure-hold degenerate case),
+    the solver returns ``dogleg = 0``, ``tangent_length = dist_to_target``,
+    ``vec_target = vec1``, and ``pos2 = pos1``. This matches the scalar
+    ``Connector`` behaviour in that regime.
+
+    The underlying helpers (``min_dist_to_target``, ``get_curve_hold_data``,
+    ``get_vec_target``) have all been array-safe since the vectorisation
+    patch; this function is just a thin wrapper that computes the three
+    intermediate distance scalars and composes the helpers.
+    """
+    pos1 = np.asarray(pos1, dtype=float)
+    vec1 = np.asarray(vec1, dtype=float)
+    pos_target = np.asarray(pos_target, dtype=float)
+    radius = np.asarray(radius, dtype=float)
+
+    delta = pos_target - pos1
+    dist_to_target = np.linalg.norm(delta, axis=-1)
+    dist_perp_to_target = np.sum(delta * vec1, axis=-1)
+    # Same clamp the scalar Connector._get_distances applies to catch fp drift
+    # where the projected distance can marginally exceed the straight-line
+    # distance.
+    dist_perp_to_target = np.minimum(dist_perp_to_target, dist_to_target)
+    dist_norm_to_target = np.sqrt(
+        np.clip(dist_to_target ** 2 - dist_perp_to_target ** 2, 0.0, None)
+    )
+
+    distances = (dist_to_target, dist_perp_to_target, dist_norm_to_target)
+    tangent_length, dogleg = min_dist_to_target(radius, distances)
+    dogleg = get_dogleg_to_target(tangent_length, dogleg, distances)
+    # Wrap negative doglegs by +2π to match the scalar Connector
+    # (connector.py `_min_dist_to_target` calls `check_dogleg` on the raw
+    # output before building the path). Without this, a geometry that
+    # dictates a "backward" turn yields negative dist_curve and the
+    # reported total MD ends up negative.
+    dogleg = check_dogleg(dogleg)
+    dist_curve, func_dogleg = get_curve_hold_data(radius, dogleg)
+
+    vec_target = get_vec_target(
+        pos1, vec1, pos_target, tangent_length, dist_curve, func_dogleg
+    )
+
+    # pos2 = end of arc = target - (hold-section vector)
+    tl = tangent_length[..., None] if tangent_length.ndim >= 1 else tangent_length
+    pos2 = pos_target - tl * vec_target
+    md = dist_curve + tangent_length
+
+    return {
+        "pos2": pos2,
+        "vec_target": vec_target,
+        "tangent_length": tangent_length,
+        "dogleg": dogleg,
+        "dist_curve": dist_curve,
+        "md": md,
+    }
+
+
+def min_dist_to_target(radius, distances):
+    """Computes tangent length and dogleg for a curve-hold section to a target.
+
+    Parameters
+    ----------
+    radius : float
+        Radius of curvature for the curve section.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    tangent_length : float
+        Hold section length.
+    dogleg : float
+        Curve angle in radians.
+    """
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    tangent_length = (
+        dist_to_target ** 2
+        - 2 * radius * dist_norm_to_target
+    ) ** 0.5
+
+    # determine the dogleg angle of the curve section
+    dogleg = 2 * np.arctan2(
+        (dist_perp_to_target - tangent_length),
+        (
+            2 * radius - dist_norm_to_target
+        )
+    )
+
+    return tangent_length, dogleg
+
+
+def get_dogleg_to_target(tangent_length, dogleg, distances):
+    """Computes the dogleg to a target that is not behind the start.
+
+    The angle is the one of ``min_dist_to_target``, but expressed such that it
+    is also exact for a target beside the start at a distance of two radii,
+    where the former is 0 / 0.
+
+    Parameters
+    ----------
+    tangent_length : float or ndarray
+        Hold section length from ``min_dist_to_target``.
+    dogleg : float or ndarray
+        Curve angle from ``min_dist_to_target`` in radians.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    float or ndarray
+        Curve angle in radians.
+    """
+    _, dist_perp_to_target, dist_norm_to_target = distances
+
+    return np.where(
+        np.asarray(dist_perp_to_target) < 0,
+        dogleg,
+        2 * np.arctan2(
+            dist_norm_to_target, dist_perp_to_target + tangent_length
+        )
+    )[()]
+
+
+def min_curve_to_target(distances):
+    """Computes minimum-curvature parameters when the design DLS is insufficient.
+
+    Used when the target cannot be reached with the design radius, so the
+    curve section uses the minimum radius geometrically required.
+
+    Parameters
+    ----------
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+
+    Returns
+    -------
+    tangent_length : float
+        Always 0 (pure curve, no hold).
+    radius_critical : float
+        Minimum required radius of curvature.
+    dogleg : float
+        Curve angle in radians.
+    """
+    if distances == (0., 0., 0,):
+        return (
+            0.,
+            np.inf,
+            0.
+        )
+
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    if dist_norm_to_target == 0.:
+        radius_critical = np.inf
+    else:
+        radius_critical = (
+            dist_to_target ** 2 / (
+                2 * dist_norm_to_target
+            )
+        )
+        if np.isnan(radius_critical):
+            radius_critical = np.nan
+        else:
+            assert radius_critical > 0
+
+    dogleg = (
+        2 * np.arctan2(
+            dist_norm_to_target,
+            dist_perp_to_target
+        )
+    )
+
+    tangent_length = 0
+
+    return (
+        tangent_length,
+        radius_critical,
+        dogleg
+    )
+
+
+def get_radius_critical(radius, distances, min_error):
+    """Computes the critical radius for a given target geometry.
+
+    The critical radius is the minimum curvature radius needed to reach
+    the target with a pure curve (no tangent). Below this radius, a
+    curve-hold path is possible; above it, minimum curvature is needed.
+
+    Parameters
+    ----------
+    radius : float
+        Design radius of curvature.
+    distances : tuple
+        Tuple of (dist_to_target, dist_perp_to_target,
+        dist_norm_to_target) geometric distances.
+    min_error : float
+        Error tolerance factor applied to the result.
+
+    Returns
+    -------
+    float
+        The critical radius. Returns 0 if the normal distance is zero.
+    """
+    (
+        dist_to_target,
+        dist_perp_to_target,
+        dist_norm_to_target
+    ) = distances
+
+    if dist_norm_to_target == 0:
+        return 0
+
+    radius_critical = (
+        dist_to_target ** 2 / (
+            2 * dist_norm_to_target
+        )
+    ) * (1 - min_error)
+
+    if np.isnan(radius_critical):
+        radius_critical = np.nan
+    else:
+        assert radius_critical > 0
+
+    return radius_critical
+
+
+def interpolate_well(sections, step=30):
+    """Constructs interpolated survey data from a list of Connector sections.
+
+    Parameters
+    ----------
+    sections : Connector or list of Connector
+        Connector objects defining the well trajectory.
+    step : float
+        Desired delta measured depth between interpolated survey
+        points.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    method = {
+        'hold': get_interpolate_hold,
+        'min_dist_to_target': get_interpolate_min_dist_to_target,
+        'min_curve_to_target': get_interpolate_min_curve_to_target,
+        'curve_hold_curve': get_interpololate_curve_hold_curve,
+        'min_curve': get_min_curve
+    }
+
+    data = []
+    if type(sections) is not list:
+        sections = [sections]
+    for s in sections:
+        data.extend(method[s.method](s, step))
+
+    return data
+
+
+def interpolate_curve(
+    md1,
+    pos1,
+    vec1,
+    vec2,
+    dist_curve,
+    dogleg,
+    func_dogleg,
+    step,
+    endpoint=False
+):
+    """Interpolates survey points along a curve section at regular MD intervals.
+
+    Uses Rodrigues' rotation formula for numerical stability, especially
+    for near-180-degree doglegs where SLERP becomes unstable.
+
+    Parameters
+    ----------
+    md1 : float
+        Measured depth at the start of the curve.
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Start unit direction vector in NEV coordinates.
+    vec2 : ndarray
+        End unit direction vector in NEV coordinates.
+    dist_curve : float
+        Arc length of the curve section.
+    dogleg : float
+        Total dogleg angle in radians.
+    func_dogleg : float
+        Shape factor (ratio factor) for the curve.
+    step : float
+        Desired delta measured depth between interpolated points.
+    endpoint : bool
+        If True, includes the curve endpoint in the output.
+
+    Returns
+    -------
+    dict
+        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
+        containing numpy arrays of interpolated survey data.
+    """
+    # sometimes the curve section has no length
+    # this if statement handles this event
+    if any((dist_curve == 0, np.isnan(dist_curve))):
+        inc, azi = get_angles(vec1, nev=True).T
+        data = dict(
+            md=np.array([md1]),
+            vec=np.array([vec1]),
+            inc=inc,
+            azi=azi,
+            dogleg=np.array([dogleg])
+        )
+
+        return data
+
+    end_md = abs(dist_curve)
+    if step is None:
+        md = np.array([0])
+    else:
+        start_md = step - (md1 % step)
+        md = np.arange(start_md, end_md, step)
+        md = np.concatenate(([0.], md))
+    if endpoint:
+        md = np.concatenate((md, [end_md]))
+    dogleg_interp = (dogleg / dist_curve * md).reshape(-1, 1)
+
+    # Rodrigues' rotation formula is numerically superior to SLERP when dogleg
+    # is near π.  SLERP weights contain 1/sin(dogleg) which amplifies errors
+    # by ~1/sin(π-ε) ≈ 1/ε for near-180° arcs (e.g. case #492 with dogleg≈179°
+    # amplifies errors 44×, producing spiralling visualisation paths).
+    #
+    # Rodrigues: vec(t) = cos(t)*vec1 + sin(t)*in_plane
+    # where in_plane is the unit vector in the arc plane, perpendicular to vec1.
+    # The formula never divides by sin(dogleg) during evaluation — only during
+    # the one-time setup of in_plane — so numerical errors do not accumulate.
+    cross = np.cross(vec1, vec2)
+    cross_norm = float(np.linalg.norm(cross))
+    if cross_norm < 1e-10:
+        # vec1 ≈ vec2 (zero dogleg) or exactly antiparallel (degenerate arc):
+        # return the start direction for all points.
+        vec = np.tile(vec1, (len(md), 1))
+    else:
+        rot_axis = cross / cross_norm          # unit rotation axis ⊥ arc plane
+        in_plane = np.cross(rot_axis, vec1)    # unit vector in arc plane, ⊥ vec1
+        vec = (
+            np.cos(dogleg_interp) * vec1
+            + np.sin(dogleg_interp) * in_plane
+        )
+    vec = vec / np.linalg.norm(vec, axis=1).reshape(-1, 1)
+    inc, azi = get_angles(vec, nev=True).T
+
+    data = dict(
+        md=md + md1,
+        vec=vec,
+        inc=inc,
+        azi=azi,
+        dogleg=np.concatenate((
+            np.array([0.]), np.diff(dogleg_interp.reshape(-1))
+        )),
+    )
+
+    return data
+
+
+def interpolate_hold(md1, pos1, vec1, md2, step, endpoint=False):
+    """Interpolates survey points along a hold (tangent) section.
+
+    Parameters
+    ----------
+    md1 : float
+        Measured depth at the start of the hold.
+    pos1 : ndarray
+        Start position in NEV coordinates.
+    vec1 : ndarray
+        Constant unit direction vector during the hold.
+    md2 : float
+        Measured depth at the end of the hold.
+    step : float
+        Desired delta measured depth between interpolated points.
+    endpoint : bool
+        If True, includes the hold endpoint in the output.
+
+    Returns
+    -------
+    dict
+        Dictionary with keys 'md', 'vec', 'inc', 'azi', 'dogleg'
+        containing numpy arrays of interpolated survey data.
+    """
+    end_md = md2 - md1
+    if step is None:
+        md = np.array([0])
+    else:
+        start_md = step - (md1 % step)
+        md = np.arange(start_md, end_md, step)
+        md = np.concatenate(([0.], md))
+    if endpoint:
+        md = np.concatenate((md, [end_md]))
+    vec = np.full((len(md), 3), vec1)
+    inc, azi = get_angles(vec, nev=True).T
+    dogleg = np.full_like(md, 0.)
+
+    data = dict(
+        md=md + md1,
+        vec=vec,
+        inc=inc,
+        azi=azi,
+        dogleg=dogleg,
+    )
+
+    return data
+
+
+def get_min_curve(section, step=30, data=None):
+    """Interpolates a minimum-curve section, dispatching by sub-method.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_curve'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if section.md2 is None:
+        result = (
+            get_interpolate_min_curve_to_target(
+                section, step, data
+            )
+        )
+    else:
+        result = (
+            get_interpolate_min_dist_to_target(
+                section, step, data
+            )
+        )
+    return result
+
+
+def get_interpolate_hold(section, step=30, data=None):
+    """Interpolates a hold-method Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'hold'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    data.append(interpolate_hold(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        md2=section.md_target,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpolate_min_curve_to_target(section, step=30, data=None):
+    """Interpolates a min-curve-to-target Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_curve_to_target'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec_target,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpolate_min_dist_to_target(section, step=30, data=None):
+    """Interpolates a min-dist-to-target Connector section (curve + hold).
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'min_dist_to_target'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    # the first curve section
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec2,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step
+    ))
+
+    # the hold section
+    data.append(interpolate_hold(
+        md1=section.md2,
+        pos1=section.pos2,
+        vec1=section.vec2,
+        md2=section.md_target,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def get_interpololate_curve_hold_curve(section, step=30, data=None):
+    """Interpolates a curve-hold-curve Connector section.
+
+    Parameters
+    ----------
+    section : Connector
+        A Connector object with method 'curve_hold_curve'.
+    step : float
+        Desired delta measured depth between interpolated points.
+    data : list or None
+        Optional list to append results to.
+
+    Returns
+    -------
+    list
+        A list of interpolated survey data dictionaries.
+    """
+    if data is None:
+        data = []
+
+    # the first curve section
+    data.append(interpolate_curve(
+        md1=section.md1,
+        pos1=section.pos1,
+        vec1=section.vec1,
+        vec2=section.vec2,
+        dist_curve=section.dist_curve,
+        dogleg=section.dogleg,
+        func_dogleg=section.func_dogleg,
+        step=step
+    ))
+
+    # the hold section
+    data.append(interpolate_hold(
+        md1=section.md2,
+        pos1=section.pos2,
+        vec1=section.vec2,
+        md2=section.md3,
+        step=step
+    ))
+
+    # the second curve section
+    data.append(interpolate_curve(
+        md1=section.md3,
+        pos1=section.pos3,
+        vec1=section.vec3,
+        vec2=section.vec_target,
+        dist_curve=section.dist_curve2,
+        dogleg=section.dogleg2,
+        func_dogleg=section.func_dogleg2,
+        step=step,
+        endpoint=True
+    ))
+
+    return data
+
+
+def convert_target_input_to_booleans(*inputs):
+    """Converts target parameters to a binary string for method lookup.
+
+    Parameters
+    ----------
+    *inputs
+        Variable number of target parameters (md2, inc2, azi2,
+        pos2, vec2). Each is mapped to '1' if not None, '0' otherwise.
+
+    Returns
+    -------
+    str
+        A 5-character binary string encoding which parameters were provided.
+    """
+    input = [
+        "0" if i is None else "1" for i in inputs
+    ]
+
+    return ''.join(input)
+
+
+def connect_points(
+    cartesians, vec_start=[0., 0., 1.], dls_design=3.0, nev=True,
+    # step=30,
+    md_start=0.
+):
+    """Connects a sequence of Cartesian points with Connector sections.
+
+    Parameters
+    ----------
+    cartesians : list or ndarray
+        Array of shape (n, 3) with positions as [n, e, tvd]
+        (if nev=True) or [x, y, z] (if nev=False).
+    vec_start : list or ndarray
+        Unit start direction vector in the corresponding
+        coordinate system.
+    dls_design : float or list
+        Design DLS in deg/30m (or deg/100ft). Can be a
+        scalar or array of length n.
+    nev : bool
+        If True, cartesians are in NEV coordinates; if False, XYZ.
+    md_start : float
+        Measured depth at the first point.
+
+    Returns
+    -------
+    list
+        A list of Connector objects linking consecutive points.
+    """
+    if nev:
+        pos_nev = np.array(cartesians).reshape(-1, 3)
+        vec_nev = np.zeros_like(pos_nev)
+        vec_nev[0] = np.array(vec_start).reshape(-1, 3)
+    else:
+        pos_nev = get_nev(cartesians)
+        vec_nev = np.zeros_like(pos_nev)
+        vec_nev[0] = get_nev(vec_start)
+
+    if type(dls_design) is float:
+        dls = np.full(len(pos_nev), dls_design)
+    else:
+        dls = np.array(dls_design).reshape(-1, 1)
+
+    connections = []
+    for i, (p, v, d) in enumerate(zip(pos_nev, vec_nev, dls)):
+        if i == 0:
+            node_1 = Node(
+                pos=p,
+                vec=v,
+                md=md_start
+            )
+            continue
+        if i > 1:
+            node_1 = connections[-1].node_end
+        node_2 = Node(
+            pos=p
+        )
+        c = Connector(
+            node1=node_1,
+            node2=node_2,
+            dls_design=d
+        )
+        assert np.allclose(c.pos_target, p)
+        connections.append(c)
+
+    return connections
+
+
+def survey_to_plan(survey, tolerance=0.2, dls_design=1., step=30.):
+    """Extracts a minimal well plan from a drilled survey.
+
+    Identifies the minimum number of control points (start/end of hold
+    or build/turn sections) needed to reproduce the survey trajectory
+    within the given tolerance.
+
+    Parameters
+    ----------
+    survey : Survey
+        A welleng Survey object representing the drilled well.
+    tolerance : float
+        Fit tolerance. Higher values produce fewer control
+        points but a looser fit.
+    dls_design : float
+        Minimum design DLS in deg/30m for the planned trajectory.
+    step : float
+        Desired MD step interval for the output survey.
+
+    Returns
+    -------
+    list
+        A list of Connector objects representing the planned sections.
+
+    Raises
+    ------
+    AssertionError
+        If dls_design is not greater than 0.
+    """
+    assert dls_design > 0., "dls_design must be greater than 0"
+
+    idx = [0]
+    end = len(survey.md) - 1
+    md = survey.md[0]
+    node = None
+    sections = []
+
+    while True:
+        section, i = _get_section(
+            survey=survey,
+            start=idx[-1],
+            md=md,
+            node=node,
+            tolerance=tolerance,
+            dls_design=dls_design
+        )
+        sections.append(section)
+        idx.append(i)
+        if idx[-1] >= end:
+            break
+        node = section.node_end
+
+    # data = interpolate_well(sections, step=step)
+
+    return sections
+
+
+def _get_section(
+    survey, start, tolerance, dls_design=1., md=0., node=None
+):
+    idx = start + 2
+    nev = survey.get_nev_arr()
+
+    if idx > len(nev):
+        idx = len(nev) - 1
+
+    if node is None:
+        node_1 = Node(
+            pos=nev[start],
+            vec=survey.vec_nev[start],
+            md=md
+        )
+    else:
+        node_1 = node
+
+    scores = [0.]
+    delta_scores = []
+    c_old = None
+
+    for i, (p, v) in enumerate(zip(nev[idx:], survey.vec_nev[idx:])):
+        node_2 = Node(
+            pos=p,
+            vec=v,
+        )
+        c = Connector(
+            node1=node_1,
+            node2=node_2,
+            dls_design=dls_design
+        )
+        s = c.survey(step=1.)
+        if c_old is None:
+            c_old = deepcopy(c)
+        nev_new = s.get_nev_arr()
+
+        distances = distance.cdist(
+            nev[start: idx + i],
+            nev_new
+        )
+
+        score = np.sum(np.amin(distances, axis=1)) / (s.md[-1] - s.md[0])
+
+        delta_scores.append(score - scores[-1])
+        scores.append(score)
+
+        if all((
+            abs(delta_scores[-1]) >= tolerance,
+            idx + i < len(nev) - 2
+        )):
+            break
+        elif idx + i == len(nev) - 1:
+            c_old = deepcopy(c)
+            break
+        else:
+            c_old = deepcopy(c)
+
+    return (
+        c_old,
+        idx + i - 1 if idx + i != len(nev) - 1 else idx + i
+    )
+
+
+def drop_off(
+    target_inc: float, dls: float, delta_md: float | None = None,
+    node: Node | None = None, tol: float = 1e-5
+) -> list:
+    """Computes trajectory sections to drop off (or build) to a target inclination.
+
+    Use ``extend_to_tvd`` if a specific TVD target is also required.
+
+    Parameters
+    ----------
+    target_inc : float
+        Target inclination in degrees.
+    dls : float
+        Design DLS in deg/30m.
+    delta_md : float or None
+        Maximum section length in meters. If None, the section
+        is unconstrained.
+    node : Node or None
+        Starting Node. Defaults to surface pointing down.
+    tol : float
+        Tolerance for tangent section length; sections shorter than
+        this are omitted.
+
+    Returns
+    -------
+    list
+        A list of Nodes describing the trajectory. Contains one Node
+        (the arc endpoint) or two (arc endpoint plus tangent endpoint)
+        if the target inclination was achieved within the section.
+    """
+    def _drop_off(
+            x: tuple,
+            node,
+            return_data: bool = False
+    ) -> tuple:
+        dogleg, toolface = x
+        pos2, vec2, arc_length = get_arc(
+            dogleg, radius,
+            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
+            node.pos_nev, node.vec_nev
+        )
+        if return_data:
+            return (pos2, vec2, arc_length)
+        else:
+            inc, _ = np.degrees(
+                get_angles(vec2, nev=True)[0]
+            )
+            return abs(inc - target_inc)
+
+    node = Node() if node is None else node
+    node.md = 0 if node.md is None else node.md
+    radius = radius_from_dls(dls)
+    if isinstance(delta_md, np.ndarray):
+        delta_md = delta_md[0]
+    max_dogleg = (
+        2 * np.pi if delta_md is None
+        else delta_md / radius
+    )
+
+    args = (node,)
+    bounds = [
+        [0, min(2 * np.pi, max_dogleg)],
+        [-np.pi, np.pi]
+    ]
+    x0 = [bounds[0][1] / 2, np.pi]
+    result = minimize(
+        _drop_off, x0, args=args, bounds=bounds,
+        method="SLSQP"
+    )
+    pos2, vec2, arc_length = _drop_off(
+        result.x, *args, return_data=True
+    )
+    tangent_length = (
+        0 if delta_md is None
+        else delta_md - arc_length
+    )
+    node2 = Node(
+        pos=pos2, vec=vec2, md=node.md + arc_length
+    )
+    if tangent_length > tol:
+        pos3 = pos2 + tangent_length * vec2
+        node3 = Node(
+            pos=pos3, vec=vec2, md=node2.md + tangent_length
+        )
+        return [node2, node3]
+    else:
+        return [node2]
+
+
+def extend_to_tvd(
+    target_tvd: float, node: Node | None = None,
+    delta_md: float | None = None,
+    target_inc: float | None = None, dls: float | None = None
+) -> list:
+    """Computes Connector sections to reach a target TVD with optional inclination change.
+
+    Parameters
+    ----------
+    target_tvd : float
+        Target true vertical depth in meters.
+    node : Node or None
+        Starting Node. Defaults to surface pointing down.
+    delta_md : float or None
+        Maximum section length in meters. If None, unconstrained.
+    target_inc : float or None
+        Target inclination in degrees at the target TVD.
+        If provided, the solver attempts to achieve this inclination
+        and holds tangent to the target TVD.
+    dls : float or None
+        Design DLS in deg/30m. Defaults to 2.5 if None and
+        target_inc is provided.
+
+    Returns
+    -------
+    list
+        A list of Connector objects. Contains one Connector (curve only)
+        or two (curve plus tangent hold) if the target inclination was
+        achieved within the section.
+
+    Examples
+    --------
+    A well at 30 degrees inclination dropping to vertical:
+
+    >>> import welleng as we
+    >>> node = we.node.Node(pos=[0, 0, 3000], md=4000, inc=30, azi=135)
+    >>> connectors = we.connector.extend_to_tvd(
+    ...     target_tvd=3200, node=node, target_inc=0, dls=3
+    ... )
+    """
+    if node is None:
+        node = Node()
+    node.md = 0 if node.md is None else node.md  # default value is None which complicates things
+    _delta_md = 1e-8 if delta_md is None else delta_md
+    connections = []
+    if target_inc is None:
+        def _extend_tvd(
+            delta_md, pos, vec, target_tvd, return_data=False
+        ):
+            pos2 = np.array(pos) + delta_md * np.array(vec)
+            if return_data:
+                return pos2
+            else:
+                return abs(pos2[2] - target_tvd)
+
+        args = (node.pos_nev, node.vec_nev, target_tvd)
+        bounds = [[0, None]]
+        result = minimize(
+            _extend_tvd,
+            _delta_md,
+            args=args,
+            bounds=bounds,
+            method="Powell"
+        )
+        pos2 = _extend_tvd(result.x, *args, return_data=True)
+        connections.append(Connector(
+            pos1=node.pos_nev, vec1=node.vec_nev,
+            md1=0 if node.md is None else node.md,
+            pos2=pos2,
+            dls_design=dls, force_min_curve=True
+        ))
+    else:
+        def _drop_off(
+            delta_md, target_inc, target_tvd, dls, node,
+            return_data=False
+        ):
+            nodes = drop_off(
+                target_inc, dls, delta_md, node
+            )
+            if return_data:
+                return nodes
+            else:
+                return abs(nodes[-1].pos_nev[2] - target_tvd)
+
+        dls = 2.5 if dls is None else dls
+        args = (target_inc, target_tvd, dls, node)
+        bounds = [
+            [min(target_tvd - node.pos_nev[2], _delta_md), None]
+        ]
+        x0 = _delta_md
+        result = minimize(
+            _drop_off,
+            x0,
+            args=args,
+            bounds=bounds,
+            method='Powell'
+        )
+        nodes = _drop_off(
+            result.x, *args, return_data=True
+        )
+        connections.append(Connector(
+            node1=node,
+            pos2=nodes[0].pos_nev, vec2=nodes[0].vec_nev,
+            dls_design=dls, force_min_curve=True
+        ))
+        if len(nodes) > 1:
+            connections.append(Connector(
+                node1=connections[-1].node_end,
+                pos2=nodes[-1].pos_nev,
+                dls_design=dls, force_min_curve=True
+            ))
+    return connections
+
+
diff --git a/welleng/utils.py b/welleng/utils.py
index f5b506f..8040c35 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -1,1028 +1,1028 @@
-import re
-from typing import Annotated, Literal, Union
-
-import numpy as np
-from numpy.typing import NDArray
-from scipy.spatial.transform import Rotation as R
-
-
-def get_dogleg(inc1, azi1, inc2, azi2):
-    """
-    Compute the dogleg angle between two survey stations (vectorised).
-
-    Uses the numerically stable Haversine form to avoid arccos precision loss
-    at small angles.
-
-    Parameters
-    ----------
-    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
-    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
-
-    Returns
-    -------
-    dogleg: float or array — dogleg angle in radians
-    """
-    return 2.0 * np.arcsin(np.sqrt(
-        np.sin((inc2 - inc1) / 2) ** 2
-        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
-    ))
-
-
-def get_rf(dogleg):
-    """
-    Compute the ratio factor (RF) for minimum curvature (vectorised).
-
-    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
-
-    Parameters
-    ----------
-    dogleg: float or array — dogleg angle(s) in radians
-
-    Returns
-    -------
-    rf: float or array — ratio factor(s)
-    """
-    dogleg = np.asarray(dogleg, dtype=float)
-    with np.errstate(divide='ignore', invalid='ignore'):
-        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
-    return float(rf) if rf.ndim == 0 else rf
-
-
-def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
-    """
-    Compute position increments using minimum curvature (vectorised).
-
-    All trigonometric values are computed once and shared across the three
-    coordinate directions for efficiency.
-
-    Parameters
-    ----------
-    delta_md: (n,) array — measured-depth increments
-    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
-    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
-    rf: (n,) array or None — ratio factors; computed if not supplied
-
-    Returns
-    -------
-    deltas: (n, 3) array — position increments in [N, E, V] order
-    """
-    if rf is None:
-        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
-    si1, ci1 = np.sin(inc1), np.cos(inc1)
-    si2, ci2 = np.sin(inc2), np.cos(inc2)
-    ca1, sa1 = np.cos(azi1), np.sin(azi1)
-    ca2, sa2 = np.cos(azi2), np.sin(azi2)
-    scale = delta_md * rf / 2
-    return np.stack((
-        scale * (si1 * ca1 + si2 * ca2),  # N
-        scale * (si1 * sa1 + si2 * sa2),  # E
-        scale * (ci1 + ci2),               # V
-    ), axis=-1)
-
-
-class MinCurve:
-    def __init__(
-        self,
-        md,
-        inc,
-        azi,
-        start_xyz=[0., 0., 0.],
-        unit="meters"
-    ):
-        """
-        Generate geometric data from a well bore survey.
-
-        Parameters
-        ----------
-        md: list or 1d array of floats
-            Measured depth along well path from a datum.
-        inc: list or 1d array of floats
-            Well path inclination (relative to z/tvd axis where 0
-            indicates down), in radians.
-        azi: list or 1d array of floats
-            Well path azimuth (relative to y/North axis),
-            in radians.
-        unit: str
-            Either "meters" or "feet" to determine the unit of the dogleg
-            severity.
-
-        """
-
-        assert unit == "meters" or unit == "feet", (
-            'Unknown unit, please select "meters" of "feet"'
-        )
-
-        self.md = md
-        survey_length = len(self.md)
-        assert survey_length > 1, "Survey must have at least two rows"
-
-        self.inc = inc
-        self.azi = azi
-        self.start_xyz = start_xyz
-        self.unit = unit
-
-        inc = np.array(inc)
-        azi = np.array(azi)
-        inc_1, inc_2 = inc[:-1], inc[1:]
-        azi_1, azi_2 = azi[:-1], azi[1:]
-
-        self.delta_md = np.diff(self.md, prepend=0)
-
-        self.dogleg = np.zeros(survey_length)
-        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
-
-        self.rf = np.ones(survey_length)
-        self.rf[1:] = get_rf(self.dogleg[1:])
-
-        # compute all three coordinate deltas in a single trig pass
-        deltas = min_curve_step(
-            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
-        )
-        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
-        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
-        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
-
-        # calculate the dog leg severity
-        coeff = 30 if unit == "meters" else 100
-        self.dls = np.zeros(survey_length)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
-        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
-
-        # cumulate the coordinates and add surface coordinates
-        self.poss = np.vstack(
-            np.cumsum(
-                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
-            ) + self.start_xyz
-        )
-
-
-def get_vec(inc, azi, nev=False, r=1, deg=True):
-    """
-    Convert inc and azi into a vector.
-
-    Parameters
-    ----------
-    inc: array of n floats
-        Inclination relative to the z-axis (up)
-    azi: array of n floats
-        Azimuth relative to the y-axis
-    r: float or array of n floats
-        Scalar to return a scaled vector
-
-    Returns
-    -------
-    vec: arraylike
-        An (n,3) array of vectors
-    """
-    if deg:
-        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
-    else:
-        inc_rad = inc
-        azi_rad = azi
-    y = np.sin(inc_rad) * np.cos(azi_rad)
-    x = np.sin(inc_rad) * np.sin(azi_rad)
-    z = np.cos(inc_rad)
-
-    if nev:
-        vec = np.column_stack([y, x, z])
-    else:
-        vec = np.column_stack([x, y, z])
-
-    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-
-    return vec * np.reshape(r, (-1, 1))
-
-
-def get_nev(
-    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
-):
-    """
-    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
-
-    Parameters
-    ----------
-    pos: (n,3) array of floats
-        Array of [x, y, z] coordinates
-    start_xyz: (,3) array of floats
-        The datum of the [x, y, z] cooardinates
-    start_nev: (,3) array of floats
-        The datum of the [n, e, tvd] coordinates
-
-    Returns
-    -------
-        An (n,3) array of [n, e, tvd] coordinates.
-    """
-    # e, n, v = (
-    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
-    # ).T
-    e, n, v = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
-    ).T
-
-    return np.column_stack([n, e, v]) + np.array([start_nev])
-
-
-def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
-    y, x, z = (
-        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
-    ).T
-
-    return np.column_stack([x, y, z]) + np.array([start_xyz])
-
-
-def _get_angles(vec):
-    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
-    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
-    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
-
-    return np.stack((inc, azi), axis=1)
-
-
-def get_angles(
-    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
-):
-    '''
-    Determines the inclination and azimuth from a vector.
-
-    Parameters
-    ----------
-    vec: (n,3) array of floats
-    nev: boolean (default: False)
-        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
-
-    Returns
-    -------
-    [inc, azi]: (n,2) array of floats
-        A numpy array of incs and axis in radians
-
-    '''
-    # make sure it's a unit vector
-    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
-    vec = vec.reshape(-1, 3)
-
-    # if it's nev then need to do the shuffle
-    if nev:
-        y, x, z = vec.T
-        vec = np.column_stack([x, y, z])
-
-    return _get_angles(vec)
-
-
-def _get_transform(inc, azi):
-    ci, si = np.cos(inc), np.sin(inc)
-    ca, sa = np.cos(azi), np.sin(azi)
-    z = np.zeros_like(inc)
-    trans = np.stack([
-        np.stack([ci * ca,  ci * sa, -si], axis=-1),
-        np.stack([-sa,       ca,      z  ], axis=-1),
-        np.stack([si * ca,  si * sa,  ci ], axis=-1),
-    ], axis=1)
-
-    return trans
-
-
-def get_transform(
-    survey
-):
-    """
-    Determine the transform for transforming between NEV and HLA coordinate
-    systems.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-
-    Returns
-    -------
-    transform: (n,3,3) array of floats
-    """
-    survey = survey.reshape(-1, 3)
-    inc = np.array(survey[:, 1])
-    azi = np.array(survey[:, 2])
-
-    return _get_transform(inc, azi)
-
-
-def NEV_to_HLA(
-    survey: Annotated[NDArray, Literal["N", 3]],
-    NEV: Union[
-        Annotated[NDArray, Literal["N", 3]],
-        Annotated[NDArray, Literal["N", 3, 3]]
-    ],
-    cov: bool = True
-) -> Union[
-        Annotated[NDArray, Literal['N, 3']],
-        Annotated[NDArray, Literal['N, 3, 3']]
-]:
-    """
-    Transform from NEV to HLA coordinate system.
-
-    Parameters
-    ----------
-    survey: (n,3) array of floats
-        The [md, inc, azi] survey listing array.
-    NEV: (n,3) or (n,3,3) array of floats
-        The NEV coordinates or covariance matrices.
-    cov: boolean
-        If cov is True then a (n,3,3) array of covariance matrices
-        is expected, else a (n,3) array of coordinates.
-
-    Returns
-    -------
-    HLAs: NDArray
-        Either a transformed (n,3) array of HLA coordinates or an
-        (n,3,3) array of HLA covariance matrices.
-    """
-
-    trans = get_transform(survey)
-
-    if cov:
-        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
-        return trans @ NEV @ trans.swapaxes(-1, -2)
-
-    else:
-        NEV = NEV.reshape(-1, 3)
-        return np.einsum('...k,...jk', NEV, trans)
-
-
-def HLA_to_NEV(survey, HLA, cov=True, trans=None):
-    if trans is None:
-        trans = get_transform(survey)
-
-    if cov:
-        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
-        return trans.swapaxes(-1, -2) @ HLA @ trans
-
-    else:
-        shape = HLA.shape
-        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
-
-
-def get_sigmas(cov, long=False):
-    """
-    Extracts the sigma values of a covariance matrix along the principle axii.
-
-    Parameters
-    ----------
-    cov: (n,3,3) array of floats
-
-    Returns
-    -------
-    arr: (n,3) array of floats
-    """
-
-    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
-
-    cov = cov.reshape(-1, 3, 3)
-
-    aa, ab, ac = cov[:, :, 0].T
-    ab, bb, bc = cov[:, :, 1].T
-    ac, bc, cc = cov[:, :, 2].T
-
-    if long:
-        return (aa, bb, cc, ab, ac, bc)
-    else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
-
-
-def get_unit_vec(vec):
-    vec = vec / np.linalg.norm(vec)
-
-    return vec
-
-
-def linear_convert(data, factor):
-    flag = False
-    if not isinstance(data, list):
-        flag = True
-        data = [data]
-    converted = [d * factor if d is not None else None for d in data]
-    if flag:
-        return converted[0]
-    else:
-        return converted
-
-
-def make_cov(a, b, c, long=False):
-    # a, b, c = np.sqrt(np.array([a, b, c]))
-    if long:
-        cov = np.array([
-            [a * a, a * b, a * c],
-            [a * b, b * b, b * c],
-            [a * c, b * c, c * c]
-        ])
-
-    else:
-        cov = np.array([
-            [a * a, np.zeros_like(a), np.zeros_like(a)],
-            [np.zeros_like(a), b * b, np.zeros_like(a)],
-            [np.zeros_like(a), np.zeros_like(a), c * c]
-        ])
-
-    return cov.T
-
-
-def make_long_cov(arr):
-    """
-    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
-    elements per station.
-
-    Parameters
-    ----------
-    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
-
-    Returns
-    -------
-    cov: (n, 3, 3) array
-    """
-    aa, ab, ac, bb, bc, cc = np.array(arr).T
-    return np.stack([
-        np.stack([aa, ab, ac], axis=-1),
-        np.stack([ab, bb, bc], axis=-1),
-        np.stack([ac, bc, cc], axis=-1),
-    ], axis=1)
-
-
-def dls_from_radius(radius):
-    """
-    Returns the dls in degrees from a radius.
-    """
-    if isinstance(radius, np.ndarray):
-        circumference = 2 * np.pi * radius
-        dls = np.divide(
-            360 * 30, circumference,
-            out=np.full(radius.shape, np.inf), where=radius != 0
-        )
-    else:
-        if radius == 0:
-            return np.inf
-        circumference = 2 * np.pi * radius
-        dls = 360 / circumference * 30
-
-    return dls
-
-
-def radius_from_dls(dls):
-    """
-    Returns the radius in meters from a DLS in deg/30m.
-    """
-    if isinstance(dls, np.ndarray):
-        circumference = np.divide(
-            30 * 360, dls,
-            out=np.full(dls.shape, np.inf), where=dls != 0
-        )
-    else:
-        if dls == 0:
-            return np.inf
-        circumference = (30 / dls) * 360
-    radius = circumference / (2 * np.pi)
-
-    return radius
-
-
-def cov_from_vec(arr):
-    """
-    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
-
-    Parameters
-    ----------
-    arr: (n, 3) array
-        Array of vector components.
-
-    Returns
-    -------
-    (n, 3, 3) array
-    """
-    arr = np.array(arr)
-    return arr[:, :, None] * arr[:, None, :]
-
-
-def errors_from_cov(cov, data=False):
-    """
-    Parameters
-    ----------
-    cov: (n, 3, 3) array
-        The error covariance matrices.
-    data: bool (default: False)
-        If True returns a dictionary, else returns a list.
-    """
-    nn, ne, nv, _, ee, ev, _, _, vv = (
-        cov.reshape(-1, 9).T
-    )
-
-    if data:
-        return {
-            i: {
-                'nn': _nn, 'ne': _ne, 'nv': _nv,
-                'ee': _ee, 'ev': _ev, 'vv': _vv
-            }
-            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
-            in enumerate(zip(nn, ne, nv, ee, ev, vv))
-        }
-
-    return np.array([nn, ne, nv, ee, ev, vv]).T
-
-
-def _get_arc_pos_and_vec(dogleg, radius):
-    pos = np.array([
-        np.cos(dogleg),
-        0.,
-        np.sin(dogleg)
-    ]) * radius
-    pos[0] = radius - pos[0]
-
-    vec = np.array([
-        np.sin(dogleg),
-        0.,
-        np.cos(dogleg)
-    ])
-    return (pos, vec)
-
-
-class Arc:
-    def __init__(self, dogleg, radius):
-        """
-        Generates a generic arc that can be transformed with a specific pos
-        and vec via a transform method. The arc is initialized at a local
-        origin and kicks off down and to the north (assuming an NEV coordinate
-        system).
-
-        Parameters
-        ----------
-        dogleg: float
-            The sweep angle of the arc in radians.
-        radius: float
-            The radius of the arc in meters.
-
-        Returns
-        -------
-        arc: Arc object
-        """
-        self.dogleg = dogleg
-        self.radius = radius
-        self.delta_md = dogleg * radius
-
-        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
-
-
-    def transform(self, toolface, pos=None, vec=None, target=False):
-        """
-        Transforms an Arc to a position and orientation.
-
-        Parameters
-        ----------
-        pos: (,3) array
-        The desired position to transform the arc.
-        vec: (,3) array
-            The orientation unit vector to transform the arc.
-        target: bool
-            If true, returned arc vector is reversed.
-
-        Returns
-        -------
-        tuple (pos_new, vec_new)
-        pos_new: (,3) array
-            The position at the end of the arc post transform.
-        vec_new: (,3) array
-            The unit vector at the end of the arc post transform.
-        """
-        if vec is None:
-            vec = np.array([0., 0., 1.])
-        if target:
-            # don't reverse the caller's vector in place
-            vec = -np.array(vec)
-        inc, azi = get_angles(vec, nev=True).reshape(2)
-        angles = [
-            toolface,
-            inc,
-            azi
-        ]
-        r = R.from_euler('zyz', angles, degrees=False)
-
-        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
-
-        # make sure vec_new is a unit vector:
-        vec_new = get_unit_vec(vec_new)
-
-        if pos is not None:
-            pos_new += pos
-        if target:
-            vec_new *= -1
-
-        return (pos_new, vec_new)
-
-
-def get_arc(
-    dogleg, radius, toolface, pos=None, vec=None, target=False
-) -> tuple:
-    """Creates an Arc instance and transforms it to the desired position
-    and orientation.
-
-    Parameters
-    ----------
-    dogleg: float
-        The swept angle of the arc (arc angle) in radians.
-    radius: float
-        The radius of the arc (in meters).
-    toolface: float
-        The toolface angle in radians (relative to the high side) to rotate the
-        arc at the desired position and orientation.
-    pos: (,3) array
-        The desired position to transform the arc.
-    vec: (,3) array
-        The orientation unit vector to transform the arc.
-    target: bool
-        If true, returned arc vector is reversed.
-
-    Returns
-    -------
-    tuple of (pos_new, vec_new, arc.delta_md)
-    pos_new: (,3) array
-        The position at the end of the arc post transform.
-    vec_new: (,3) array
-        The unit vector at the end of the arc post transform.
-    arc.delta_md: int
-        The arc length of the arc.
-    """
-    arc = Arc(dogleg, radius)
-    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
-
-    return (pos_new, vec_new, arc.delta_md)
-
-
-def annular_volume(od: float, id: float = None, length: float = None):
-    """
-    Calculate an annular volume.
-
-    If no ``id`` is provided then circular volume is calculated. If no
-    ``length`` is provided, then the unit volume is calculated (i.e. the
-    area).
-
-    Units are assumed consistent across input parameters, i.e. the
-    calculation is dimensionless.
-
-    Parameters
-    ----------
-    od: float
-        The outer diameter.
-    id: float | None, optional
-        The inner diameter, default is 0.
-    length : float | None, optional
-        The length of the annulus.
-
-    Returns
-    -------
-    annular_volume: float
-        The (unit) volume of the annulus or cylinder.
-
-    Examples
-    --------
-    In the following example we calculate annular volume along a 1,000 meter
-    section length of 9 5/8" casing inside 12 1/4" hole.
-
-    >>> from welleng.utils import annular_volume
-    >>> from welleng.units import ureg
-    >>> av = annular_volume(
-    ...     od=ureg('12.25 inch').to('meters),
-    ...     id=ureg(f'{9+5/8} inch').to('meter'),
-    ...     length=ureg('1000 meter')
-    ... )
-    >>> print(av)
-    29.096093526301622 meter ** 3
-    """
-    length = 1 if length is None else length
-    id = 0 if id is None else id
-    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
-    annular_volume = annular_unit_volume * length
-
-    return annular_volume
-
-
-def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
-    try:
-        _decimal, direction = decimal
-    except (TypeError, ValueError):
-        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
-        direction = None
-    _decimal = float(_decimal)
-    seconds = abs(_decimal) * 3600
-    if ndigits is not None:
-        # round before splitting so that 60 seconds are carried
-        seconds = round(seconds, ndigits)
-    minutes, seconds = divmod(seconds, 60)
-    degrees, minutes = divmod(minutes, 60)
-    degrees = int(degrees)
-    if _decimal < 0:
-        # minus zero degrees keeps the sign of angles between -1 and 0
-        degrees = -degrees if degrees else -0.0
-
-    return np.array([
-        degrees,
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits)
-    ]) if direction is None else np.array([
-        degrees,
-        int(minutes),
-        seconds if ndigits is None else round(seconds, ndigits),
-        direction
-    ], dtype=object)
-
-
-def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
-    """Converts a decimal lat, lon to degrees, minutes and seconds.
-
-    Parameters
-    ----------
-    decimal : tuple | arraylike
-        A tuple of (lat, direction) or (lon, direction) or arraylike of
-        ((lat, direction), (lon, direction)) coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the seconds decimal to the desired number of
-        digits.
-
-    Returns
-    -------
-    dms: arraylike
-        An array of (degrees, minutes, seconds, direction).
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from decimals
-    to degrees, minutes and seconds:
-
-    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
-    >>> dms = decimal2dms((LAT, LON), ndigits=6)
-    >>> print(dms)
-    [[52 4 43.1868 'N']
-     [4 17 19.6368 'E']]
-    """
-    flag = False
-    _decimal = np.array(decimal)
-    if np.issubdtype(_decimal.dtype, np.number):
-        _decimal = _decimal.reshape((-1, 1))
-        flag = True
-    try:
-        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
-    except np.exceptions.AxisError:
-        dms = _decimal2dms(_decimal, ndigits)
-
-    if dms.shape == (4,):
-        return tuple(dms)
-    else:
-        return dms.reshape((-1, 3)) if flag else dms
-
-
-def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
-    try:
-        degrees, minutes, seconds, direction = dms
-    except ValueError:
-        degrees, minutes, seconds = dms
-        direction = None
-
-    decimal = abs(degrees) + minutes / 60 + seconds / 3600
-
-    return np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        )
-    ]) if direction is None else np.array([
-        np.copysign(
-            decimal if ndigits is None else round(decimal, ndigits),
-            degrees
-        ),
-        direction
-    ], dtype=object)
-
-
-def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
-    """Converts a degrees, minutes and seconds lat, lon to decimals.
-
-    Parameters
-    ----------
-    dms : tuple | arraylike
-        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
-        and/or lon or arraylike of lat, lon coordinates.
-    ndigits: int (default is None)
-        If specified, rounds the decimal to the desired number of digits.
-
-    Returns
-    -------
-    degrees: arraylike
-        A tuple or array of lats and/or longs in decimals.
-
-    Examples
-    --------
-    If you want to convert the lat/lon coordinates for Den Haag from degrees,
-    minutes and seconds to decimals:
-
-    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
-    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
-    >>> print(decimal)
-    [[52.078663 'N']
-     [4.288788 'E']]
-    """
-    result = np.apply_along_axis(
-        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
-    )
-
-    if result.shape == ():
-        return float(result)
-    elif result.shape == (1,):
-        return float(result[0])
-    elif result.shape[-1] == 1:
-        return result.reshape(-1)
-    else:
-        return result
-
-
-def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
-    """Pretty prints a (decimal, minutes, seconds) tuple or list.
-
-    Parameters
-    ----------
-    dms: tuple | list
-        An x or y or northing or easting (degree, minute, second).
-    symbols: bool (default: True)
-        Whether to print symbols for (deg, min, sec).
-    return_data: bool (default: False)
-        If True then will return the string rather than print it.
-    """
-    if symbols:
-        try:
-            deg, min, sec = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
-
-    else:
-        try:
-            deg, min, sec = dms
-            text = f"{deg} deg, {min} min, {sec} sec"
-        except ValueError:
-            deg, min, sec, _ = dms
-            text = f"{deg} deg, {min} min, {sec} sec {_}"
-
-    if return_data:
-        return text
-    else:
-        print(text)
-
-
-def dms_from_string(text):
-    """Extracts the values from a string dms x or y or northing or easting.
-    """
-    pattern = re.compile(
-        r'(?<![\d.])(-?\d+(?:\.0*)?)\s*(?:°|deg)?,'
-        r'\s*(\d+(?:\.0*)?)\s*(?:\'|min)?,'
-        r'\s*(\d+(?:\.\d+)?(?:e[+-]?\d+)?)\s*(?:"|sec)?\s*.*?(\S+)?$',
-        re.IGNORECASE
-    )
-    matches = pattern.findall(text)
-
-    if matches:
-        deg, min, sec_str = matches[0][:3]
-        sec = float(sec_str)
-        final_data = matches[0][-1] if matches[0][-1] else None
-
-        # minus zero degrees keeps the sign of angles between -1 and 0
-        deg = float(deg)
-        deg = int(deg) if deg else deg if np.signbit(deg) else 0
-
-        if final_data:
-            return (deg, int(float(min)), sec, final_data)
-        else:
-            return (deg, int(float(min)), sec)
-
-    else:
-        return
-
-
-def make_clc_path(
-    toolface1, dogleg1, distance, toolface2, dogleg2,
-    pos0=None, vec0=None, radius=1.0
-):
-    """Generate a curve-hold-curve (CLC) path from arc parameters.
-
-    Builds the path in three steps: first arc, straight hold, second arc.
-    Useful for constructing known-geometry test cases and for quickly
-    prototyping CLC trajectories.
-
-    Parameters
-    ----------
-    toolface1: float
-        Toolface angle for the first curve in radians.
-    dogleg1: float
-        Sweep angle (dogleg) for the first curve in radians.
-    distance: float
-        Length of the straight hold section (same units as radius).
-    toolface2: float
-        Toolface angle for the second curve in radians.
-    dogleg2: float
-        Sweep angle (dogleg) for the second curve in radians.
-    pos0: (3,) array-like, optional
-        Start position [N, E, V]. Defaults to [0, 0, 0].
-    vec0: (3,) array-like, optional
-        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
-    radius: float, optional
-        Arc radius for both curves. Defaults to 1.0.
-
-    Returns
-    -------
-    dict with keys:
-        pos1, vec1  – end of first arc
-        dist_curve1 – arc length of first curve
-        pos2, vec2  – end of hold section / start of second arc
-        pos3, vec3  – end of second arc
-        dist_curve2 – arc length of second curve
-    """
-    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
-    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
-
-    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
-    pos2 = pos1 + vec1 * distance
-    vec2 = vec1.copy()
-    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
-
-    return dict(
-        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
-        pos2=pos2, vec2=vec2,
-        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
-    )
-
-
-def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
-    """Returns the toolface(s) of offset position(s) relative to reference
-    positions and vectors.  Accepts either single (3,) arrays or batches of
-    (n, 3) arrays; all three arguments must have the same leading dimension.
-
-    Parameters
-    ----------
-    pos1: ndarray, shape (3,) or (n, 3)
-        The reference NEV coordinate(s), e.g. current location.
-    vec1: ndarray, shape (3,) or (n, 3)
-        The reference NEV unit vector(s), e.g. current direction.
-    pos2: ndarray, shape (3,) or (n, 3)
-        The offset NEV coordinate(s), e.g. a target position.
-
-    Returns
-    -------
-    toolface: float or ndarray
-        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
-        Returns a scalar float when single (3,) inputs are given.
-    """
-    pos1 = np.atleast_2d(pos1)
-    vec1 = np.atleast_2d(vec1)
-    pos2 = np.atleast_2d(pos2)
-
-    angles = np.flip(get_angles(vec1, nev=True), axis=1)
-    r = R.from_euler('zy', angles * -1, degrees=False)
-    pos = r.apply(pos2 - pos1)
-    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
-    return float(result[0]) if result.size == 1 else result
-
-
-def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
-    """Returns the toolface of a single offset position using a direct
-    closed-form expression — approximately 12× faster than ``get_toolface``
-    for scalar inputs.
-
-    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
-    For batch use, prefer the vectorised ``get_toolface``.
-
-    Parameters
-    ----------
-    pos1: array-like, shape (3,)
-        The reference NEV coordinate, e.g. current location.
-    vec1: array-like, shape (3,)
-        The reference NEV unit vector, e.g. current direction.
-    pos2: array-like, shape (3,)
-        The offset NEV coordinate, e.g. a target position.
-
-    Returns
-    -------
-    toolface: float
-        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
-    """
-    n1, e1, v1 = pos1
-    n2, e2, v2 = pos2
-    vn1, ve1, vv1 = vec1
-
-    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
-    cos_azi = np.cos(azimuth_vec1)
-    sin_azi = np.sin(azimuth_vec1)
-
-    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
-    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
-    denominator = (
-        vv1 * (e2 - e1) * sin_azi
-        + vv1 * (n2 - n1) * cos_azi
-        + (v1 - v2) * horiz_mag
-    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
-
-    return np.arctan2(numerator, denominator) % (2 * np.pi)
-
-
+import re
+from typing import Annotated, Literal, Union
+
+import numpy as np
+from numpy.typing import NDArray
+from scipy.spatial.transform import Rotation as R
+
+
+def get_dogleg(inc1, azi1, inc2, azi2):
+    """
+    Compute the dogleg angle between two survey stations (vectorised).
+
+    Uses the numerically stable Haversine form to avoid arccos precision loss
+    at small angles.
+
+    Parameters
+    ----------
+    inc1, azi1: float or array — inclination / azimuth at station 1 (radians)
+    inc2, azi2: float or array — inclination / azimuth at station 2 (radians)
+
+    Returns
+    -------
+    dogleg: float or array — dogleg angle in radians
+    """
+    return 2.0 * np.arcsin(np.sqrt(
+        np.sin((inc2 - inc1) / 2) ** 2
+        + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2
+    ))
+
+
+def get_rf(dogleg):
+    """
+    Compute the ratio factor (RF) for minimum curvature (vectorised).
+
+    Returns 1.0 where dogleg is 0 (limit of the function as dogleg → 0).
+
+    Parameters
+    ----------
+    dogleg: float or array — dogleg angle(s) in radians
+
+    Returns
+    -------
+    rf: float or array — ratio factor(s)
+    """
+    dogleg = np.asarray(dogleg, dtype=float)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rf = np.where(dogleg == 0.0, 1.0, 2.0 / dogleg * np.tan(dogleg / 2))
+    return float(rf) if rf.ndim == 0 else rf
+
+
+def min_curve_step(delta_md, inc1, azi1, inc2, azi2, rf=None):
+    """
+    Compute position increments using minimum curvature (vectorised).
+
+    All trigonometric values are computed once and shared across the three
+    coordinate directions for efficiency.
+
+    Parameters
+    ----------
+    delta_md: (n,) array — measured-depth increments
+    inc1, azi1: (n,) arrays — start inclination / azimuth (radians)
+    inc2, azi2: (n,) arrays — end inclination / azimuth (radians)
+    rf: (n,) array or None — ratio factors; computed if not supplied
+
+    Returns
+    -------
+    deltas: (n, 3) array — position increments in [N, E, V] order
+    """
+    if rf is None:
+        rf = get_rf(get_dogleg(inc1, azi1, inc2, azi2))
+    si1, ci1 = np.sin(inc1), np.cos(inc1)
+    si2, ci2 = np.sin(inc2), np.cos(inc2)
+    ca1, sa1 = np.cos(azi1), np.sin(azi1)
+    ca2, sa2 = np.cos(azi2), np.sin(azi2)
+    scale = delta_md * rf / 2
+    return np.stack((
+        scale * (si1 * ca1 + si2 * ca2),  # N
+        scale * (si1 * sa1 + si2 * sa2),  # E
+        scale * (ci1 + ci2),               # V
+    ), axis=-1)
+
+
+class MinCurve:
+    def __init__(
+        self,
+        md,
+        inc,
+        azi,
+        start_xyz=[0., 0., 0.],
+        unit="meters"
+    ):
+        """
+        Generate geometric data from a well bore survey.
+
+        Parameters
+        ----------
+        md: list or 1d array of floats
+            Measured depth along well path from a datum.
+        inc: list or 1d array of floats
+            Well path inclination (relative to z/tvd axis where 0
+            indicates down), in radians.
+        azi: list or 1d array of floats
+            Well path azimuth (relative to y/North axis),
+            in radians.
+        unit: str
+            Either "meters" or "feet" to determine the unit of the dogleg
+            severity.
+
+        """
+
+        assert unit == "meters" or unit == "feet", (
+            'Unknown unit, please select "meters" of "feet"'
+        )
+
+        self.md = md
+        survey_length = len(self.md)
+        assert survey_length > 1, "Survey must have at least two rows"
+
+        self.inc = inc
+        self.azi = azi
+        self.start_xyz = start_xyz
+        self.unit = unit
+
+        inc = np.array(inc)
+        azi = np.array(azi)
+        inc_1, inc_2 = inc[:-1], inc[1:]
+        azi_1, azi_2 = azi[:-1], azi[1:]
+
+        self.delta_md = np.diff(self.md, prepend=0)
+
+        self.dogleg = np.zeros(survey_length)
+        self.dogleg[1:] = get_dogleg(inc_1, azi_1, inc_2, azi_2)
+
+        self.rf = np.ones(survey_length)
+        self.rf[1:] = get_rf(self.dogleg[1:])
+
+        # compute all three coordinate deltas in a single trig pass
+        deltas = min_curve_step(
+            self.delta_md[1:], inc_1, azi_1, inc_2, azi_2, self.rf[1:]
+        )
+        self.delta_y = np.zeros(survey_length); self.delta_y[1:] = deltas[:, 0]
+        self.delta_x = np.zeros(survey_length); self.delta_x[1:] = deltas[:, 1]
+        self.delta_z = np.zeros(survey_length); self.delta_z[1:] = deltas[:, 2]
+
+        # calculate the dog leg severity
+        coeff = 30 if unit == "meters" else 100
+        self.dls = np.zeros(survey_length)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            raw = np.degrees(self.dogleg[1:]) / self.delta_md[1:]
+        self.dls[1:] = np.where(np.isnan(raw), 0.0, raw) * coeff
+
+        # cumulate the coordinates and add surface coordinates
+        self.poss = np.vstack(
+            np.cumsum(
+                np.array([self.delta_x, self.delta_y, self.delta_z]).T, axis=0
+            ) + self.start_xyz
+        )
+
+
+def get_vec(inc, azi, nev=False, r=1, deg=True):
+    """
+    Convert inc and azi into a vector.
+
+    Parameters
+    ----------
+    inc: array of n floats
+        Inclination relative to the z-axis (up)
+    azi: array of n floats
+        Azimuth relative to the y-axis
+    r: float or array of n floats
+        Scalar to return a scaled vector
+
+    Returns
+    -------
+    vec: arraylike
+        An (n,3) array of vectors
+    """
+    if deg:
+        inc_rad, azi_rad = np.radians(np.array([inc, azi]))
+    else:
+        inc_rad = inc
+        azi_rad = azi
+    y = np.sin(inc_rad) * np.cos(azi_rad)
+    x = np.sin(inc_rad) * np.sin(azi_rad)
+    z = np.cos(inc_rad)
+
+    if nev:
+        vec = np.column_stack([y, x, z])
+    else:
+        vec = np.column_stack([x, y, z])
+
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+
+    return vec * np.reshape(r, (-1, 1))
+
+
+def get_nev(
+    pos, start_xyz=np.array([0., 0., 0.]), start_nev=np.array([0., 0., 0.])
+):
+    """
+    Convert [x, y, z] coordinates to [n, e, tvd] coordinates.
+
+    Parameters
+    ----------
+    pos: (n,3) array of floats
+        Array of [x, y, z] coordinates
+    start_xyz: (,3) array of floats
+        The datum of the [x, y, z] cooardinates
+    start_nev: (,3) array of floats
+        The datum of the [n, e, tvd] coordinates
+
+    Returns
+    -------
+        An (n,3) array of [n, e, tvd] coordinates.
+    """
+    # e, n, v = (
+    #     np.array([pos]).reshape(-1,3) - np.array([start_xyz])
+    # ).T
+    e, n, v = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_xyz])
+    ).T
+
+    return np.column_stack([n, e, v]) + np.array([start_nev])
+
+
+def get_xyz(pos, start_xyz=[0., 0., 0.], start_nev=[0., 0., 0.]):
+    y, x, z = (
+        np.array([pos]).reshape(-1, 3) - np.array([start_nev])
+    ).T
+
+    return np.column_stack([x, y, z]) + np.array([start_xyz])
+
+
+def _get_angles(vec):
+    xy = vec[:, 0] ** 2 + vec[:, 1] ** 2
+    inc = np.arctan2(np.sqrt(xy), vec[:, 2])  # for elevation angle defined from Z-axis down
+    azi = (np.arctan2(vec[:, 0], vec[:, 1]) + (2 * np.pi)) % (2 * np.pi)
+
+    return np.stack((inc, azi), axis=1)
+
+
+def get_angles(
+    vec: Annotated[NDArray, Literal["N", 3]], nev: bool = False
+):
+    '''
+    Determines the inclination and azimuth from a vector.
+
+    Parameters
+    ----------
+    vec: (n,3) array of floats
+    nev: boolean (default: False)
+        Indicates if the vector is in (x,y,z) or (n,e,v) coordinates.
+
+    Returns
+    -------
+    [inc, azi]: (n,2) array of floats
+        A numpy array of incs and axis in radians
+
+    '''
+    # make sure it's a unit vector
+    vec = vec / np.linalg.norm(vec, axis=-1).reshape(-1, 1)
+    vec = vec.reshape(-1, 3)
+
+    # if it's nev then need to do the shuffle
+    if nev:
+        y, x, z = vec.T
+        vec = np.column_stack([x, y, z])
+
+    return _get_angles(vec)
+
+
+def _get_transform(inc, azi):
+    ci, si = np.cos(inc), np.sin(inc)
+    ca, sa = np.cos(azi), np.sin(azi)
+    z = np.zeros_like(inc)
+    trans = np.stack([
+        np.stack([ci * ca,  ci * sa, -si], axis=-1),
+        np.stack([-sa,       ca,      z  ], axis=-1),
+        np.stack([si * ca,  si * sa,  ci ], axis=-1),
+    ], axis=1)
+
+    return trans
+
+
+def get_transform(
+    survey
+):
+    """
+    Determine the transform for transforming between NEV and HLA coordinate
+    systems.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+
+    Returns
+    -------
+    transform: (n,3,3) array of floats
+    """
+    survey = survey.reshape(-1, 3)
+    inc = np.array(survey[:, 1])
+    azi = np.array(survey[:, 2])
+
+    return _get_transform(inc, azi)
+
+
+def NEV_to_HLA(
+    survey: Annotated[NDArray, Literal["N", 3]],
+    NEV: Union[
+        Annotated[NDArray, Literal["N", 3]],
+        Annotated[NDArray, Literal["N", 3, 3]]
+    ],
+    cov: bool = True
+) -> Union[
+        Annotated[NDArray, Literal['N, 3']],
+        Annotated[NDArray, Literal['N, 3, 3']]
+]:
+    """
+    Transform from NEV to HLA coordinate system.
+
+    Parameters
+    ----------
+    survey: (n,3) array of floats
+        The [md, inc, azi] survey listing array.
+    NEV: (n,3) or (n,3,3) array of floats
+        The NEV coordinates or covariance matrices.
+    cov: boolean
+        If cov is True then a (n,3,3) array of covariance matrices
+        is expected, else a (n,3) array of coordinates.
+
+    Returns
+    -------
+    HLAs: NDArray
+        Either a transformed (n,3) array of HLA coordinates or an
+        (n,3,3) array of HLA covariance matrices.
+    """
+
+    trans = get_transform(survey)
+
+    if cov:
+        # HLA_cov = trans @ NEV_cov @ trans.T  (batched over n stations)
+        return trans @ NEV @ trans.swapaxes(-1, -2)
+
+    else:
+        NEV = NEV.reshape(-1, 3)
+        return np.einsum('...k,...jk', NEV, trans)
+
+
+def HLA_to_NEV(survey, HLA, cov=True, trans=None):
+    if trans is None:
+        trans = get_transform(survey)
+
+    if cov:
+        # NEV_cov = trans.T @ HLA_cov @ trans  (batched over n stations)
+        return trans.swapaxes(-1, -2) @ HLA @ trans
+
+    else:
+        shape = HLA.shape
+        return (HLA.reshape(shape[0], -1, 3) @ trans).reshape(shape)
+
+
+def get_sigmas(cov, long=False):
+    """
+    Extracts the sigma values of a covariance matrix along the principle axii.
+
+    Parameters
+    ----------
+    cov: (n,3,3) array of floats
+
+    Returns
+    -------
+    arr: (n,3) array of floats
+    """
+
+    assert cov.shape[-2:] == (3, 3), "Cov is the wrong shape"
+
+    cov = cov.reshape(-1, 3, 3)
+
+    aa, ab, ac = cov[:, :, 0].T
+    ab, bb, bc = cov[:, :, 1].T
+    ac, bc, cc = cov[:, :, 2].T
+
+    if long:
+        return (aa, bb, cc, ab, ac, bc)
+    else:
+        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+
+
+def get_unit_vec(vec):
+    vec = vec / np.linalg.norm(vec)
+
+    return vec
+
+
+def linear_convert(data, factor):
+    flag = False
+    if not isinstance(data, list):
+        flag = True
+        data = [data]
+    converted = [d * factor if d is not None else None for d in data]
+    if flag:
+        return converted[0]
+    else:
+        return converted
+
+
+def make_cov(a, b, c, long=False):
+    # a, b, c = np.sqrt(np.array([a, b, c]))
+    if long:
+        cov = np.array([
+            [a * a, a * b, a * c],
+            [a * b, b * b, b * c],
+            [a * c, b * c, c * c]
+        ])
+
+    else:
+        cov = np.array([
+            [a * a, np.zeros_like(a), np.zeros_like(a)],
+            [np.zeros_like(a), b * b, np.zeros_like(a)],
+            [np.zeros_like(a), np.zeros_like(a), c * c]
+        ])
+
+    return cov.T
+
+
+def make_long_cov(arr):
+    """
+    Build a (n, 3, 3) covariance matrix from the 6 unique upper-triangle
+    elements per station.
+
+    Parameters
+    ----------
+    arr: (n, 6) array — columns [aa, ab, ac, bb, bc, cc]
+
+    Returns
+    -------
+    cov: (n, 3, 3) array
+    """
+    aa, ab, ac, bb, bc, cc = np.array(arr).T
+    return np.stack([
+        np.stack([aa, ab, ac], axis=-1),
+        np.stack([ab, bb, bc], axis=-1),
+        np.stack([ac, bc, cc], axis=-1),
+    ], axis=1)
+
+
+def dls_from_radius(radius):
+    """
+    Returns the dls in degrees from a radius.
+    """
+    if isinstance(radius, np.ndarray):
+        circumference = 2 * np.pi * radius
+        dls = np.divide(
+            360 * 30, circumference,
+            out=np.full(radius.shape, np.inf), where=radius != 0
+        )
+    else:
+        if radius == 0:
+            return np.inf
+        circumference = 2 * np.pi * radius
+        dls = 360 / circumference * 30
+
+    return dls
+
+
+def radius_from_dls(dls):
+    """
+    Returns the radius in meters from a DLS in deg/30m.
+    """
+    if isinstance(dls, np.ndarray):
+        circumference = np.divide(
+            30 * 360, dls,
+            out=np.full(dls.shape, np.inf), where=dls != 0
+        )
+    else:
+        if dls == 0:
+            return np.inf
+        circumference = (30 / dls) * 360
+    radius = circumference / (2 * np.pi)
+
+    return radius
+
+
+def cov_from_vec(arr):
+    """
+    Returns a (n, 3, 3) covariance matrix from an (n, 3) array via outer product.
+
+    Parameters
+    ----------
+    arr: (n, 3) array
+        Array of vector components.
+
+    Returns
+    -------
+    (n, 3, 3) array
+    """
+    arr = np.array(arr)
+    return arr[:, :, None] * arr[:, None, :]
+
+
+def errors_from_cov(cov, data=False):
+    """
+    Parameters
+    ----------
+    cov: (n, 3, 3) array
+        The error covariance matrices.
+    data: bool (default: False)
+        If True returns a dictionary, else returns a list.
+    """
+    nn, ne, nv, _, ee, ev, _, _, vv = (
+        cov.reshape(-1, 9).T
+    )
+
+    if data:
+        return {
+            i: {
+                'nn': _nn, 'ne': _ne, 'nv': _nv,
+                'ee': _ee, 'ev': _ev, 'vv': _vv
+            }
+            for i, (_nn, _ne, _nv, _ee, _ev, _vv)
+            in enumerate(zip(nn, ne, nv, ee, ev, vv))
+        }
+
+    return np.array([nn, ne, nv, ee, ev, vv]).T
+
+
+def _get_arc_pos_and_vec(dogleg, radius):
+    pos = np.array([
+        np.cos(dogleg),
+        0.,
+        np.sin(dogleg)
+    ]) * radius
+    pos[0] = radius - pos[0]
+
+    vec = np.array([
+        np.sin(dogleg),
+        0.,
+        np.cos(dogleg)
+    ])
+    return (pos, vec)
+
+
+class Arc:
+    def __init__(self, dogleg, radius):
+        """
+        Generates a generic arc that can be transformed with a specific pos
+        and vec via a transform method. The arc is initialized at a local
+        origin and kicks off down and to the north (assuming an NEV coordinate
+        system).
+
+        Parameters
+        ----------
+        dogleg: float
+            The sweep angle of the arc in radians.
+        radius: float
+            The radius of the arc in meters.
+
+        Returns
+        -------
+        arc: Arc object
+        """
+        self.dogleg = dogleg
+        self.radius = radius
+        self.delta_md = dogleg * radius
+
+        self.pos, self.vec = _get_arc_pos_and_vec(dogleg, radius)
+
+
+    def transform(self, toolface, pos=None, vec=None, target=False):
+        """
+        Transforms an Arc to a position and orientation.
+
+        Parameters
+        ----------
+        pos: (,3) array
+        The desired position to transform the arc.
+        vec: (,3) array
+            The orientation unit vector to transform the arc.
+        target: bool
+            If true, returned arc vector is reversed.
+
+        Returns
+        -------
+        tuple (pos_new, vec_new)
+        pos_new: (,3) array
+            The position at the end of the arc post transform.
+        vec_new: (,3) array
+            The unit vector at the end of the arc post transform.
+        """
+        if vec is None:
+            vec = np.array([0., 0., 1.])
+        if target:
+            # don't reverse the caller's vector in place
+            vec = -np.array(vec)
+        inc, azi = get_angles(vec, nev=True).reshape(2)
+        angles = [
+            toolface,
+            inc,
+            azi
+        ]
+        r = R.from_euler('zyz', angles, degrees=False)
+
+        pos_new, vec_new = r.apply(np.vstack((self.pos, self.vec)))
+
+        # make sure vec_new is a unit vector:
+        vec_new = get_unit_vec(vec_new)
+
+        if pos is not None:
+            pos_new += pos
+        if target:
+            vec_new *= -1
+
+        return (pos_new, vec_new)
+
+
+def get_arc(
+    dogleg, radius, toolface, pos=None, vec=None, target=False
+) -> tuple:
+    """Creates an Arc instance and transforms it to the desired position
+    and orientation.
+
+    Parameters
+    ----------
+    dogleg: float
+        The swept angle of the arc (arc angle) in radians.
+    radius: float
+        The radius of the arc (in meters).
+    toolface: float
+        The toolface angle in radians (relative to the high side) to rotate the
+        arc at the desired position and orientation.
+    pos: (,3) array
+        The desired position to transform the arc.
+    vec: (,3) array
+        The orientation unit vector to transform the arc.
+    target: bool
+        If true, returned arc vector is reversed.
+
+    Returns
+    -------
+    tuple of (pos_new, vec_new, arc.delta_md)
+    pos_new: (,3) array
+        The position at the end of the arc post transform.
+    vec_new: (,3) array
+        The unit vector at the end of the arc post transform.
+    arc.delta_md: int
+        The arc length of the arc.
+    """
+    arc = Arc(dogleg, radius)
+    pos_new, vec_new = arc.transform(toolface, pos, vec, target)
+
+    return (pos_new, vec_new, arc.delta_md)
+
+
+def annular_volume(od: float, id: float = None, length: float = None):
+    """
+    Calculate an annular volume.
+
+    If no ``id`` is provided then circular volume is calculated. If no
+    ``length`` is provided, then the unit volume is calculated (i.e. the
+    area).
+
+    Units are assumed consistent across input parameters, i.e. the
+    calculation is dimensionless.
+
+    Parameters
+    ----------
+    od: float
+        The outer diameter.
+    id: float | None, optional
+        The inner diameter, default is 0.
+    length : float | None, optional
+        The length of the annulus.
+
+    Returns
+    -------
+    annular_volume: float
+        The (unit) volume of the annulus or cylinder.
+
+    Examples
+    --------
+    In the following example we calculate annular volume along a 1,000 meter
+    section length of 9 5/8" casing inside 12 1/4" hole.
+
+    >>> from welleng.utils import annular_volume
+    >>> from welleng.units import ureg
+    >>> av = annular_volume(
+    ...     od=ureg('12.25 inch').to('meters),
+    ...     id=ureg(f'{9+5/8} inch').to('meter'),
+    ...     length=ureg('1000 meter')
+    ... )
+    >>> print(av)
+    29.096093526301622 meter ** 3
+    """
+    length = 1 if length is None else length
+    id = 0 if id is None else id
+    annular_unit_volume = (np.pi * (od**2 - id**2)) / 4
+    annular_volume = annular_unit_volume * length
+
+    return annular_volume
+
+
+def _decimal2dms(decimal: tuple, ndigits: int = None) -> tuple:
+    try:
+        _decimal, direction = decimal
+    except (TypeError, ValueError):
+        _decimal = decimal[0] if isinstance(decimal, np.ndarray) else decimal
+        direction = None
+    _decimal = float(_decimal)
+    seconds = abs(_decimal) * 3600
+    if ndigits is not None:
+        # round before splitting so that 60 seconds are carried
+        seconds = round(seconds, ndigits)
+    minutes, seconds = divmod(seconds, 60)
+    degrees, minutes = divmod(minutes, 60)
+    degrees = int(degrees)
+    if _decimal < 0:
+        # minus zero degrees keeps the sign of angles between -1 and 0
+        degrees = -degrees if degrees else -0.0
+
+    return np.array([
+        degrees,
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits)
+    ]) if direction is None else np.array([
+        degrees,
+        int(minutes),
+        seconds if ndigits is None else round(seconds, ndigits),
+        direction
+    ], dtype=object)
+
+
+def decimal2dms(decimal: tuple | NDArray, ndigits: int = None) -> tuple | NDArray:
+    """Converts a decimal lat, lon to degrees, minutes and seconds.
+
+    Parameters
+    ----------
+    decimal : tuple | arraylike
+        A tuple of (lat, direction) or (lon, direction) or arraylike of
+        ((lat, direction), (lon, direction)) coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the seconds decimal to the desired number of
+        digits.
+
+    Returns
+    -------
+    dms: arraylike
+        An array of (degrees, minutes, seconds, direction).
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from decimals
+    to degrees, minutes and seconds:
+
+    >>> LAT, LON = [(52.078663, 'N'), (4.288788, 'E')]
+    >>> dms = decimal2dms((LAT, LON), ndigits=6)
+    >>> print(dms)
+    [[52 4 43.1868 'N']
+     [4 17 19.6368 'E']]
+    """
+    flag = False
+    _decimal = np.array(decimal)
+    if np.issubdtype(_decimal.dtype, np.number):
+        _decimal = _decimal.reshape((-1, 1))
+        flag = True
+    try:
+        dms = np.apply_along_axis(_decimal2dms, -1, _decimal, ndigits)
+    except np.exceptions.AxisError:
+        dms = _decimal2dms(_decimal, ndigits)
+
+    if dms.shape == (4,):
+        return tuple(dms)
+    else:
+        return dms.reshape((-1, 3)) if flag else dms
+
+
+def _dms2decimal(dms: NDArray, ndigits: int = None) -> NDArray:
+    try:
+        degrees, minutes, seconds, direction = dms
+    except ValueError:
+        degrees, minutes, seconds = dms
+        direction = None
+
+    decimal = abs(degrees) + minutes / 60 + seconds / 3600
+
+    return np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        )
+    ]) if direction is None else np.array([
+        np.copysign(
+            decimal if ndigits is None else round(decimal, ndigits),
+            degrees
+        ),
+        direction
+    ], dtype=object)
+
+
+def dms2decimal(dms: tuple | NDArray, ndigits: int = None) -> NDArray:
+    """Converts a degrees, minutes and seconds lat, lon to decimals.
+
+    Parameters
+    ----------
+    dms : tuple | arraylike
+        A tuple or arraylike of (degrees, minutes, seconds, direction) lat
+        and/or lon or arraylike of lat, lon coordinates.
+    ndigits: int (default is None)
+        If specified, rounds the decimal to the desired number of digits.
+
+    Returns
+    -------
+    degrees: arraylike
+        A tuple or array of lats and/or longs in decimals.
+
+    Examples
+    --------
+    If you want to convert the lat/lon coordinates for Den Haag from degrees,
+    minutes and seconds to decimals:
+
+    >>> LAT, LON = (52, 4, 43.1868, 'N'), (4, 17, 19.6368, 'E')
+    >>> decimal = dms2decimal((LAT, LON), ndigits=6)
+    >>> print(decimal)
+    [[52.078663 'N']
+     [4.288788 'E']]
+    """
+    result = np.apply_along_axis(
+        _dms2decimal, -1, np.array(dms, dtype=object), ndigits
+    )
+
+    if result.shape == ():
+        return float(result)
+    elif result.shape == (1,):
+        return float(result[0])
+    elif result.shape[-1] == 1:
+        return result.reshape(-1)
+    else:
+        return result
+
+
+def pprint_dms(dms, symbols: bool = True, return_data: bool = False):
+    """Pretty prints a (decimal, minutes, seconds) tuple or list.
+
+    Parameters
+    ----------
+    dms: tuple | list
+        An x or y or northing or easting (degree, minute, second).
+    symbols: bool (default: True)
+        Whether to print symbols for (deg, min, sec).
+    return_data: bool (default: False)
+        If True then will return the string rather than print it.
+    """
+    if symbols:
+        try:
+            deg, min, sec = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\""
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg}\N{DEGREE SIGN}, {min}', {sec}\" {_}"
+
+    else:
+        try:
+            deg, min, sec = dms
+            text = f"{deg} deg, {min} min, {sec} sec"
+        except ValueError:
+            deg, min, sec, _ = dms
+            text = f"{deg} deg, {min} min, {sec} sec {_}"
+
+    if return_data:
+        return text
+    else:
+        print(text)
+
+
+def dms_from_string(text):
+    """Extracts the values from a string dms x or y or northing or easting.
+    """
+    pattern = re.compile(
+        r'(?<![\d.])(-?\d+(?:\.0*)?)\s*(?:°|deg)?,'
+        r'\s*(\d+(?:\.0*)?)\s*(?:\'|min)?,'
+        r'\s*(\d+(?:\.\d+)?(?:e[+-]?\d+)?)\s*(?:"|sec)?\s*.*?(\S+)?$',
+        re.IGNORECASE
+    )
+    matches = pattern.findall(text)
+
+    if matches:
+        deg, min, sec_str = matches[0][:3]
+        sec = float(sec_str)
+        final_data = matches[0][-1] if matches[0][-1] else None
+
+        # minus zero degrees keeps the sign of angles between -1 and 0
+        deg = float(deg)
+        deg = int(deg) if deg else deg if np.signbit(deg) else 0
+
+        if final_data:
+            return (deg, int(float(min)), sec, final_data)
+        else:
+            return (deg, int(float(min)), sec)
+
+    else:
+        return
+
+
+def make_clc_path(
+    toolface1, dogleg1, distance, toolface2, dogleg2,
+    pos0=None, vec0=None, radius=1.0
+):
+    """Generate a curve-hold-curve (CLC) path from arc parameters.
+
+    Builds the path in three steps: first arc, straight hold, second arc.
+    Useful for constructing known-geometry test cases and for quickly
+    prototyping CLC trajectories.
+
+    Parameters
+    ----------
+    toolface1: float
+        Toolface angle for the first curve in radians.
+    dogleg1: float
+        Sweep angle (dogleg) for the first curve in radians.
+    distance: float
+        Length of the straight hold section (same units as radius).
+    toolface2: float
+        Toolface angle for the second curve in radians.
+    dogleg2: float
+        Sweep angle (dogleg) for the second curve in radians.
+    pos0: (3,) array-like, optional
+        Start position [N, E, V]. Defaults to [0, 0, 0].
+    vec0: (3,) array-like, optional
+        Start direction unit vector. Defaults to [0, 0, 1] (pointing down).
+    radius: float, optional
+        Arc radius for both curves. Defaults to 1.0.
+
+    Returns
+    -------
+    dict with keys:
+        pos1, vec1  – end of first arc
+        dist_curve1 – arc length of first curve
+        pos2, vec2  – end of hold section / start of second arc
+        pos3, vec3  – end of second arc
+        dist_curve2 – arc length of second curve
+    """
+    pos0 = np.array([0., 0., 0.]) if pos0 is None else np.asarray(pos0, dtype=float)
+    vec0 = np.array([0., 0., 1.]) if vec0 is None else np.asarray(vec0, dtype=float)
+
+    pos1, vec1, dist_curve1 = get_arc(dogleg1, radius, toolface1, pos=pos0, vec=vec0)
+    pos2 = pos1 + vec1 * distance
+    vec2 = vec1.copy()
+    pos3, vec3, dist_curve2 = get_arc(dogleg2, radius, toolface2, pos=pos2, vec=vec2)
+
+    return dict(
+        pos1=pos1, vec1=vec1, dist_curve1=dist_curve1,
+        pos2=pos2, vec2=vec2,
+        pos3=pos3, vec3=vec3, dist_curve2=dist_curve2,
+    )
+
+
+def get_toolface(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> NDArray:
+    """Returns the toolface(s) of offset position(s) relative to reference
+    positions and vectors.  Accepts either single (3,) arrays or batches of
+    (n, 3) arrays; all three arguments must have the same leading dimension.
+
+    Parameters
+    ----------
+    pos1: ndarray, shape (3,) or (n, 3)
+        The reference NEV coordinate(s), e.g. current location.
+    vec1: ndarray, shape (3,) or (n, 3)
+        The reference NEV unit vector(s), e.g. current direction.
+    pos2: ndarray, shape (3,) or (n, 3)
+        The offset NEV coordinate(s), e.g. a target position.
+
+    Returns
+    -------
+    toolface: float or ndarray
+        The toolface(s) in radians [0, 2π) to pos2 from pos1 along vec1.
+        Returns a scalar float when single (3,) inputs are given.
+    """
+    pos1 = np.atleast_2d(pos1)
+    vec1 = np.atleast_2d(vec1)
+    pos2 = np.atleast_2d(pos2)
+
+    angles = np.flip(get_angles(vec1, nev=True), axis=1)
+    r = R.from_euler('zy', angles * -1, degrees=False)
+    pos = r.apply(pos2 - pos1)
+    result = np.arctan2(*np.flip(pos[:, :-1], axis=1).T) % (2 * np.pi)
+    return float(result[0]) if result.size == 1 else result
+
+
+def get_toolface_fast(pos1: NDArray, vec1: NDArray, pos2: NDArray) -> float:
+    """Returns the toolface of a single offset position using a direct
+    closed-form expression — approximately 12× faster than ``get_toolface``
+    for scalar inputs.
+
+    Suitable when pos1, vec1 and pos2 are all individual (3,) arrays.
+    For batch use, prefer the vectorised ``get_toolface``.
+
+    Parameters
+    ----------
+    pos1: array-like, shape (3,)
+        The reference NEV coordinate, e.g. current location.
+    vec1: array-like, shape (3,)
+        The reference NEV unit vector, e.g. current direction.
+    pos2: array-like, shape (3,)
+        The offset NEV coordinate, e.g. a target position.
+
+    Returns
+    -------
+    toolface: float
+        The toolface in radians [0, 2π) to pos2 from pos1 along vec1.
+    """
+    n1, e1, v1 = pos1
+    n2, e2, v2 = pos2
+    vn1, ve1, vv1 = vec1
+
+    azimuth_vec1 = np.arctan2(ve1, vn1) % (2 * np.pi)
+    cos_azi = np.cos(azimuth_vec1)
+    sin_azi = np.sin(azimuth_vec1)
+
+    numerator = (e2 - e1) * cos_azi + (n1 - n2) * sin_azi
+    horiz_mag = np.sqrt(ve1 ** 2 + vn1 ** 2)
+    denominator = (
+        vv1 * (e2 - e1) * sin_azi
+        + vv1 * (n2 - n1) * cos_azi
+        + (v1 - v2) * horiz_mag
+    ) / np.sqrt(ve1 ** 2 + vn1 ** 2 + vv1 ** 2)
+
+    return np.arctan2(numerator, denominator) % (2 * np.pi)
+
+
-- 
2.43.0


From 2c6faf0b570c5e66a408c348dcdc114fec322150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 061/121] fix: maximum curvature of surveys in feet, from
 vertical stations and without noise

---
 welleng/survey.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 47762eb..f1e205e 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1240,7 +1240,7 @@ class Survey:
         if dls is None:
             dls = self.dls[-1]
         if toolface is None:
-            toolface = self.toolface[-1]
+            toolface = _get_toolface_to_vec(self)[-1]
 
         node = project_ahead(
             pos=np.array([self.n, self.e, self.tvd]).T[-1],
@@ -1500,7 +1500,8 @@ class Survey:
         """
 
         dls_effective = self.dls + dls_noise
-        radius_effective = radius_from_dls(dls_effective)
+        coeff = 30 if self.unit == 'meters' else 100
+        radius_effective = radius_from_dls(dls_effective) * coeff / 30
 
         dogleg1 = (
             (self.delta_md / radius_effective) / 2
@@ -1511,20 +1512,20 @@ class Survey:
             self.delta_md * 4 / (2 * np.pi),
             radius_effective
         )
+        dogleg1 = (self.delta_md / radius_effective) / 2
 
         arc1 = [
             get_arc(dogleg, _radius_effective, toolface, vec=vec)
             for dogleg, _radius_effective, toolface, vec in zip(
-                dogleg1[1:], radius_effective[1:], self.toolface[:-1],
-                self.vec_nev[:-1]
+                dogleg1[1:], radius_effective[1:],
+                _get_toolface_to_vec(self)[:-1], self.vec_nev[:-1]
             )
         ]
 
         _survey_new = np.array([
-            [row[-1], *np.degrees(get_angles(row[1], nev=True))[0]]
-            for row in arc1
+            [md, *np.degrees(get_angles(row[1], nev=True))[0]]
+            for md, row in zip(self.md[:-1] + self.delta_md[1:] / 2, arc1)
         ])
-        _survey_new[:, 0] += self.md[:-1]
 
         survey_new = np.zeros(shape=(len(_survey_new) * 2 + 1, 3))
         survey_new[:-1] = np.stack(
@@ -1544,7 +1545,8 @@ class Survey:
             azi=survey_new[:, 2],
             header=sh,
             start_xyz=self.start_xyz,
-            start_nev=self.start_nev
+            start_nev=self.start_nev,
+            unit=self.unit
         )
 
         # Update the interpolated property to keep track of the original survey
@@ -1555,6 +1557,17 @@ class Survey:
         return survey
 
 
+def _get_toolface_to_vec(survey):
+    """
+    Returns the toolfaces of the survey stations relative to the azimuths of
+    their direction vectors. The two are the same except for exactly vertical
+    stations, since their vectors do not know the azimuth of the station.
+    """
+    azi_vec = get_angles(survey.vec_nev, nev=True)[:, 1]
+
+    return survey.toolface + survey.azi_grid_rad - azi_vec
+
+
 def modified_tortuosity_index(
     survey, rtol=1.0, dls_tol=1e-3, data=False, **kwargs
 ):
@@ -3076,7 +3089,7 @@ def project_to_target(
     if dls is None:
         dls = survey.dls[-1]
     if toolface is None:
-        toolface = survey.toolface[-1]
+        toolface = _get_toolface_to_vec(survey)[-1]
     if survey.cov_nev is not None:
         cov_nev = survey.cov_nev[-1]
     else:
-- 
2.43.0


From 5007c25581c152a99b69a6941907b03e63e49280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 062/121] fix: tortuosity index takes account of dls_tol

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f1e205e..1001663 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1464,7 +1464,7 @@ class Survey:
         """
 
         return tortuosity_index(
-            self, rtol=rtol, dls_tol=None, data=data, **kwargs
+            self, rtol=rtol, dls_tol=dls_tol, data=data, **kwargs
         )
 
     def directional_difficulty_index(self, **kwargs):
-- 
2.43.0


From 1e330f0c20f373f994dcc645642c90430936b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 063/121] fix: directional difficulty index is relative to the
 well's start and unit

---
 welleng/survey.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 1001663..a3e8855 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1701,18 +1701,19 @@ def directional_difficulty_index(survey, **kwargs):
     data: (n) array of floats
         The ddi for each survey station.
     """
+    unit = ureg(survey.unit)
+    # displacement from the start of the well
+    displacement = np.linalg.norm(
+        (survey.n - survey.n[0], survey.e - survey.e[0]), axis=0
+    )
     with np.errstate(divide='ignore', invalid='ignore'):
         ddi = np.nan_to_num(np.log10(
             (
-                (survey.md * ureg.meters).to('ft').m
-                * (
-                    np.linalg.norm(
-                        (survey.n, survey.e), axis=0
-                    ) * ureg.meters
-                ).to('ft').m
+                (survey.md * unit).to('ft').m
+                * (displacement * unit).to('ft').m
                 * np.cumsum(np.degrees(survey.dogleg))
             )
-            / (survey.tvd * ureg.meters).to('ft').m
+            / (survey.tvd * unit).to('ft').m
         ), nan=0.0, posinf=0.0, neginf=0.0)
 
     return ddi
-- 
2.43.0


From f29f2acc83d0f45b0088ce7dfb814f66aa87a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 064/121] fix: tortuosity index of surveys in feet

---
 welleng/survey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index a3e8855..12db5d1 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1638,7 +1638,9 @@ def tortuosity_index(survey, rtol=0.01, dls_tol=None, data=False, **kwargs):
     by Pradeep Ashok et al.
     """
     # set default params
-    coeff = kwargs.get('coeff', 0.3048)  # for testing dimensionlessness
+    coeff = kwargs.get(  # for testing dimensionlessness
+        'coeff', 0.3048 if survey.unit == 'meters' else 1.0
+    )
     kappa = kwargs.get('kapa', 1e7)
 
     continuous, starts, mds, locs, n_sections, n_sections_arr = _get_ti_data(
-- 
2.43.0


From 9e28467adba0908de34d3b9f6645661cf2636a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 065/121] fix: default hole radius of surveys in feet is 12
 inches too

---
 welleng/survey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 12db5d1..6a5336b 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -839,7 +839,10 @@ class Survey:
 
     def _get_radius(self, radius=None):
         if radius is None:
-            self.radius = np.full_like(self.md.astype(float), 0.3048)
+            self.radius = np.full_like(
+                self.md.astype(float),
+                0.3048 if self.unit == 'meters' else 1.0
+            )
         elif np.array([radius]).shape[-1] == 1:
             self.radius = np.full_like(self.md.astype(float), radius)
         else:
-- 
2.43.0


From 255df81bdced9d7de68bd6b80ea2fae9f7bced61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 066/121] fix: exporting control points of surveys in feet or
 with another azimuth reference

---
 welleng/survey.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 6a5336b..aebc0f7 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2641,12 +2641,17 @@ def func(x0, survey, dls_cont, tolerance):
     md, inc, azi, n, e, tvd, dls, tf, br, tr = data.T
     nev = np.column_stack([survey.n, survey.e, survey.tvd])
 
+    # the azimuths of the control points are relative to grid north
+    header = copy(survey.header)
+    header.azi_reference = 'grid'
+
     s = Survey(
         md=md,
         inc=inc,
         azi=azi,
         start_nev=nev[0],
-        header=survey.header
+        header=header,
+        unit=survey.unit
     )
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
-- 
2.43.0


From f50ed765906f8f644b50e80233f9253138e4f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 067/121] fix: tables of surveys in feet are labelled with
 their unit

---
 welleng/survey.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index aebc0f7..55dac71 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2473,18 +2473,21 @@ def survey_to_df(survey: Survey) -> pd.DataFrame:
         DataFrame with columns for MD, inclination, azimuths, positions,
         DLS, toolface, build rate, and turn rate.
     """
+    unit, interval = (
+        ('m', '30m') if survey.unit == 'meters' else ('ft', '100ft')
+    )
     data = {
-        'MD (m)': survey.md,
+        f'MD ({unit})': survey.md,
         'INC (deg)': survey.inc_deg,
         'AZI_GN (deg)': survey.azi_grid_deg,
         'AZI_TN (deg)': survey.azi_true_deg,
-        'NORTHING (m)': survey.pos_nev[:, 0],
-        'EASTING (m)': survey.pos_nev[:, 1],
-        'TVDSS (m)': survey.pos_nev[:, 2],
-        'X (m)': survey.pos_xyz[:, 0],
-        'Y (m)': survey.pos_xyz[:, 1],
-        'Z (m)': survey.pos_xyz[:, 2],
-        'DLS (deg/30m)': survey.dls,
+        f'NORTHING ({unit})': survey.pos_nev[:, 0],
+        f'EASTING ({unit})': survey.pos_nev[:, 1],
+        f'TVDSS ({unit})': survey.pos_nev[:, 2],
+        f'X ({unit})': survey.pos_xyz[:, 0],
+        f'Y ({unit})': survey.pos_xyz[:, 1],
+        f'Z ({unit})': survey.pos_xyz[:, 2],
+        f'DLS (deg/{interval})': survey.dls,
         'TOOLFACE (deg)': np.degrees(survey.toolface + 2 * np.pi) % 360,
         'BUILD RATE (deg)': np.nan_to_num(survey.build_rate, nan=0.0),
         'TURN RATE (deg)': np.nan_to_num(survey.turn_rate, nan=0.0)
@@ -2530,13 +2533,14 @@ def export_csv(
         res.x[0], survey, dls_cont
     )
 
+    unit = 'm' if survey.unit == 'meters' else 'ft'
     headers = ','.join([
         'MD',
         'INC (deg)',
         'AZI (deg)',
-        'NORTHING (m)',
-        'EASTING (m)',
-        'TVDSS (m)',
+        f'NORTHING ({unit})',
+        f'EASTING ({unit})',
+        f'TVDSS ({unit})',
         'DLS',
         'TOOLFACE',
         'BUILD RATE',
-- 
2.43.0


From 96b9d57b78eec560064d5d3a2a9642b1a4874575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 068/121] fix: separation factor minima of surveys in feet

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index a1aba23..d78909c 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -556,7 +556,8 @@ class IscwsaClearance(Clearance):
                     radius=np.insert(
                         self.ref.radius, i, self.ref.radius[i]
                     ),
-                    header=sh
+                    header=sh,
+                    unit=self.ref.unit
                 )
 
                 self.ref = survey
-- 
2.43.0


From f6848027b496a3d1d32a4e1d71b72489c2a6f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 069/121] fix: ends of connections are recognised despite
 rounding

---
 welleng/survey.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 55dac71..7d18d9c 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2741,7 +2741,11 @@ def from_connections(
             azi_reference="grid"  # since connections are typcially derived from pos
         )
 
-    interpolated = np.array([False if m in mds_ref else True for m in md])
+    # the mds accumulate floating point rounding, so the ends of the
+    # connections are identified to within the precision of the duplicates
+    interpolated = np.array([
+        not np.any(np.abs(np.array(mds_ref) - m) < 1e-4) for m in md
+    ])
 
     survey = Survey(
         md=md,
-- 
2.43.0


From 20dcfe076e9b00781378f681ab43bc8c958f9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 070/121] fix: clearance surveys take their azimuths as
 relative to grid north

---
 welleng/clearance.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index d78909c..d209e00 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -188,6 +188,9 @@ class Clearance:
                 )
             except (IndexError, AttributeError):
                 cov_nev, cov_hla = (None, None)
+            # the azimuths are relative to grid north
+            header = copy(self.reference.header)
+            header.azi_reference = 'grid'
             self.ref = Survey(
                 md=self.reference.md[self.kop_index:],
                 inc=self.reference.inc_rad[self.kop_index:],
@@ -197,7 +200,7 @@ class Clearance:
                 tvd=self.reference.tvd[self.kop_index:],
                 vec=self.reference.vec_nev[self.kop_index:],
                 radius=self.reference.radius[self.kop_index:],
-                header=self.reference.header,
+                header=header,
                 cov_nev=cov_nev,
                 cov_hla=cov_hla,
                 error_model=None,
@@ -694,6 +697,10 @@ class IscwsaClearance(Clearance):
             for r in self.closest
         ])
 
+        # the azimuths are relative to grid north
+        header = copy(self.offset.header)
+        header.azi_reference = 'grid'
+
         self.off = Survey(
             md=md,
             inc=inc,
@@ -701,7 +708,7 @@ class IscwsaClearance(Clearance):
             n=n,
             e=e,
             tvd=tvd,
-            header=self.offset.header,
+            header=header,
             error_model=None,
             cov_hla=cov_hla,
             cov_nev=cov_nev,
-- 
2.43.0


From 5ee9f412548d1e23b4842d664b88c64d2b726f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 071/121] fix: side-track uncertainties are in the unit and
 grid north of the survey

---
 welleng/clearance.py |  6 +++++-
 welleng/survey.py    | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index d209e00..c6ea91f 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -165,7 +165,11 @@ class Clearance:
                         - error.cov_NEV[ki:ki + 1]
                     )
 
-        return cov_below  # (n_below, 3, 3)
+        # the errors are in meters and relative to true north
+        if self.reference.unit == 'feet':
+            cov_below /= 0.3048 ** 2
+
+        return self.reference._rotate_to_grid(cov_below)  # (n_below, 3, 3)
 
     def _get_ref(self):
         if self.kop_index == 0:
diff --git a/welleng/survey.py b/welleng/survey.py
index 7d18d9c..918cb22 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -998,16 +998,22 @@ class Survey:
         The error models work relative to true north, while the positions of
         a survey (and so its covariances) are relative to grid north.
         """
-        if not self.header.convergence:
-            return
-        c = math.cos(self.header.convergence)
-        s = math.sin(self.header.convergence)
-        rotation = np.array([[c, s, 0.], [-s, c, 0.], [0., 0., 1.]])
         for cov in (
             'cov_nev', 'cov_nev_random', 'cov_nev_systematic',
             'cov_nev_global', 'cov_nev_within_pad'
         ):
-            setattr(self, cov, rotation @ getattr(self, cov) @ rotation.T)
+            setattr(self, cov, self._rotate_to_grid(getattr(self, cov)))
+
+    def _rotate_to_grid(self, cov):
+        """
+        Rotate covariances relative to true north to grid north.
+        """
+        if not self.header.convergence:
+            return cov
+        c = math.cos(self.header.convergence)
+        s = math.sin(self.header.convergence)
+        rotation = np.array([[c, s, 0.], [-s, c, 0.], [0., 0., 1.]])
+        return rotation @ cov @ rotation.T
 
     def _curvature_to_rate(self, curvature):
         with np.errstate(divide='ignore', invalid='ignore'):
-- 
2.43.0


From 96dd746929037b827baae35d0ef7204b6bd10acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 072/121] fix: closest point of an offset well is found on
 every leg

---
 welleng/clearance.py | 84 +++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index c6ea91f..b73ba80 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -625,51 +625,34 @@ class IscwsaClearance(Clearance):
         """
         closest = []
         for j, (i, station) in enumerate(zip(
-            self.idx, self.ref_nevs.tolist()
+            self.idx.tolist(), self.ref_nevs.tolist()
         )):
-            if i > 0:
-                bnds = [(0, self.offset.md[i] - self.offset.md[i - 1])]
-                res_1 = optimize.minimize(
+            best = None
+            for leg in self._get_candidate_legs(i, station):
+                bound = self.offset.md[leg + 1] - self.offset.md[leg]
+                # start from the closest station where there is one
+                x0 = {i - 1: bound, i: 0.0}.get(leg, bound / 2)
+                res = optimize.minimize(
                     self._fun,
-                    bnds[0][1],
+                    x0,
                     # method='SLSQP',
                     method='Powell',
-                    bounds=bnds,
-                    args=(self.offset, i-1, station)
-                    )
-                mult = res_1.x[0] / (bnds[0][1] - bnds[0][0])
-                sigma_new_1 = self._interpolate_covs(i, mult)
-            else:
-                res_1 = False
-
-            if i < len(self.offset_nevs) - 1:
-                bnds = [(0, self.offset.md[i + 1] - self.offset.md[i])]
-                res_2 = optimize.minimize(
-                    self._fun,
-                    bnds[0][0],
-                    # method='SLSQP',
-                    method='Powell',
-                    bounds=bnds,
-                    args=(self.offset, i, station)
-                    )
-                mult = res_2.x[0] / (bnds[0][1] - bnds[0][0])
-                sigma_new_2 = self._interpolate_covs(i + 1, mult)
-            else:
-                res_2 = False
-
-            if res_1 and res_2 and res_1.fun < res_2.fun or not res_2:
-                closest.append((
-                    station,
-                    _interpolate_survey(self.offset, res_1.x[0], i - 1),
-                    res_1, sigma_new_1
-                ))
-            else:
-                closest.append((
-                    station,
-                    _interpolate_survey(self.offset, res_2.x[0], i),
-                    res_2,
-                    sigma_new_2
-                ))
+                    bounds=[(0, bound)],
+                    args=(self.offset, leg, station)
+                )
+                if best is None or res.fun < best[1].fun:
+                    best = (leg, res)
+
+            leg, res = best
+            bound = self.offset.md[leg + 1] - self.offset.md[leg]
+            if leg not in (i - 1, i):
+                self.idx[j] = leg if res.x[0] < bound / 2 else leg + 1
+            closest.append((
+                station,
+                _interpolate_survey(self.offset, res.x[0], leg),
+                res,
+                self._interpolate_covs(leg + 1, res.x[0] / bound)
+            ))
 
         self.closest = closest
         md, inc, azi, n, e, tvd, x, y, z,  = np.array([
@@ -722,6 +705,25 @@ class IscwsaClearance(Clearance):
             unit=self.offset.unit
         )
 
+    def _get_candidate_legs(self, i, station):
+        """
+        Returns the legs of the offset well (as the index of their first
+        station) which may hold the point closest to `station`, where `i` is
+        the index of the closest offset station: those next to that station
+        and those that are long enough to come closer than it.
+        """
+        n = len(self.offset.md)
+        distance = norm(self.offset_nevs - station, axis=-1)
+        nearest = (
+            distance[:-1] + distance[1:] - np.diff(self.offset.md)
+        ) / 2
+        legs = [leg for leg in (i, i - 1) if 0 <= leg < n - 1]
+        legs += [
+            leg for leg in np.where(nearest < distance[i])[0].tolist()
+            if leg not in legs
+        ]
+        return legs
+
     def _compute_off_cov_sidetrack_correction(self):
         """
         Per the ISCWSA standard (paragraph 81), uncertainty for sidetrack
-- 
2.43.0


From 3199a91054b87eaf14d1eca50c42c18357bc1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 073/121] fix: the faces of a well mesh all point outwards

---
 welleng/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 0d5080e..d01583e 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -566,7 +566,7 @@ def get_ends(n_verts, rows):
     ring_idx = np.arange(n_verts)
     ring_next = np.roll(ring_idx, -1)
     top = np.column_stack([
-        np.full(n_verts, center_top), ring_idx, ring_next
+        np.full(n_verts, center_top), ring_next, ring_idx
     ])
 
     # Bottom cap: fan from center_bottom to last ring
@@ -574,7 +574,7 @@ def get_ends(n_verts, rows):
     ring_idx_bottom = last_ring_start + np.arange(n_verts)
     ring_next_bottom = last_ring_start + np.roll(np.arange(n_verts), -1)
     bottom = np.column_stack([
-        np.full(n_verts, center_bottom), ring_next_bottom, ring_idx_bottom
+        np.full(n_verts, center_bottom), ring_idx_bottom, ring_next_bottom
     ])
 
     return top, bottom
@@ -604,7 +604,7 @@ def get_faces(n_verts, rows):
 
 
     faces = np.array([
-        A + lower, A + upper, B + upper,
+        A + lower, B + upper, A + upper,
         A + lower, B + lower, B + upper
     ]).T.reshape(-1, 3)
 
-- 
2.43.0


From aae83031d2b1f72324e813da8a05e4bcafc23ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 074/121] fix: pedal curve meshes have the requested number of
 vertices

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index d01583e..55420d6 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -193,7 +193,7 @@ class WellMesh:
                 ),
                 np.arccos(
                     np.linspace(
-                        1., -1., int(self.n_verts / 2),
+                        1., -1., self.n_verts - int(self.n_verts / 2),
                         endpoint=False)) + np.pi
                 )
             )
-- 
2.43.0


From 6308e96bd2b09c8eaefc193890dd5531eb94d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 075/121] fix: sliced_mesh works with its default method

---
 welleng/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index 55420d6..d31a973 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -431,7 +431,7 @@ def sliced_mesh(
     start=0,
     stop=-1,
     step=1,
-    method="mesh_ellipse",
+    method="ellipse",
 ):
     """
     Generates a list of mesh objects of a user defined length.
-- 
2.43.0


From 2f3b27d74cfd2f99548a944009c92ec099d8ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 076/121] fix: standard deviations of flat covariances are not
 NaN

---
 welleng/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/utils.py b/welleng/utils.py
index 8040c35..b7ab465 100644
--- a/welleng/utils.py
+++ b/welleng/utils.py
@@ -384,7 +384,8 @@ def get_sigmas(cov, long=False):
     if long:
         return (aa, bb, cc, ab, ac, bc)
     else:
-        return (np.sqrt(aa), np.sqrt(bb), np.sqrt(cc))
+        # rounding can leave the variance of a flat ellipse below zero
+        return tuple(np.sqrt(np.maximum(v, 0)) for v in (aa, bb, cc))
 
 
 def get_unit_vec(vec):
-- 
2.43.0


From cf9d7cf482fd371b884c483483c07bc23d11ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 077/121] fix: EDM records are selected by all the attributes,
 once

---
 welleng/exchange/edm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index fe17ccf..af1dadc 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -63,15 +63,14 @@ class EDM:
                             booleans.append(True)
                         else:
                             booleans.append(False)
-                        if bool(booleans):
-                            if (
-                                logic == 'AND' and all(booleans)
-                                or logic == 'OR' and any(booleans)
-                            ):
-                                try:
-                                    data[child.tag].append(child.attrib)
-                                except KeyError:
-                                    data[child.tag] = [child.attrib]
+                    if (
+                        logic == 'AND' and all(booleans)
+                        or logic == 'OR' and any(booleans)
+                    ):
+                        try:
+                            data[child.tag].append(child.attrib)
+                        except KeyError:
+                            data[child.tag] = [child.attrib]
                 else:
                     try:
                         data[child.tag].append(child.attrib)
-- 
2.43.0


From 80a2e13d1e721a51edc04802203430b8b1bc9a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 078/121] fix: EDM queries start without the results of earlier
 ones

---
 welleng/exchange/edm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index af1dadc..e198830 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -173,7 +173,9 @@ class EDM:
 
         return attributes
 
-    def get_parents(self, wellbore_id, predecessors=[]):
+    def get_parents(self, wellbore_id, predecessors=None):
+        if predecessors is None:
+            predecessors = []
         for child in self.root:
             if (
                 child.tag == "CD_WELLBORE"
@@ -398,7 +400,9 @@ class Well:
                 survey[item[0]] = sorted(survey[item[0]], key=lambda k: float(k['md']))
         case.survey = survey
 
-    def get_parent_surveys(self, survey_header_id, data=OrderedDict()):
+    def get_parent_surveys(self, survey_header_id, data=None):
+        if data is None:
+            data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
             if (
                 sh['survey_header_id'] == survey_header_id
-- 
2.43.0


From 9f1426577675c2657f3139bcc7a3049b005cda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 079/121] fix: EDM wellbores of different wells may have the
 same name

---
 welleng/exchange/edm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index e198830..062bdb2 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -86,9 +86,11 @@ class EDM:
         """
         self.wellbore_id_to_name = {}
         self.wellbore_name_to_id = {}
-        for _, v in self.get_wellbore_ids().items():
-            self.wellbore_id_to_name[v['wellbore_id']] = v['wellbore_name']
-            self.wellbore_name_to_id[v['wellbore_name']] = v['wellbore_id']
+        for child in self.root:
+            if child.tag == 'CD_WELLBORE':
+                v = child.attrib
+                self.wellbore_id_to_name[v['wellbore_id']] = v['wellbore_name']
+                self.wellbore_name_to_id[v['wellbore_name']] = v['wellbore_id']
 
     def get_wells(self):
         return {
@@ -131,7 +133,10 @@ class EDM:
         # get nodes
         G = nx.Graph()
 
-        for _, v in self.get_wellbore_ids().items():
+        for child in self.root:
+            if child.tag != 'CD_WELLBORE':
+                continue
+            v = child.attrib
             if 'parent_wellbore_id' in v:
                 G.add_edge(v['parent_wellbore_id'], v['wellbore_id'])
             else:
-- 
2.43.0


From 0dee6a35b9e550d7dac62cfc2cbd82f928bdeb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 080/121] fix: EDM cases without surveys or fluids can be made

---
 welleng/exchange/edm.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 062bdb2..86b69ec 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -358,7 +358,8 @@ class Well:
 
     def _get_surveys(self, case):
         # get the surveys... turns out to be a bit of a PITA
-        if hasattr(case, "survey_header"):
+        survey = {}
+        if getattr(case, "survey_header", None) is not None:
             survey_header_ids = [
                 h['survey_header_id']
                 for h in case.survey_header
@@ -366,7 +367,7 @@ class Well:
             case.survey_station = {}
             for sh in survey_header_ids:
                 case.survey_station[sh] = [
-                    s for s in self.well_data['CD_SURVEY_STATION']
+                    s for s in self.well_data.get('CD_SURVEY_STATION', [])
                     if s['survey_header_id'] == sh
                 ]
             md = {
@@ -379,7 +380,6 @@ class Well:
                     sh,
                     data=OrderedDict({sh: md[sh]})
                 )
-            survey = {}
             for item in survey_lists.items():
                 is_first = True
                 for k, v in item[1].items():
@@ -390,7 +390,9 @@ class Well:
                         is_first = False
                     current_survey_id = k
                     if float(v) < current_md:
-                        for station in self.well_data['CD_SURVEY_STATION']:
+                        for station in self.well_data.get(
+                            'CD_SURVEY_STATION', []
+                        ):
                             if (
                                 station['survey_header_id'] == current_survey_id
                                 and float(station['md']) >= float(v)
@@ -426,8 +428,8 @@ class Well:
         t = f"{prefix}_{tag_label}".upper()
         k = f"{label}_{suffix}"
         data = []
-        for row in self.well_data[t]:
-            if row[k] == label_id:
+        for row in self.well_data.get(t, []):
+            if row.get(k) == label_id:
                 data.append(row)
         if bool(data):
             return data
-- 
2.43.0


From 7051f666281a23aba0973598edfd1eee0567cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 081/121] fix: EDM surveys include the stations of the survey
 that is not tied on

---
 welleng/exchange/edm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 86b69ec..68a0999 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -411,13 +411,15 @@ class Well:
         if data is None:
             data = OrderedDict()
         for sh in self.well_data['CD_SURVEY_HEADER']:
-            if (
-                sh['survey_header_id'] == survey_header_id
-                and 'tie_survey_header_id' in sh
-            ):
+            if sh['survey_header_id'] != survey_header_id:
+                continue
+            if 'tie_survey_header_id' in sh:
                 tsh_id = sh['tie_survey_header_id']
                 data[survey_header_id] = sh['tie_on_depth']
                 self.get_parent_surveys(tsh_id, data)
+            else:
+                # not tied to another survey, so used from the top
+                data[survey_header_id] = 0.0
         return data
 
     def get_data(
-- 
2.43.0


From dc7f4f9f4667d661eddec27f5d95c2c84b6d0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 082/121] fix: EDM data of a wellbore without parents list the
 well once

---
 welleng/exchange/edm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/edm.py b/welleng/exchange/edm.py
index 68a0999..6b956d6 100644
--- a/welleng/exchange/edm.py
+++ b/welleng/exchange/edm.py
@@ -174,7 +174,7 @@ class EDM:
             additional = self.get_attributes(
                 tags=tags, attributes={'wellbore_id': predecessors}
             )
-        attributes = self.add_attributes(attributes, additional)
+            attributes = self.add_attributes(attributes, additional)
 
         return attributes
 
-- 
2.43.0


From 46891540a9398845ffc8d8770279927bc8b2ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 083/121] fix: well plans and targets do not share their
 defaults

---
 welleng/exchange/wbp.py | 48 +++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 91030ba..8dd7cc8 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -33,27 +33,29 @@ class Target:
         self,
         name,
         location=None,
-        geometry={
-            'type': None,
-            'locked': None,
-            'offset': None,
-            'orientation': None,
-            'radius_1': None,
-            'radius_2': None,
-            'dip': None,
-            'azimuth': None,
-            'vertices': [],
-            'thickness_up': None,
-            'thickness_down': None,
-            'color': {
-                'color': None,
-                'interpreter': None,
-                'application': None,
-                'feature': None
-            },
-            'category': None,
-        },
+        geometry=None,
     ):
+        if geometry is None:
+            geometry = {
+                'type': None,
+                'locked': None,
+                'offset': None,
+                'orientation': None,
+                'radius_1': None,
+                'radius_2': None,
+                'dip': None,
+                'azimuth': None,
+                'vertices': [],
+                'thickness_up': None,
+                'thickness_down': None,
+                'color': {
+                    'color': None,
+                    'interpreter': None,
+                    'application': None,
+                    'feature': None
+                },
+                'category': None,
+            }
         self.name = name
         self.location = location
         self.geometry = geometry
@@ -108,7 +110,7 @@ class WellPlan:
         dls=3.0,
         extension=0,
         wbp_data=None,
-        targets=[],
+        targets=None,
         line=None,
         parent_wbp_file=None,
     ):
@@ -151,7 +153,7 @@ class WellPlan:
                 A list of strings with each string representing a line from
                 of text loaded from a .wbp file. Used for importing .wbp
                 data.
-            targets: list of welleng.exchange.wbp.Target objects (default: [])
+            targets: list of welleng.exchange.wbp.Target objects (default: None)
                 A list of target objects, but more of a future function.
             line: int (default: None)
                 Used for processing .wbp files that contain multiple well
@@ -177,7 +179,7 @@ class WellPlan:
 
         self.depth_unit = depth_unit
         self.surface_unit = surface_unit
-        self.targets = targets
+        self.targets = [] if targets is None else targets
         if line is None:
             self.lines = 0
         else:
-- 
2.43.0


From 0aa331924eb3f76846607c8053b393fd0c29a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 084/121] fix: wbp files with target geometries can be loaded

---
 welleng/exchange/wbp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 8dd7cc8..a350549 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -299,9 +299,9 @@ class WellPlan:
 
     def _add_target_geometry(self, data):
         tg = self.targets[-1].geometry
-        tg.type = self.wbp_dict['TARGETS']['type'][data[2]]
-        tg.locked = data[3]
-        tg.offset = [float(data[4:13], float(data[13:23]))]
+        tg['type'] = self.wbp_dict['TARGETS']['type'][data[2]]
+        tg['locked'] = data[3]
+        tg['offset'] = [float(data[4:13]), float(data[13:23])]
 
     def _add_target_color(self, data):
         tgc = self.targets[-1].geometry['color']
-- 
2.43.0


From 560f684630f3a2ab27b68bdd0b51a2231a4c3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 085/121] fix: targets without a color can be written to wbp
 files and read back

---
 welleng/exchange/wbp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index a350549..e39c4db 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -459,10 +459,12 @@ def add_targets(doc, targets):
     for t in targets:
         doc.append(f"T:{t.name}")
         doc = add_location(doc, t.location)
-        doc.append((
-            f"C:"
-            f"{str(t.geometry['color']['color']).rjust(3)}"
-        ))
+        color = t.geometry['color']['color']
+        if color is not None:
+            doc.append((
+                f"C:"
+                f"{str(color).rjust(3)}"
+            ))
     return doc
 
 
-- 
2.43.0


From 6980313ff269d8f7abfffd751f50427377639410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 086/121] fix: loaded well plans with blank fields can be
 exported again

---
 welleng/exchange/wbp.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index e39c4db..5ea15bd 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -483,21 +483,27 @@ def add_header(doc, data):
     d = data.wbp_dict['LOCATION']
     ignored_integer_1 = "   0"
     ignored_integer_2 = " 123"
+    sidetrack_id = "" if data.sidetrack_id is None else data.sidetrack_id
     plan_name = "" if data.plan_name is None else data.plan_name
     parent_name = "" if data.parent_name is None else data.parent_name
+    # these are None when the fields of a loaded file are blank
+    dls = " " * 6 if data.dls is None else f"{data.dls:>6.2f}"
+    extension = (
+        " " * 7 if data.extension is None else f"{data.extension:>7.5f}"
+    )
     doc.append((
         f"W:"
         f"{get_key(d['type'], data.location_type)}"
         f"{get_unit_key(data)}"
         f"{get_key(d['plan_method'], data.plan_method)}"
-        f"{get_key(d['dirty_flag'], data.dirty_flag)}"
+        f"{get_key(d['dirty_flag'], str(data.dirty_flag))}"
         f"{ignored_integer_1}"
         f"{ignored_integer_2}"
-        f" {data.sidetrack_id:>7}"
+        f" {sidetrack_id:>7}"
         f" {plan_name:<60}"
         f" {parent_name:<60}"
-        f" {data.dls:>6.2f}"
-        f" {data.extension:>7.5f}"
+        f" {dls}"
+        f" {extension}"
     ))
     # the documentation says there should be a kickoff dls at the end,
     # but I've never seen it and what does the other dls refer to?
-- 
2.43.0


From 9de574393979b930cce37af3812ae969f117043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 087/121] fix: parent plans of a well plan can be read

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 5ea15bd..be1bb8c 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -226,7 +226,7 @@ class WellPlan:
             for line in self.parent_data:
                 if "L:" in line:
                     code, e, n, v = line.split()
-                    self.surface_datum = np.array([e, n, v]).astype(np.float)
+                    self.surface_datum = np.array([e, n, v]).astype(float)
                     break
         else:
             self.surface_datum = np.array([
-- 
2.43.0


From ab0cb11f759821280bdfaa536ae4668ec4a6c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 088/121] fix: local coordinates of a well plan are relative to
 its own start

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index be1bb8c..a4797d1 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -230,8 +230,8 @@ class WellPlan:
                     break
         else:
             self.surface_datum = np.array([
-                self.survey.n,
                 self.survey.e,
+                self.survey.n,
                 self.survey.tvd
             ]).T[0]
 
-- 
2.43.0


From 80a72e2baccb72fea224d04fb17242c10dbaec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 089/121] fix: wbp files with blank lines can be loaded

---
 welleng/exchange/wbp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index a4797d1..586851e 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -248,7 +248,7 @@ class WellPlan:
             # first split the line and look for section headers
             l = line.split()
             m = line.split(':')
-            if l[0] == '!':
+            if not l or l[0] == '!':
                 pass
             elif l[0] == "DEPTH":
                 self._get_units(l[1])
-- 
2.43.0


From 4ee4e20252104a17aebf488e4f78fef41b8ffe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 090/121] fix: strip_duplicates keeps stations of the same
 inclination

---
 welleng/exchange/wbp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 586851e..5682c37 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -785,7 +785,7 @@ def strip_duplicates(survey):
             temp.append(s)
             continue
         # if s == temp[-1]:
-        if s[1] == temp[-1][1]:
+        if s[0] == temp[-1][0]:
             continue
         else:
             temp.append(s)
@@ -803,6 +803,7 @@ def strip_duplicates(survey):
         start_nev=survey.start_nev,
         radius=radius,
         header=sh,
+        unit=survey.unit,
     )
 
     return survey_stripped
-- 
2.43.0


From 2894333dda2498734c118d2281ee9505b99414f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 091/121] fix: wbp_to_survey builds the survey from its
 connections

---
 welleng/exchange/wbp.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index 5682c37..eb3f9c9 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -713,6 +713,7 @@ def wbp_to_survey(
             inc2=s.inc,
             azi2=s.azi,
             dls_design=dls_design,
+            unit=data.depth_unit,
         )
         if isinstance(s, TurnPoint):
             dls.append(s.dls)
@@ -727,11 +728,6 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
-    survey_data = from_connections(
-        connections,
-        step=step
-    )
-
     lat, lon = utm.to_latlon(
         start_nev[1],
         start_nev[0],
@@ -747,12 +743,14 @@ def wbp_to_survey(
         convergence=convergence,
     )
 
+    # the first connection starts at start_nev
     survey = from_connections(
-        survey_data,
+        connections,
+        step=step,
         survey_header=sh,
-        start_nev=start_nev,
         radius=radius,
-        deg=False
+        deg=False,
+        depth_unit=data.depth_unit
     )
 
     # Because of the way the imported file is processed, there will likely
-- 
2.43.0


From bb25e0f6ecc8205ce1eba02197132b54cd6cd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 092/121] fix: only the first of the repeated sections is the
 tie-on point

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 918cb22..ce7d71d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2416,7 +2416,7 @@ def get_sections(survey, rtol=1e-1, atol=1e-1, dls_cont=False, **targets):
         # Repeat the first section so that creating .wbp works
         if tie_on:
             section.method = '2'
-            sections.append(section)
+            sections.append(copy(section))
             sections[-1].tie_on = False
 
         tie_on = False
-- 
2.43.0


From 8cbe28966786087dc1d400e523c747f8d9b6ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 093/121] fix: wbp_to_survey converts well plans in feet

---
 welleng/exchange/wbp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/welleng/exchange/wbp.py b/welleng/exchange/wbp.py
index eb3f9c9..9d848bd 100644
--- a/welleng/exchange/wbp.py
+++ b/welleng/exchange/wbp.py
@@ -728,9 +728,10 @@ def wbp_to_survey(
 
     start_nev = np.array(pos[0])
 
+    scale = 0.3048 if data.surface_unit == 'feet' else 1.0
     lat, lon = utm.to_latlon(
-        start_nev[1],
-        start_nev[0],
+        start_nev[1] * scale,
+        start_nev[0] * scale,
         utm_zone,
         northern=utm_north,
     )
@@ -739,6 +740,8 @@ def wbp_to_survey(
         latitude=lat,
         longitude=lon,
         altitude=start_nev[-1] * -1,
+        depth_unit=data.depth_unit,
+        surface_unit=data.surface_unit,
         azi_reference=azi_reference,
         convergence=convergence,
     )
-- 
2.43.0


From 1ca2e5e8a05a4d473bd9379130cae8bd487beeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 094/121] fix: JSON magnitudes in deg.nT and deg/sqr(hr) are
 converted to radians

---
 welleng/errors/conformance.py | 2 ++
 welleng/errors/tool_errors.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index ddc9147..56e6fda 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -46,6 +46,8 @@ _MAG_UNIT_TO_BASE = {
     "deg": np.pi / 180.0,
     "deg/hr": np.pi / 180.0,
     "deg/nT": np.pi / 180.0,
+    "deg.nT": np.pi / 180.0,
+    "deg/sqr(hr)": np.pi / 180.0,
     "-": 1.0, "": 1.0,
 }
 
diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index 7cde5c8..fde8019 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -36,6 +36,8 @@ _MAG_UNIT_TO_BASE = {
     "deg":     np.pi / 180.0,  # angle: degrees -> radians
     "deg/hr":  np.pi / 180.0,  # gyro rate: deg/hr -> rad/hr
     "deg/nT":  np.pi / 180.0,  # B-field-coupled angle gradient
+    "deg.nT":  np.pi / 180.0,  # declination over horizontal field
+    "deg/sqr(hr)": np.pi / 180.0,  # gyro random walk
     "-":       1.0,            # dimensionless (scale factors)
     "":        1.0,            # missing unit treated as dimensionless
 }
-- 
2.43.0


From d79fe80c0b61aae2df48f2fb3182c02e3a977416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 095/121] fix: formulas may spell the gravity and magnetic
 fields GField and Bfield

---
 welleng/errors/tool_errors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/welleng/errors/tool_errors.py b/welleng/errors/tool_errors.py
index fde8019..ea5fc92 100644
--- a/welleng/errors/tool_errors.py
+++ b/welleng/errors/tool_errors.py
@@ -322,6 +322,9 @@ class ToolError:
             "Gfield": float(survey.header.G),
             "Dip": float(survey.header.dip),
             "BField": float(survey.header.b_total or 50000.0),
+            # The published formulas spell the fields in two ways.
+            "GField": float(survey.header.G),
+            "Bfield": float(survey.header.b_total or 50000.0),
             # EarthRate is needed by gyro-azimuth terms; standard value
             # in rad/hr (15.041 deg/hr).
             "EarthRate": 0.262516,
-- 
2.43.0


From 1267342c5ca74192522eea9569755147e3dfc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 096/121] fix: take the rates at a station from the end of the
 section above it

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index ce7d71d..18b9f92 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -1071,12 +1071,16 @@ class Survey:
 
             self.toolface = np.concatenate((t1, np.array([t2[-1]])))
 
+            # the curvature at a station is that of the section above it, so
+            # the rates need the toolface at the end of that section
+            toolface_end = np.concatenate((t1[:1], t2))
+
             curvature_turn = curvature_dls * (
-                np.sin(self.toolface) / np.sin(self.inc_rad)
+                np.sin(toolface_end) / np.sin(self.inc_rad)
             )
             self.turn_rate = self._curvature_to_rate(curvature_turn)
 
-            curvature_build = curvature_dls * np.cos(self.toolface)
+            curvature_build = curvature_dls * np.cos(toolface_end)
             self.build_rate = self._curvature_to_rate(curvature_build)
 
         # calculate plane normals
-- 
2.43.0


From 49b375687fa8032105dfb44eede0525de1a5e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 097/121] fix: sum the change in azimuth of a section leg by
 leg

---
 welleng/survey.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 18b9f92..329df93 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2363,18 +2363,14 @@ def get_sections(survey, rtol=1e-1, atol=1e-1, dls_cont=False, **targets):
             dls = survey.dls[s]
             toolface = abs(np.degrees(survey.toolface[starts[i - 1]]))
 
-            azi_p = sections[-1].azi
-            if azi - azi_p < -180:
-                coeff = 1
-            elif azi - azi_p > 180:
-                coeff = -1
-            else:
-                with np.errstate(all='ignore'):
-                    coeff = (azi - azi_p) / abs(azi - azi_p)
-            if np.isnan(coeff):
-                coeff = 1
+            # the change in azimuth is the sum of those of the survey legs, so
+            # that sections that straddle north or turn by more than 180
+            # degrees are accounted for
+            delta_azi = np.sum(
+                (np.diff(survey.azi_grid_deg[lb:s + 1]) + 180) % 360 - 180
+            )
 
-            toolface *= coeff
+            toolface *= -1 if delta_azi < 0 else 1
 
             # looks like the toolface is in range -180 to 180 in the .wbp file
             # toolface = toolface - 360 if toolface > 180 else toolface
@@ -2387,18 +2383,6 @@ def get_sections(survey, rtol=1e-1, atol=1e-1, dls_cont=False, **targets):
                 / delta_md * denominator
             )
 
-            # TODO: should sum this line by line to avoid issues with long
-            # sections need to be careful with azimuth straddling north
-            delta_azi_1 = survey.azi_grid_deg[s] - survey.azi_grid_deg[lb]
-            if delta_azi_1 < -180:
-                delta_azi_1 += 360
-            if delta_azi_1 > 180:
-                delta_azi_1 -= 360
-
-            delta_azi_2 = 360 - delta_azi_1
-            delta_azi = min(delta_azi_1, delta_azi_2)
-
-            delta_azi = delta_azi_1
             turn_rate = delta_azi / delta_md * denominator
 
         section = TurnPoint(
-- 
2.43.0


From 9843736f9b4fb2de37a4edfee51512e341a2511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 098/121] fix: keep the exported control points within the
 given tolerance

---
 welleng/survey.py | 57 ++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 329df93..3d0cc71 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2523,8 +2523,13 @@ def export_csv(
         bounds=[[0, 1.0]], options={'eps': 0.001}
     )
 
+    # the listing has to end within the tolerance of the survey
+    tol = res.x[0]
+    if _get_end_error(tol, survey, dls_cont) > tolerance:
+        tol = start_tol
+
     data = get_data(
-        res.x[0], survey, dls_cont
+        tol, survey, dls_cont
     )
 
     unit = 'm' if survey.unit == 'meters' else 'ft'
@@ -2614,27 +2619,10 @@ def get_data(tol, survey, dls_cont):
     return data
 
 
-def func(x0, survey, dls_cont, tolerance):
-    """Objective function for optimizing control-point tolerance in export_csv.
-
-    Parameters
-    ----------
-    x0 : float
-        Current tolerance value being optimized.
-    survey : Survey
-        The original Survey object.
-    dls_cont : bool
-        Whether to check DLS continuity.
-    tolerance : float
-        Target positional tolerance for the endpoint.
-
-    Returns
-    -------
-    float
-        Absolute difference between the target tolerance and the maximum
-        endpoint position error.
+def _get_end_error(tol, survey, dls_cont):
+    """How far from the survey's end the path through the control points ends.
     """
-    data = get_data(x0, survey, dls_cont)
+    data = get_data(tol, survey, dls_cont)
 
     md, inc, azi, n, e, tvd, dls, tf, br, tr = data.T
     nev = np.column_stack([survey.n, survey.e, survey.tvd])
@@ -2654,11 +2642,30 @@ def func(x0, survey, dls_cont, tolerance):
 
     s_nev = np.column_stack([s.n, s.e, s.tvd])
 
-    diff = abs(
-        tolerance - np.amax(np.absolute(s_nev[-1] - nev[-1]))
-    )
+    return np.amax(np.absolute(s_nev[-1] - nev[-1]))
 
-    return diff
+
+def func(x0, survey, dls_cont, tolerance):
+    """Objective function for optimizing control-point tolerance in export_csv.
+
+    Parameters
+    ----------
+    x0 : float
+        Current tolerance value being optimized.
+    survey : Survey
+        The original Survey object.
+    dls_cont : bool
+        Whether to check DLS continuity.
+    tolerance : float
+        Target positional tolerance for the endpoint.
+
+    Returns
+    -------
+    float
+        Absolute difference between the target tolerance and the maximum
+        endpoint position error.
+    """
+    return abs(tolerance - _get_end_error(x0, survey, dls_cont))
 
 
 def _remove_duplicates(md, inc, azi, decimals=4):
-- 
2.43.0


From cb4ec97450a5649257ab038f76aa0c56f7ca6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 099/121] fix: size the meshes of the mesh clearance with its
 sigma_pa

---
 welleng/clearance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index b73ba80..b621091 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -962,6 +962,7 @@ class MeshClearance(Clearance):
             survey=survey,
             n_verts=self.n_verts,
             sigma=self.sigma,
+            sigma_pa=self.sigma_pa,
             Sm=Sm,
         )
 
-- 
2.43.0


From 09825297da824c4b5c32b826bf45ef5a4d06909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 100/121] fix: report sections that lie entirely within the
 offset mesh as colliding

---
 welleng/clearance.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index b621091..93c56b0 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -990,6 +990,15 @@ class MeshClearance(Clearance):
                 m, return_names=self.return_data, return_data=self.return_data
             )
 
+            # a mesh that lies entirely within another doesn't touch it
+            if not (collision[0] if self.return_data else collision) and (
+                _contains(self.off_mesh, m.vertices[0])
+                or _contains(m, self.off_mesh.vertices[0])
+            ):
+                collision = (
+                    (True, {"offset"}, []) if self.return_data else True
+                )
+
             if self.return_data:
                 distance = self.cm.min_distance_single(
                     m, return_name=True, return_data=True
@@ -1111,6 +1120,24 @@ class MeshClearance(Clearance):
         return (nev, res)
 
 
+def _contains(mesh, point):
+    """
+    Whether a point lies within a closed mesh, determined from the solid angle
+    that the mesh subtends at the point (it is zero when outside).
+    """
+    a, b, c = np.moveaxis(mesh.triangles - point, 1, 0)
+    la, lb, lc = norm(a, axis=-1), norm(b, axis=-1), norm(c, axis=-1)
+    solid_angle = 2 * np.arctan2(
+        np.einsum('ij,ij->i', a, np.cross(b, c)),
+        la * lb * lc
+        + np.einsum('ij,ij->i', a, b) * lc
+        + np.einsum('ij,ij->i', b, c) * la
+        + np.einsum('ij,ij->i', c, a) * lb
+    )
+
+    return bool(abs(np.sum(solid_angle)) > 2 * np.pi)
+
+
 def get_ref_sigma(sigma1, sigma2, sigma3, kop_index):
     sigma = np.column_stack([sigma1, sigma2, sigma3])
     sigma_diff = np.diff(sigma, axis=0)
-- 
2.43.0


From c4db6205fceee79e0a99535461fd2b4b8d593d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 101/121] fix: keep map coordinates as (x, y) for projections
 that list northings first

---
 welleng/survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 3d0cc71..cd84bfc 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -254,8 +254,9 @@ class SurveyParameters(Proj):
         >>> print(result)
         [[ 588225.93417027 5770360.56500115]]
         """
+        # coordinates are (x, y), whatever the axis order of the projections
         transformer = Transformer.from_crs(
-            self.crs, CRS(to_projection)
+            self.crs, CRS(to_projection), always_xy=True
         )
         _coords = np.array(coords)
         result = list(transformer.itransform(
-- 
2.43.0


From 07e6b979d7038f8165a850c43ba4ddf5fcc64861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 102/121] fix: give nodes without a direction an azimuth of
 None in degrees too

---
 welleng/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/node.py b/welleng/node.py
index cc1c9cb..6142367 100644
--- a/welleng/node.py
+++ b/welleng/node.py
@@ -97,7 +97,7 @@ class Node:
             self.inc_rad = None
             self.inc_deg = None
             self.azi_rad = None
-            self.azi_rad = None
+            self.azi_deg = None
             return
         elif vec is None:
             assert inc is not None and azi is not None, (
-- 
2.43.0


From 68f05250405c10333e1b39cf518b45bdfcfb9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 103/121] fix: drop_off builds or drops the shortest way to the
 target inclination

---
 welleng/connector.py | 40 ++++++++--------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 89e77c8..9f90a35 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2623,26 +2623,8 @@ def drop_off(
         (the arc endpoint) or two (arc endpoint plus tangent endpoint)
         if the target inclination was achieved within the section.
     """
-    def _drop_off(
-            x: tuple,
-            node,
-            return_data: bool = False
-    ) -> tuple:
-        dogleg, toolface = x
-        pos2, vec2, arc_length = get_arc(
-            dogleg, radius,
-            0 if -np.pi / 2 <= toolface <= np.pi / 2 else np.pi,
-            node.pos_nev, node.vec_nev
-        )
-        if return_data:
-            return (pos2, vec2, arc_length)
-        else:
-            inc, _ = np.degrees(
-                get_angles(vec2, nev=True)[0]
-            )
-            return abs(inc - target_inc)
-
-    node = Node() if node is None else node
+    if node is None:
+        node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
     node.md = 0 if node.md is None else node.md
     radius = radius_from_dls(dls)
     if isinstance(delta_md, np.ndarray):
@@ -2652,18 +2634,12 @@ def drop_off(
         else delta_md / radius
     )
 
-    args = (node,)
-    bounds = [
-        [0, min(2 * np.pi, max_dogleg)],
-        [-np.pi, np.pi]
-    ]
-    x0 = [bounds[0][1] / 2, np.pi]
-    result = minimize(
-        _drop_off, x0, args=args, bounds=bounds,
-        method="SLSQP"
-    )
-    pos2, vec2, arc_length = _drop_off(
-        result.x, *args, return_data=True
+    # the shortest way is to build or drop within the vertical plane
+    delta_inc = np.radians(target_inc) - node.inc_rad
+    pos2, vec2, arc_length = get_arc(
+        min(abs(delta_inc), max_dogleg), radius,
+        0 if delta_inc > 0 else np.pi,
+        node.pos_nev, node.vec_nev
     )
     tangent_length = (
         0 if delta_md is None
-- 
2.43.0


From edaf11f412b332edc5dac2e9d301d0c5e1a94ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 104/121] fix: extend_to_tvd reaches every target TVD on the
 way of the section

---
 welleng/connector.py | 101 ++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 50 deletions(-)

diff --git a/welleng/connector.py b/welleng/connector.py
index 9f90a35..298a214 100644
--- a/welleng/connector.py
+++ b/welleng/connector.py
@@ -2658,6 +2658,47 @@ def drop_off(
         return [node2]
 
 
+def _length_to_tvd(
+    target_tvd: float, node: Node,
+    target_inc: float | None = None, dls: float | None = None,
+    tol: float = 1e-6
+) -> float:
+    """The shortest length from a node to a TVD, either along a tangent or
+    along the arc and tangent of ``drop_off`` if a target inclination is
+    given.
+    """
+    delta_tvd = target_tvd - node.pos_nev[2]
+    arc_length, arc_tvd, vertical = 0., 0., node.vec_nev[2]
+
+    if abs(delta_tvd) < tol:
+        return 0.
+
+    if target_inc is not None:
+        radius = radius_from_dls(dls)
+        inc1, inc2 = node.inc_rad, np.radians(target_inc)
+        sign = 1 if inc2 > inc1 else -1
+        arc_length = radius * abs(inc2 - inc1)
+        arc_tvd = radius * sign * (np.sin(inc2) - np.sin(inc1))
+        vertical = np.cos(inc2)
+
+        # the inclinations at which the arc passes through the TVD
+        ratio = np.sin(inc1) + sign * delta_tvd / radius
+        if abs(ratio) <= 1:
+            incs = np.array([np.arcsin(ratio), np.pi - np.arcsin(ratio)])
+            lengths = sign * (incs - inc1) * radius
+            lengths = lengths[(lengths >= 0) & (lengths <= arc_length)]
+            if lengths.size:
+                return lengths.min()
+
+    if abs(delta_tvd - arc_tvd) < tol:
+        return arc_length
+    if abs(vertical) < tol or (delta_tvd - arc_tvd) / vertical < 0:
+        raise ValueError(
+            f"The target TVD of {target_tvd} is not on the way of the section"
+        )
+    return arc_length + (delta_tvd - arc_tvd) / vertical
+
+
 def extend_to_tvd(
     target_tvd: float, node: Node | None = None,
     delta_md: float | None = None,
@@ -2699,65 +2740,25 @@ def extend_to_tvd(
     ... )
     """
     if node is None:
-        node = Node()
+        node = Node(pos=[0., 0., 0.], vec=[0., 0., 1.])
     node.md = 0 if node.md is None else node.md  # default value is None which complicates things
-    _delta_md = 1e-8 if delta_md is None else delta_md
     connections = []
     if target_inc is None:
-        def _extend_tvd(
-            delta_md, pos, vec, target_tvd, return_data=False
-        ):
-            pos2 = np.array(pos) + delta_md * np.array(vec)
-            if return_data:
-                return pos2
-            else:
-                return abs(pos2[2] - target_tvd)
-
-        args = (node.pos_nev, node.vec_nev, target_tvd)
-        bounds = [[0, None]]
-        result = minimize(
-            _extend_tvd,
-            _delta_md,
-            args=args,
-            bounds=bounds,
-            method="Powell"
-        )
-        pos2 = _extend_tvd(result.x, *args, return_data=True)
+        length = _length_to_tvd(target_tvd, node)
+        if delta_md is not None:
+            length = min(length, delta_md)
         connections.append(Connector(
             pos1=node.pos_nev, vec1=node.vec_nev,
-            md1=0 if node.md is None else node.md,
-            pos2=pos2,
+            md1=node.md,
+            pos2=node.pos_nev + length * np.array(node.vec_nev),
             dls_design=dls, force_min_curve=True
         ))
     else:
-        def _drop_off(
-            delta_md, target_inc, target_tvd, dls, node,
-            return_data=False
-        ):
-            nodes = drop_off(
-                target_inc, dls, delta_md, node
-            )
-            if return_data:
-                return nodes
-            else:
-                return abs(nodes[-1].pos_nev[2] - target_tvd)
-
         dls = 2.5 if dls is None else dls
-        args = (target_inc, target_tvd, dls, node)
-        bounds = [
-            [min(target_tvd - node.pos_nev[2], _delta_md), None]
-        ]
-        x0 = _delta_md
-        result = minimize(
-            _drop_off,
-            x0,
-            args=args,
-            bounds=bounds,
-            method='Powell'
-        )
-        nodes = _drop_off(
-            result.x, *args, return_data=True
-        )
+        length = _length_to_tvd(target_tvd, node, target_inc, dls)
+        if delta_md is not None:
+            length = min(length, delta_md)
+        nodes = drop_off(target_inc, dls, length, node)
         connections.append(Connector(
             node1=node,
             pos2=nodes[0].pos_nev, vec2=nodes[0].vec_nev,
-- 
2.43.0


From a45e6f8b633e4de3cbb97556e67082f318d4a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 105/121] fix: the conformance harnesses know both spellings of
 the gravity and magnetic fields

---
 welleng/errors/conformance.py         | 6 +++++-
 welleng/errors/copsegrove_validate.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/welleng/errors/conformance.py b/welleng/errors/conformance.py
index 56e6fda..e8e0949 100644
--- a/welleng/errors/conformance.py
+++ b/welleng/errors/conformance.py
@@ -67,7 +67,7 @@ class TermResult:
 
 def _bindings_from_survey(survey) -> dict[str, Any]:
     """Variable namespace for formula evaluation."""
-    return {
+    bindings = {
         "MD": np.asarray(survey.md, dtype=float),
         "Inc": np.asarray(survey.inc_rad, dtype=float),
         "AzT": np.asarray(survey.azi_true_rad, dtype=float),
@@ -81,6 +81,10 @@ def _bindings_from_survey(survey) -> dict[str, Any]:
         "Latitude": np.radians(float(survey.header.latitude or 0.0)),
         "RAD": np.pi / 180.0,             # used in some singularity formulas
     }
+    # the workbooks spell these two fields both ways
+    bindings["GField"] = bindings["Gfield"]
+    bindings["Bfield"] = bindings["BField"]
+    return bindings
 
 
 class _ShimError:
diff --git a/welleng/errors/copsegrove_validate.py b/welleng/errors/copsegrove_validate.py
index 85687aa..95cc306 100644
--- a/welleng/errors/copsegrove_validate.py
+++ b/welleng/errors/copsegrove_validate.py
@@ -65,8 +65,10 @@ def _bindings_for_station(
         "Az": azi_rad,
         "TVD": md_arr,     # rough; Copsegrove doesn't report TVD per term
         "Gfield": G,
+        "GField": G,
         "Dip": dip_rad,
         "BField": b_total,
+        "Bfield": b_total,
         "EarthRate": 0.262516,
         "Latitude": np.radians(latitude_deg),
         "RAD": np.pi / 180.0,
-- 
2.43.0


From a0d3569e4cd54199815d98ff5d53ed8075531bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 106/121] fix: trailing template rows of a workbook's TOTALS
 sheet are not stations

---
 welleng/errors/iscwsa_ingest.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/welleng/errors/iscwsa_ingest.py b/welleng/errors/iscwsa_ingest.py
index 1f192ee..28799a9 100644
--- a/welleng/errors/iscwsa_ingest.py
+++ b/welleng/errors/iscwsa_ingest.py
@@ -476,6 +476,14 @@ def load_iscwsa_example(path: str | Path) -> ISCWSAExample:
 
     term_codes = {t.code for t in terms}
     n_stations = wellpath.stations.shape[0]
+    # the TOTALS sheet carries the same trailing template rows as the
+    # per-source tabs
+    if n_stations and totals.md.shape[0] > n_stations:
+        totals = CovarianceStations(
+            md=totals.md[:n_stations],
+            nev=totals.nev[:n_stations],
+            hla=totals.hla[:n_stations],
+        )
     sources: dict[str, ErrorSourceTab] = {}
     for name in wb.sheetnames:
         if name in _NON_SOURCE_SHEETS:
-- 
2.43.0


From 480b44f6bf3699daacfd006a4c9aa6d4f8e4da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 107/121] fix: the workbook validation fails values that should
 be zero

---
 welleng/errors/iscwsa_validate.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/welleng/errors/iscwsa_validate.py b/welleng/errors/iscwsa_validate.py
index 016cd50..a68ff8a 100644
--- a/welleng/errors/iscwsa_validate.py
+++ b/welleng/errors/iscwsa_validate.py
@@ -144,6 +144,17 @@ def _relative_error(expected: np.ndarray, actual: np.ndarray) -> float:
     return float(np.max(np.abs(actual[mask] - expected[mask]) / denom[mask]))
 
 
+def _within(
+    expected: np.ndarray, actual: np.ndarray,
+    tolerance_rel: float, tolerance_abs: float,
+) -> bool:
+    """Every component agrees, either absolutely or relatively."""
+    diff = np.abs(actual - expected)
+    return bool(np.all(
+        (diff <= tolerance_abs) | (diff <= tolerance_rel * np.abs(expected))
+    ))
+
+
 def validate_workbook(
     path: str | Path,
     error_model: str,
@@ -183,7 +194,7 @@ def validate_workbook(
         target = row.calculated
         abs_err = float(np.max(np.abs(packed - target)))
         rel_err = _relative_error(target, packed)
-        ok = abs_err <= tolerance_abs or rel_err <= tolerance_rel
+        ok = _within(target, packed, tolerance_rel, tolerance_abs)
         per_source.append(
             SourceCompare(
                 code=row.source,
@@ -207,7 +218,7 @@ def validate_workbook(
         ])
         abs_err = float(np.max(np.abs(we_row - wb_row)))
         rel_err = _relative_error(wb_row, we_row)
-        ok = abs_err <= tolerance_abs or rel_err <= tolerance_rel
+        ok = _within(wb_row, we_row, tolerance_rel, tolerance_abs)
         totals.append(TotalsCompare(
             md=float(md) * md_scale, workbook=wb_row, welleng=we_row,
             max_abs_err=abs_err, max_rel_err=rel_err, ok=ok,
-- 
2.43.0


From ec00bdb4e010787c3dc42ce2a7cc2ee61d2d836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:54 +0000
Subject: [PATCH 108/121] fix: correct the mesh distances and closest points
 that FCL misses between vertices and faces

---
 welleng/clearance.py | 58 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index 93c56b0..df5675d 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -1003,8 +1003,10 @@ class MeshClearance(Clearance):
                 distance = self.cm.min_distance_single(
                     m, return_name=True, return_data=True
                 )
-                closest_point_reference = distance[2].point("__external")
                 name_offset_absolute = distance[1]
+                if not collision[0]:
+                    distance = self._correct_distance(m, distance)
+                closest_point_reference = distance[2].point("__external")
                 closest_point_offset = distance[2].point(name_offset_absolute)
 
                 ref_nev = self._get_closest_nev(s, closest_point_reference)
@@ -1086,6 +1088,29 @@ class MeshClearance(Clearance):
             # else:
             self.collision.append(collision)
 
+    def _correct_distance(self, m, distance):
+        """
+        The collision manager may miss that a vertex of one mesh is closest to
+        the inside of a face of the other.
+        """
+        value, name, data = distance
+        best = (value, None)
+
+        for mesh, other in ((m, self.off_mesh), (self.off_mesh, m)):
+            vertex, point = _closest_vertex(mesh, other, value)
+            if vertex is None:
+                continue
+            points = (vertex, point) if mesh is m else (point, vertex)
+            length = norm(vertex - point)
+            if best[1] is None or length < best[0]:
+                best = (length, points)
+
+        if best[1] is not None and best[0] <= value * (1 + 1e-9):
+            value = data._distance = best[0]
+            data._points["__external"], data._points[name] = best[1]
+
+        return (value, name, data)
+
     def _fun(self, x, survey, pos):
         """
         Interpolates a point on a well trajectory and returns
@@ -1120,6 +1145,37 @@ class MeshClearance(Clearance):
         return (nev, res)
 
 
+def _closest_vertex(mesh, other, distance):
+    """
+    The vertex of a mesh that is closest to the surface of another mesh, and
+    the closest point on that surface, provided that it's within a distance.
+    """
+    margin = distance * (1 + 1e-6)
+    lower, upper = other.bounds
+    vertices = mesh.vertices[np.all(
+        (mesh.vertices >= lower - margin) & (mesh.vertices <= upper + margin),
+        axis=-1
+    )]
+    lower, upper = mesh.bounds
+    triangles = other.triangles[np.all(
+        (other.triangles.max(axis=1) >= lower - margin)
+        & (other.triangles.min(axis=1) <= upper + margin),
+        axis=-1
+    )]
+
+    best, closest = np.inf, (None, None)
+    for vertex in np.asarray(vertices) if len(triangles) else []:
+        points = trimesh.triangles.closest_point(
+            triangles, np.tile(vertex, (len(triangles), 1))
+        )
+        lengths = norm(points - vertex, axis=-1)
+        i = np.argmin(lengths)
+        if lengths[i] < best:
+            best, closest = lengths[i], (vertex, points[i])
+
+    return closest
+
+
 def _contains(mesh, point):
     """
     Whether a point lies within a closed mesh, determined from the solid angle
-- 
2.43.0


From d6675284ee43301b7b9873b1e56f4701e630500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 109/121] fix: interpolate_tvd finds the section that passes
 through the depth in wells that head upwards

---
 welleng/survey.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index cd84bfc..f349954 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2017,6 +2017,27 @@ def _interpolate_pos_nev(survey, x, index):
     return pos + step
 
 
+def _get_tvd_limits(survey):
+    """
+    The shallowest and deepest true vertical depth of each survey section,
+    which for an arc may be between its ends.
+    """
+    limits = [survey.tvd[:-1], survey.tvd[1:]]
+
+    v1, v2 = survey.vec_nev[:-1, 2], survey.vec_nev[1:, 2]
+    dogleg, delta_md = survey.dogleg[1:], survey.delta_md[1:]
+    with np.errstate(divide='ignore', invalid='ignore'):
+        w = (v2 - v1 * np.cos(dogleg)) / np.sin(dogleg)
+        # from the start to where the arc is horizontal
+        turn = np.arctan2(v1, -w) % np.pi
+        apex = survey.tvd[:-1] + delta_md / dogleg * (
+            v1 * np.sin(turn) + w * (1 - np.cos(turn))
+        )
+        limits.append(np.where(turn < dogleg, apex, survey.tvd[:-1]))
+
+    return np.min(limits, axis=0), np.max(limits, axis=0)
+
+
 def interpolate_tvd(survey, tvd, **kwargs):
     """Interpolate a survey at a given true vertical depth.
 
@@ -2051,6 +2072,15 @@ def interpolate_tvd(survey, tvd, **kwargs):
         idx = len(survey.tvd) - 2
     elif idx == -1:
         idx = len(survey.tvd) - 2
+
+    # it isn't sorted if the well heads upwards, in which case it's the first
+    # section that passes through the depth
+    lower, upper = _get_tvd_limits(survey)
+    lower, upper = lower - 1e-9, upper + 1e-9
+    if not lower[idx] <= tvd <= upper[idx]:
+        passes = np.flatnonzero((lower <= tvd) & (tvd <= upper))
+        idx = passes[0] if len(passes) else idx
+
     pos1, pos2 = np.array([survey.n, survey.e, survey.tvd]).T[idx: idx + 2]
     vec1, vec2 = survey.vec_nev[idx: idx + 2]
     dogleg = survey.dogleg[idx + 1]
@@ -2086,7 +2116,9 @@ def interpolate_tvd(survey, tvd, **kwargs):
         v = vec1[2]
         w = (vec2[2] - vec1[2] * np.cos(dogleg)) / np.sin(dogleg)
         k = (tvd - pos1[2]) * dogleg / delta_md
-        root = (v ** 2 + k * (2 * w - k)) ** 0.5
+        square = v ** 2 + k * (2 * w - k)
+        # allow for rounding where the arc is horizontal
+        root = (0.0 if abs(square) < 1e-12 else square) ** 0.5
 
         d1 = tidy_up_angle(2 * np.arctan2(k, v + root))
         d2 = tidy_up_angle(2 * np.arctan2(k, v - root))
-- 
2.43.0


From 2775bfbdffd976290d41063d14eecfc82f3a4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 110/121] fix: interpolate_tvd handles horizontal sections and
 arcs that end horizontally

---
 welleng/survey.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index f349954..4c8f81d 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2103,25 +2103,25 @@ def interpolate_tvd(survey, tvd, **kwargs):
         return _interpolate_survey(survey, x=0, index=idx)
 
     if dogleg == 0:
-        x = (
-            (
-                tvd - survey.tvd[idx]
-            )
-            / (survey.tvd[idx + 1] - survey.tvd[idx])
+        delta_tvd = survey.tvd[idx + 1] - survey.tvd[idx]
+        # a horizontal section is at the same depth all along
+        x = 0.0 if abs(delta_tvd) < 1e-9 else (
+            (tvd - survey.tvd[idx]) / delta_tvd
         ) * (survey.md[idx + 1] - survey.md[idx])
     else:
         # The depth gained after turning through the angle d is
         # delta_md / dogleg * (v * sin(d) + w * (1 - cos(d))), solved here for
-        # tan(d / 2) in the form that does not cancel for small doglegs.
+        # tan(d / 2) in the form that does not cancel.
         v = vec1[2]
         w = (vec2[2] - vec1[2] * np.cos(dogleg)) / np.sin(dogleg)
         k = (tvd - pos1[2]) * dogleg / delta_md
         square = v ** 2 + k * (2 * w - k)
         # allow for rounding where the arc is horizontal
         root = (0.0 if abs(square) < 1e-12 else square) ** 0.5
+        q = v + np.copysign(root, v)
 
-        d1 = tidy_up_angle(2 * np.arctan2(k, v + root))
-        d2 = tidy_up_angle(2 * np.arctan2(k, v - root))
+        d1 = tidy_up_angle(2 * np.arctan2(-q, 2 * w - k))
+        d2 = d1 if abs(q) < 1e-9 else tidy_up_angle(2 * np.arctan2(k, q))
 
         # allow for rounding at the stations
         tol = 1e-6 * dogleg
-- 
2.43.0


From ffb09fa0165099c122b9309b3ef676bcf63f736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 111/121] fix: don't repeat stations that are at a level of a
 survey resampled by depth

---
 welleng/survey.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 4c8f81d..77c871f 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2989,13 +2989,17 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
                 tvd = tvds[-1]
                 node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
                 node_new.interpolated = True
-                nodes.append(node_new)
+                # the level may already be that of the station above
+                if not np.isclose(node_new.md, node1.md):
+                    nodes.append(node_new)
                 tvds.append(tvd - step)
             elif node1.pos_nev[2] < (tvds[-1] + step) <= node2.pos_nev[2]:
                 tvd = tvds[-1] + step
                 node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
                 node_new.interpolated = True
-                nodes.append(node_new)
+                # the level may already be that of the station above
+                if not np.isclose(node_new.md, node1.md):
+                    nodes.append(node_new)
                 tvds.append(tvd)
             else:
                 nodes.append(node2_master)
-- 
2.43.0


From e16dbd55368e35d6491363bbb5261410fc5663ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 112/121] fix: turn a target about the vertical axis by its
 orientation

---
 welleng/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/target.py b/welleng/target.py
index ba622b3..e8af3b9 100644
--- a/welleng/target.py
+++ b/welleng/target.py
@@ -144,6 +144,6 @@ class Target:
             g.flag = self.name
             g.pos=[self.n, self.e, 0]
             g.rotate(self.dip, point=pos, axis=(0,1,0))
-            g.rotate(self.orientation, point=pos, axis=(1,0,0))
+            g.rotate(self.orientation, point=pos, axis=(0,0,1))
 
         return g
-- 
2.43.0


From 9bf4af7ebbe11c2136266b9cf9fe11c739f53ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 113/121] fix: decimate the meshes of a scene with the method
 trimesh has

---
 welleng/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/mesh.py b/welleng/mesh.py
index d31a973..c7f95e3 100644
--- a/welleng/mesh.py
+++ b/welleng/mesh.py
@@ -407,8 +407,8 @@ def transform_trimesh_scene(scene, origin=None, scale=100, redux=0.25):
         name, mesh = well
         mesh_new = mesh.copy()
 
-        mesh_new.simplify_quadratic_decimation(
-            int(len(mesh_new.triangles) * redux)
+        mesh_new = mesh_new.simplify_quadric_decimation(
+            face_count=int(len(mesh_new.triangles) * redux)
         )
         mesh_new.vertices -= T
 
-- 
2.43.0


From f7f3995380296b2d970e1e9e722a292fe3e4c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 114/121] fix: give a mesh figure the vertices of the end caps

---
 welleng/visual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/welleng/visual.py b/welleng/visual.py
index 17b45ca..b0f33bb 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -479,7 +479,9 @@ def _scatter3d(survey, **kwargs):
 
 def _mesh3d(mesh, **kwargs):
     fig = go.Figure()
-    vertices = mesh.vertices.reshape(-1, 3)
+    # a WellMesh's faces index the vertices of its mesh, which has the centers
+    # of the end caps after the vertices of the rings
+    vertices = np.asarray(getattr(mesh, 'mesh', mesh).vertices).reshape(-1, 3)
     faces = np.array(mesh.faces)
     n, e, v = vertices.T
     i, j, k = faces.T
-- 
2.43.0


From ea366f218fb98114166a3bfdd50dd86f0c7ab192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 115/121] fix: name the unit of torque so that the torque
 figure can be drawn

---
 welleng/torque_drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index e524b67..b3ff98d 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -560,7 +560,7 @@ def figure_string_tension_and_torque(
     for k, v, in td.torque.items():
         fig.add_trace(
             go.Scatter(
-                x=((v * ureg('Nm')).to(units['torque'])).m,
+                x=((v * ureg('N * m')).to(units['torque'])).m,
                 y=((td.survey.md * ureg.meters).to(units['depth'])).m,
                 name=f"torque: {k}",
             ),
-- 
2.43.0


From 627174843279d20ab84de12beb43b6db8fd81d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 116/121] fix: draw hook loads for more than four friction
 factors

---
 welleng/torque_drag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/welleng/torque_drag.py b/welleng/torque_drag.py
index b3ff98d..5b86079 100644
--- a/welleng/torque_drag.py
+++ b/welleng/torque_drag.py
@@ -631,7 +631,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"SOFF: {k:.2f}",
-                line=dict(color='blue', dash=lines[i])
+                line=dict(color='blue', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
@@ -664,7 +664,7 @@ def figure_hookload(
                 x=x,
                 y=md,
                 name=f"PUFF: {k:.2f}",
-                line=dict(color='red', dash=lines[i])
+                line=dict(color='red', dash=lines[i % len(lines)])
             ),
         )
         annotations.append(
-- 
2.43.0


From 983f4f6bab3d5fd54c7d729baa68d8f7426d7b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 117/121] fix: use the interval's own radius at both ends of a
 curvature circle

---
 welleng/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 77c871f..806d482 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2268,7 +2268,7 @@ def get_circle_radius(survey, **targets):
     cc1 = (
         nev[:-1] - b1
         / np.linalg.norm(b1, axis=1).reshape(-1, 1)
-        * survey.curve_radius[:-1].reshape(-1, 1)
+        * survey.curve_radius[1:].reshape(-1, 1)
     )
     cc2 = (
         nev[1:] - b2
-- 
2.43.0


From 4a31fd79851fc9befd8d7a09153f99c3bc44a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 118/121] fix: label figures with the unit of the survey

---
 welleng/visual.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/welleng/visual.py b/welleng/visual.py
index b0f33bb..96d9c46 100644
--- a/welleng/visual.py
+++ b/welleng/visual.py
@@ -433,6 +433,7 @@ def _panel(survey, **kwargs):
 
 
 def _scatter3d(survey, **kwargs):
+    unit = _get_unit(survey)
     fig = go.Figure()
     fig.add_trace(
         go.Scatter3d(
@@ -459,8 +460,9 @@ def _scatter3d(survey, **kwargs):
             ]).T
             if n.size:
                 text = [
-                    f"N: {n:.2f}m<br>E: {e:.2f}m<br>TVD: {v:.2f}m<br>"
-                    + f"MD: {md:.2f}m<br>INC: {inc:.2f}\xb0<br>AZI: {azi:.2f}\xb0"
+                    f"N: {n:.2f}{unit}<br>E: {e:.2f}{unit}<br>"
+                    + f"TVD: {v:.2f}{unit}<br>"
+                    + f"MD: {md:.2f}{unit}<br>INC: {inc:.2f}\xb0<br>AZI: {azi:.2f}\xb0"
                     for n, e, v, md, inc, azi in zip(n, e, v, md, inc, azi)
                 ]
                 fig.add_trace(
@@ -474,7 +476,7 @@ def _scatter3d(survey, **kwargs):
         except ValueError:
             pass
 
-    return _update_fig(fig, kwargs)
+    return _update_fig(fig, kwargs, unit)
 
 
 def _mesh3d(mesh, **kwargs):
@@ -490,17 +492,22 @@ def _mesh3d(mesh, **kwargs):
         tri_points = vertices[faces.reshape(-1)]
         n, e, v = tri_points.T
         fig.add_trace(go.Scatter3d(x=e, y=n, z=v, mode='lines'))
-    return _update_fig(fig, kwargs)
+    return _update_fig(fig, kwargs, _get_unit(getattr(mesh, 's', None)))
 
 
-def _update_fig(fig, kwargs):
+def _get_unit(survey):
+    """Abbreviation of the length unit of a survey."""
+    return 'ft' if getattr(survey, 'unit', 'meters') == 'feet' else 'm'
+
+
+def _update_fig(fig, kwargs, unit='m'):
     """Update figure axes and apply any user-defined layout/trace overrides."""
     fig.update_scenes(
         zaxis_autorange="reversed",
         aspectmode='data',
-        xaxis=dict(title='East (m)'),
-        yaxis=dict(title='North (m)'),
-        zaxis=dict(title='TVD (m)')
+        xaxis=dict(title=f'East ({unit})'),
+        yaxis=dict(title=f'North ({unit})'),
+        zaxis=dict(title=f'TVD ({unit})')
     )
     if "layout" in kwargs:
         fig.update_layout(kwargs["layout"])
-- 
2.43.0


From d3dc9d70620b6ce32e7a432f9867c00c776621cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 119/121] fix: resample a survey by depth at every level it
 meets, also where it rises

---
 welleng/survey.py | 101 +++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/welleng/survey.py b/welleng/survey.py
index 806d482..cf50453 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2947,6 +2947,56 @@ def get_node_tvd(survey, node1, node2, tvd, node_origin):
     return node_new
 
 
+def _get_level_mds(survey, idx, level, step, above):
+    """Measured depths at which a section of a survey is at regular levels.
+
+    Parameters
+    ----------
+    survey : Survey
+        A Survey object.
+    idx : int
+        The index of the station at the start of the section.
+    level : float
+        The true vertical depth of the first level.
+    step : float
+        The true vertical depth between levels.
+    above : bool
+        If True, the levels carry on above the first level.
+
+    Returns
+    -------
+    list of float
+        The measured depths within the section in ascending order.
+    """
+    length, dogleg = survey.delta_md[idx + 1], survey.dogleg[idx + 1]
+    tvd1, tvd2 = survey.tvd[idx: idx + 2]
+    lower, upper = (limits[idx] for limits in _get_tvd_limits(survey))
+    k = np.arange(
+        np.ceil((lower - level) / step), np.floor((upper - level) / step) + 1
+    )
+    tvds = level + step * (k if above else k[k >= 0])
+
+    if not dogleg > 0:
+        if abs(tvd2 - tvd1) < 1e-9:
+            return []
+        fractions = (tvds - tvd1) / (tvd2 - tvd1)
+    else:
+        # the two solutions of interpolate_tvd
+        v, v2 = survey.vec_nev[idx: idx + 2, 2]
+        w = (v2 - v * np.cos(dogleg)) / np.sin(dogleg)
+        h = (tvds - tvd1) * dogleg / length
+        q = v + np.copysign(np.sqrt(np.clip(
+            v ** 2 + h * (2 * w - h), 0, None
+        )), v)
+        fractions = np.unique(np.hstack([
+            2 * np.arctan2(-q, 2 * w - h), 2 * np.arctan2(h, q)
+        ]) % (2 * np.pi)) / dogleg
+
+    return [
+        survey.md[idx] + x * length for x in np.sort(fractions) if 0 < x < 1
+    ]
+
+
 def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
     """Interpolate a survey at regular TVD intervals.
 
@@ -2967,44 +3017,19 @@ def interpolate_survey_tvd(survey, start=None, stop=None, step=10):
         A Survey object with stations at regular TVD intervals plus the
         original survey stations.
     """
-    tvds = [start] if start is not None else [survey.tvd[0]]
-    nodes = []
-
-    for i, md2 in enumerate(survey.md):
-        if i == 0:
-            nodes.append(get_node(survey, i))
-            continue
-        node_origin = nodes[-1]
-        node2_master = survey.interpolate_md(md2)
-
-        while 1:
-            node1 = nodes[-1]
-            node2 = copy(node2_master)
-            if np.isclose(node1.md, md2):
-                node1.interpolated = False
-                break
-
-            # check if heading upwards
-            if node1.pos_nev[2] > tvds[-1] >= node2.pos_nev[2]:
-                tvd = tvds[-1]
-                node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
-                node_new.interpolated = True
-                # the level may already be that of the station above
-                if not np.isclose(node_new.md, node1.md):
-                    nodes.append(node_new)
-                tvds.append(tvd - step)
-            elif node1.pos_nev[2] < (tvds[-1] + step) <= node2.pos_nev[2]:
-                tvd = tvds[-1] + step
-                node_new = get_node_tvd(survey, node1, node2, tvd, node_origin)
-                node_new.interpolated = True
-                # the level may already be that of the station above
-                if not np.isclose(node_new.md, node1.md):
-                    nodes.append(node_new)
-                tvds.append(tvd)
-            else:
-                nodes.append(node2_master)
-                tvds.append(tvds[-1])
-                break
+    level = survey.tvd[0] if start is None else start
+    nodes = [get_node(survey, 0)]
+
+    for i, md2 in enumerate(survey.md[1:]):
+        for md in _get_level_mds(survey, i, level, step, start is None):
+            # the level may already be that of a station
+            if not (np.isclose(md, nodes[-1].md) or np.isclose(md, md2)):
+                node = survey.interpolate_md(md)
+                node.interpolated = True
+                nodes.append(node)
+        node = survey.interpolate_md(md2)
+        node.interpolated = False
+        nodes.append(node)
 
     md, inc, azi, interpolated = np.array([
         [n.md, n.inc_rad, n.azi_rad, n.interpolated]
-- 
2.43.0


From 03fe4f3ced43357e719c23fad066f4826233c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:17 +0000
Subject: [PATCH 120/121] fix: keep an exported listing within its tolerance
 where curvature varies in a plane

---
 welleng/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/welleng/survey.py b/welleng/survey.py
index cf50453..6decfc7 100644
--- a/welleng/survey.py
+++ b/welleng/survey.py
@@ -2560,6 +2560,8 @@ def export_csv(
     tol = res.x[0]
     if _get_end_error(tol, survey, dls_cont) > tolerance:
         tol = start_tol
+    if _get_end_error(tol, survey, dls_cont) > tolerance:
+        dls_cont = True
 
     data = get_data(
         tol, survey, dls_cont
-- 
2.43.0


From d8fabb6972d2a82e1b1c105f65f5614644a382d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:29 +0000
Subject: [PATCH 121/121] fix: start the lines of a mesh clearance at the
 reference well

---
 welleng/clearance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/welleng/clearance.py b/welleng/clearance.py
index df5675d..c547916 100644
--- a/welleng/clearance.py
+++ b/welleng/clearance.py
@@ -935,7 +935,8 @@ class MeshClearance(Clearance):
         Extracts the closest points between wells for each survey section.
         """
         points = [
-            list(d[2]._points.values())
+            # the sections of the reference well are external to the manager
+            [d[2].point("__external"), d[2].point("offset")]
             for d in self.distance
         ]
 
-- 
2.43.0

