From 8eb66385fbe4bff2624be459e3edf9ca1a8fa77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 01/12] fix: accept the documented default smooth=0

The entry point documents smooth=0 as its default, but its own validation
rejected it, so every call that relied on the default failed.
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From fa4b337418b021133eb2cb098cf0e0ef1df115b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 02/12] fix: return the probability field from oneka()

The docstring promises it; the function returned None.
---
 oneka/oneka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..58c4f83 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,9 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From 77c0cd5644db1add55ab9903c5a1cae4a5ac94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 03/12] fix: refuse observations with a zero standard deviation

A zero standard deviation is an infinite weight: the fit divides by it and
ends in a LinAlgError (or a ZeroDivisionError when duplicates are averaged).
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 58c4f83..74c6ef6 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 0529461a228623e00a004aea4b3a90c32ea9c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 04/12] fix: treat a list as the distribution isdistribution()
 says it is

isdistribution() accepts lists as well as tuples; the generator and the mean
returned a list unchanged, as if it were a constant.
---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From f50e19186f2578b228ea1fd54a1fda82c6bc8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 05/12] fix: draw from a triangular distribution of zero width

(min, mode, max) with min == max is a valid distribution for isdistribution(),
but numpy's triangular() refuses it; a zero-width uniform already works.
---
 oneka/stochastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..2330dcf 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -298,6 +298,8 @@ def generate_random_variate(arg):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
+    elif len(arg) == 3 and arg[0] == arg[2]:
+        value = arg[0]
     elif len(arg) == 3:
         value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
-- 
2.43.0


From 54acff9349dfd39e51194afcd20abafe8319dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 06/12] fix: log the recharge of a realization with the right
 sign

The divergence of the modelled discharge is -2(A + B), which is what the
deterministic run logs.
---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 2330dcf..56ca624 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 5c5dad9c3c35a096ba4efe7f2940b169af2153bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 07/12] fix: distance to a segment of zero length

A degenerate segment gave a ZeroDivisionError (or nan with numpy scalars, so
that a stationary particle marked nothing).
---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..cb8bb68 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A segment of zero length is a point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From d9fa6e40898219f18b06e20cdf5ff7c3d5479775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 08/12] fix: grow the grid to hold the umbra of a track, not
 only the track

Nodes within umbra of a track but outside the grid were lost: the capture
zone was clipped at whatever grid happened to exist, and the result depended
on the order in which the tracks were rasterized.
---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index cb8bb68..44ae357 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -332,7 +332,7 @@ class ProbabilityField:
         None.
         """
         # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From 37dd98b8965365f82d40534db26d1026a64c0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 09/12] fix: give each Model its own coefficients

np.reshape returns a view, so all models built with the default coefficients
shared (and could modify) the default argument, and a fitted model shared its
coefficients with the array fit_regional_flow returned.
---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..159930e 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.reshape(coef, [6, ]).copy()
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From 286581ffb3eac1ea21ac7303c33bad7f91f92193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 10/12] fix: contour_head: name the exception that exists

The except clause named a module that is not there, so a dry location ended
in a NameError and not in a blank in the map.
---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From b949bce7048b816fdef32a43545735872a75ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 11/12] fix: end a trace whose velocity is not finite

A nan velocity (e.g. a starting point on another well) made the time step nan,
and the loop ran for ever.
---
 oneka/capturezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..e8f53e3 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,9 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            if not (np.isfinite(est) and np.isfinite(ds)):
+                raise ArithmeticError('The velocity is not finite.')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 168d35e7b799ffcddfb2f8bb2038f7ec623a08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 12/12] fix: average duplicate observations that are not listed
 next to each other

Only runs of consecutive duplicates were averaged; the others were retained as
separate observations at one location.
---
 oneka/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..697c23b 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -111,9 +111,12 @@ def filter_obs(observations, wellfield, buffer):
 
     i = 0
     while i < len(obs):
+        # Bring all of the duplicates of obs[i] together, wherever they are listed.
         j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
+        for k in range(i+1, len(obs)):
+            if np.hypot(obs[i][0]-obs[k][0], obs[i][1]-obs[k][1]) < TOO_CLOSE:
+                obs.insert(j, obs.pop(k))
+                j += 1
 
         if j-i > 1:
             num = 0
-- 
2.43.0

