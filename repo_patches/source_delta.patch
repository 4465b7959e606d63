From 870a396dd6b7ea9710d103581f5704c6aa0d0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 01/21] fix: grow the grid to hold a track's umbra, not just
 its vertices

rasterize() expanded the grid to the bounding box of the vertices only, so
nodes within umbra of the track but outside that box were silently dropped,
and the recorded probability depended on the order of the tracks.
---
 oneka/probabilityfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..d0bbbc0 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -331,8 +331,8 @@ class ProbabilityField:
         -------
         None.
         """
-        # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        # Make certain that the grid is large enough for the track and its umbra.
+        self.expand(min(x) - umbra, max(x) + umbra, min(y) - umbra, max(y) + umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From 917110188479d23a36251a5d03674f11e6d13119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 02/21] fix: distance to a zero-length segment is the distance
 to the point

It was 0/0: a ZeroDivisionError for floats, and nan (nothing marked) for
numpy scalars, e.g. the track of a particle at a stagnation point.
---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index d0bbbc0..0648731 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A zero-length segment is a single point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From d1829e26824e03fe35c39af183d8458d267e4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 03/21] fix: a backtrace terminates when the velocity is not
 finite

A nan or inf velocity (e.g. exactly at a well) made the time step nan, and
the step loop never ended.
---
 oneka/capturezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..1ba9cb1 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,9 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            if not (np.isfinite(est) and np.isfinite(ds)):
+                raise ArithmeticError('velocity is not finite')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 124f593d5c9d7b1844f00ca7e3ef4ae1db08cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 04/21] fix: do not swallow KeyboardInterrupt and SystemExit
 while tracing

The bare except and the return in finally turned a Ctrl-C into a shortened
trace, which was then registered as if it were a result.
---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 1ba9cb1..b6a5bbd 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -249,8 +249,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From 56c5dc845116827219c6309d22a7935723606fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 05/21] fix: report terminated traces to the Oneka run log

capturezone used the logger 'oneka.capturezone', which is not a child of the
'Oneka' logger that the run log is attached to, so the warnings never reached
the log file.
---
 oneka/capturezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index b6a5bbd..4dfacd1 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -44,7 +44,7 @@ Version
 import logging
 import numpy as np
 
-log = logging.getLogger(__name__)
+log = logging.getLogger("Oneka")
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 0b3f0f56095732eb1d2090e4d08f3d2f3edfa62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 06/21] fix: accept distributions given as lists

isdistribution() accepts lists, but the variate functions returned them
unchanged, as if they were constants.
---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From 831f08b7695339ec2c2006b5fff8c9e61b67a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 07/21] fix: sample a triangular distribution of zero width

(a, a, a) is a valid distribution according to isdistribution(), and it has a
mean, but np.random.triangular raises ValueError for it.
---
 oneka/stochastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..69df063 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -299,7 +299,8 @@ def generate_random_variate(arg):
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
     elif len(arg) == 3:
-        value = np.random.triangular(arg[0], arg[1], arg[2])
+        # np.random.triangular rejects a distribution of zero width.
+        value = np.random.triangular(arg[0], arg[1], arg[2]) if arg[0] < arg[2] else arg[1]
     else:
         raise DistributionError('<arg> must be a scalar, pair, or triple.')
 
-- 
2.43.0


From 9d6bf5613c42e0412009ae3e7efa1225b5927775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 08/21] fix: sign of the recharge logged for a stochastic
 realization

The Laplacian of the discharge potential is minus the recharge; the
deterministic run already logs it that way.
---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 69df063..03e058c 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 2f5af8fe11db101d5c64638fdd13032fa268600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 09/21] fix: average duplicate observations that are not
 adjacent in the list

Only runs of consecutive duplicates were found; the same location elsewhere
in the list was retained as a second observation.
---
 oneka/utilities.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..74501bc 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -109,16 +109,16 @@ def filter_obs(observations, wellfield, buffer):
     # Assume that the duplicate errors are statistically independent.
     retained_obs = []
 
-    i = 0
-    while i < len(obs):
-        j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
+    remaining = list(range(len(obs)))
+    while remaining:
+        i = remaining[0]
+        group = [i] + [j for j in remaining[1:]
+                       if np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE]
 
-        if j-i > 1:
+        if len(group) > 1:
             num = 0
             den = 0
-            for k in range(i, j):
+            for k in group:
                 num += obs[k][2]/obs[k][3]**2
                 den += 1/obs[k][3]**2
                 log.info('    duplicate observation: {0}'.format(obs[k]))
@@ -126,7 +126,7 @@ def filter_obs(observations, wellfield, buffer):
             log.info('averaged observation created: {0}'.format(retained_obs[-1]))
         else:
             retained_obs.append(obs[i])
-        i = j
+        remaining = [j for j in remaining if j not in group]
 
     log.info('')
     log.info('active observations: {0}'.format(len(retained_obs)))
-- 
2.43.0


From f5dc1a84fdf4d4c495ac916f7ff63a27e82faec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 10/21] fix: accept smooth = 0, the documented default

oneka() failed its own validation whenever smooth was left at its default.
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 5a90053819ef839e8b1a95e2fc44c3b3276dd252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 11/21] fix: reject observations with a zero standard deviation

The fit divides by the standard deviation: such a run passed the validation
and then died with a LinAlgError in the middle of the computation.
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..19d3b5c 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 85174f9b4033ec5b4a2507feadb9b16735e821fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 12/21] fix: a Model owns its regional flow coefficients

The setter kept a view on the caller's array. In particular, all models made
with the default argument shared one array: changing one changed them all.
---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..e268fd4 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.array(coef, dtype=float).reshape([6, ])
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From 842fc1ac10a1395c8349c0323de021f920998328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 13/21] fix: contour_head at a dry location

The except clause named a module that does not exist, so a dry location
raised NameError instead of being left blank.
---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From 3e4553b7e9408480f5c0f50a24508a4c27ee27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 14/21] fix: never overwrite the archive of an earlier run

The file name has a resolution of one second; a second run ending within the
same second silently replaced the first run's archive.
---
 oneka/archive.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 3c8bbb5..b6b9db0 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -39,6 +39,7 @@ Version
 """
 import bz2
 from datetime import datetime
+import os
 import pickle
 
 
@@ -52,8 +53,14 @@ def dump_oneka(
         confined, tol, maxstep,
         pfield):
 
-    # Create the dump file name.
-    filename='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'
+    # Create the dump file name. Runs that end within the same second must not
+    # share a file.
+    stem = 'logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S')
+    filename = stem + '.bz2'
+    count = 0
+    while os.path.exists(filename):
+        count += 1
+        filename = '{0}_{1}.bz2'.format(stem, count)
 
     # Create a dictionary.
     oneka_dict = {
@@ -78,7 +85,7 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "w") as fp:
+    with bz2.BZ2File(filename, "x") as fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 39cafdaaf245af5cd6be9fee12405d6a27e60c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 15/21] fix: log the thickness used by a deterministic run

---
 oneka/deterministic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oneka/deterministic.py b/oneka/deterministic.py
index 0880a01..b349e80 100644
--- a/oneka/deterministic.py
+++ b/oneka/deterministic.py
@@ -204,6 +204,7 @@ def create_deterministic_capturezone(
     log.info(f"base         = {base:.2f}")
     log.info(f"conductivity = {conductivity:.2f}")
     log.info(f"porosity     = {porosity:.2f}")
+    log.info(f"thickness    = {thickness:.2f}")
 
     recharge = -2*(mo.coef[0] + mo.coef[1])
     log.info(f"recharge     = {recharge:+.4e}")
-- 
2.43.0


From 3a5e3decb26d02ff963d9620b48305baf59b50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 16/21] fix: check the whole archive before unpickling it

---
 oneka/archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index b6b9db0..186a315 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -90,7 +90,9 @@ def dump_oneka(
 
 # ------------------------------------------------------------------------------
 def load_oneka(filename):
+    # Read everything before unpickling: the checksums of the archive are only
+    # verified at its end.
     with bz2.BZ2File(filename, "r") as fp:
-        oneka_dict = pickle.load(fp)
+        oneka_dict = pickle.loads(fp.read())
 
     return (oneka_dict)
-- 
2.43.0


From a69ef598c5b3bffc59fcd07dfc9f129a4ca290de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 17/21] fix: detach the log file of a run when the run ends, so
 that later runs do not write to it

---
 runme.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/runme.py b/runme.py
index 94b4235..7c0864c 100644
--- a/runme.py
+++ b/runme.py
@@ -56,19 +56,24 @@ def main(module_name):
 
     log = logging.getLogger('Oneka')
 
-    # Call the working function.
-    oneka(
-        m.PROJECTNAME, RUNTIME,
-        m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
-        m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
-        m.WELLS, m.OBSERVATIONS,
-        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
-        m.CONFINED, m.TOL, m.MAXSTEP)
-
-    # Shutdown the run.
-    elapsedtime = time.time() - start_time
-    log.info('\n')
-    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+    try:
+        # Call the working function.
+        oneka(
+            m.PROJECTNAME, RUNTIME,
+            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
+            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
+            m.WELLS, m.OBSERVATIONS,
+            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
+            m.CONFINED, m.TOL, m.MAXSTEP)
+
+        # Shutdown the run.
+        elapsedtime = time.time() - start_time
+        log.info('\n')
+        log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+    finally:
+        # The log file belongs to this run only.
+        logger.removeHandler(fh)
+        fh.close()
     logging.shutdown()
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
-- 
2.43.0


From 81ecd09be721f1b13e4bc0b77e08223acff57ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 18/21] fix: runs that start within the same second no longer
 share a log file

---
 runme.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runme.py b/runme.py
index 7c0864c..fd36d5a 100644
--- a/runme.py
+++ b/runme.py
@@ -46,9 +46,18 @@ def main(module_name):
     logger = logging.getLogger('Oneka')
     logger.setLevel(logging.INFO)
 
-    # Create file handler which logs all messages.
-    fname='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log'
-    fh = logging.FileHandler(filename=fname)
+    # Create file handler which logs all messages. Runs that start within the
+    # same second must not share a file.
+    stem = 'logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S')
+    fname = stem + '.log'
+    count = 0
+    while True:
+        try:
+            fh = logging.FileHandler(filename=fname, mode='x')
+            break
+        except FileExistsError:
+            count += 1
+            fname = '{0}_{1}.log'.format(stem, count)
     fh.setLevel(logging.INFO)
 
     # Add the handlers to logger
-- 
2.43.0


From 1cdeb547809ef146f7ba244518cdfaa2a3cf4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 19/21] fix: a run that ends at the same instant as another
 takes the next name instead of failing to write its archive

---
 oneka/archive.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 186a315..69786a6 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -39,7 +39,6 @@ Version
 """
 import bz2
 from datetime import datetime
-import os
 import pickle
 
 
@@ -53,14 +52,9 @@ def dump_oneka(
         confined, tol, maxstep,
         pfield):
 
-    # Create the dump file name. Runs that end within the same second must not
-    # share a file.
+    # Create the dump file name.
     stem = 'logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S')
     filename = stem + '.bz2'
-    count = 0
-    while os.path.exists(filename):
-        count += 1
-        filename = '{0}_{1}.bz2'.format(stem, count)
 
     # Create a dictionary.
     oneka_dict = {
@@ -85,7 +79,18 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "x") as fp:
+    # Runs that end within the same second must not share a file: take the first
+    # name that nobody else has created.
+    count = 0
+    while True:
+        try:
+            fp = bz2.BZ2File(filename, "x")
+            break
+        except FileExistsError:
+            count += 1
+            filename = '{0}_{1}.bz2'.format(stem, count)
+
+    with fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 1cdcb01d6591e4497ddbfa3f96964f5715dbb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 20/21] fix: oneka() returns the probability field, as
 documented

---
 oneka/oneka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 19d3b5c..74c6ef6 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,9 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From c00a19ac61bec3ede1f96f141ad9a6416c91f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 21/21] fix: refuse times, places, sizes and heads that are not
 finite

---
 oneka/oneka.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 74c6ef6..ec2a372 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -241,6 +241,11 @@ def oneka(
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
     assert((isinstance(maxstep, int) or isinstance(maxstep, float)) and 0 < maxstep)
 
+    # Times, places, sizes, and heads that are not finite trace nothing or never end.
+    assert(np.all(np.isfinite([duration, base, spacing, umbra, smooth])))
+    assert(np.all(np.isfinite([we[0:3] for we in stochastic_wells])))
+    assert(np.all(np.isfinite([ob[0:3] for ob in observations])))
+
     # Log the run information.
     log_the_run(
         projectname, runtime,
-- 
2.43.0

