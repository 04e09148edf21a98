From 22a6c6aee95c82d02e506c4f029c478c9f14d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 01/40] fix: take_snapshot uses np.int64 (np.int64_ does not
 exist)

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..ed1dd70 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -301,7 +301,7 @@ def take_snapshot(trajects, frame, schema):
         for k, v in schema.items())
 
     copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From aad4a2e6c35a6a8b7ffccde046ccce43fcab262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 02/40] fix: scalar columns in HDF tables (a (name, type, 1)
 field is a subarray in numpy 2)

---
 flowtracks/analysis.py |  9 ++++++---
 flowtracks/io.py       | 10 +++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..b98817e 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,9 +114,11 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    # (rows of length 1 are held in scalar columns)
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
-        descr.extend(analyser.descr())
+        descr.extend((name, typ) if length == 1 else (name, typ, length) \
+            for name, typ, length in analyser.descr())
     descr = np.dtype(descr)
     
     outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
@@ -135,7 +137,8 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
             this_descr = analyser.descr()
             
             for res, desc in zip(analysis, this_descr):
-                arr[desc[0]] = res
+                arr[desc[0]] = np.reshape(res, length) \
+                    if desc[2] == 1 else res
         
         table.append(arr)
     
diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..8636817 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -706,8 +706,8 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
-                for field, desc in traj.ext_schema().items()]
+            fields = [('trajid', int)] + [(field, typ, (shape,) if shape > 1 else ()) \
+                for field, (typ, shape) in traj.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
@@ -755,8 +755,8 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
-                for field, desc in frame.ext_schema().items()]
+            fields = [('time', int)] + [(field, typ, (shape,) if shape > 1 else ()) \
+                for field, (typ, shape) in frame.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
         
@@ -788,7 +788,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
-- 
2.43.0


From b11a94f2389ecec2f70d7472979cbbea7f15d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 03/40] fix: Python 2 leftovers (itertools.izip/ifilter,
 str.join arguments)

---
 flowtracks/an_scene.py | 2 +-
 flowtracks/io.py       | 2 +-
 flowtracks/scene.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..08518ce 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 8636817..50f5179 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -514,7 +514,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..9024706 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = ' & '.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 1786cf32d2d00d44aa596990907b3d0ffc696cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 04/40] fix: Sequence is an iterator under Python 3 (__next__)

---
 flowtracks/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..59e98f3 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -193,7 +193,7 @@ class Sequence(object):
         self._act_rng = (first, last)
         return self
     
-    def next(self):
+    def __next__(self):
         if self._frame == self._act_rng[1]:
             del self._act_rng
             raise StopIteration
-- 
2.43.0


From 962132c35c061008efc506828a268f24d3072301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 05/40] fix: Scene.collect with conditions but no frame range

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 9024706..cfca2d2 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [] if self._frame_limit == '' else [self._frame_limit]
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From 7d1ac485924d0408d025052ad5a173bb88d7dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:47 +0000
Subject: [PATCH 06/40] fix: query strings keep the full precision of range
 limits

---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index cfca2d2..e616ded 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 25e8c50256bf7a614975ad678a43fcce0b3c2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 07/40] fix: reading xuap files (floating-point links, unused
 trailing columns)

---
 flowtracks/io.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 50f5179..0d7700a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -30,7 +30,8 @@ from .trajectory import Trajectory, mark_unique_rows, \
 
 
 class FramesIterator(object):
-    def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
+    def __init__(self, fname_tmpl, fmt, skip, first=None, last=None,
+        usecols=None):
         """
         Arguments:
         fname_tmpl - a template file name representing all ptv_is/xuap files in
@@ -39,10 +40,11 @@ class FramesIterator(object):
         skip - number of header lines to skip in each file.
         first, last - inclusive range of frames to read, rel. filename 
             numbering.
+        usecols - the file columns that fmt describes (default: all of them).
         """
         self._frmix = 0
-        self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+        self._read_frame = lambda fix: np.atleast_1d(np.loadtxt(
+            fname_tmpl % fix, dtype=fmt, skiprows=skip, usecols=usecols))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
@@ -272,13 +274,17 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     fname = os.path.expanduser(fname)
     
     if xuap:
-        fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8'),
+        # Links are written in floating-point format, and the columns after
+        # the particle's acceleration are not used.
+        fmt = np.dtype([('prev', 'f8'), ('next', 'f8'), ('pos', '3f8'),
                         ('pos_int', '3f8'), ('vel', '3f8'), ('acc', '3f8')])
+        usecols = range(14)
         skip = 0
         count_base = 1
         def_tr_len = 2
     else:
         fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')])
+        usecols = None
         skip = 1
         count_base = 0
         def_tr_len = 2
@@ -288,7 +294,7 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
 
     frames = []
     if re.search(r'%\d*?d', fname) is not None:
-        frm_iter = FramesIterator(fname, fmt, skip, first, last)
+        frm_iter = FramesIterator(fname, fmt, skip, first, last, usecols)
     else:
         frm_iter = SingleFileIterator(fname, fmt)
     
@@ -341,7 +347,7 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         
         has_history = (len(frames) > 0) and (frames[-1] is not None)
         if has_history:
-            prev_ix = table['prev'][cont] - count_base
+            prev_ix = (table['prev'][cont] - count_base).astype(np.int64)
             traj[cont] = frames[-1][:,-1][prev_ix]
         
         # Start new trajectories:
-- 
2.43.0


From d073a8674408d045b18320587a83907a92a22844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 08/40] fix: Savitzky-Golay smoothing with numpy 2, low orders,
 and already smoothed trajectories

---
 flowtracks/smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..dc995bc 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,12 +60,14 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b).A
+    # (derivatives above the polynomial order are zero)
+    m = np.vstack((m, np.zeros((max(3 - order, 0), window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 6746b70a98791cb843603114e6cb4fd960554725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 09/40] fix: interpolant settings without radius, or for
 corrfun, can be read back

---
 flowtracks/interpolation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..c9fae59 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -595,9 +595,13 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
+        if self.radius() is None:
+            cfg.remove_option('Interpolant', 'radius')
+        else:
+            cfg.set('Interpolant', 'radius', str(self.radius()))
         cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        # Escaped because a file name (for corrfun) may contain '%'.
+        cfg.set('Interpolant', 'param', str(self._par).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -787,6 +791,8 @@ def read_interpolant(conf_fname):
     parser = ConfigParser()
     parser.read(conf_fname)
     
+    method = parser.get('Interpolant', 'method')
+    
     # Optional arguments:
     kwds = {}
     if parser.has_option('Interpolant', 'num_neighbs'):
@@ -794,6 +800,8 @@ def read_interpolant(conf_fname):
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        # For the 'corrfun' method the parameter is a file name.
+        get_param = parser.get if method == 'corrfun' else parser.getfloat
+        kwds['param'] = get_param('Interpolant', 'param')
     
-    return interpolant(parser.get('Interpolant', 'method'), **kwds)
+    return interpolant(method, **kwds)
-- 
2.43.0


From 92b190ac9ec671fd3a002cf69d29a483d707d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 10/40] fix: sequence settings with the default minimal length,
 or several %, can be read back

---
 flowtracks/sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 59e98f3..542926e 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -303,8 +303,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
@@ -347,7 +347,7 @@ def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     # Same goes for traj_min_len
     if parser.has_option("Scene", "trajectory minimal length"):
         if traj_min_len is None:
-            traj_min_len = parser.getint("Scene", "trajectory minimal length")
+            traj_min_len = parser.getfloat("Scene", "trajectory minimal length")
     else:
         if traj_min_len is None:
             traj_min_len = 0
-- 
2.43.0


From 4142d5053a8e8ade91daa11fa98364619844e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 11/40] fix: analyse_fhdf.py passes the interpolation parameter
 as such

---
 scripts/analyse_fhdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..a53a35a 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,9 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    if args.param is not None and args.method != 'corrfun':
+        args.param = float(args.param)
+    interp = interpolant(args.method, args.neighbs, param=args.param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 7f8860a7c9cd600254d24ff0d906fff97538aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 12/40] fix: trajectories_acc reads the last frame, whatever
 the directory order

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 0d7700a..7e48019 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -233,7 +233,7 @@ def trajectories_acc(fname, first=None, last=None):
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
+        if last is not None and frame > last: continue
         
         table = np.loadtxt(os.path.join(dirname, fname),
             usecols=(0,1,2,3,4,5,6,7,8,33))
-- 
2.43.0


From b69de8e10cbfa4a9425910c3bfe9e23fe80371eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 13/40] fix: trajectories() includes the last frame of HDF
 files

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 7e48019..739addf 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -508,7 +508,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
+        # Here last is included, but not in the range of a Scene.
+        scene = Scene(fname, (first, None if last is None else last + 1))
         it = scene.iter_trajectories()
         if iter_allowed:
             traj = it
-- 
2.43.0


From 44c4569d50d52bbee5d94a0a943cb080e763da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 14/40] fix: trajectories() with minimal length 0 leaves out
 trajectories out of range

---
 flowtracks/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 739addf..4352671 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -519,6 +519,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     if filter_needed:
         if traj_min_len is None:
             traj_min_len = 2
+        # A trajectory that is completely out of range is never wanted:
+        traj_min_len = max(traj_min_len, 1)
         
         if iter_allowed:
             traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
-- 
2.43.0


From 2bd822ea9af2e5a136f5f2a9bbf0da8d88d95fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 15/40] fix: frame limits apply to Matlab files

---
 flowtracks/io.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 4352671..49a9ebe 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -178,7 +178,7 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         all_rows = np.vstack(selected)
         return all_rows[mark_unique_rows(all_rows)]
 
-def trajectories_mat(fname):
+def trajectories_mat(fname, first=None, last=None):
     """
     Extracts all trajectories from a Matlab file. the file is formated as a 
     list of trajectory record arrays, containing attributes 'xf', 'yf', 'zf'
@@ -187,6 +187,7 @@ def trajectories_mat(fname):
     
     Arguments:
     fname - path to the Matlab file.
+    first, last - inclusive range of frames to read.
     
     Returns:
     trajects - a list of :class:`~flowtracks.trajectory.Trajectory` objects,
@@ -204,9 +205,19 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = np.atleast_1d(traj['t'].squeeze())
         trajid = traj['trajid'][0,0]
-        trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
+        
+        in_range = np.ones(t.shape, dtype=np.bool)
+        if first is not None:
+            in_range[t < first] = False
+        if last is not None:
+            in_range[t > last] = False
+        if not in_range.any():
+            continue
+        
+        trajects.append(Trajectory(pos[in_range], vel[in_range], t[in_range], 
+            trajid, accel=accel[in_range]))
     
     return trajects
 
@@ -486,7 +497,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     filter_needed = True
     
     if fmt == 'mat':
-        traj = trajectories_mat(fname)
+        traj = trajectories_mat(fname, first, last)
     
     elif fmt == 'npz':
         traj, _ = load_trajectories(fname, first, last)
-- 
2.43.0


From 3e7a4d9bad57d1dc26216527813f695f91aa635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 16/40] fix: frame files are exactly those named by the
 template, also in the current directory

---
 flowtracks/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 49a9ebe..2279d98 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -47,15 +47,17 @@ class FramesIterator(object):
             fname_tmpl % fix, dtype=fmt, skiprows=skip, usecols=usecols))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = re.compile(
+            re.sub(r'%\d*d', r'(\\d+)', re.escape(basename), count=1))
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or os.curdir):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
+            if name != basename % frame: continue # backup files etc.
 
             if first is not None and frame < first: continue
             if last is not None and frame > last: continue
@@ -236,12 +238,14 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = re.compile(
+        re.sub(r'%\d*d', r'(\\d+)', re.escape(basename), count=1))
     
-    for fname in os.listdir(dirname):
+    for fname in os.listdir(dirname or os.curdir):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
+        if fname != basename % frame: continue # backup files etc.
         
         if first is not None and frame < first: continue
         if last is not None and frame > last: continue
-- 
2.43.0


From efc75b57bda0ff319f661448fbe08810769ffcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 17/40] fix: single-file ptv_is: frames of one particle, and
 frame limits

---
 flowtracks/io.py | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2279d98..73579e6 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -88,17 +88,21 @@ class FramesIterator(object):
         return self._frame_nums[curframenum], frame
         
 class SingleFileIterator(object):
-    def __init__(self, fname, fmt):
+    def __init__(self, fname, fmt, first=None, last=None):
         """
         Arguments:
         fname - file name containing concatenated ptv_is frames, separated by
             empty line.
         fmt - a dtype object describing the table structure to be read.
-        skip - number of header lines to skip in each file.
+        first, last - inclusive range of frames to read, counting from 0 at 
+            the start of the file.
         """
         self._frmix = 0
+        self._first = first
+        self._last = last
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
@@ -110,22 +114,27 @@ class SingleFileIterator(object):
         frame - a table corresponding to the format (``fmt``) given to 
             __init__().
         """
-        curframenum = self._frmix
-        
-        # Make the stringio object to be used by read_frame
-        lines = []
-        for line in self._f:
-            if re.match(r'^\s*$', line):
-                break
-            lines.append(line)
-        
-        if len(lines) == 0:
-            raise StopIteration # EOF
+        in_range = False
+        while not in_range:
+            curframenum = self._frmix
+            if self._last is not None and curframenum > self._last:
+                raise StopIteration
+            
+            # Make the stringio object to be used by read_frame
+            lines = []
+            for line in self._f:
+                if re.match(r'^\s*$', line):
+                    break
+                lines.append(line)
+            
+            if len(lines) == 0:
+                raise StopIteration # EOF
+            
+            self._frmix += 1
+            in_range = self._first is None or curframenum >= self._first
         
         str_tbl = StringIO("".join(lines))
-        frame = self._read_frame(str_tbl)
-        self._frmix += 1
-        return curframenum, frame
+        return curframenum, self._read_frame(str_tbl)
     
     def __def__(self):
         self._f.close()
@@ -311,7 +320,7 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     if re.search(r'%\d*?d', fname) is not None:
         frm_iter = FramesIterator(fname, fmt, skip, first, last, usecols)
     else:
-        frm_iter = SingleFileIterator(fname, fmt)
+        frm_iter = SingleFileIterator(fname, fmt, first, last)
     
     # In the first frame, every particle starts a trajectory.
     frame_num, table = next(frm_iter)    
-- 
2.43.0


From 26bd5418c1479ce09708029eeb83f1c773ad6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 18/40] fix: ptv_is ranges without frames, and single-frame
 trajectories of the first frame

---
 flowtracks/io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 73579e6..9c36583 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -323,7 +323,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         frm_iter = SingleFileIterator(fname, fmt, first, last)
     
     # In the first frame, every particle starts a trajectory.
-    frame_num, table = next(frm_iter)    
+    first_frame = next(frm_iter, None)
+    if first_frame is None:
+        return # no frames in range.
+    frame_num, table = first_frame
     
     pos = table['pos']
     if not xuap: pos /=1000.
@@ -347,10 +350,11 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     
     # Single-frame trajectories in first frame:
     ending = table['next'] - count_base == -2
-    if ending.any():
-        ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
-        for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+    if traj_min_len <= 1:
+        for row in frame[ending]:
+            traj = Trajectory(row[None,:3], row[None,3:6], row[None,6],
+                int(row[7]), accel=np.zeros((1, 3)))
+            yield traj
     
     frame_buffer_start = 0
     
-- 
2.43.0


From eb0e2ffd41facf89c818ca5dc4b36d61e1179b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 19/40] fix: save_particles_table with trim=0, or when no
 trajectory is long enough

---
 flowtracks/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 9c36583..576eb4b 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -726,20 +726,19 @@ def save_particles_table(filename, trajects, trim=None):
     filename - name of output PyTables HDF5 file to create. The 'h5' extension
         is recommended so that infer_format() knows what to do with it.
     trajects - a list of Trajectory objects to save.
-    trim - if None, remove this many time points from each end of each 
+    trim - if not None, remove this many time points from each end of each 
         trajectory before saving.
     """
     table = None
-    trim_len = 0 if trim is None else trim * 2
+    if trim is None:
+        trim = 0
+    trim_len = trim * 2
     
     outfile = tables.open_file(filename, mode='w')
     bounds_tab = outfile.create_table('/', 'bounds', 
         np.dtype([('trajid', int), ('first', int), ('last', int)]))
     
     for traj in trajects:
-        if len(traj) - trim_len <= 0:
-            continue
-        
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
@@ -748,14 +747,15 @@ def save_particles_table(filename, trajects, trim=None):
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
 
+        if len(traj) - trim_len <= 0:
+            continue
+        
+
         arr = np.empty(len(traj) - trim_len, dtype=dtype)
         arr['trajid'] = traj.trajid()
         
         for k, v in traj.as_dict().items():
-            if trim is None:
-                arr[k] = v
-            else:
-                arr[k] = v[trim:-trim]
+            arr[k] = v[trim:len(traj) - trim]
         
         table.append(arr)
         bounds_tab.append([
-- 
2.43.0


From b788d937763735ef1f92353ce9716a0022f089c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 20/40] fix: collect_particles_generic: table format when there
 are no particles

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 576eb4b..ccf814a 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -625,7 +625,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From a85c7bf2f243a898f00c04df523bdbde54d99135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 21/40] fix: empty inputs of mark_unique_rows and
 trajectories_in_frame

---
 flowtracks/trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index ed1dd70..722e21f 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -232,7 +232,7 @@ def mark_unique_rows(all_rows):
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-    uniq = np.r_[srt[0], srt[1:][diff]]
+    uniq = np.r_[srt[:1], srt[1:][diff]]
     uniq.sort()
         
     return uniq
@@ -254,6 +254,9 @@ def trajectories_in_frame(trajects, frame_num,
     Returns:
     traj_nums = the indices of active trajectories in ``trajects``.
     """
+    if len(trajects) == 0:
+        return np.empty(0, dtype=np.int64)
+    
     if start_times is None or end_times is None:
         start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
         start_times, end_times = map(np.array, zip(*start_end))
-- 
2.43.0


From e994762c43b2c3177b62265939f6e6494876f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 22/40] fix: frame numbers read as floating-point are usable as
 indices

---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 722e21f..fed5994 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -267,7 +267,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -309,7 +309,7 @@ def take_snapshot(trajects, frame, schema):
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From ca62f58703f6fc00d50179ac601b911ba4158b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 23/40] fix: select_neighbs never marks excluded tracers, and
 reports their true distance

---
 flowtracks/interpolation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index c9fae59..7e30615 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -52,28 +52,28 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
     dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                            axis=2)
 
-    # Only for selection phase,later changed back.
-    dists[dists <= 0] = np.inf
+    # Distances for selection purposes, infinite for excluded tracers.
+    sel_dists = np.where(dists <= 0, np.inf, dists)
     if companionship is not None:
         cif = companionship >= 0.  # companion in frame
-        dists[np.nonzero(cif)[0], companionship[cif]] = np.inf
+        sel_dists[np.nonzero(cif)[0], companionship[cif]] = np.inf
 
     if radius is None:
         if num_neighbs is None:
             raise ValueError("Either radius or num_neighbs must be given.")
 
-        dist_sort = np.argsort(dists, axis=1)
+        dist_sort = np.argsort(sel_dists, axis=1)
         use_parts = np.zeros(dists.shape, dtype=np.bool)
 
         eff_num_neighbs = min(num_neighbs, tracer_pos.shape[0])
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        use_parts &= np.isfinite(sel_dists)
 
     else:
-        use_parts = dists < radius
+        use_parts = sel_dists < radius
 
-    dists[np.isinf(dists)] = 0.
     return dists, use_parts
 
 
@@ -580,7 +580,8 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            pt_dists = dists[pt, use_parts[pt]]
+            ndists[pt, :len(pt_dists)] = pt_dists
         
         return ndists
     
-- 
2.43.0


From 70e11ff761917bb892e23b98af38ec2cf19d83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 24/40] fix: corrfun_interp with a 1D histogram

---
 flowtracks/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 7e30615..ff58b3a 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -100,6 +100,8 @@ def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
         interpolation point, [units of ``data``].
     """
     weights = np.zeros(dists.shape + (data.shape[-1],))
+    # The same histogram for all components, unless there is one for each.
+    corrs_hist = corrs_hist.reshape(len(corrs_bins), -1)
     weights[use_parts] = corrs_hist[
         np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
     
-- 
2.43.0


From 94ac73e2f451d1a0cb0457ef552f50158533dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 25/40] fix: companions of interpolation points are not those
 of the tracers (rbf kernel)

---
 flowtracks/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ff58b3a..ab67229 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -385,8 +385,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -514,7 +513,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From ea234f86b7ee177d0c65de79f06b95aaf69a1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 26/40] fix: rbf and corrfun interpolation of a recorded scene

---
 flowtracks/interpolation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ab67229..4b75176 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -464,12 +464,22 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # The functions below use the (m,n) format, a column for each tracer.
+        full_shape = (act_neighbs.shape[0], self.__tracers.shape[0])
+        pts, neighbs = np.nonzero(act_neighbs < self.__tracers.shape[0])
+        tracer_ixs = act_neighbs[pts, neighbs]
+        
+        use_parts = np.zeros(full_shape, dtype=np.bool)
+        use_parts[pts, tracer_ixs] = True
+        dists = np.zeros(full_shape)
+        dists[pts, tracer_ixs] = self.__dists[pts, neighbs]
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
-- 
2.43.0


From 501d6c9ec8eff0b857805f743c5771b93ce96698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 27/40] fix: one-off inverse-distance interpolation, and
 companions in the numeric Jacobian

---
 flowtracks/interpolation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 4b75176..22bc78d 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -555,11 +555,11 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp) 
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp) 
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
@@ -728,7 +728,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        interp = InverseDistanceWeighter(
+            self._neighbs, self._radius, self._par)
+        interp.set_scene(tracer_pos, interp_points, data, companionship)
+        return interp.interpolate()
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From 70b873a69dbffa5f89351bdc293a4a5a44058613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 28/40] fix: neighbours of a recorded scene with several
 excluded tracers

---
 flowtracks/interpolation.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 22bc78d..b939afc 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -353,16 +353,28 @@ class GeneralInterpolant(object):
         use_part - (m,k) array, the respective indices. Missing neighbours are
             represented by the total number of data points.
         """
-        dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
-        keep = dists > 0.
+        # Usually at most one or two tracers are excluded for each point, but 
+        # any number of them may share its position.
+        extra = 2
+        while True:
+            dists, active_neighbs = self.__field_tree.query(interp_pts, 
+                self._neighbs + extra, distance_upper_bound=self._upb)
+            excluded = dists <= 0.
+            
+            if comp is not None:
+                excluded |= active_neighbs == comp[:, None]
+            
+            most_excluded = np.max(excluded.sum(axis=1), initial=0)
+            if most_excluded <= extra:
+                break
+            extra = most_excluded
         
-        if comp is not None:
-            keep &= active_neighbs != comp[:, None]
+        dists[excluded] = np.inf
+        active_neighbs[excluded] = self.__tracers.shape[0]
         
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+        nearest = np.argsort(dists, axis=1, kind='stable')[:,:self._neighbs]
+        dists = np.take_along_axis(dists, nearest, axis=1)
+        active_neighbs = np.take_along_axis(active_neighbs, nearest, axis=1)
         
         return dists, active_neighbs
         
@@ -370,9 +382,6 @@ class GeneralInterpolant(object):
         """
         Populate the neighbours cache.
         """
-        # Take one more neighbour because one will be removed, either for 
-        # being in the same position as the interp points or being its 
-        # companion (worst case, the extra farthest neighbour is removed).
         self.__dists, self.__active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-- 
2.43.0


From 3fa681012dcb5ddcc0494f8ff909b29f49a27ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 29/40] fix: missing neighbours contribute zeros, not unset
 memory

---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index b939afc..d18d8e5 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -386,7 +386,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -423,8 +423,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -758,7 +758,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From 623889e8b41bbb0913af5e51c283dd4a956121f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 30/40] fix: caches of a recorded scene follow changes of its
 tracers, data and points

---
 flowtracks/interpolation.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index d18d8e5..613079f 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -322,6 +322,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
@@ -336,6 +337,11 @@ class GeneralInterpolant(object):
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
+        self.__matched_data = None
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
@@ -401,6 +407,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+        
         return self.__rel_pos
     
     def current_dists(self):
@@ -688,6 +697,12 @@ class InverseDistanceWeighter(GeneralInterpolant):
             return
         
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        """
+        Populate the neighbours cache, and the weights depending on it.
+        """
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
@@ -700,7 +715,9 @@ class InverseDistanceWeighter(GeneralInterpolant):
             (as given in set_scene), True to trim a point, False to keep.
         """
         GeneralInterpolant.trim_points(self, which)
-        self.__weights = self.__weights[~which]
+        if len(self.field_positions()) > 0:
+            self.__weights = self.weights(self.current_dists(), 
+                self.current_active_neighbs())
         
     def _apply_weights(self, weights, data):
         """
-- 
2.43.0


From 46377bc22064a194c490418dbc490920d0c5027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 31/40] fix: particle_pairs assigns each pair to the point it
 was requested for

---
 flowtracks/pairs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..4dde12e 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -45,12 +45,13 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
 
     unique_frames = np.unique(frames)
     schema = prim_traj[0].schema()
+    prim_by_id = dict((t.trajid(), t) for t in prim_traj)
     
     # For each frame, create snapshots and compare positions.
     for frame_num in unique_frames:
         coord_locator = frames == frame_num
-        prim_in_frame_ids = np.unique(trajids[coord_locator])
-        prim_in_frame = [t for t in prim_traj if t.trajid() in prim_in_frame_ids]
+        # Ordered as requested, so that results are assigned accordingly.
+        prim_in_frame = [prim_by_id[trid] for trid in trajids[coord_locator]]
         prim_parts = take_snapshot(prim_in_frame, frame_num, schema)
         
         sec_in_frame_ixs = trajectories_in_frame(secondary_trajects, frame_num,
@@ -62,7 +63,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num, 
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
-- 
2.43.0


From c691c0b86fbc8ff167c593537e8fec8737aca88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 32/40] fix: take_snapshot copies only the properties in the
 schema

---
 flowtracks/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index fed5994..5bb22ab 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -303,7 +303,7 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
+    copy_keys = list(kwds.keys())
     kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
-- 
2.43.0


From fc44ae4be879a49a18e8dbcf897b2dde55b0907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 33/40] fix: each iteration of a sequence has its own frame
 range and both schemas

---
 flowtracks/sequence.py | 72 ++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 45 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 542926e..09cb3f3 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,23 +160,7 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
-        self._frame = self._act_rng[0]
-        
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
-        
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        
-        self.__tschem = self.__ttraj[0].schema()
-        
-        return self
+        return self.iter_subrange(*self._rng)
     
     def iter_subrange(self, first, last):
         """
@@ -190,35 +174,33 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
-    
-    def __next__(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
-            raise StopIteration
-        
-        frame = Frame()
-        tracer_ixs = trajectories_in_frame(self.__ttraj, self._frame, 
-            self.__tstarts, self.__tends, segs=True)
-        tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
-        frame.tracers = take_snapshot(tracer_trjs, self._frame, self.__tschem)
-        
-        part_ixs = trajectories_in_frame(self.__ptraj, self._frame,
-            self.__pstarts, self.__pends, segs=True)
-        part_trjs = [self.__ptraj[t] for t in part_ixs]
-        frame.particles = take_snapshot(part_trjs, self._frame, self.__schema)
-
-        self._frame += 1
-        
-        next_frame = Frame()
-        next_frame.tracers = take_snapshot(tracer_trjs, self._frame,
-            self.__tschem)
-        next_frame.particles = take_snapshot(part_trjs, self._frame,
-            self.__schema)
-        self._next_frame = next_frame
+        # Make sure the particle trajectory cache is populated.
+        self.particle_trajectories()
+        schema = self.__ptraj[0].schema()
         
-        return frame, next_frame
+        # Make sure the tracers cache is populated:
+        self.tracer_trajectories()
+        tschem = self.__ttraj[0].schema()
+        
+        for frame_num in range(first, last):
+            frame = Frame()
+            tracer_ixs = trajectories_in_frame(self.__ttraj, frame_num, 
+                self.__tstarts, self.__tends, segs=True)
+            tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
+            frame.tracers = take_snapshot(tracer_trjs, frame_num, tschem)
+            
+            part_ixs = trajectories_in_frame(self.__ptraj, frame_num,
+                self.__pstarts, self.__pends, segs=True)
+            part_trjs = [self.__ptraj[t] for t in part_ixs]
+            frame.particles = take_snapshot(part_trjs, frame_num, schema)
+            
+            next_frame = Frame()
+            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,
+                tschem)
+            next_frame.particles = take_snapshot(part_trjs, frame_num + 1,
+                schema)
+            
+            yield frame, next_frame
     
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
-- 
2.43.0


From 85c74fff405b9ee133959073d2d5960e3302bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 34/40] fix: read trajAcc files that hold one row or none

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index ccf814a..2d52a40 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -164,7 +164,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -260,7 +261,7 @@ def trajectories_acc(fname, first=None, last=None):
         if last is not None and frame > last: continue
         
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From d224df1fd581ae43d60838900e7b1076369c0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 35/40] fix: open scenes whose particle table is empty

---
 flowtracks/scene.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index e616ded..e61ef42 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -120,22 +120,22 @@ class Scene(object):
         
         if frame_range is None:
             t = self._table.col('time')
-            self._first = int(t.min())
-            self._last = int(t.max()) + 1
+            self._first = int(t.min()) if len(t) > 0 else 0
+            self._last = int(t.max()) + 1 if len(t) > 0 else 0
             return
         
         first, last = frame_range
         rng_exprs = []
         if first is None:
             t = self._table.col('time')
-            self._first = int(t.min())
+            self._first = int(t.min()) if len(t) > 0 else 0
         else:
             self._first = first
             rng_exprs.append("(time >= %d)" % first)
         
         if last is None:
             t = self._table.col('time')
-            self._last = int(t.max()) + 1
+            self._last = int(t.max()) + 1 if len(t) > 0 else 0
         else:
             self._last = last
             rng_exprs.append("(time < %d)" % last)
-- 
2.43.0


From a178e08872e09a5fe7e72aa0149e9ae0f86d3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 36/40] fix: a companion that is not among the tracers does not
 stall the neighbour search

---
 flowtracks/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 613079f..7991ea9 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -368,7 +368,9 @@ class GeneralInterpolant(object):
             excluded = dists <= 0.
             
             if comp is not None:
-                excluded |= active_neighbs == comp[:, None]
+                # (missing neighbours are not excluded ones)
+                excluded |= (active_neighbs == comp[:, None]) \
+                    & np.isfinite(dists)
             
             most_excluded = np.max(excluded.sum(axis=1), initial=0)
             if most_excluded <= extra:
-- 
2.43.0


From 995e9d84d2dbdeae76f3888cb6125001fcb35ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 37/40] fix: collect_particles looks beyond a file without a
 matching path

---
 flowtracks/io.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2d52a40..f5a3168 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -176,10 +176,6 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
         selected.append(in_frame)
         cur_frame -= 1
     
-- 
2.43.0


From 02efadddcbf0c3c0560b1277caabe13583adc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 38/40] fix: rounding of the logarithmic bin edges lost the
 extreme samples

---
 flowtracks/graphics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/graphics.py b/flowtracks/graphics.py
index 237b526..be6b949 100644
--- a/flowtracks/graphics.py
+++ b/flowtracks/graphics.py
@@ -35,7 +35,10 @@ def pdf_bins(data, num_bins, log_bins=False):
     if log_bins:
         data = data[data > 0] 
         minv = np.min(data)
-        bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
+        maxv = np.max(data)
+        bins = np.logspace(np.log10(minv), np.log10(maxv), num_bins + 1)
+        # Rounding must not leave the extreme samples out of the histogram:
+        bins[0], bins[-1] = minv, maxv
     else:
         bins = num_bins
     
-- 
2.43.0


From cc82312daac1636ab136b022fdd55c4ef1734ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 39/40] fix: smoothing a trajectory with a spline of order 1
 raised ValueError

---
 flowtracks/trajectory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 5bb22ab..c4746a7 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -184,7 +184,11 @@ class Trajectory(ParticleSet):
         
         new_pos = np.array(interp.splev(eval_prms, spline)).T
         new_vel = np.array(interp.splev(eval_prms, spline, der=1)).T
-        new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        if order > 1:
+            new_accel = np.array(interp.splev(eval_prms, spline, der=2)).T
+        else:
+            # A broken line has no second derivative to evaluate:
+            new_accel = np.zeros_like(new_vel)
         
         return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
             accel=new_accel)
-- 
2.43.0


From bb2721f95fc9f6ca1f90239d95af7be7c8eb69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 40/40] fix: a stopped iteration of a dual scene left its
 sub-range in force

---
 flowtracks/scene.py | 52 +++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index e61ef42..9a70f3c 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -423,17 +423,18 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        finally:
+            # restore original frame range, also if iteration was stopped.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -455,22 +456,23 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
             
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
             
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+                yield frame, next_frame
+        finally:
+            # restore original frame range, also if iteration was stopped.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0

