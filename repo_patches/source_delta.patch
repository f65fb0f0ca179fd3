From 53db38d4612992b081d37ba2c872243c7ed46e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 01/94] fix: ParameterStudy.write_input reads the exclusion
 list from the study's own table

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..40339f1 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From e970ff7f25af759de52ec7e7e7f787a3d4a84150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 02/94] fix: backup() does not write through a dangling symlink
 occupying the backup name

---
 src/pwtools/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..83a2b6a 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -533,11 +533,11 @@ def backup(src, prefix='.'):
             raise Exception("source '%s' is not file or dir" %src)
         idx = 0
         dst = src + '%s%s' %(prefix,idx)
-        while os.path.exists(dst):
+        while os.path.lexists(dst):
             idx += 1
             dst = src + '%s%s' %(prefix,idx)
         # sanity check
-        if os.path.exists(dst):
+        if os.path.lexists(dst):
             raise Exception("destination '%s' exists" %dst)
         else:
             copy(src, dst)
-- 
2.43.0


From fa990aef63b85de039191ad6e2a50c673a49881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 03/94] fix: FileTemplate.write with keys=[] copies the file
 instead of raising TypeError

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 40339f1..f163b75 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 56d59379e2a7d6259003286bd23d134541237dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 04/94] fix: Calculation does not add the machine template to
 the caller's list

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f163b75..325ecd0 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,8 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        # copy: the machine template is appended below
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 875b441f1be04b6558326ccff7856fcdca791532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 05/94] fix: SQLiteDB.fill_column and attach_column work on a
 table without rows

---
 src/pwtools/sql.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..7e35372 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -361,6 +361,9 @@ class SQLiteDB:
         # ..." to appand rows to the bottom.
         table = self._get_table(table)
         maxrowid = self.get_max_rowid(table)
+        # empty table
+        if maxrowid is None:
+            maxrowid = 0
         assert self.has_column(col, table=table), "column missing: %s" %col
         if not extend:
             assert start <= maxrowid, "start > maxrowid"
-- 
2.43.0


From ef0755680cb74b9231cd767c9364ec045e57d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 06/94] fix: toslice, tobool and ffloat accept str (were
 rejected or failed since Python 3)

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 83a2b6a..103a694 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 0ab220f80f8d9a74bf47494ccd0b094ebfc4f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 07/94] fix: crys.concatenate keeps only attributes which all
 inputs have

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..6f55174 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3088,7 +3088,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From 2c3eac883bfe9d74bf22b9804ab5e00984b708b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 08/94] fix: every iteration over a Trajectory starts at the
 first step

---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 6f55174..640cc39 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2933,7 +2933,10 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # Each iteration has its own state: nested or abandoned loops over the
+        # same object are independent.
+        for idx in range(self.nstep):
+            yield self[idx]
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From b4565e79e514eb5561ff9c352bd36343a885efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/94] fix: Trajectory with timestep and less than 3 steps has
 no derived velocity instead of failing

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 640cc39..7dc8807 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2532,7 +2532,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[self.timeaxis] >= 3:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 27c8d16790544a2275a260122b443a15eb44b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 10/94] fix: a Structure taken from a Trajectory shares no data
 with it

---
 src/pwtools/crys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7dc8807..0619a86 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2963,12 +2963,15 @@ class Trajectory(Structure):
                     # currently doesn't handle that
                     if name in self.attrs_nstep_2d_3d \
                         and attr.shape[self.timeaxis] == self.nstep:
-                        setattr(obj, name, attr[idx,...])
+                        val = attr[idx,...]
+                        setattr(obj, name, val if want_traj else val.copy())
                     elif name in self.attrs_nstep_1d \
                         and attr.shape[self.timeaxis] == self.nstep:
                         setattr(obj, name, attr[idx])
                 else:
-                    setattr(obj, name, attr)
+                    # a Structure is independent of the Trajectory it is taken
+                    # from
+                    setattr(obj, name, attr if want_traj else copy.deepcopy(attr))
             else:
                 setattr(obj, name, None)
         # After possible slicing, calculate new nstep
-- 
2.43.0


From 62ca9110031ed8356de54471ec9c8f34af31c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 11/94] fix: results of crys.concatenate and crys.mean share no
 data with their input

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 0619a86..347435c 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3097,7 +3097,7 @@ def concatenate(lst):
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
     for name in set.difference(com_attrs, set(attrs_traj)):
-        setattr(traj, name, getattr(trlst[0], name))
+        setattr(traj, name, copy.deepcopy(getattr(trlst[0], name)))
     traj.timestep = None
     traj.time = None
     traj.nstep = traj.get_nstep()
@@ -3146,7 +3146,7 @@ def mean(traj):
                                     set(attrs_traj)):
         attr = getattr(traj, attr_name)
         if attr is not None:
-            setattr(struct, attr_name, attr)
+            setattr(struct, attr_name, copy.deepcopy(attr))
     return struct
 
 
-- 
2.43.0


From 8cd6681dbe8b1f3890f00797b5e544759551c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 12/94] fix: rpdf does not change the trajs and amask lists
 passed to it

---
 src/pwtools/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 347435c..7865a7f 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1482,11 +1482,13 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
         tmask = slice(None)
     if type(trajs) != type([]):
         trajs = [trajs]
+    # copy, do not change the lists of the caller
+    amask = list(amask)
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs*2
         dup_trajs = True
     if len(amask) == 1:
-        amask *= 2
+        amask = amask*2
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From 61b7bd4d5745118efebdb5f1e152692bca83e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 13/94] fix: write_h5 closes the file when a key cannot be
 written

---
 src/pwtools/io.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index 5f2a0cb..e651b7a 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -277,10 +277,9 @@ def write_h5(fn, dct, **kwds):
     >>> write_h5('file.h5', old, mode='w')
     """
     mode = kwds.pop('mode') if 'mode' in kwds else 'a'
-    fh = h5py.File(fn, mode=mode, **kwds)
-    for key,val in dct.items():
-        fh[key] = val
-    fh.close()
+    with h5py.File(fn, mode=mode, **kwds) as fh:
+        for key,val in dct.items():
+            fh[key] = val
 
 
 def read_h5(fn):
-- 
2.43.0


From bc3125fd2e53a84251e66b261ca68c1a0c941412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 14/94] fix: read_h5 returns arrays of strings as str like
 string scalars

---
 src/pwtools/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index e651b7a..ccd36a7 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -304,7 +304,10 @@ def read_h5(fn):
         if isinstance(obj, h5py.Dataset):
             _name = name if name.startswith('/') else '/'+name
             val = obj[()]
-            dct[_name] = obj.asstr()[()] if isinstance(val, bytes) else val
+            # variable length strings: scalars and arrays (e.g. list of str)
+            isstr = isinstance(val, bytes) or obj.dtype.kind == 'O' \
+                and h5py.check_string_dtype(obj.dtype) is not None
+            dct[_name] = obj.asstr()[()] if isstr else val
     fh.visititems(get)
     fh.close()
     return dct
-- 
2.43.0


From 145923d8456b21e62aa732f7595db93458bd491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 15/94] fix: nearest_neighbors excludes exactly the central
 atom

---
 src/pwtools/crys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7865a7f..4631bf8 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1972,7 +1972,7 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
     # dist from atom `idx` to all atoms, same as dists[idx,:] b/c `dist` is
     # symmetric
     dist1d = dists[:,idx]
-    # order by distance, `idx` first with dist=0
+    # order by distance
     idx_lst_sort = np.argsort(dist1d)
     dist1d_sort = dist1d[idx_lst_sort]
     symbols_sort = np.array(symbols)[idx_lst_sort]
@@ -1984,12 +1984,12 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
         only_msk = np.invert(msk)
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
+    # central atom excluded
+    only_msk = only_msk & (idx_lst_sort != np.arange(len(dist1d))[idx])
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
-        ret_idx = idx_lst_sort[only_msk][cut_msk]
+        ret_idx = idx_lst_sort[only_msk][:num]
     else:
-        cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
+        cut_msk = dist1d_sort < cutoff
         ret_idx = idx_lst_sort[cut_msk & only_msk]
     if not sort:
         orig_idx = np.arange(len(dist1d))
-- 
2.43.0


From 6fd3b0f9e080f2b0304597f82431d2fea83c5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 16/94] fix: grid_in_cell(even=True) gives even numbers also
 where minpoints applies

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 4631bf8..95f2aaf 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -368,12 +368,12 @@ def grid_in_cell(cell, h=None, size=None, minpoints=1, even=False, fullout=False
     norms = np.sqrt((cell**2.0).sum(axis=1))
     if size is None:
         size = np.round(norms / spacing)
-        if even:
-            size += (size % 2.0)
         size = size.astype(int)
         mask = size < minpoints
         if mask.any():
             size[mask] = minpoints
+        if even:
+            size += (size % 2)
         # only possible if minpoints=0
         if (size == 0).any():
             raise Exception("at least one point count is zero, decrease `spacing`, "
-- 
2.43.0


From 175b0c999ab22a1d9b638c10d109843e42ff4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 17/94] fix: coord_trans3d with negative timeaxis

---
 src/pwtools/crys.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 95f2aaf..fe15605 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1002,10 +1002,7 @@ def coord_trans3d(coords, old=None, new=None, copy=True, axis=-1, timeaxis=0):
                                axis=axis,
                                copy=copy))
     ret = np.array(ret)
-    if timeaxis != 0:
-        return np.rollaxis(ret, 0, start=timeaxis+1)
-    else:
-        return ret
+    return np.moveaxis(ret, 0, timeaxis)
 
 
 def min_image_convention(sij, copy=False):
-- 
2.43.0


From f5eaceef6d76b6ff05e33b52b049477917e129fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 18/94] fix: coord_trans does not truncate the result for
 integer coords

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index fe15605..7136134 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -930,7 +930,9 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
                       "`old` and `new` must be square")
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
-    _coords = coords.copy() if copy else coords
+    # result is float also for integer input
+    _coords = np.array(coords, dtype=np.result_type(coords, float)) if copy \
+        else coords
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From dace123e5f4c010b6b74530dd9a19366d0c4858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 19/94] fix: pbc_wrap_coords maps tiny negative coords into
 [0,1)

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 7136134..6bff6e7 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -807,7 +807,9 @@ def pbc_wrap_coords(coords_frac, copy=True, mask=[True]*3, xyz_axis=-1):
             sl = [slice(None)]*ndim
             sl[xyz_axis] = i
             tsl = tuple(sl)
-            tmp[tsl] = np.remainder(tmp[tsl], 1.0)
+            rem = np.remainder(tmp[tsl], 1.0)
+            # the remainder of tiny negative numbers is rounded to 1.0
+            tmp[tsl] = np.where(rem >= 1.0, 0.0, rem)
     return tmp
 
 
-- 
2.43.0


From 6c2fc2180011b36cd7b7725d1aea6fcc40b42ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 20/94] fix: readtxt keeps dimensions of length one

---
 src/pwtools/arrayio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..e1d6151 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -193,11 +193,16 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # loadtxt() removes dimensions of length one
+        if ndim > 2:
+            kwargs.setdefault('ndmin', 2)
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
     if ndim <= 2:
         arr = read_arr
+        if 1 in shape and arr.shape == tuple(nn for nn in shape if nn != 1):
+            arr = arr.reshape(shape)
     # 3d
     else:
         arr = arr2d_to_3d(read_arr, shape=shape, axis=axis)
-- 
2.43.0


From a1ab3316e5a409b7408a1fc6d8c80429672d96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 21/94] fix: readtxt uses header_maxlines and header_comment
 for the header

---
 src/pwtools/arrayio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e1d6151..c2bdb75 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -166,7 +166,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
     verbose("[readtxt]    axis: %s" %str(axis))
     verbose("[readtxt]    shape: %s" %str(shape))
     if shape is None or axis is None:
-        c = _read_header_config(fh)
+        c = _read_header_config(fh, header_maxlines=header_maxlines,
+                                header_comment=header_comment)
         sec = 'array'
         if shape is None:
             shape = common.str2tup(c.get(sec, 'shape'))
-- 
2.43.0


From 60fc47b6d3b0bcfd2ae2a079f727ffed42f914e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 22/94] fix: write_cif writes the symmetry operations as a loop
 (PyCifRW 4 writes a list literal)

---
 src/pwtools/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index ccd36a7..3da774c 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -125,8 +125,8 @@ def write_cif(filename, struct):
     block['_cell_angle_gamma'] = frepr(struct.cryst_const[5], ffmt=ffmt)
     block['_symmetry_space_group_name_H-M'] = 'P 1'
     block['_symmetry_Int_Tables_number'] = 1
-    # assigning a list produces a "loop_"
-    block['_symmetry_equiv_pos_as_xyz'] = ['x,y,z']
+    # produces a "loop_"
+    block.AddCifItem([[['_symmetry_equiv_pos_as_xyz']], [[['x,y,z']]]])
 
     # atoms
     #
-- 
2.43.0


From fa3e2e4cd0a786dc97b28d0a8ca2f838a10c7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 23/94] fix: CifFile finds the requested data block

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..b1c8e3a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -385,7 +385,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From f5847a141a0694b2088a9826e2dfc8f92ed84051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 24/94] fix: PDBFile accepts files without CRYST1 record as
 documented

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b1c8e3a..78e535d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -532,6 +532,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From 8915e12f337475f406d482ea2125a4fa7b4406ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 25/94] fix: angle() does not depend on the memory alignment of
 its arguments

---
 src/pwtools/crys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 6bff6e7..b61a895 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -30,8 +30,10 @@ def angle(x,y):
     x,y : 1d numpy arrays
     """
     # Numpy's `acos' is "acrcos", but we take the one from math for scalar
-    # args.
-    return acos(np.dot(x,y)/norm(x)/norm(y))*180.0/pi
+    # args. No np.dot() since its result can depend on the memory alignment of
+    # x and y (BLAS), i.e. equal cells would have slightly different angles.
+    _norm = lambda v: np.sqrt((v*v).sum())
+    return acos((x*y).sum()/_norm(x)/_norm(y))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0


From c96b6d82d52ce5b06f584d68a3d41ebadc5ae97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 26/94] fix: parsers do not change the default units shared
 with other parser classes

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 78e535d..55187fb 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -878,7 +878,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
         # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
-- 
2.43.0


From a69326abb9d14c5cb74b69cde8f9dd45e82ddc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 27/94] fix: PWscf MD parsers return None for forces, ekin,
 econst and temperature not in the file

---
 src/pwtools/parse.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 55187fb..66bcf7f 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1127,7 +1127,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
@@ -1156,18 +1156,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
-- 
2.43.0


From e1e9cf8b884193bf7e67fec59a101760a4314cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 28/94] fix: PwMDOutputFile does not take the starting
 temperature as that of the first step

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 66bcf7f..90b611f 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1107,7 +1107,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
-        return arr1d_from_txt(com.backtick(cmd))
+        return self._match_nstep(arr1d_from_txt(com.backtick(cmd)))
 
     def get_timestep(self):
         """Time step [tryd]."""
-- 
2.43.0


From 02a415222ab16673a4576fbb34ff1c832c3dd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 29/94] fix: PwMDOutputFile reads coords from ATOMIC_POSITIONS
 without a unit

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 90b611f..f154a41 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1030,7 +1030,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_coords(self):
         """Cartesian coords [Bohr]. If coords_unit='alat', then [Bohr] if
         self.alat in [Bohr]."""
-        if self.check_set_attr_lst(['_coords', 'coords_unit', 'alat']):
+        if self.check_set_attr_lst(['_coords', 'alat']):
+            self.try_set_attr('coords_unit')
             if self.coords_unit in ['bohr', None]:
                 return self._coords
             elif self.coords_unit == 'alat':
-- 
2.43.0


From 514adf933c8d911c961282d92d4478d8810f4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 30/94] fix: CPMD, CP2K and LAMMPS parsers do not change the
 default units shared with other parser classes

---
 src/pwtools/parse.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index f154a41..1018fc8 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1477,10 +1477,10 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
-        self.default_units.update(\
-            {'time': constants.thart / constants.fs, # thart -> fs
-             'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
-            })
+        self.default_units = dict(self.default_units,
+            time=constants.thart / constants.fs, # thart -> fs
+            velocity=Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
+            )
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
             'cell',
@@ -1832,8 +1832,10 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
-        self.default_units['stress'] = 1e-4 # bar -> GPa
-        self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
+        self.default_units = dict(self.default_units,
+            stress=1e-4, # bar -> GPa
+            velocity=Bohr/thart / Ang*fs, # Bohr/thart -> Ang/fs
+            )
         TrajectoryFileParser.__init__(self, *args, **kwds)
         self.attr_lst = [\
             'cell',
@@ -2220,9 +2222,11 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
-        self.default_units['stress'] = 1e-4     # bar -> GPa
-        self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
-        self.default_units['time'] = ps/fs      # ps -> fs
+        self.default_units = dict(self.default_units,
+            stress=1e-4,    # bar -> GPa
+            velocity=fs/ps, # Ang/ps -> Ang/fs
+            time=ps/fs,     # ps -> fs
+            )
         TrajectoryFileParser.__init__(self, filename, **kwds)
         self.attr_lst = [\
             'cell',
-- 
2.43.0


From 8b1203bed59945897a626c3d25551523f4877424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 31/94] fix: CpmdMDOutputFile reads an ENERGIES file with only
 one step

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 1018fc8..fbe8f23 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1534,7 +1534,8 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            # 2d also for only one step
+            arr = np.loadtxt(fn, ndmin=2)
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
-- 
2.43.0


From 6beaf7b62dd6c1d28b55c12078d08881ee313c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 32/94] fix: CpmdMDOutputFile ekin is the kinetic energy of the
 ions, not ECLASSIC

---
 src/pwtools/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index fbe8f23..8f05f1c 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1600,8 +1600,10 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             return None
 
     def get_ekin(self):
+        """Kinetic energy of the ions [Ha]. ECLASSIC is the total energy EKS plus
+        that."""
         if self.check_set_attr('_energies_file'):
-            return self._energies_file['eclassic']
+            return self._energies_file['eclassic'] - self._energies_file['eks']
         else:
             return None
 
-- 
2.43.0


From 8cef096eee7da0aea88e9229a0035803c5a259ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 33/94] fix: CP2K MD parsers read cell, ener and stress files
 with only one step

---
 src/pwtools/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 8f05f1c..2b05e02 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1889,19 +1889,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.loadtxt(self._cell_file, ndmin=2)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.loadtxt(self._ener_file, ndmin=2)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.loadtxt(self._stress_file, ndmin=2)
         else:
             return None
 
-- 
2.43.0


From de6d21098866395c2003267d11cc91675ebe041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 34/94] fix: Cp2kSCFOutputFile returns None for a stress tensor
 not in the file

---
 src/pwtools/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 2b05e02..f19908b 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1826,8 +1826,11 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
-        arr = np.array([x.split() for x in ret.splitlines()])
-        return arr[:,1:].astype(float)
+        if ret != '':
+            arr = np.array([x.split() for x in ret.splitlines()])
+            return arr[:,1:].astype(float)
+        else:
+            return None
 
 
 class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
-- 
2.43.0


From a040d8fd789b7fb9d290682aa5912ee7df71833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 35/94] fix: Cp2kRelaxOutputFile forces belong to the same
 steps as coords and etot

---
 src/pwtools/parse.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index f19908b..0f49b68 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2030,6 +2030,17 @@ class Cp2kRelaxOutputFile(Cp2kMDOutputFile):
         else:
             return None
 
+    def _get_forces_from_outfile(self):
+        # The output has also the forces of the start structure (step 0), which
+        # is not in _pos_file. Drop them in order to have coords, etot and
+        # forces of the same steps.
+        forces = Cp2kMDOutputFile._get_forces_from_outfile(self)
+        if forces is not None and self.check_set_attr('coords') and \
+                forces.shape[0] == self.coords.shape[0] + 1:
+            return forces[1:,...]
+        else:
+            return forces
+
     def get_cell(self):
         # For cell_opt, cp2k does a final scf calc after the cell optimization.
         # That creates an additional time step in _pos_file, but NOT in
-- 
2.43.0


From f52d866ae1a6ae2b9888591c155f3dc3c5b51e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 36/94] fix: LammpsTextMDOutputFile reads the cell of an
 orthogonal box (bounds without tilt factors)

---
 src/pwtools/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 0f49b68..4b2f82b 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2467,7 +2467,10 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             nstep = nstep_from_txt(com.backtick(cmd))
             cmd = r"grep -A3 'ITEM: BOX BOUNDS' %s | \
                     egrep -ve '--|ITEM'" %self.dumpfilename
-            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,3))
+            arr = np.fromstring(com.backtick(cmd), sep=' ').reshape((nstep,3,-1))
+            # orthogonal box: only bounds, no tilt factors
+            if arr.shape[2] == 2:
+                arr = np.concatenate((arr, np.zeros((nstep,3,1))), axis=2)
             cell = np.zeros_like(arr)
             for ii in range(nstep):
                 xlo_bound = arr[ii,0,0]
-- 
2.43.0


From c5fec67627b12d39416ae56e71d2de30b73eb42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 37/94] fix: LammpsTextMDOutputFile returns None for thermo
 quantities if the log has no thermo output

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 4b2f82b..33cad6d 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2311,6 +2311,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
+            if arr is None:
+                return None
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
         else:
             return None
-- 
2.43.0


From 3a84f86cbf5cbf0c3ac26a425fdb8cec6e17b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 38/94] fix: LammpsTextMDOutputFile returns None for symbols if
 there is no type mapping

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 33cad6d..755673e 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2454,6 +2454,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
                            's/.*ment (.*)/\1/'" %self.filename
                    revorder = dict((ii+1,sy) for ii,sy in \
                               enumerate(com.backtick(cmd).split()))
+                   if len(revorder) == 0:
+                       return None
                 else:
                     # {'a':1,'b':2} -> {1:'a',2:'b'}
                     revorder = dict((v,k) for k,v in self.order.items())
-- 
2.43.0


From 70a39c0407cdc89428ec149057cb7471c0849394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 39/94] fix: calling get_struct()/get_traj() of a parser again
 returns data in the same units

The second call set the raw parsed data in the container to which the units had
already been applied (which is the one returned by the first call).
---
 src/pwtools/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 755673e..bbb64c1 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -292,6 +292,10 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # Each call returns a new container. We must not set (raw) data in one
+        # to which units have already been applied.
+        if self.cont.units_applied:
+            self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
             setattr(self.cont, attr_name, getattr(self, attr_name))
         if auto_calc:
-- 
2.43.0


From fe3f9fc8f43efcf9b3bc28e3c440607d27587a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 40/94] fix: cut-cpmd.sh cuts at the first step >= <step>

Steps are compared as numbers: files which don't contain <step> (print interval
> 1) were not cut or were cut at a step which has the digits of <step> in it.
TRAJEC.xyz lost its last line if <step> was not found.
---
 bin/cut-cpmd.sh | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/bin/cut-cpmd.sh b/bin/cut-cpmd.sh
index c3ac7ac..906e381 100755
--- a/bin/cut-cpmd.sh
+++ b/bin/cut-cpmd.sh
@@ -2,7 +2,6 @@
 
 prog=$(basename $0)
 simulate=false
-sed_opts="-r -e"
 inplace=true
 bakname=bak
 
@@ -28,7 +27,7 @@ $prog [-hs] <dir> <step>
 options:
 --------
 -s : simulate
---not-inplace : don't use ``sed -i.$bakname ...``, use if YKWYAD
+--not-inplace : print result, don't change files, use if YKWYAD
 
 example
 -------
@@ -83,29 +82,28 @@ dr=$1
 [ -d "$dr" ] || err "not a dir: $dr"
 step=$2
 
+# Print all lines before the first one of a step >= $step. The files need not
+# contain <step> itself (print interval > 1).
 while read conf; do
     fn=$(echo "$conf" | awk -F '@@' '{print $1}')
-    sedstr=$(echo "$conf" | awk -F '@@' '{print $2}')
-    _bakname=$(echo "$conf" | awk -F '@@' '{print $3}')
-    [ -n "$_bakname" ] && bakname=$_bakname
+    awkstr=$(echo "$conf" | awk -F '@@' '{print $2}')
     if $inplace; then
-        cmd="sed -i.$bakname $sed_opts '$sedstr' $fn"
+        cmd="cp -p $fn $fn.$bakname && awk -v step=$step '$awkstr' $fn.$bakname > $fn"
     else
-        cmd="sed $sed_opts '$sedstr' $fn"
+        cmd="awk -v step=$step '$awkstr' $fn"
     fi
     if [ -f $fn ]; then
         echo ">> $fn <<"
         echo "  $cmd"
-        $simulate || eval $cmd
+        $simulate || eval "$cmd"
     else
         msg "not found: $fn"
     fi
 done << EOF
-$dr/CELL@@/.*CELL PARAMETERS.*Step.*$step.*/,$ d
-$dr/ENERGIES@@/^\\\s+$step\\\s.*/,$ d
-$dr/STRESS@@/.*TOTAL STRESS.*Step.*$step.*/,$ d
-$dr/TRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/FTRAJECTORY@@/^\\\s+$step\\\s.*/,$ d
-$dr/TRAJEC.xyz@@/^\\\s+STEP:\\\s+$step.*/,$ d
-$dr/TRAJEC.xyz@@$,$ d@@bak2
+$dr/CELL@@/CELL PARAMETERS.*Step:/ && \$NF+0 >= step {exit} {print}
+$dr/ENERGIES@@\$1 ~ /^[0-9]+\$/ && \$1+0 >= step {exit} {print}
+$dr/STRESS@@/TOTAL STRESS.*Step:/ && \$NF+0 >= step {exit} {print}
+$dr/TRAJECTORY@@\$1 ~ /^[0-9]+\$/ && \$1+0 >= step {exit} {print}
+$dr/FTRAJECTORY@@\$1 ~ /^[0-9]+\$/ && \$1+0 >= step {exit} {print}
+$dr/TRAJEC.xyz@@\$1 == "STEP:" && \$2+0 >= step {cut=1; exit} NR > 1 {print last} {last=\$0} END {if (NR > 0 && !cut) print last}
 EOF
-- 
2.43.0


From 09ea2402929a5b59d9f33b8ba5535f8190bd0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 41/94] fix: cut-cp2k.sh cuts at the first step >= <step>

Files which don't contain <step> (print interval > 1) were not cut. The natoms
line of the first removed step was kept if there is no PROJECT-pos-1.xyz.
---
 bin/cut-cp2k.sh | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/bin/cut-cp2k.sh b/bin/cut-cp2k.sh
index bd0f768..732695d 100755
--- a/bin/cut-cp2k.sh
+++ b/bin/cut-cp2k.sh
@@ -109,25 +109,28 @@ fi
 echo "dir   =   $dr"
 echo "step  =   $step_to_cut"
 
+# Print all lines before the first one of a step >= $step_to_cut. The files need
+# not contain that step itself (print interval > 1).
 for fn in $file_cell $file_ener $file_stress; do
     if [ -f $fn ]; then
-        cmd="sed -i.$bakname -re '/^\s+$step_to_cut\s+/,\$d' $fn"
+        cmd="cp -p $fn $fn.$bakname && \
+             awk -v step=$step_to_cut '\$1 ~ /^[0-9]+\$/ && \$1+0 >= step {exit} {print}' \
+             $fn.$bakname > $fn"
         echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
+        $simulate && echo "    $cmd" || eval "$cmd"
     fi
 done
 
-natoms=$(head -n1 $file_pos | tr -d ' ')
 for fn in $file_frc $file_pos $file_vel; do
     if [ -f $fn ]; then
-        # Cut file, then delete last line, but only if it really contains only
-        # one integer = $natoms.
-        cmd="sed -i.$bakname -re '/i =\s+$step_to_cut,\s+/,\$d' $fn; \
-             if tail -n1 $fn | egrep -q '[ ]+$natoms[ ]*\$'; then \
-                 sed -i -re '\$d' $fn; \
-             fi"
+        # The line before "i = <step>, ..." contains natoms and belongs to
+        # that step.
+        cmd="cp -p $fn $fn.$bakname && \
+             awk -v step=$step_to_cut \
+             '\$1 == \"i\" && \$2 == \"=\" && \$3+0 >= step {cut=1; exit} \
+             NR > 1 {print last} {last=\$0} END {if (NR > 0 && !cut) print last}' \
+             $fn.$bakname > $fn"
         echo $fn
-        $simulate && echo "    $cmd" || eval $cmd
+        $simulate && echo "    $cmd" || eval "$cmd"
     fi
 done
-
-- 
2.43.0


From 39c6c13b8ff5d610aac7e7049db5f89946199911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 42/94] fix: sliceput indexes with a tuple (numpy rejects a
 list of slices)

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..291bee7 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -568,11 +568,12 @@ def sliceput(a, b, sl, axis=None):
     """
     if axis is None:
         # silce(...) or (slice(...), slice(...), ...)
-        tmp = sl
+        tmp = tuple(sl) if isinstance(sl, list) else sl
     else:
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
+        tmp = tuple(tmp)
     a[tmp] = b
     return a
 
-- 
2.43.0


From 89dd332bf7642e72119c8ff4877f48ea12256f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 43/94] fix: num.sum with negative axes in a tuple or with
 keepdims

---
 src/pwtools/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 291bee7..9cb665b 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -698,7 +698,7 @@ def sum(arr, axis=None, keepdims=False, **kwds):
         if len(tosum) > 0:
             # Choose axis to sum over, remove from list w/ remaining axes.
             axis = tosum.pop(0)
-            _arr = arr.sum(axis=axis)
+            _arr = arr.sum(axis=axis, **kwds)
             # arr has one dim less now. Rename remaining axes accordingly.
             _tosum = [xx - 1 if xx > axis else xx for xx in tosum]
             return _sum(_arr, _tosum)
@@ -720,6 +720,7 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             tosum = list(axis)
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
+        tosum = [xx + arr.ndim if xx < 0 else xx for xx in tosum]
         if keepdims:
             alldims = range(arr.ndim)
             tosum = [xx for xx in alldims if xx not in tosum]
-- 
2.43.0


From 3d13005b7a4cc8df5e49812d5b239ce864f1abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 44/94] fix: order_similar honours order for all points and
 repeat > 1

---
 src/pwtools/num.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 9cb665b..00ae058 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1716,11 +1716,8 @@ def order_similar(arr, repeat=1, order=2):
     """
     assert 0 <= order <= 2, "order must be 0,1,2"
     assert repeat >= 1, "repeat must be >= 1"
-    _o_zero = False
     _o_one = False
     _o_two = False
-    if order >= 0:
-        _o_zero = True
     if order >= 1:
         _o_one = True
     if order == 2:
@@ -1731,13 +1728,13 @@ def order_similar(arr, repeat=1, order=2):
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if ii == 0 or not _o_one:
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif ii == 1 or not _o_two:
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
-                elif (ii >= 2) and _o_two:
+                else:
                     # > 2 rows: quadradic extrapolation
                     #
                     # Calling polyfit is pretty slow and could be
@@ -1751,7 +1748,9 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(
+            order_similar(arr, order=order), repeat=repeat - 1, order=order
+        )
     return arr2
 
 
-- 
2.43.0


From 710af9332b471763eb1da3cd66a49cc187bcf49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 45/94] fix: Data2D.update replaces all forms of the data

---
 src/pwtools/mpl.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 506f12a..576da0a 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -491,6 +491,17 @@ class Data2D:
         for key,val in kwds.items():
             assert key in self.attr_lst, ("'%s' not allowed" %key)
             setattr(self, key, val)
+        # Drop all forms which hold the old data, _update() makes them anew.
+        xy_forms = [('x','y'), ('X','Y'), ('xx','yy'), ('XY',)]
+        for form in xy_forms:
+            if any(key in kwds for key in form):
+                for other in xy_forms:
+                    if other != form:
+                        for key in other:
+                            setattr(self, key, None)
+                break
+        if 'zz' in kwds and 'Z' not in kwds:
+            self.Z = None
         self._update()
 
     def copy(self):
-- 
2.43.0


From 53dc3ef0f1df60e19e490a3ed2566aed8c9988c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 46/94] fix: velocity_traj does not truncate velocities for
 integer coords

---
 src/pwtools/crys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b61a895..fb00cea 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -708,12 +708,11 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # course. Also, one *could* create 3*natoms Spline objects thru coords
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
-    if endpoints:
-        vv = np.empty_like(arr)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
     if endpoints:
+        vv = np.empty(arr.shape, dtype=tmp.dtype)
         vv[1:-1,...] = tmp
         vv[0,...] = tmp[0,...]
         vv[-1,...] = tmp[-1,...]
-- 
2.43.0


From 214c83e35d8ae5dd213ba932e5c2f0809677dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 47/94] fix: fft_1d_loop with negative axis other than -1

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..2ee78d7 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis = arr.ndim + axis
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From ee8c5f667c68e4cae64f2ca7df4203cc0bba446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 48/94] fix: mirror works along the given axis

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 2ee78d7..e7bb9a1 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    return np.concatenate((num.slicetake(arr, slice(None, None, -1), axis=axis),
+                           num.slicetake(arr, slice(1, None), axis=axis)),
+                          axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 8b35c6c901f0536cb4f17983a0894dff278defa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 49/94] fix: find_peaks compares the peak and not its left
 neighbour to ymin

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index e7bb9a1..bfa4bc2 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -565,7 +565,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] > ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From 8c7670fa5968c4caec5908a4c14e03155fe03ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 50/94] fix: find_peaks refines peaks close to the start of the
 data

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index bfa4bc2..d96ae8e 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -571,7 +571,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From 916a1ddfdcdc74f73fc5ad6adc2187155e055ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 51/94] fix: smooth mirrors repeatedly instead of adding zeros
 for kernels longer than the data

---
 src/pwtools/signal.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index d96ae8e..f6b866d 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -777,13 +777,10 @@ def smooth(data, kern, axis=0, edge='m', norm=True):
     # edge = 'm'
     # ----------
     #
-    # Add mirror of the signal left and right to handle edge effects, up to
-    # signal length N on both ends. If M > N then fill padding regions up with
-    # zeros until we have sig = [(M,), (N,), (M,)]. fftconvolve(..., 'valid')
-    # always returns only the signal length where sig and kern overlap
-    # completely. Therefore, data at the far end doesn't influence the edge and
-    # we can safely put zeros (or anything else) there. The returned length is
-    # always N+M+1.
+    # Add mirror of the signal left and right to handle edge effects such that
+    # we have sig = [(M,), (N,), (M,)]. If M >= N then mirror repeatedly.
+    # fftconvolve(..., 'valid') always returns only the signal length where sig
+    # and kern overlap completely. The returned length is always N+M+1.
     #
     # example (M < N), add M=3 data parts left and right
     # npad   = 3
@@ -792,9 +789,7 @@ def smooth(data, kern, axis=0, edge='m', norm=True):
     # dright =                             [5,4,3]
     # sig    =           [4,3,2,1,2,3,4,5,6,5,4,3]
     # If M = 8 > N, then:
-    # dleft  =       [6,5,4,3,2]
-    # dright =                             [5,4,3,2,1]
-    # sig    = [0,0,0,6,5,4,3,2,1,2,3,4,5,6,5,4,3,2,1,0,0,0]
+    # sig    = [3,4,5,6,5,4,3,2,1,2,3,4,5,6,5,4,3,2,1,2,3,4]
     #
     # edge = 'c'
     # ----------
@@ -803,16 +798,9 @@ def smooth(data, kern, axis=0, edge='m', norm=True):
     N = data.shape[axis]
     M = kern.shape[axis]
     if edge == 'm':
-        npad = min(M,N)
-        sleft = slice(npad,0,-1)
-        sright = slice(-2,-(npad+2),-1)
-        dleft = num.slicetake(data, sl=sleft, axis=axis)
-        dright = num.slicetake(data, sl=sright, axis=axis)
-        assert dleft.shape == dright.shape
-        K = dleft.shape[axis]
-        if K < M:
-            dleft  = pad_zeros(dleft,  axis=axis, where='start', nadd=M-K)
-            dright = pad_zeros(dright, axis=axis, where='end',   nadd=M-K)
+        npad = [(0,0)]*data.ndim
+        npad[axis] = (M,M)
+        sig = np.pad(data, npad, mode='reflect')
     elif edge == 'c':
         sl = [slice(None)]*data.ndim
         sl[axis] = None
@@ -824,9 +812,9 @@ def smooth(data, kern, axis=0, edge='m', norm=True):
         if data.ndim == 1 and dleft.ndim == 2 and dleft.shape[1] == 1:
             dleft = dleft[:,0]
             dright = dright[:,0]
+        sig = np.concatenate((dleft, data, dright), axis=axis)
     else:
         raise Exception("unknown value for edge")
-    sig = np.concatenate((dleft, data, dright), axis=axis)
     kk = kern/float(kern.sum()) if norm else kern
     ret = fftconvolve(sig, kk, 'valid')
     assert ret.shape[axis] == N+M+1, "unexpected convolve result shape"
-- 
2.43.0


From 514b558ea3294590659bcff071eb9e3f2035cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 52/94] fix: crys.smooth does not truncate the result for
 integer data

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index fb00cea..d44926e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3207,11 +3207,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape)
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape)
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From 9ef44990bab959fa0d52439c65925d56025fb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 53/94] fix: calculator keywords do not leak into the class
 defaults

---
 src/pwtools/calculators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..bdc0658 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -35,6 +35,7 @@ dropped.
 'path/to/dir'
 """
 
+import copy
 import os
 import shutil
 
@@ -94,16 +95,16 @@ class CalculatorBase:
 
     Provides methods to automatically dispatch constructor input keywords."""
     def init_params_from_input(self, kwds):
-        """Set ``self.parameters = self.default_parameters`` and update with input
-        keyword arguments `kwds`. For each key in self.parameters, set
-        ``self.<key> = <value>``."""
+        """Set ``self.parameters`` to a copy of ``self.default_parameters`` and
+        update with input keyword arguments `kwds`. For each key in
+        self.parameters, set ``self.<key> = <value>``."""
         allowed_keys = list(self.default_parameters.keys())
         input_keys = list(kwds.keys())
         for k in input_keys:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
-        self.parameters = self.default_parameters
+        self.parameters = copy.deepcopy(self.default_parameters)
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
-- 
2.43.0


From 97d57b0c8da9dfa482491673f7e6aca30dfe3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 54/94] fix: Pwscf calculator does not use the pseudopotential
 of Ca for C

---
 src/pwtools/calculators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index bdc0658..cd7fac4 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -37,6 +37,7 @@ dropped.
 
 import copy
 import os
+import re
 import shutil
 
 from pwtools import common, pwscf, crys, io, constants
@@ -295,7 +296,7 @@ K_POINTS automatic
             pseudos = []
             for sym in struct.symbols_unique:
                 for ppi in self.pp:
-                    if ppi.startswith(sym):
+                    if re.match(sym + r'(?![a-z])', ppi):
                         pseudos.append(ppi)
                         break
         assert len(pseudos) == struct.ntypat
-- 
2.43.0


From ce0cdf74021384a06411a3e8f211a6513b5f8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 55/94] fix: calculators use their default label and command

---
 src/pwtools/calculators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index cd7fac4..276a7bf 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -109,6 +109,15 @@ class CalculatorBase:
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
+    def init_ase(self, kwds):
+        """Call ASE's constructor with input keyword arguments `kwds`. ASE knows
+        nothing about our default `label` and `command` and doesn't keep those
+        keywords in ``self.parameters``."""
+        params = self.parameters
+        FileIOCalculator.__init__(self, **dict(kwds, label=params['label'],
+                                               command=params['command']))
+        self.parameters.update(params)
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -261,7 +270,7 @@ K_POINTS automatic
             :func:`~pwtools.common.backup`
         """
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        self.init_ase(kwds)
 
         # ASE keywords
         if self.smearing is not None:
@@ -388,7 +397,7 @@ run 0
         """
 
         self.init_params_from_input(kwds)
-        FileIOCalculator.__init__(self, **kwds)
+        self.init_ase(kwds)
 
         self.infile_templ_keys = list(self.parameters.keys()) + \
             ['prefix', 'dumpfile', 'structfile']
-- 
2.43.0


From 11b5dc48cf02a5cdf5214ffe5ce2849c514cc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 56/94] fix: changing calculator parameters triggers a new
 calculation with the new input

---
 src/pwtools/calculators.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 276a7bf..a7617c2 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -118,6 +118,16 @@ class CalculatorBase:
                                                command=params['command']))
         self.parameters.update(params)
 
+    def set(self, **kwds):
+        """Change parameters, see ASE's ``Calculator.set``. Results of an older
+        calculation are dropped if anything changed."""
+        changed = super().set(**kwds)
+        if changed:
+            self.reset()
+            for key, val in changed.items():
+                setattr(self, key, val)
+        return changed
+
     def fill_infile_templ(self):
         """Replace all placeholders in ``self.infile_templ``. Use all keys in
         ``self.infile_templ_keys`` as possible placeholders."""
@@ -125,7 +135,7 @@ class CalculatorBase:
                                         in self.infile_templ_keys))
 
 
-class Pwscf(FileIOCalculator, CalculatorBase):
+class Pwscf(CalculatorBase, FileIOCalculator):
     """Pwscf (pw.x) calculator.
 
     ATM, we don't write a ``ase.calculators.calculator.Parameters`` class
@@ -278,7 +288,7 @@ K_POINTS automatic
         if self.xc is not None:
             raise Exception("please use the `pp` keyword instead of `xc`")
 
-        self.ecutrho = 4.0*self.ecutwfc if self.ecutrho is None else self.ecutrho
+        self.set_ecutrho()
 
         # hard-coded <label>.(in|out) == <directory>/<prefix>.(in|out)
         self.infile = os.path.join(self.directory, self.prefix + '.in')
@@ -292,6 +302,16 @@ K_POINTS automatic
         assert self.outdir is not None, "set outdir"
         assert self.kpts is not None, "set kpts"
 
+    def set_ecutrho(self):
+        if self.parameters['ecutrho'] is None:
+            self.ecutrho = 4.0*self.ecutwfc
+
+    def set(self, **kwds):
+        changed = super().set(**kwds)
+        if 'ecutwfc' in changed or 'ecutrho' in changed:
+            self.set_ecutrho()
+        return changed
+
     def write_input(self, atoms, properties=None, system_changes=None):
         FileIOCalculator.write_input(self, atoms, properties,
                                      system_changes)
@@ -332,7 +352,7 @@ K_POINTS automatic
         self.results['stress'] = stress_pwtools2ase(st.stress)
 
 
-class Lammps(FileIOCalculator, CalculatorBase):
+class Lammps(CalculatorBase, FileIOCalculator):
     """
     LAMMPS calculator.
 
-- 
2.43.0


From 3f8acb4085e6073749528c98499c3d73b4b88ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 57/94] fix: Lammps input file names are relative to the
 calculation directory

---
 src/pwtools/calculators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index a7617c2..eedf3ee 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -394,14 +394,14 @@ boundary p p p
 atom_style atomic
 
 # lmp.struct written by pwtools
-read_data {structfile}
+read_data {prefix}.struct
 
 # interactions
 pair_style {pair_style}
 pair_coeff {pair_coeff}
 
 # IO
-dump dump_txt all custom 1 {dumpfile} id type xu yu zu fx fy fz
+dump dump_txt all custom 1 {prefix}.out.dump id type xu yu zu fx fy fz
 dump_modify dump_txt sort id
 
 thermo_style custom step temp vol cella cellb cellc cellalpha cellbeta cellgamma &
-- 
2.43.0


From 595d4e734316bd21f69da599368280d34bb85b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 58/94] fix: k-point line of pw.x input for arrays and tuples;
 no extra shifts in the Pwscf calculator

---
 src/pwtools/calculators.py | 2 +-
 src/pwtools/pwscf.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index eedf3ee..4b03252 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -240,7 +240,7 @@ CELL_PARAMETERS angstrom
 ATOMIC_POSITIONS crystal
 {atpos}
 K_POINTS automatic
-{kpoints} 0 0 0
+{kpoints}
     """
 
     def __init__(self, **kwds):
diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 5f34640c0dbfa2613db60c7fc8b78c4f2eff1f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 59/94] fix: Lammps calculator reads the dump file of its own
 label

---
 src/pwtools/calculators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 4b03252..46efbf5 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -40,7 +40,7 @@ import os
 import re
 import shutil
 
-from pwtools import common, pwscf, crys, io, constants
+from pwtools import common, pwscf, crys, io, constants, parse
 
 
 # silently fail at immport if ase is missing b/c it is not a dependency, fail
@@ -445,7 +445,10 @@ run 0
     def read_results(self):
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
-        st = io.read_lammps_md_txt(self.outfile)[0]
+        parser = parse.LammpsTextMDOutputFile(self.outfile)
+        parser.dumpfilename = self.dumpfile
+        parser.symbolsfilename = self.structfile + '.symbols'
+        st = parser.get_traj()[0]
         self.results['energy'] = st.etot
         self.results['forces'] = st.forces
         self.results['stress'] = stress_pwtools2ase(st.stress)
-- 
2.43.0


From 634605140ec94890edd50a1148b85f915c90d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 60/94] fix: no partial results of a failed calculation

---
 src/pwtools/calculators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 46efbf5..d991d9a 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -347,9 +347,9 @@ K_POINTS automatic
         self.results = {}
         assert os.path.exists(self.outfile), "%s missing" %self.outfile
         st = io.read_pw_scf(self.outfile)
-        self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results = dict(energy=st.etot,
+                            forces=st.forces,
+                            stress=stress_pwtools2ase(st.stress))
 
 
 class Lammps(CalculatorBase, FileIOCalculator):
@@ -449,6 +449,6 @@ run 0
         parser.dumpfilename = self.dumpfile
         parser.symbolsfilename = self.structfile + '.symbols'
         st = parser.get_traj()[0]
-        self.results['energy'] = st.etot
-        self.results['forces'] = st.forces
-        self.results['stress'] = stress_pwtools2ase(st.stress)
+        self.results = dict(energy=st.etot,
+                            forces=st.forces,
+                            stress=stress_pwtools2ase(st.stress))
-- 
2.43.0


From b2838ec268439a9fb88b1c0e0693917587078732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 61/94] fix: RandomStructure tries again if there is no cell
 with the random angles

---
 src/pwtools/random.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index 66fd687..edc433b 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -113,7 +113,12 @@ class RandomStructure:
         cnt = 1
         while cnt <= self.cell_maxtry:
             cc = _get()
-            vol = volume_cc(cc)
+            try:
+                vol = volume_cc(cc)
+            except ValueError:
+                # no cell with those angles
+                cnt += 1
+                continue
             if not self.vol_range[0] <= vol <= self.vol_range[1]:
                 cc = _get()
                 cnt += 1
-- 
2.43.0


From d2387c278c46d7f5c13e3283fd336748dae828d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 62/94] fix: RandomStructure checks all periodic images for too
 close atoms

---
 src/pwtools/random.py | 53 ++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/pwtools/random.py b/src/pwtools/random.py
index edc433b..9d281ad 100644
--- a/src/pwtools/random.py
+++ b/src/pwtools/random.py
@@ -1,9 +1,8 @@
 from math import acos, pi, sin, cos, sqrt
 import numpy as np
 from numpy.random import uniform
-from pwtools import atomic_data, _flib
+from pwtools import atomic_data
 from pwtools.crys import cc2cell, volume_cc, Structure
-from pwtools.num import fempty
 
 class RandomStructureFail(Exception):
     def __init__(self, msg):
@@ -128,10 +127,12 @@ class RandomStructure:
         raise RandomStructureFail("failed creating random cryst_const")
 
     def _atoms_too_close(self, iatom):
-        """Check if any two atoms are too close, i.e. closer then the sum of
-        their covalent radii, scaled by self.close_scale.
+        """Check if atom `iatom` is too close to any of the atoms before it, i.e.
+        closer then the sum of their covalent radii, scaled by
+        self.close_scale.
 
-        Minimum image distances are used.
+        All periodic images which can be that close are used. The minimum image
+        convention alone is not enough in small or skewed cells.
 
         Parameters
         ----------
@@ -139,37 +140,17 @@ class RandomStructure:
             Index into self.coords_frac, defining the number of atoms currently
             in there (iatom +1).
         """
-        # dist: min image dist correct only up to rmax_smith(), but we check if
-        #   atoms are too close; too big dists are no problem; choose only upper
-        #   triangle from array `dist`
-        natoms_filled = iatom + 1
-        coords_frac = self.coords_frac[:natoms_filled,:]
-        # This part is 10x slower than the fortran version  --------
-        # distvecs_frac: (natoms_filled, natoms_filled, 3)
-        # distvecs:      (natoms_filled, natoms_filled, 3)
-        # dist:          (natoms_filled, natoms_filled)
-        ##distvecs_frac = coords_frac[:,None,:] - coords_frac[None,:,:]
-        ##distvecs_frac = min_image_convention(sij)
-        ##distvecs = np.dot(sij, self.cell)
-        ##dist = np.sqrt((rij**2.0).sum(axis=2))
-        #-----------------------------------------------------------
-        nn = natoms_filled
-        # XXX For maximum speed: dummy1 and dummy2 may be big and are allocated
-        # each time this method is called, which may be *many* times. Either
-        # re-write the fortran code to not require them as input or allocate
-        # them in __init__().
-        distsq,dummy1,dummy2 = fempty((nn,nn)), fempty((nn,nn,3)), \
-                               fempty((nn,nn,3))
-        distsq, dummy1, dummy2 = _flib.distsq_frac(coords_frac,
-                                                   self.cell,
-                                                   1,
-                                                   distsq,
-                                                   dummy1,
-                                                   dummy2)
-        dist = np.sqrt(distsq)
-        # This part is fast
-        dij_min_filled = self.dij_min[:natoms_filled,:natoms_filled]
-        return np.triu(dist < dij_min_filled, k=1).any()
+        if iatom == 0:
+            return False
+        dij_min = self.dij_min[iatom,:iatom]
+        # heights of the cell above the b-c, a-c and a-b planes
+        heights = 1.0 / np.sqrt((np.linalg.inv(self.cell)**2.0).sum(axis=0))
+        nx, ny, nz = (dij_min.max() / heights + 0.5).astype(int)
+        images = np.mgrid[-nx:nx+1, -ny:ny+1, -nz:nz+1].reshape(3,-1).T
+        vecs = self.coords_frac[iatom,:] - self.coords_frac[:iatom,:]
+        vecs = (vecs - np.round(vecs))[:,None,:] + images[None,:,:]
+        distsq = (np.dot(vecs, self.cell)**2.0).sum(axis=2).min(axis=1)
+        return (distsq < dij_min**2.0).any()
 
     def _add_random_atom(self, iatom):
         self.coords_frac[iatom,:] = np.random.rand(3)
-- 
2.43.0


From 13953c393ca4f21a0efbac46c3c27168cf9cb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 63/94] fix: SpecialPointsPath needs no fractional k-points

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..02b2ca9 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, "ks is None"
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From fa9db4d1ce903f59db766da36df8f159864053e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 64/94] fix: read_matdyn_freq doesn't return uninitialized rows
 for an incomplete file

---
 src/pwtools/pwscf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index 4e82793..e98c0fa 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -521,7 +521,9 @@ def read_matdyn_freq(filename):
     # nasty trick: join all lines containing data into one 1d array: " ".join()
     # does "1 2\n3 4" -> "1 2\n 3 4" and split() splits at \n + whitespace.
     items = np.array(' '.join(lines[1:]).split(), dtype=float)
-    for ii in range(len(items) // step):
+    assert len(items) == nks*step, ("%s: expect %i numbers for nbnd=%i, nks=%i, "
+        "found %i" %(filename, nks*step, nbnd, nks, len(items)))
+    for ii in range(nks):
         kpoints[ii,:] = items[ii*step:(ii*step+3)]
         freqs[ii,:] = items[(ii*step+3):(ii*step+step)]
     return kpoints, freqs
-- 
2.43.0


From d7f43f737e1c2d9f320592acad38149afc056a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 65/94] fix: results of smooth, mix and align_cart share no
 data with their input

---
 src/pwtools/crys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d44926e..04f531d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3235,7 +3235,7 @@ def smooth(traj, kern, method=1):
     # non-nstep attrs over
     for attr_name in set.difference(set(traj.attr_lst),
                                     set(traj.attrs_nstep)):
-        setattr(out, attr_name, getattr(traj, attr_name))
+        setattr(out, attr_name, copy.deepcopy(getattr(traj, attr_name)))
     return out
 
 
@@ -3272,13 +3272,13 @@ def mix(st1, st2, alpha):
     cell = rr * st2.cell[None,:,:] + (1.0 - rr) * st1.cell[None,:,:]
     if (st1.forces is not None) and (st2.forces is not None):
         forces = rr * st2.forces[None,:,:] + (1.0 - rr) * st1.forces[None,:,:]
-        return Trajectory(coords=coords, cell=cell, symbols=st1.symbols,
+        return Trajectory(coords=coords, cell=cell, symbols=copy.copy(st1.symbols),
                           forces=forces)
     else:
         # cannot use forces=None here, Structure.__init__ complains that it
         # is None ... this is by design but seems stupid -> change input
         # checking logic there
-        return Trajectory(coords=coords, cell=cell, symbols=st1.symbols)
+        return Trajectory(coords=coords, cell=cell, symbols=copy.copy(st1.symbols))
 
 
 def align_cart(obj, x=None, y=None, vecs=None, indices=None, cart=None,
@@ -3359,7 +3359,7 @@ def align_cart(obj, x=None, y=None, vecs=None, indices=None, cart=None,
     else:
         container = Structure
     obj_new = container(coords_frac=obj.coords_frac.copy(),
-                        symbols=obj.symbols,
+                        symbols=copy.copy(obj.symbols),
                         cell=np.dot(obj.cell, cart.T),
                         )
     return obj_new
-- 
2.43.0


From 7a02151809be46b133b73d577c799c1b0cc05554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 66/94] fix: polyfit of constant data with scale=True doesn't
 return NaN

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 00ae058..2a70c4a 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1365,6 +1365,9 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
         vscale = np.abs(values).max() - vmin
+        # constant data: nothing to scale
+        pscale = np.where(pscale == 0, 1.0, pscale)
+        vscale = 1.0 if vscale == 0 else vscale
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From b9f6a51b82a4a930a54ffee4fbbf90d39374bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 67/94] fix: PolyFit1D accepts points of shape (npoints,1)

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 2a70c4a..5c62c10 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1575,7 +1575,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 238ff765068f02a08844f899e8d7904961ce9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 68/94] fix: Rbf of data which is zero everywhere is zero and
 not NaN

---
 src/pwtools/rbf/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..b8f2bef 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -401,6 +401,10 @@ class Rbf:
             kwds = dict(assume_a="sym")
         return la.solve(Gr, self.values, **kwds)
 
+    def _get_maxw(self):
+        maxw = np.abs(self.w).max() * 1.0
+        return maxw if maxw > 0 else 1.0
+
     # XXX the jit here causes a 3x speed up over numpy but a huge performance
     # regression in test_rbf.py::test_opt_api, not sure why. Basically, the
     # test never finishes. W/o the jit, the jax.numpy predict is 4x slower than
@@ -427,7 +431,7 @@ class Rbf:
             "g_ij must match length of w_j" % (str(G.shape), str(self.w.shape))
         )
         # normalize w
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -543,7 +547,7 @@ class Rbf:
         L, N = points.shape
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
-        maxw = np.abs(self.w).max() * 1.0
+        maxw = self._get_maxw()
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From 03343a40b7cbf7c7512f000e4c27f5499cfe7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 69/94] fix: fit_opt handles the scalar which brute returns for
 one parameter and finish=None

---
 src/pwtools/rbf/hyperopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..3ae38b0 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -238,8 +238,9 @@ def fit_opt(
             xopt = ret.x
         elif method == "brute":
             bounds = opt_kwds.pop("ranges", _bounds)
-            xopt = optimize.brute(
-                fit_err, ranges=bounds, disp=disp, **opt_kwds
+            # scalar if what='p' and finish=None
+            xopt = np.atleast_1d(
+                optimize.brute(fit_err, ranges=bounds, disp=disp, **opt_kwds)
             )
     rbf_kwds_opt = copy.copy(rbf_kwds)
     for idx, symbol in enumerate(what_lst):
-- 
2.43.0


From b22a080460e4133323b564397d8fdc453774f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 70/94] fix: fit_opt doesn't change opt_kwds

---
 src/pwtools/rbf/hyperopt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index 3ae38b0..0ef8c02 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,7 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    opt_kwds = dict(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From 32330d2aacd7a533d744c77381e27fc2da4a951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 71/94] fix: polyfit(scale_vand=True) doesn't divide by the
 norm of a zero column

---
 src/pwtools/num.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 5c62c10..8abc1ff 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1376,6 +1376,7 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
     vand = vander((points - pmin) / pscale, deg)
     if scale_vand:
         sv = np.sqrt((vand * vand).sum(axis=0))
+        sv = np.where(sv == 0, 1.0, sv)
         vv = vand / sv[None, :]
     else:
         vv = vand
-- 
2.43.0


From a212f0aae390132dc7dd80eefb8cfdf2a4fb6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 72/94] fix: vibrational free energy and entropy don't overflow
 at low temperature

---
 src/pwtools/thermo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..b2abd2f 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -13,6 +13,11 @@ def coth(x):
     return 1.0/np.tanh(x)
 
 
+def _log_2sinh(x):
+    """log(2*sinh(x)) without overflow for big `x`."""
+    return x + np.log(-np.expm1(-2.0*x))
+
+
 class HarmonicThermo:
     """Calculate vibrational internal energy (Evib [eV]), free energy (Fvib
     [eV]), entropy (Svib [R,kb]) and isochoric heat capacity (Cv [R,kb]) in the
@@ -218,7 +223,7 @@ class HarmonicThermo:
         h, f, kb, dos = self.h, self.f, self.kb, self.dos
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
-        y = dos * np.log(2.0*np.sinh(arg/2.0))
+        y = dos * _log_2sinh(arg/2.0)
         ret = self._integrate(y,f) * T
         return ret * (kb / eV)
 
@@ -228,7 +233,7 @@ class HarmonicThermo:
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
         y = dos * (0.5/T[:,None] * (h / kb) * f * coth(arg/2.0) -
-                   np.log(2.0*np.sinh(arg/2.0)))
+                   _log_2sinh(arg/2.0))
         ret = self._integrate(y,f)
         return ret
 
-- 
2.43.0


From 1e7b9d220e4319f95eb485f9cdde72f77313245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 73/94] fix: EosFit also refuses data with the minimum beyond
 the largest volume

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..e60e850 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -176,7 +176,7 @@ class EosFit(Fit1D):
         e0 = a*v0**2 + b*v0 + c
         b0 = 2*a*v0
         b1 = 4  # b1 is usually a small number like 4
-        if not self.volume.min() < v0 and v0 < self.volume.max():
+        if not (self.volume.min() < v0 < self.volume.max()):
             raise Exception('The minimum volume of a fitted parabola is not in the input volumes')
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
-- 
2.43.0


From fb79dabeb2a3c86ccb990abc7ad4853171ed3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 74/94] fix: EosFit.bulkmod(V) returns B(V) and not B0 for all
 volumes

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index e60e850..cbef8bb 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From 0fd0647e7e16e8f084acb2f1af5705921a0266e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 75/94] fix: Gibbs raises ValueError and not NameError for an
 unknown case

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index b2abd2f..ae37a2d 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -584,7 +584,7 @@ class Gibbs:
             raise ValueError("Fits for 3d-G not yet supported, only fake-1d where "
                              "case='1d' but axes_flat.shape[1] > 1.")
         else:
-            raise ValueError(f"Unknown {case=}")
+            raise ValueError(f"Unknown {self.case=}")
 
     def _set_not_calc_none(self, ret, prfx='/T/P'):
         """We know that the stuff below was not calculated, so set them to
-- 
2.43.0


From 9ed38ee9dfb1fb0aef2a63e1417ad02c5efb2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 76/94] fix: Gibbs fits G_opt(T) in eV for Cp, Spline refused
 its values in K

---
 src/pwtools/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index ae37a2d..713fe10 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -757,8 +757,8 @@ class Gibbs:
 
             ret['/#opt/T/P/Cp'] = np.empty((self.nT, self.nP), dtype=float)
             for pidx in range(self.nP):
-                fit = self.fitfunc['C'](self.T, ret['/#opt/T/P/G'][:,pidx]*eV/kb)
-                ret['/#opt/T/P/Cp'][:,pidx] = -self.T * fit(self.T, der=2)
+                fit = self.fitfunc['C'](self.T, ret['/#opt/T/P/G'][:,pidx])
+                ret['/#opt/T/P/Cp'][:,pidx] = -self.T * fit(self.T, der=2) * eV/kb
         ret.update(self.ret)
         return ret
 
-- 
2.43.0


From b545bb6a18f53be448208e89b92fcf5d0e01f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 77/94] fix: ExternEOS names the unknown bv_method instead of
 raising NameError

---
 src/pwtools/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index cbef8bb..49800e1 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -395,7 +395,7 @@ class ExternEOS(FlexibleGetters):
             vv = self.ev[:,0]
             return np.array([vv, vv * self.spl_ev(vv, der=2) * fac]).T
         else:
-            raise Exception("unknown bv_method: '%s'" %bv_method)
+            raise Exception("unknown bv_method: '%s'" %self.bv_method)
 
     def get_min(self, behave='new'):
         """
@@ -428,7 +428,7 @@ class ExternEOS(FlexibleGetters):
         elif self.bv_method == 'ev':
             v0 = self.spl_ev.get_min()
         else:
-            raise Exception("unknown bv_method: '%s'" %bv_method)
+            raise Exception("unknown bv_method: '%s'" %self.bv_method)
         p0 = self.spl_pv(v0)
         e0 = self.spl_ev(v0)
         b0 = self.spl_bv(v0)
-- 
2.43.0


From 3b829828650ee868176de33a1b7a9cb4577475eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 78/94] fix: Trajectory with one cell and no coordinates
 derives cell and cryst_const

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 04f531d..1931d7b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2475,7 +2475,7 @@ class Structure(UnitsHandler):
             return cell
         if cell.shape == (3,3):
             return self._extend_array(cell)
-        elif cell.shape == (1,3,3):
+        elif cell.shape == (1,3,3) and self.check_set_attr('nstep'):
             return self._extend_array(cell[0,...])
         else:
             return cell
@@ -2485,7 +2485,7 @@ class Structure(UnitsHandler):
             return cc
         if cc.shape == (6,):
             return self._extend_array(cc)
-        elif cc.shape == (1,6):
+        elif cc.shape == (1,6) and self.check_set_attr('nstep'):
             return self._extend_array(cc[0,...])
         else:
             return cc
-- 
2.43.0


From 77d695fc646059212c815bd3256c20bef2ce1f53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 79/94] fix: rendering a template file keeps its line endings

---
 src/pwtools/batch.py  | 2 +-
 src/pwtools/common.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 325ecd0..aba6dfa 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -219,7 +219,7 @@ class FileTemplate:
                 _keys = self.keys
                 warn_not_found = True
             if self.txt is None:
-                txt = common.file_read(self.filename)
+                txt = common.file_read(self.filename, newline='')
             else:
                 txt = self.txt
             copy_only = False
diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 103a694..942def7 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -342,9 +342,9 @@ def get_filename(fh):
     return name
 
 
-def file_read(fn):
+def file_read(fn, newline=None):
     """Open file with name `fn`, return open(fn).read()."""
-    fd = open(fn, 'r')
+    fd = open(fn, 'r', newline=newline)
     txt = fd.read()
     fd.close()
     return txt
@@ -503,7 +503,7 @@ def file_template_replace(fn, dct, bak='', **kwargs):
 
     This the same as:
     shell$ sed -i.bak -r -e 's/xxx/foo/g -e 's/yyy/bar/g' bla.txt"""
-    txt = template_replace(file_read(fn), dct, **kwargs)
+    txt = template_replace(file_read(fn, newline=''), dct, **kwargs)
     if bak != '':
         shutil.copy(fn, fn + bak)
     file_write(fn, txt)
-- 
2.43.0


From 6dd1bf0f5ed2342ba7326372adafcb7b4ec80a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:32 +0000
Subject: [PATCH 80/94] fix: find_peaks refines peaks of any height

---
 src/pwtools/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index f6b866d..4abf7c3 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -574,7 +574,8 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
             sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
-            spl = num.Spline(xx,-yy,k=k,s=None)
+            spl = num.Spline(xx,-yy,k=k,s=None,
+                             eps=1e-10*max(1.0, np.abs(yy).max()))
             try:
                 root = spl.get_min()
                 pos0.append(root)
-- 
2.43.0


From edd9bd88e0f268e30232f206161592840d96604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:32 +0000
Subject: [PATCH 81/94] fix: roots and extrema of fits on a small x scale are
 accurate

---
 src/pwtools/num.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 8abc1ff..bc8bd79 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -241,6 +241,10 @@ class Fit1D:
         else:
             if xab is None:
                 xab = [self.x[0], self.x[-1]]
+            # brentq()'s default xtol=2e-12 is absolute, the bracket may be small
+            width = abs(xab[1] - xab[0])
+            if 0 < width < 1:
+                kwds.setdefault("xtol", 2e-12 * width)
             xx = optimize.brentq(func, xab[0], xab[1], **kwds)
         return xx
 
-- 
2.43.0


From 072b28ea92d435017022d02460fc4a0a82d20c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 82/94] fix: FIRFilter works with current scipy and for
 band-stop filters

firwin() has no nyq keyword any more, and mode='bandstop' referred to an
undefined variable. Filters with a passband at the Nyquist frequency need
an odd number of taps.
---
 src/pwtools/signal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 4abf7c3..849ab01 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -904,8 +904,9 @@ class FIRFilter:
             and `nyq`.
         ntaps : int
             Length of the filter (number of coefficients, i.e. the filter
-            order + 1).  `ntaps` must be even if a passband includes the
-            Nyquist frequency. Use either `ntaps` or `ripple` + `width` for a
+            order + 1).  `ntaps` must be odd if a passband includes the
+            Nyquist frequency ('highpass', 'bandstop'), an even value is
+            increased by one in that case. Use either `ntaps` or `ripple` + `width` for a
             Kaiser window.
         ripple : float
             Positive number specifying maximum ripple in passband (dB) and
@@ -941,11 +942,11 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        if mode in ('highpass', 'bandstop'):
+            self.ntaps = odd(self.ntaps)
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2.0*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From 8845845390ca9482d47b9ac5d45b68c5d84f6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:38 +0000
Subject: [PATCH 83/94] fix: viewers can run in the background and leave no
 open files

common.system() does not support wait=False, so every call with bg=True or
wait=False raised. The descriptors of the temporary files were never closed.
---
 src/pwtools/visualize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..a591bff 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -97,7 +97,7 @@ class ViewFactory:
         tmpdir : str, optional
             Directory where temp files are written to.
         wait : bool, optional
-            `wait` passed to common.system(), wait (or not) for command to exit
+            Wait (or not) for command to exit.
         bg : bool
             Background mode. If True then this is an alias for `wait=False` +
             `keepfiles=True`. The latter is needed b/c with just `wait=False`,
@@ -114,16 +114,20 @@ class ViewFactory:
             fd1,structfile = mkstemp(dir=tmpdir,
                                      prefix='pwtools_view_struct_',
                                      suffix=self.suffix)
+            os.close(fd1)
 
         if logfile is None:
             fd2,logfile = mkstemp(dir=tmpdir,
                                   prefix='pwtools_view_log_')
+            os.close(fd2)
         self.writer(structfile, obj)
         if disp:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
         else:
             cmd_str = "%s %s %s > %s 2>&1" %(self.cmd, options, structfile, logfile)
-        common.system(cmd_str, wait=wait)
+        if not wait:
+            cmd_str += ' &'
+        common.system(cmd_str)
         if not keepfiles:
             os.unlink(structfile)
             os.unlink(logfile)
-- 
2.43.0


From 7b72f3a40ea6df5f1617a1199e80b47889d261db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 84/94] fix: plotlines3d failed for a 1d z array

z is repeated for each curve (zz), but the plot loop indexed the 1d z.
---
 src/pwtools/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index 576da0a..f9f595f 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -65,7 +65,7 @@ def plotlines3d(ax3d, x,y,z, *args, **kwargs):
     assert xx.shape == zz.shape
     assert len(y) == xx.shape[1] == zz.shape[1]
     for j in range(xx.shape[1]):
-        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], z[:,j], *args, **kwargs)
+        ax3d.plot(xx[:,j], np.ones(xx.shape[0])*y[j], zz[:,j], *args, **kwargs)
     return ax3d
 
 
-- 
2.43.0


From b3bdb7b9303a49d461807c4df16e65df4a9a13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 85/94] fix: clean_ax3d used the w_xaxis attributes which
 matplotlib 3.8 removed

---
 src/pwtools/mpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index f9f595f..e934d46 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -96,9 +96,9 @@ def fig_ax3d(clean=False, **kwds):
 def clean_ax3d(ax):
     """On ``Axes3DSubplot`` `ax`, set x,y,z pane color to white and remove
     grid."""
-    ax.w_xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
-    ax.w_zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.xaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.yaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
+    ax.zaxis.set_pane_color((1.0, 1.0, 1.0, 1.0))
     ax.grid(False)
 
 
-- 
2.43.0


From cf458ea9977bd82d321d582c9db5a11cc39034b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:56 +0000
Subject: [PATCH 86/94] fix: new_axis needs the axis lines of
 mpl_toolkits.axisartist

The axes of axes_grid1 have no get_grid_helper(), new_axis() always
raised AttributeError.
---
 src/pwtools/mpl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/mpl.py b/src/pwtools/mpl.py
index e934d46..1e83b0d 100644
--- a/src/pwtools/mpl.py
+++ b/src/pwtools/mpl.py
@@ -9,10 +9,9 @@ import numpy as np
 from pwtools import common, num
 
 try:
-    from mpl_toolkits.axes_grid1.parasite_axes import SubplotHost, \
-        ParasiteAxes
+    from mpl_toolkits.axisartist import SubplotHost, ParasiteAxes
 except ImportError:
-    warnings.warn("cannot import from mpl_toolkits.axes_grid")
+    warnings.warn("cannot import from mpl_toolkits.axisartist")
 # This is with mpl < 1.0
 try:
     from mpl_toolkits.mplot3d import Axes3D
-- 
2.43.0


From 8f6f8f7bc058a13078c1dd04bf056a3cb6e3abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 87/94] fix: reading gzipped text files raised TypeError

gzip.open(fn, 'r') opens in binary mode, the parsing functions need text.
---
 src/pwtools/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..540fd2c 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,7 +47,7 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From a600be3116f2825001afa25c3db3a85aa43e7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:01 +0000
Subject: [PATCH 88/94] fix: plot_dis failed without special points

axdos was set (and the dos drawn) only if special_points_path was given.
---
 src/pwtools/kpath.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 02b2ca9..7bb85c4 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -175,17 +175,17 @@ def plot_dis(path_norm, freqs, special_points_path=None,
                       for sym,kk in zip(symbols, ks_plot)]
         ax.set_xticks(nrm)
         ax.set_xticklabels(labels)
-        ax.set_xlim(path_norm[0], path_norm[-1])
-        ax.set_ylabel("frequency (cm$^{-1}$)")
-        if dos is not None:
-            # http://matplotlib.org/examples/axes_grid/scatter_hist.html
-            from mpl_toolkits.axes_grid1 import make_axes_locatable
-            divider = make_axes_locatable(ax)
-            axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
-            axdos.plot(dos[:,1], dos[:,0], 'b')
-            mpl.plt.setp(axdos.get_yticklabels(), visible=False)
-            mpl.plt.setp(axdos.get_xticklabels(), visible=False)
-            axdos.xaxis.set_tick_params(size=0)
-        else:
-            axdos = None
+    ax.set_xlim(path_norm[0], path_norm[-1])
+    ax.set_ylabel("frequency (cm$^{-1}$)")
+    if dos is not None:
+        # http://matplotlib.org/examples/axes_grid/scatter_hist.html
+        from mpl_toolkits.axes_grid1 import make_axes_locatable
+        divider = make_axes_locatable(ax)
+        axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
+        axdos.plot(dos[:,1], dos[:,0], 'b')
+        mpl.plt.setp(axdos.get_yticklabels(), visible=False)
+        mpl.plt.setp(axdos.get_xticklabels(), visible=False)
+        axdos.xaxis.set_tick_params(size=0)
+    else:
+        axdos = None
     return fig, ax, axdos
-- 
2.43.0


From f9294a40a4f1e5580cdd1592a9294747f985cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:01 +0000
Subject: [PATCH 89/94] fix: plot_dis ignored ylim for the frequency axis

---
 src/pwtools/kpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 7bb85c4..dfc21cd 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -152,6 +152,8 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         fig = ax.get_figure()
     # Plot columns of `freq` against q points (path_norm)
     ax.plot(path_norm, freqs, **kwargs)
+    if ylim is not None:
+        ax.set_ylim(ylim)
     if special_points_path is not None:
         ylim = ax.get_ylim() if ylim is None else ylim
         ks, ks_frac, nrm, symbols = \
-- 
2.43.0


From f559e8d404172d5753f2ea0afb3e51f471f35fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:14 +0000
Subject: [PATCH 90/94] fix: cif2any.py printed the abinit znucl per atom
 instead of per type

The pseudopotential order list then also had wrong atomic numbers.
---
 bin/cif2any.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/cif2any.py b/bin/cif2any.py
index a5001ad..756cf9e 100755
--- a/bin/cif2any.py
+++ b/bin/cif2any.py
@@ -133,13 +133,13 @@ print(bar)
 print("natom %i" %struct.natoms)
 print("ntypat %i" %struct.ntypat)
 print("typat %s" %seq2str(struct.typat))
-print("znucl %s" %seq2str(struct.znucl))
+print("znucl %s" %seq2str(struct.znucl_unique))
 print("acell %s" %str_arr(struct.cryst_const[:3]))
 print("angdeg %s" %str_arr(struct.cryst_const[3:]))
 print("xred\n%s" %str_arr(struct.coords_frac))
 print("pseudopotential order:\n%s" %"\n".join(["%s %i" %(sym, zz) for sym,zz in
                                                zip(struct.symbols_unique,
-                                                   struct.znucl)]))
+                                                   struct.znucl_unique)]))
 
 #-------------------------------------------------------------------------------
 # CPMD
-- 
2.43.0


From e1fa0245df02058a877f11ff920002735eb9ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:34 +0000
Subject: [PATCH 91/94] fix: solvate.sh took file names with -h for a call for
 help

---
 bin/solvate.sh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/solvate.sh b/bin/solvate.sh
index cf89472..532442e 100755
--- a/bin/solvate.sh
+++ b/bin/solvate.sh
@@ -42,10 +42,11 @@ err(){
 }
 
 [ $# -eq 0 ] && err "no input args"
-if echo "$@" | grep -qEe '-h|--help'; then
-    usage
-    exit 0
-fi
+for arg in "$@"; do
+    case "$arg" in
+        -h|--help) usage; exit 0;;
+    esac
+done
 
 if echo "$@" | grep -qEe '-ci '; then
     default_ci=
-- 
2.43.0


From 04bfbdd83ec7ae9e6c55d7b015bf649a14bae1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:34 +0000
Subject: [PATCH 92/94] fix: solvate.sh removed the first instead of the last
 .pdb of a file name

---
 bin/solvate.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/solvate.sh b/bin/solvate.sh
index 532442e..d31ff61 100755
--- a/bin/solvate.sh
+++ b/bin/solvate.sh
@@ -62,7 +62,7 @@ fi
 
 rm -f *.log \#*
 
-name=${1/.pdb/}
+name=${1%.pdb}
 shift
 start_gmx=${name}.pdb
 out_gmx=${name}_gmx.pdb
-- 
2.43.0


From ca8b98436b5dbc69a1c6103d17b3a8dec13041bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 93/94] fix: atomic_data had no element 117, Uuo got its number

---
 src/pwtools/atomic_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/atomic_data.py b/src/pwtools/atomic_data.py
index 57c5419..2e5c70d 100644
--- a/src/pwtools/atomic_data.py
+++ b/src/pwtools/atomic_data.py
@@ -155,6 +155,7 @@ symbols = [
     "Uuq",
     "Uup",
     "Uuh",
+    "Uus",
     "Uuo",
 ]
 
@@ -278,6 +279,7 @@ masses = np.array(
         288,
         293,
         294,
+        294,
     ]
 )
 
@@ -401,7 +403,8 @@ covalent_radii = np.array(
         missing,  # Uuq
         missing,  # Uup
         missing,  # Uuh
-        missing,  # Uuh
+        missing,  # Uus
+        missing,  # Uuo
     ]
 )
 
-- 
2.43.0


From adea6b0783c5f97a0b69590d8b3d01e05633eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:23 +0000
Subject: [PATCH 94/94] fix: angle raised ValueError for parallel vectors

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 1931d7b..a78d89e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -33,7 +33,9 @@ def angle(x,y):
     # args. No np.dot() since its result can depend on the memory alignment of
     # x and y (BLAS), i.e. equal cells would have slightly different angles.
     _norm = lambda v: np.sqrt((v*v).sum())
-    return acos((x*y).sum()/_norm(x)/_norm(y))*180.0/pi
+    cos_xy = (x*y).sum()/_norm(x)/_norm(y)
+    # rounding errors: parallel vectors may have |cos| > 1
+    return acos(max(-1.0, min(1.0, cos_xy)))*180.0/pi
 
 
 #-----------------------------------------------------------------------------
-- 
2.43.0

