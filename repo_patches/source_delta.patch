From adadab265f4fec14899e07299876da468a3e03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 01/48] fix: repeated releases start from the initial particle
 values, not the advected ones

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..14c2c94 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,11 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From d8f456b818c88a150eb83073d710a85cd4edea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 02/48] fix: output can be written after an export

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..36698f0 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -309,7 +309,7 @@ class ParticleFile(object):
                 if len(self.var_names_once) > 0:
                     global_file_list_once += pset_info_local['file_list_once']
         self.maxid_written = global_maxid_written
-        self.time_written = np.unique(global_time_written)
+        self.time_written = np.unique(global_time_written).tolist()
 
         for var in self.var_names:
             data = self.read_from_npy(global_file_list, len(self.time_written), var)
-- 
2.43.0


From caa6a93f6042b4dd598cb025ef04acced0c1815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 03/48] fix: export of particles that are written more than
 once at the same time (forward and backward runs)

---
 parcels/particlefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 36698f0..e2004d6 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -297,6 +297,7 @@ class ParticleFile(object):
 
         global_maxid_written = -1
         global_time_written = []
+        global_obs = 0  # upper bound on the number of observations per particle
         global_file_list = []
         if len(self.var_names_once) > 0:
             global_file_list_once = []
@@ -305,6 +306,7 @@ class ParticleFile(object):
                 pset_info_local = np.load(os.path.join(tempwritedir, 'pset_info.npy'), allow_pickle=True).item()
                 global_maxid_written = np.max([global_maxid_written, pset_info_local['maxid_written']])
                 global_time_written += pset_info_local['time_written']
+                global_obs = max(global_obs, len(pset_info_local['file_list']))
                 global_file_list += pset_info_local['file_list']
                 if len(self.var_names_once) > 0:
                     global_file_list_once += pset_info_local['file_list_once']
@@ -312,7 +314,7 @@ class ParticleFile(object):
         self.time_written = np.unique(global_time_written).tolist()
 
         for var in self.var_names:
-            data = self.read_from_npy(global_file_list, len(self.time_written), var)
+            data = self.read_from_npy(global_file_list, global_obs, var)
             if var == self.var_names[0]:
                 self.open_netcdf_file(data.shape)
             varout = 'z' if var == 'depth' else var
-- 
2.43.0


From 4f3c44b2d4e4a8c6d35a9f882bbc8204b5f9276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 04/48] fix: output in a directory with 'once' in its name

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index e2004d6..64c72f1 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if not npyfile.endswith('_once.npy') else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From 3ea2f1f8a867afc71fd6c593b26a765ffebc2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 05/48] fix: write-once variables of particles whose first
 output is their deletion

---
 parcels/particlesets/collectionsoa.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..03952c7 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -43,15 +43,6 @@ def _to_write_particles(pd, time):
             & (np.isfinite(pd['time'])))
 
 
-def _is_particle_started_yet(pd, time):
-    """We don't want to write a particle that is not started yet.
-    Particle will be written if:
-      * particle.time is equal to time argument of pfile.write()
-      * particle.time is before time (in case particle was deleted between previous export and current one)
-    """
-    return np.less_equal(pd['dt']*pd['time'], pd['dt']*time) | np.isclose(pd['time'], time)
-
-
 def _convert_to_flat_array(var):
     """Convert lists and single integers/floats to one-dimensional numpy arrays
 
@@ -858,7 +849,9 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    first_write = np.zeros(self._data['id'].size, dtype=bool)
+                    first_write[indices_to_write] = True
+                    first_write &= np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From 9902663372068d7ce6bf55bfbc9b2f9686a08f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 06/48] fix: particles first met at an already written time, or
 deleted in a run without time steps, are written

---
 parcels/particlefile.py               |  1 +
 parcels/particlesets/collectionsoa.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 64c72f1..b992ee0 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -58,6 +58,7 @@ class ParticleFile(object):
         self.convert_at_end = convert_at_end
         self.outputdt = outputdt
         self.lasttime_written = None  # variable to check if time has been written already
+        self.ids_lasttime_written = []  # ids of the particles written at that time
 
         self.dataset = None
         self.metadata = {}
diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 03952c7..cd9cbc1 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -822,8 +822,8 @@ class ParticleCollectionSOA(ParticleCollection):
         time = time.total_seconds() if isinstance(time, delta) else time
 
         indices_to_write = []
-        if pfile.lasttime_written != time and \
-           (pfile.write_ondelete is False or deleted_only is not False):
+        ids_to_write = np.array([], dtype=np.int64)
+        if pfile.write_ondelete is False or deleted_only is not False:
             if self._data['id'].size == 0:
                 logger.warning("ParticleSet is empty on writing as array at time %g" % time)
             else:
@@ -835,7 +835,10 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = deleted_only
                 else:
                     indices_to_write = _to_write_particles(self._data, time)
-                if np.any(indices_to_write) > 0:
+                    if pfile.lasttime_written == time:  # write only the particles not yet written at this time
+                        indices_to_write &= np.isin(self._data['id'], pfile.ids_lasttime_written, invert=True)
+                ids_to_write = self._data['id'][indices_to_write]
+                if ids_to_write.size > 0:
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
                     pfile.maxid_written = np.maximum(pfile.maxid_written, np.max(data_dict['id']))
@@ -859,6 +862,9 @@ class ParticleCollectionSOA(ParticleCollection):
                         pfile.written_once.extend(np.array(self._data['id'][first_write]).astype(dtype=np.int64).tolist())
 
             if deleted_only is False:
+                if pfile.lasttime_written != time:
+                    pfile.ids_lasttime_written = []
+                pfile.ids_lasttime_written.extend(ids_to_write.tolist())
                 pfile.lasttime_written = time
 
         return data_dict, data_dict_once
-- 
2.43.0


From 4ac9a7b924674eff3d8712ef38782f03782798f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 07/48] fix: output of a particle released between time steps
 does not abort the run

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index cd9cbc1..3df68e0 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -845,7 +845,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From cb9f321d6cf4ba45fde195911361751c4b05bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 08/48] fix: a crash during output does not make the earlier
 output unreadable

---
 parcels/particlefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index b992ee0..4f6e934 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -233,8 +233,11 @@ class ParticleFile(object):
         for a in attrs_to_dump:
             if hasattr(self, a):
                 pset_info[a] = getattr(self, a)
-        with open(os.path.join(self.tempwritedir, 'pset_info.npy'), 'wb') as f:
+        # replace the previous file at once, so that there is always a complete one
+        pset_info_file = os.path.join(self.tempwritedir, 'pset_info.npy')
+        with open(pset_info_file + '.tmp', 'wb') as f:
             np.save(f, pset_info)
+        os.replace(pset_info_file + '.tmp', pset_info_file)
 
     def write(self, pset, time, deleted_only=False):
         """Write all data from one time step to a temporary npy-file
-- 
2.43.0


From c5fed8010e3fac47559c56f3a3012e6a01bdff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 09/48] fix: output that failed can be written again

---
 parcels/particlefile.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 4f6e934..456ec73 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -3,6 +3,7 @@ import os
 import random
 import shutil
 import string
+from copy import copy
 from glob import glob
 
 import netCDF4
@@ -248,9 +249,18 @@ class ParticleFile(object):
         :param deleted_only: Flag to write only the deleted Particles
         """
 
-        data_dict, data_dict_once = pset.to_dict(self, time, deleted_only=deleted_only)
-        self.dump_dict_to_npy(data_dict, data_dict_once)
-        self.dump_psetinfo_to_npy()
+        attrs_to_restore = ['lasttime_written', 'ids_lasttime_written', 'maxid_written', 'time_written',
+                            'written_once', 'file_list', 'file_list_once']
+        before_write = {a: copy(getattr(self, a)) for a in attrs_to_restore if hasattr(self, a)}
+        try:
+            data_dict, data_dict_once = pset.to_dict(self, time, deleted_only=deleted_only)
+            self.dump_dict_to_npy(data_dict, data_dict_once)
+            self.dump_psetinfo_to_npy()
+        except BaseException:
+            # a write that failed does not count as written, so that it can be repeated
+            for a, value in before_write.items():
+                setattr(self, a, value)
+            raise
 
     def read_from_npy(self, file_list, time_steps, var):
         """Read NPY-files for one variable using a loop over all files.
-- 
2.43.0


From 03e3871c7ca7bbe39a75a3f81996ce4c51f7f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:42 +0000
Subject: [PATCH 10/48] fix: a failing or concurrent export does not destroy an
 existing output file

---
 parcels/particlefile.py | 42 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 456ec73..f993ea0 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -5,6 +5,7 @@ import shutil
 import string
 from copy import copy
 from glob import glob
+from uuid import uuid4
 
 import netCDF4
 import numpy as np
@@ -104,7 +105,7 @@ class ParticleFile(object):
         elif pset_info is None:
             raise IOError("output directory %s already exists. Please remove first." % self.tempwritedir)
 
-    def open_netcdf_file(self, data_shape):
+    def open_netcdf_file(self, data_shape, fname):
         """Initialise NetCDF4.Dataset for trajectory output.
         The output follows the format outlined in the Discrete Sampling Geometries
         section of the CF-conventions:
@@ -113,11 +114,8 @@ class ParticleFile(object):
         http://www.nodc.noaa.gov/data/formats/netcdf/v2.0/trajectoryIncomplete.cdl
 
         :param data_shape: shape of the variables in the NetCDF4 file
+        :param fname: name of the NetCDF4 file
         """
-        extension = os.path.splitext(str(self.name))[1]
-        fname = self.name if extension in ['.nc', '.nc4'] else "%s.nc" % self.name
-        if os.path.exists(str(fname)):
-            os.remove(str(fname))
         self.dataset = netCDF4.Dataset(fname, "w", format="NETCDF4")
         self.dataset.createDimension("obs", data_shape[1])
         self.dataset.createDimension("traj", data_shape[0])
@@ -327,18 +325,30 @@ class ParticleFile(object):
         self.maxid_written = global_maxid_written
         self.time_written = np.unique(global_time_written).tolist()
 
-        for var in self.var_names:
-            data = self.read_from_npy(global_file_list, global_obs, var)
-            if var == self.var_names[0]:
-                self.open_netcdf_file(data.shape)
-            varout = 'z' if var == 'depth' else var
-            getattr(self, varout)[:, :] = data
-
-        if len(self.var_names_once) > 0:
-            for var in self.var_names_once:
-                getattr(self, var)[:] = self.read_from_npy(global_file_list_once, 1, var)
+        extension = os.path.splitext(str(self.name))[1]
+        fname = self.name if extension in ['.nc', '.nc4'] else "%s.nc" % self.name
+        # write to another file first, so that an existing file is only ever replaced by a complete one
+        tmp_fname = "%s.%s.tmp" % (fname, uuid4().hex)
+        try:
+            for var in self.var_names:
+                data = self.read_from_npy(global_file_list, global_obs, var)
+                if var == self.var_names[0]:
+                    self.open_netcdf_file(data.shape, tmp_fname)
+                varout = 'z' if var == 'depth' else var
+                getattr(self, varout)[:, :] = data
 
-        self.dataset.close()
+            if len(self.var_names_once) > 0:
+                for var in self.var_names_once:
+                    getattr(self, var)[:] = self.read_from_npy(global_file_list_once, 1, var)
+
+            self.dataset.close()
+            os.replace(tmp_fname, str(fname))
+        finally:
+            if self.dataset is not None and self.dataset.isopen():
+                self.dataset.close()
+            self.dataset = None
+            if os.path.exists(tmp_fname):
+                os.remove(tmp_fname)
 
     def delete_tempwritedir(self, tempwritedir=None):
         """Deleted all temporary npy files
-- 
2.43.0


From 43f8b1f414f49f594202c61da420ff8f69e4e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 11/48] fix: output can be converted when some processors have
 not written yet

---
 parcels/particlefile.py                     |  2 ++
 parcels/scripts/convert_npydir_to_netcdf.py | 15 ++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index f993ea0..5d7596c 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -304,6 +304,8 @@ class ParticleFile(object):
         temp_names = sorted(glob(os.path.join("%s" % self.tempwritedir_base, "*")),
                             key=lambda x: int(os.path.basename(x)))
 
+        # processors that have not written any output yet have no pset_info
+        temp_names = [d for d in temp_names if os.path.exists(os.path.join(d, 'pset_info.npy'))]
         if len(temp_names) == 0:
             raise RuntimeError("No npy files found in %s" % self.tempwritedir_base)
 
diff --git a/parcels/scripts/convert_npydir_to_netcdf.py b/parcels/scripts/convert_npydir_to_netcdf.py
index a77bc83..eafe6d8 100644
--- a/parcels/scripts/convert_npydir_to_netcdf.py
+++ b/parcels/scripts/convert_npydir_to_netcdf.py
@@ -13,13 +13,14 @@ def convert_npydir_to_netcdf(tempwritedir_base, delete_tempfiles=False):
             are stored (can be obtained from ParticleFile.tempwritedir_base attribute)
     """
 
-    tempwritedir = sorted(glob(path.join("%s" % tempwritedir_base, "*")),
-                          key=lambda x: int(path.basename(x)))[0]
-    pyset_file = path.join(tempwritedir, 'pset_info.npy')
-    if not path.isdir(tempwritedir):
-        raise ValueError('Output directory "%s" does not exist' % tempwritedir)
-    if not path.isfile(pyset_file):
-        raise ValueError('Output directory "%s" does not contain a pset_info.npy file' % tempwritedir)
+    tempwritedirs = sorted(glob(path.join("%s" % tempwritedir_base, "*")),
+                           key=lambda x: int(path.basename(x)))
+    if len(tempwritedirs) == 0 or not path.isdir(tempwritedirs[0]):
+        raise ValueError('Output directory "%s" does not exist' % tempwritedir_base)
+    pyset_files = [path.join(d, 'pset_info.npy') for d in tempwritedirs]
+    pyset_file = next((f for f in pyset_files if path.isfile(f)), None)  # some processors may not have written yet
+    if pyset_file is None:
+        raise ValueError('Output directory "%s" does not contain a pset_info.npy file' % tempwritedirs[0])
 
     pset_info = np.load(pyset_file, allow_pickle=True).item()
     pfile = ParticleFile(None, None, pset_info=pset_info, tempwritedir=tempwritedir_base, convert_at_end=False)
-- 
2.43.0


From 0293a58145defe36c3b18fae10887297d06cecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 12/48] fix: the deletion of a particle is not forgotten when
 its output failed

---
 parcels/particlesets/baseparticleset.py | 7 ++++++-
 parcels/particlesets/collectionsoa.py   | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..7ce09d8 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -9,7 +9,7 @@ import cftime
 
 import progressbar
 
-from parcels.tools.statuscodes import StateCode
+from parcels.tools.statuscodes import OperationCode, StateCode
 from parcels.tools.global_statics import get_package_dir
 from parcels.compilation.codecompiler import GNUCompiler
 from parcels.field import NestedField
@@ -346,6 +346,11 @@ class BaseParticleSet(NDCluster):
                 self.kernel.compile(compiler=GNUCompiler(cppargs=cppargs, incdirs=[path.join(get_package_dir(), 'include'), "."]))
                 self.kernel.load_lib()
 
+        # First complete deletions that are still pending, e.g. because writing the deleted particles failed
+        deleted = self.collection.state == OperationCode.Delete
+        if np.any(deleted):
+            self.kernel.remove_deleted_soa(self, output_file, np.max(self.collection.time[deleted]))
+
         # Convert all time variables to seconds
         if isinstance(endtime, delta):
             raise RuntimeError('endtime must be either a datetime or a double')
diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 3df68e0..3c746a4 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -36,11 +36,13 @@ purpose: defines all the specific functions for a ParticleCollection, ParticleAc
 def _to_write_particles(pd, time):
     """We don't want to write a particle that is not started yet.
     Particle will be written if particle.time is between time-dt/2 and time+dt (/2)
+    Particles that are marked for deletion are written when they are removed
     """
     return (np.less_equal(time - np.abs(pd['dt']/2), pd['time'], where=np.isfinite(pd['time']))
             & np.greater_equal(time + np.abs(pd['dt'] / 2), pd['time'], where=np.isfinite(pd['time']))
             & (np.isfinite(pd['id']))
-            & (np.isfinite(pd['time'])))
+            & (np.isfinite(pd['time']))
+            & (pd['state'] != OperationCode.Delete))
 
 
 def _convert_to_flat_array(var):
-- 
2.43.0


From 7625670a942781b5adee80fa95e647d92d2b3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:01 +0000
Subject: [PATCH 13/48] fix: a run without time steps does not release an extra
 copy of a repeated particle set

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 7ce09d8..71d372f 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -421,7 +421,7 @@ class BaseParticleSet(NDCluster):
                 interupt_dts.append(self.repeatdt)
             callbackdt = np.min(np.array(interupt_dts))
         time = _starttime
-        if self.repeatdt:
+        if self.repeatdt and not execute_once:
             next_prelease = self.repeat_starttime + (abs(time - self.repeat_starttime) // self.repeatdt + 1) * self.repeatdt * np.sign(dt)
         else:
             next_prelease = np.infty if dt > 0 else - np.infty
-- 
2.43.0


From ef2a5a2f6379416a947d5e48f95a0c5cc0178c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:20 +0000
Subject: [PATCH 14/48] fix: a run without time steps executes each particle
 once, also when some particles fail

---
 parcels/compilation/codegenerator.py | 2 +-
 parcels/kernel.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..29177b9 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1056,7 +1056,7 @@ class LoopGenerator(object):
                                c.Statement("break")])
                       )]
 
-        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT) || is_zero_dbl(particles->dt[pnum])", c.Block(body))
+        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT)", c.Block(body))
         part_loop = c.For("pnum = 0", "pnum < num_particles", "++pnum",
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..283864c 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -304,7 +304,7 @@ class Kernel(object):
                     p.set_state(StateCode.Success)
                 continue
 
-            while p.state in [StateCode.Evaluate, OperationCode.Repeat] or np.isclose(dt, 0):
+            while p.state in [StateCode.Evaluate, OperationCode.Repeat]:
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
-- 
2.43.0


From 571da04fbc536358dc8a0ce720d7b8c472282087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:42 +0000
Subject: [PATCH 15/48] fix: the added last time step of a time-periodic field
 in memory is part of the grid's time dimension

---
 parcels/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..5d16a73 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -159,6 +159,8 @@ class Field(object):
         self.vmax = vmax
 
         if not self.grid.defer_load:
+            if self.grid._add_last_periodic_data_timestep:
+                self.grid.tdim = self.grid.time.size - 1  # the periodic timestep is only added to the data below
             self.data = self.reshape(self.data, transpose)
 
             # Hack around the fact that NaN and ridiculously large values
@@ -172,6 +174,9 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                if self.grid.z4d and self.grid.depth.shape[0] == self.grid.tdim:
+                    self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1, :]), axis=0)
+                self.grid.tdim = self.grid.time.size
 
         self._scaling_factor = None
 
-- 
2.43.0


From fb9054bedc1220ffe74f064e0e4814d5b5e27190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 16/48] fix: lookup and removal of several particles by their
 IDs

---
 parcels/particlesets/collectionsoa.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 3c746a4..d0f0db0 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -362,20 +362,13 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.intp)
+
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
-
-        # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
-        elif self._data['id'][index] != sublist[median]:
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
+
+        if index == high or self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
             # index and keep it in our search space.
@@ -387,7 +380,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index], dtype=np.intp), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From e38113af0aac30a6398562b4b15fa571c4713a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 17/48] fix: adding particles to an empty particle set copies
 them and keeps track of their order

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index d0f0db0..90e32aa 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -410,8 +410,9 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
             self._ncount = same_class.ncount
+            self._sorted = same_class._sorted
             return
 
         # Determine order of concatenation and update the sorted flag
-- 
2.43.0


From 68a3aaf03000ba03db5c5c72a1914cf169a069c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:48 +0000
Subject: [PATCH 18/48] fix: size of the particle set after removing particles
 by indices with repetitions

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90e32aa..11f5441 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -631,7 +631,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['id'].shape[0]
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From e44ca8f228a28fa08190cc91bfbad94c248f4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 19/48] fix: creating an empty particle set does not make
 particle IDs start from zero again

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 11f5441..f740c91 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -118,7 +118,7 @@ class ParticleCollectionSOA(ParticleCollection):
                         kwargs[kwvar] = kwargs[kwvar][self._pu_indicators == mpi_rank]
                 offset = MPI.COMM_WORLD.allreduce(offset, op=MPI.MAX)
 
-        pclass.setLastID(offset+1)
+        pclass.setLastID(max(pclass.lastID, offset+1))
 
         if lonlatdepth_dtype is None:
             self._lonlatdepth_dtype = np.float32
-- 
2.43.0


From 90edee7c674f5e7a9b633937bb554f5b1cfabab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 20/48] fix: particles created after a restart do not get IDs
 that are already in use

---
 parcels/particlesets/particlesetsoa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 14c2c94..624f6c1 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -379,6 +379,7 @@ class ParticleSetSOA(BaseParticleSet):
             restarttime = restarttime
 
         inds = np.where(vars['time'] == restarttime)
+        lastID = max(pclass.lastID, int(np.nanmax(vars['id'])) + 1)  # IDs in use, also of particles not restarted
         for v in vars:
             if to_write[v] is True:
                 vars[v] = vars[v][inds]
@@ -392,9 +393,13 @@ class ParticleSetSOA(BaseParticleSet):
         else:
             vars['id'] = None
 
-        return cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
-                   depth=vars['depth'], time=vars['time'], pid_orig=vars['id'],
-                   lonlatdepth_dtype=lonlatdepth_dtype, repeatdt=repeatdt, **kwargs)
+        try:
+            return cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
+                       depth=vars['depth'], time=vars['time'], pid_orig=vars['id'],
+                       lonlatdepth_dtype=lonlatdepth_dtype, repeatdt=repeatdt, **kwargs)
+        finally:
+            if restart:
+                pclass.setLastID(max(pclass.lastID, lastID))
 
     def to_dict(self, pfile, time, deleted_only=False):
         """
-- 
2.43.0


From 09b0fe91f74fef2469507310182f786b14a0f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:38 +0000
Subject: [PATCH 21/48] fix: field files with different numbers of time steps
 can be read together

---
 parcels/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 5d16a73..0fced67 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -241,9 +241,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From 930cc6d00d9a9a651e1ae4f67b6b3fda9d273819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:38 +0000
Subject: [PATCH 22/48] fix: loading of field data does not cut time steps
 short when the time step is not an integer

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 71d372f..4b91cce 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -428,7 +428,7 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else np.inf
+        next_input = self.fieldset.computeTimeChunk(time, dt) if self.fieldset is not None else np.inf
 
         tol = 1e-12
         if verbose_progress is None:
-- 
2.43.0


From 3000f8ccf595c65a78e40ccad988070a609e27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:39 +0000
Subject: [PATCH 23/48] fix: backward runs that start between two time steps of
 deferred-load fields use the right data

---
 parcels/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..137435d 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -212,7 +212,7 @@ class Grid(object):
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-                if signdt == -1 and self.ti > 0:
+                if signdt == -1 and self.ti > 0 and time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
-- 
2.43.0


From cd57b04031b886640b1a37faee55c1424708261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:50 +0000
Subject: [PATCH 24/48] fix: interpolation across field chunks that are one
 grid point wide

---
 parcels/include/parcels.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..f96644c 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -331,7 +331,7 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
   int yshift = chunk_info[1];
   int xdim = chunk_info[1+ndim+yshift+block[1]];
 
-  if (((ilocal[0] == ydim-1) && (ydim > 1)) || ((ilocal[1] == xdim-1) && (xdim > 1)))
+  if (((ilocal[0] == ydim-1) && (ydim > 1 || block[0] < chunk_info[1]-1)) || ((ilocal[1] == xdim-1) && (xdim > 1 || block[1] < chunk_info[1+1]-1)))
   {
     // Cell is on multiple chunks
     for (tii=0; tii<2; ++tii){
@@ -425,7 +425,7 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
   int yshift = chunk_info[1+1];
   int xdim = chunk_info[1+ndim+zshift+yshift+block[2]];
 
-  if (((ilocal[0] == zdim-1) && zdim > 1) || ((ilocal[1] == ydim-1) && ydim > 1) || ((ilocal[2] == xdim-1) && xdim >1))
+  if (((ilocal[0] == zdim-1) && (zdim > 1 || block[0] < chunk_info[1]-1)) || ((ilocal[1] == ydim-1) && (ydim > 1 || block[1] < chunk_info[1+1]-1)) || ((ilocal[2] == xdim-1) && (xdim > 1 || block[2] < chunk_info[1+2]-1)))
   {
     // Cell is on multiple chunks\n
     for (tii=0; tii<2; ++tii){
-- 
2.43.0


From 8fed4bda6c6a46eee89cbb4491b22d279f1c6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:46 +0000
Subject: [PATCH 25/48] fix: deferred-load fields use the data of the right
 period for all particle sets and in both directions

---
 parcels/field.py |  2 ++
 parcels/grid.py  | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 0fced67..8bf7c57 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1061,6 +1061,8 @@ class Field(object):
         if self.time_periodic:
             if time_index.all() or np.logical_not(time_index).all():
                 periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
+                if time - periods*(self.grid.time_full[-1]-self.grid.time_full[0]) < self.grid.time[0]:
+                    periods -= 1  # time is at the end of the period, of which only the last time steps are loaded
                 if isinstance(self.grid.periods, c_int):
                     self.grid.periods.value = periods
                 else:
diff --git a/parcels/grid.py b/parcels/grid.py
index 137435d..f938853 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -187,7 +187,11 @@ class Grid(object):
 
     def computeTimeChunk(self, f, time, signdt):
         nextTime_loc = np.infty if signdt >= 0 else -np.infty
-        periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
+        # number of periods to shift time (and the data following it in the direction of dt) to the time range of the data
+        periods = 0
+        if f.time_periodic:
+            periods = (time - self.time_full[0]) / (self.time_full[-1] - self.time_full[0])
+            periods = int(np.floor(periods)) if signdt >= 0 else int(np.ceil(periods)) - 1
         prev_time_indices = self.time
         if self.update_status == 'not_updated':
             if self.ti >= 0:
@@ -208,10 +212,8 @@ class Grid(object):
             if self.ti == -1:
                 self.time = self.time_full
                 self.ti, _ = f.time_index(time)
-                periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
-                if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
+                if signdt == -1 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[-1] and f.time_periodic:
                     self.ti = len(self.time)-1
-                    periods -= 1
                 if signdt == -1 and self.ti > 0 and time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
-- 
2.43.0


From 2eef54b1f44d1755015540b3b178b728f50936ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 26/48] fix: the added last time step of time-periodic
 deferred-load fields repeats the first one also when a file has several time
 steps

---
 parcels/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 8bf7c57..80b0656 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1369,7 +1369,10 @@ class Field(object):
         filebuffer.__enter__()
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
-        filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
+            filebuffer.ti = 0  # the added last time step repeats the first one
+        else:
+            filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 6da9c89f2a220dd961932b19d71d6d0e5be5e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:49 +0000
Subject: [PATCH 27/48] fix: time-periodic fields in memory on grids with as
 many depths as time steps

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 80b0656..9ce0d31 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -174,7 +174,7 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
-                if self.grid.z4d and self.grid.depth.shape[0] == self.grid.tdim:
+                if self.grid.depth.ndim == 4 and self.grid.depth.shape[0] == self.grid.tdim:
                     self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1, :]), axis=0)
                 self.grid.tdim = self.grid.time.size
 
-- 
2.43.0


From 7e34574cb027fbbbd7656026842b95ecbe2fe9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:45 +0000
Subject: [PATCH 28/48] fix: after a failed read of field data, no undecoded,
 incomplete or outdated data is used

---
 parcels/fieldfilebuffer.py |  4 ++++
 parcels/fieldset.py        | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index f2b34c8..1d4dd52 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -40,6 +40,8 @@ class NetcdfFileBuffer(_FileBuffer):
             # If 'lock' is not specified, the Lock-object is auto-created and managed by xarray internally.
             self.dataset = xr.open_dataset(str(self.filename), decode_cf=True, engine=self.netcdf_engine)
             self.dataset['decoded'] = True
+        except (OSError, RuntimeError):
+            raise  # the file cannot be read (as opposed to decoded)
         except:
             logger.warning_once("File %s could not be decoded properly by xarray (version %s).\n         "
                                 "It will be opened with no decoding. Filling values might be wrongly parsed."
@@ -240,6 +242,8 @@ class DaskFileBuffer(NetcdfFileBuffer):
             else:
                 self.dataset = xr.open_dataset(str(self.filename), decode_cf=True, engine=self.netcdf_engine, chunks=init_chunk_dict, lock=False)
             self.dataset['decoded'] = True
+        except (OSError, RuntimeError):
+            raise  # the file cannot be read (as opposed to decoded)
         except:
             logger.warning_once("File %s could not be decoded properly by xarray (version %s).\n         It will be opened with no decoding. Filling values might be wrongly parsed."
                                 % (self.filename, xr.__version__))
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..8133515 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -1023,6 +1023,20 @@ class FieldSet(object):
         :param time: Time around which the FieldSet chunks are to be loaded. Time is provided as a double, relatively to Fieldset.time_origin
         :param dt: time step of the integration scheme
         """
+        try:
+            return self._computeTimeChunk(time, dt)
+        except BaseException:
+            # Data that is not (completely) loaded does not belong to the times of its grid: start again at the next call
+            for f in self.get_fields():
+                if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load or f.dataFiles is None:
+                    continue
+                if f.grid.update_status != 'not_updated':
+                    f.data = DeferredArray()
+                    f.grid.ti = -1
+                    f.grid.time = f.grid.time_full
+            raise
+
+    def _computeTimeChunk(self, time, dt):
         signdt = np.sign(dt)
         nextTime = np.infty if dt > 0 else -np.infty
 
-- 
2.43.0


From c61acb7fb21f36a6d22a8785ccee29a74cb35be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 29/48] fix: a repeated release that failed is made up for by
 the next execution

---
 parcels/particlesets/baseparticleset.py | 29 +++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 4b91cce..08a0e82 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -44,6 +44,7 @@ class BaseParticleSet(NDCluster):
         self.repeatdepth = None
         self.repeatpclass = None
         self.repeatkwargs = None
+        self.repeat_pending = None
         self.kernel = None
         self.fieldset = None
         self.time_origin = None
@@ -301,6 +302,20 @@ class BaseParticleSet(NDCluster):
                 min_rt = p.time
         return min_rt, max_rt
 
+    def _repeat_release(self, time, dt):
+        """Add the particles of a repeated release at time to the ParticleSet"""
+        self.repeat_pending = (time, dt)
+        pset_new = self.__class__(
+            fieldset=self.fieldset, time=time, lon=self.repeatlon,
+            lat=self.repeatlat, depth=self.repeatdepth,
+            pclass=self.repeatpclass,
+            lonlatdepth_dtype=self.collection.lonlatdepth_dtype,
+            partitions=False, pid_orig=self.repeatpid, **self.repeatkwargs)
+        for p in pset_new:
+            p.dt = dt
+        self.add(pset_new)
+        self.repeat_pending = None
+
     def execute(self, pyfunc=AdvectionRK4, endtime=None, runtime=None, dt=1.,
                 moviedt=None, recovery=None, output_file=None, movie_background_field=None,
                 verbose_progress=None, postIterationCallbacks=None, callbackdt=None):
@@ -351,6 +366,10 @@ class BaseParticleSet(NDCluster):
         if np.any(deleted):
             self.kernel.remove_deleted_soa(self, output_file, np.max(self.collection.time[deleted]))
 
+        # Likewise for a repeated release
+        if self.repeat_pending is not None:
+            self._repeat_release(*self.repeat_pending)
+
         # Convert all time variables to seconds
         if isinstance(endtime, delta):
             raise RuntimeError('endtime must be either a datetime or a double')
@@ -452,15 +471,7 @@ class BaseParticleSet(NDCluster):
             self.kernel.execute(self, endtime=time, dt=dt, recovery=recovery, output_file=output_file,
                                 execute_once=execute_once)
             if abs(time-next_prelease) < tol:
-                pset_new = self.__class__(
-                    fieldset=self.fieldset, time=time, lon=self.repeatlon,
-                    lat=self.repeatlat, depth=self.repeatdepth,
-                    pclass=self.repeatpclass,
-                    lonlatdepth_dtype=self.collection.lonlatdepth_dtype,
-                    partitions=False, pid_orig=self.repeatpid, **self.repeatkwargs)
-                for p in pset_new:
-                    p.dt = dt
-                self.add(pset_new)
+                self._repeat_release(time, dt)
                 next_prelease += self.repeatdt * np.sign(dt)
             if abs(time-next_output) < tol:
                 if output_file:
-- 
2.43.0


From 6448c55539266c9788d3fa2876c5fd99dfffaa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 30/48] fix: all processors of a parallel run execute over the
 same time as a serial run, also without particles

---
 parcels/particlesets/particlesetsoa.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 624f6c1..e63b3c0 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -173,7 +173,15 @@ class ParticleSetSOA(BaseParticleSet):
         """
         if np.any(np.isnan(self._collection.data['time'])):
             self._collection.data['time'][np.isnan(self._collection.data['time'])] = default
-        return np.min(self._collection.data['time']), np.max(self._collection.data['time'])
+        times = self._collection.data['time']
+        if MPI and MPI.COMM_WORLD.Get_size() > 1:
+            # All processors run over the same time, also those that have no particles (left)
+            min_rt = MPI.COMM_WORLD.allreduce(np.min(times, initial=np.inf), op=MPI.MIN)
+            max_rt = MPI.COMM_WORLD.allreduce(np.max(times, initial=-np.inf), op=MPI.MAX)
+            if min_rt > max_rt:
+                raise ValueError('There are no particles on any of the MPI processors')
+            return min_rt, max_rt
+        return np.min(times), np.max(times)
 
     def data_indices(self, variable_name, compare_values, invert=False):
         """Get the indices of all particles where the value of
-- 
2.43.0


From 1c87ff38d8a178591c14a1ebf37bcf5d0033ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 31/48] fix: repeated release in parallel runs with few or no
 particles on some of the processors

---
 parcels/particlesets/collectionsoa.py  | 2 +-
 parcels/particlesets/particlesetsoa.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index f740c91..1329596 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -94,7 +94,7 @@ class ParticleCollectionSOA(ParticleCollection):
             mpi_rank = mpi_comm.Get_rank()
             mpi_size = mpi_comm.Get_size()
 
-            if lon.size < mpi_size and mpi_size > 1:
+            if lon.size < mpi_size and mpi_size > 1 and partitions is not False:
                 raise RuntimeError('Cannot initialise with fewer particles than MPI processors')
 
             if mpi_size > 1:
diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index e63b3c0..c32a167 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -140,9 +140,9 @@ class ParticleSetSOA(BaseParticleSet):
             if len(time) > 0 and time[0] is None:
                 self.repeat_starttime = time[0]
             else:
-                if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
+                if time[0] and not np.allclose(time, time[0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
-                self.repeat_starttime = self._collection.data['time'][0]
+                self.repeat_starttime = time[0]
             self.repeatlon = self._collection.data['lon'].copy()
             self.repeatlat = self._collection.data['lat'].copy()
             self.repeatdepth = self._collection.data['depth'].copy()
-- 
2.43.0


From 93e61b793af63be69f9c77470e426d6b2457ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 32/48] fix: particle sets of the same class with different
 precision or write status do not affect each other

---
 parcels/particle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particle.py b/parcels/particle.py
index 470a405..2633a98 100644
--- a/parcels/particle.py
+++ b/parcels/particle.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ctypes import c_void_p
 from operator import attrgetter
 
@@ -64,8 +65,9 @@ class ParticleType(object):
             raise TypeError("Class object does not inherit from parcels.ScipyParticle")
         self.name = pclass.__name__
         self.uses_jit = issubclass(pclass, JITParticle)
-        # Pick Variable objects out of __dict__.
-        self.variables = [v for v in pclass.__dict__.values() if isinstance(v, Variable)]
+        # Pick Variable objects out of __dict__. These are copied, as the dtype and write status of the Variables
+        # of one ParticleSet are not those of another ParticleSet with the same particle class.
+        self.variables = [copy(v) for v in pclass.__dict__.values() if isinstance(v, Variable)]
         for cls in pclass.__bases__:
             if issubclass(cls, ScipyParticle):
                 # Add inherited particle variables
-- 
2.43.0


From d1e6a562abd8b6d116482a3316f39f61b01294ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 33/48] fix: library files of kernels that are created at the
 same time do not collide

---
 parcels/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 283864c..b6a0fbe 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -15,6 +15,7 @@ from os import path
 from os import remove
 from sys import platform
 from sys import version_info
+from uuid import uuid4
 from weakref import finalize
 
 import numpy as np
@@ -186,7 +187,7 @@ class Kernel(object):
     def _cache_key(self):
         field_keys = "-".join(["%s:%s" % (name, field.units.__class__.__name__)
                                for name, field in self.field_args.items()])
-        key = self.name + self.ptype._cache_key + field_keys + ('TIME:%f' % time.time())
+        key = self.name + self.ptype._cache_key + field_keys + ('TIME:%f' % time.time()) + uuid4().hex  # the clock alone is not unique
         return md5(key.encode('utf-8')).hexdigest()
 
     def remove_lib(self):
-- 
2.43.0


From 58dbd9a29f5a7b82e6f17ced2d45f11ad05094e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:01 +0000
Subject: [PATCH 34/48] fix: a kernel whose compilation failed is compiled
 again by the next execution

---
 parcels/particlesets/baseparticleset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 08a0e82..f3cc84c 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -347,8 +347,9 @@ class BaseParticleSet(NDCluster):
         :param postIterationCallbacks: (Optional) Array of functions that are to be called after each iteration (post-process, non-Kernel)
         :param callbackdt: (Optional, in conjecture with 'postIterationCallbacks) timestep inverval to (latestly) interrupt the running kernel and invoke post-iteration callbacks from 'postIterationCallbacks'
         """
-        # check if pyfunc has changed since last compile. If so, recompile
-        if self.kernel is None or (self.kernel.pyfunc is not pyfunc and self.kernel is not pyfunc):
+        # check if pyfunc has changed since last compile, or if that compile failed. If so, recompile
+        if self.kernel is None or (self.kernel.pyfunc is not pyfunc and self.kernel is not pyfunc) \
+           or (self.collection.ptype.uses_jit and self.kernel._lib is None):
             # Generate and store Kernel
             if isinstance(pyfunc, Kernel):
                 self.kernel = pyfunc
-- 
2.43.0


From 97e267ca79f91b2ddcab4042b29397a229b9323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 35/48] fix: a kernel that samples a field can be merged more
 than once into the same kernel

---
 parcels/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index b6a0fbe..9d7caee 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -468,7 +468,7 @@ class Kernel(object):
     def merge(self, kernel):
         funcname = self.funcname + kernel.funcname
         func_ast = FunctionDef(name=funcname, args=self.py_ast.args,
-                               body=self.py_ast.body + kernel.py_ast.body,
+                               body=deepcopy(self.py_ast.body) + deepcopy(kernel.py_ast.body),
                                decorator_list=[], lineno=1, col_offset=0)
         delete_cfiles = self.delete_cfiles and kernel.delete_cfiles
         return Kernel(self.fieldset, self.ptype, pyfunc=None,
-- 
2.43.0


From 808d6bdf4b91bb256f6745bdbe1bec33138f2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 36/48] fix: files of a failed kernel compilation are removed
 with the kernel

---
 parcels/kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 9d7caee..d9a68cf 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -207,7 +207,7 @@ class Kernel(object):
         # If file already exists, pull new names. This is necessary on a Windows machine, because
         # Python's ctype does not deal in any sort of manner well with dynamic linked libraries on this OS.
         if path.isfile(self.lib_file):
-            [remove(s) for s in [self.src_file, self.lib_file, self.log_file]]
+            [remove(s) for s in [self.src_file, self.lib_file, self.log_file] if path.isfile(s)]
             if MPI:
                 mpi_comm = MPI.COMM_WORLD
                 mpi_rank = mpi_comm.Get_rank()
@@ -223,11 +223,12 @@ class Kernel(object):
 
     def compile(self, compiler):
         """ Writes kernel code to file and compiles it."""
+        # The files are also to be removed when the compilation fails halfway
+        self._cleanup_files = finalize(self, cleanup_remove_files, self.delete_cfiles, self.src_file, self.lib_file, self.log_file)
         with open(self.src_file, 'w') as f:
             f.write(self.ccode)
         compiler.compile(self.src_file, self.lib_file, self.log_file)
         logger.info("Compiled %s ==> %s" % (self.name, self.lib_file))
-        self._cleanup_files = finalize(self, cleanup_remove_files, self.delete_cfiles, self.src_file, self.lib_file, self.log_file)
 
     def load_lib(self):
         self._lib = npct.load_library(self.lib_file, '.')
@@ -489,8 +490,8 @@ class Kernel(object):
 
 
 def cleanup_remove_files(delete_cfiles, src_file, lib_file, log_file):
-    if path.isfile(lib_file) and delete_cfiles:
-        [remove(s) for s in [src_file, lib_file, log_file]]
+    if delete_cfiles:
+        [remove(s) for s in [src_file, lib_file, log_file] if path.isfile(s)]
 
 
 def cleanup_unload_lib(lib):
-- 
2.43.0


From a1e51c9ab90b9069371fb9eec2c8a33cbdb32ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 37/48] fix: a particle that was written more than once at the
 restart time is restarted once

---
 parcels/particlesets/particlesetsoa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index c32a167..4a759fc 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -387,6 +387,8 @@ class ParticleSetSOA(BaseParticleSet):
             restarttime = restarttime
 
         inds = np.where(vars['time'] == restarttime)
+        last = np.diff(np.append(inds[0], -1)) != 0  # a particle can have been written more than once at the same time
+        inds = tuple(i[last] for i in inds)
         lastID = max(pclass.lastID, int(np.nanmax(vars['id'])) + 1)  # IDs in use, also of particles not restarted
         for v in vars:
             if to_write[v] is True:
-- 
2.43.0


From f986dbb3e3ea450c2581237452495faa5a4270d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:04 +0000
Subject: [PATCH 38/48] fix: compiled kernels finish their step after deleting
 the particle, as interpreted ones do

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 29177b9..19acff9 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -363,7 +363,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
 
         if isinstance(node.func, ParticleAttributeNode) \
            and node.func.attr == 'state':
-            node = IntrinsicNode(node, "return DELETE")
+            node = IntrinsicNode(node, "particles->state[pnum] = DELETE")
 
         elif isinstance(node.func, FieldEvalCallNode):
             # get a temporary value to assign result to
-- 
2.43.0


From a9cdb6119562da852417059bffb9a19657a46a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 39/48] fix: the next time step set by a failing step is
 discarded in compiled kernels, not given to another particle

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 19acff9..de5f0aa 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1049,6 +1049,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.Assign("_next_dt_set", "0"),
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
-- 
2.43.0


From 471036bec205941b9fc9bab770ff64b9337df895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 40/48] fix: user-defined computations on loading of field data
 are applied once to each loaded time step

---
 parcels/fieldset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 8133515..8ef89ff 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -1055,6 +1055,7 @@ class FieldSet(object):
             if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load or f.dataFiles is None:
                 continue
             g = f.grid
+            f.loaded_time_indices = []
             if g.update_status == 'first_updated':  # First load of data
                 if f.data is not None and not isinstance(f.data, DeferredArray):
                     if not isinstance(f.data, list):
-- 
2.43.0


From 16a2306db727a7133eed7aef9a77516a034799e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 41/48] fix: populate_indices gives the cell of a point nearest
 the last row or column, not an index past it

---
 parcels/particlesets/particlesetsoa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 4a759fc..dc5b565 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -228,8 +228,9 @@ class ParticleSetSOA(BaseParticleSet):
                 _, idx = tree.query(pts.astype(tree_data.dtype))
                 yi, xi = np.unravel_index(idx, grid.lon.shape)
 
-                self._collection.data['xi'][:, i] = xi
-                self._collection.data['yi'][:, i] = yi
+                # the last grid point is not the lower left corner of a cell
+                self._collection.data['xi'][:, i] = np.minimum(xi, grid.lon.shape[1] - 2)
+                self._collection.data['yi'][:, i] = np.minimum(yi, grid.lon.shape[0] - 2)
 
     @property
     def error_particles(self):
-- 
2.43.0


From 7bbdd860cf93ba9fc2745c612ce7a75cac3adce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 42/48] fix: search in flat curvilinear grids does not wrap in
 interpreted mode; folding stays within the grid

---
 parcels/field.py               | 4 ++--
 parcels/include/index_search.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9ce0d31..1e20d60 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -699,7 +699,7 @@ class Field(object):
         if yi > ydim-2:
             yi = ydim-2
             if sphere_mesh:
-                xi = xdim - xi
+                xi = min(xdim - xi, xdim-2)
         return xi, yi
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
@@ -851,7 +851,7 @@ class Field(object):
                 yi -= 1
             elif eta > 1+tol:
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh)
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
             it += 1
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..c906591 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -159,7 +159,7 @@ static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, i
     if (*yi > ydim-2){
       (*yi) = ydim-2;
       if (sphere_mesh)
-        (*xi) = xdim - (*xi);
+        (*xi) = (xdim - (*xi) < xdim-2) ? xdim - (*xi) : xdim-2;
     }
   }
 }
-- 
2.43.0


From 2f876bca321e8783514afe472a5ff60ebd0d0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:14 +0000
Subject: [PATCH 43/48] fix: merged kernels include files and shared C
 functions of the user correctly

---
 parcels/kernel.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index d9a68cf..a77251d 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -80,7 +80,14 @@ class Kernel(object):
         self.delete_cfiles = delete_cfiles
         self._cleanup_files = None
         self._cleanup_lib = None
-        self.c_include = c_include
+        # List of C code to include: files are read, and what merged kernels have in common is included once
+        self.c_include = []
+        for code in c_include if isinstance(c_include, list) else [c_include]:
+            if path.isfile(code):
+                with open(code, 'r') as f:
+                    code = f.read()
+            if code and code not in self.c_include:
+                self.c_include.append(code)
 
         # Derive meta information from pyfunc, if not given
         self.funcname = funcname or pyfunc.__name__
@@ -163,13 +170,8 @@ class Kernel(object):
                             self.field_args[sF_name] = getattr(f, sF_component)
             self.const_args = kernelgen.const_args
             loopgen = LoopGenerator(fieldset, ptype)
-            if path.isfile(c_include):
-                with open(c_include, 'r') as f:
-                    c_include_str = f.read()
-            else:
-                c_include_str = c_include
             self.ccode = loopgen.generate(self.funcname, self.field_args, self.const_args,
-                                          kernel_ccode, c_include_str)
+                                          kernel_ccode, "\n".join(self.c_include))
             if MPI:
                 mpi_comm = MPI.COMM_WORLD
                 mpi_rank = mpi_comm.Get_rank()
-- 
2.43.0


From 078a14257419d901e3b6903a56a46f24c89f678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:12 +0000
Subject: [PATCH 44/48] fix: the name of an unloaded kernel library is not used
 again

---
 parcels/kernel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index a77251d..79ff60e 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -194,7 +194,8 @@ class Kernel(object):
 
     def remove_lib(self):
         # Unload the currently loaded dynamic linked library to be secure
-        if self._lib is not None:
+        was_loaded = self._lib is not None
+        if was_loaded:
             _ctypes.FreeLibrary(self._lib._handle) if platform == 'win32' else _ctypes.dlclose(self._lib._handle)
             del self._lib
             self._lib = None
@@ -208,8 +209,9 @@ class Kernel(object):
 
         # If file already exists, pull new names. This is necessary on a Windows machine, because
         # Python's ctype does not deal in any sort of manner well with dynamic linked libraries on this OS.
-        if path.isfile(self.lib_file):
-            [remove(s) for s in [self.src_file, self.lib_file, self.log_file] if path.isfile(s)]
+        # The name of a library that was loaded is not used again either: ctypes would return the unloaded library.
+        old_files = [s for s in [self.src_file, self.lib_file, self.log_file] if path.isfile(s)]
+        if was_loaded or self.lib_file in old_files:
             if MPI:
                 mpi_comm = MPI.COMM_WORLD
                 mpi_rank = mpi_comm.Get_rank()
@@ -222,6 +224,7 @@ class Kernel(object):
             self.src_file = "%s.c" % basename
             self.lib_file = "%s.%s" % (basename, 'dll' if platform == 'win32' else 'so')
             self.log_file = "%s.log" % basename
+            [remove(s) for s in old_files]
 
     def compile(self, compiler):
         """ Writes kernel code to file and compiles it."""
-- 
2.43.0


From bff5d686fb9fe5f8e1e2c474c9f8ec3c8f8329c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 45/48] fix: minimum and maximum of a field apply to data
 loaded later as to data in memory

In deferred loading they were compared with the data after scaling, in full loading with the data before.
---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1e20d60..2fdf3f1 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1312,12 +1312,12 @@ class Field(object):
 
     def rescale_and_set_minmax(self, data):
         data[np.isnan(data)] = 0
-        if self._scaling_factor:
-            data *= self._scaling_factor
         if self.vmin is not None:
             data[data < self.vmin] = 0
         if self.vmax is not None:
             data[data > self.vmax] = 0
+        if self._scaling_factor:
+            data *= self._scaling_factor
         return data
 
     def data_concatenate(self, data, data_to_concat, tindex):
-- 
2.43.0


From 65e366b89826f2e50ebaa7ad3ae24c2a96dcb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 46/48] fix: full loading of files with several time steps
 whose times are given as timestamps

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 2fdf3f1..8074534 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -231,8 +231,8 @@ class Field(object):
             for findex in range(len(data_filenames)):
                 for f in [data_filenames[findex], ] * len(timestamps[findex]):
                     dataFiles.append(f)
-            timeslices = np.array([stamp for file in timestamps for stamp in file])
-            time = timeslices
+            timeslices = [np.array(file) for file in timestamps]
+            time = np.concatenate(timeslices)
         else:
             timeslices = []
             dataFiles = []
-- 
2.43.0


From 8570e6498a10b513dfc6198b1ffbd3ce6e75ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 47/48] fix: the end of the loaded time steps of a periodic
 field has an index of its own

The index -1 did not work for time-varying depths, of which the next time step is used too.
---
 parcels/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 8074534..e2a4461 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1069,6 +1069,8 @@ class Field(object):
                     self.grid.periods = periods
                 time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
                 time_index = self.grid.time <= time
+                if time_index.all():
+                    return (len(self.grid.time) - 1, periods)
                 ti = time_index.argmin() - 1 if time_index.any() else 0
                 return (ti, periods)
             return (time_index.argmin() - 1 if time_index.any() else 0, 0)
-- 
2.43.0


From 232f75822a604fbdca5dc438f43b2d31b019e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 48/48] fix: fields given by files per dimension share a grid
 only if it is the same

The coordinate files were not compared when dimensions were given per field, and fields with the same coordinate files but
with data at other times (or split differently over the files) used the time steps of the first field.
---
 parcels/field.py    | 14 +++++++++++---
 parcels/fieldset.py |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index e2a4461..ba4ba64 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -383,9 +383,17 @@ class Field(object):
         elif grid is not None and ('dataFiles' not in kwargs or kwargs['dataFiles'] is None):
             # ==== means: the field has a shared grid, but may have different data files, so we need to collect the
             # ==== correct file time series again.
-            _, _, _, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
-                                                        dimensions, indices, netcdf_engine)
+            time, time_origin, timeslices, dataFiles = cls.collect_timeslices(timestamps, data_filenames,
+                                                                              _grid_fb_class, dimensions,
+                                                                              indices, netcdf_engine)
+            grid_time = grid.time_full[:-1] if grid._add_last_periodic_data_timestep else grid.time_full
+            if time_origin != grid.time_origin or not np.array_equal(time, grid_time):
+                # the data files have other time steps than those of the field the grid comes from
+                grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+                grid.timeslices = timeslices
             kwargs['dataFiles'] = dataFiles
+        else:
+            timeslices = grid.timeslices
 
         chunksize = kwargs.get('chunksize', None)
         grid.chunksize = chunksize
@@ -414,7 +422,7 @@ class Field(object):
             # Pre-allocate data before reading files into buffer
             data_list = []
             ti = 0
-            for tslice, fname in zip(grid.timeslices, data_filenames):
+            for tslice, fname in zip(timeslices, data_filenames):
                 with _field_fb_class(fname, dimensions, indices, netcdf_engine,
                                      interp_method=interp_method, data_full_zdim=data_full_zdim,
                                      chunksize=chunksize) as filebuffer:
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 8ef89ff..2bddcdd 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -399,7 +399,7 @@ class FieldSet(object):
                     elif isinstance(filenames[procvar], dict):
                         processedGrid = True
                         for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
+                            if dim in dims:
                                 processedGrid *= filenames[procvar][dim] == filenames[var][dim]
                     if processedGrid:
                         grid = fields[procvar].grid
-- 
2.43.0

