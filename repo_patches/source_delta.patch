From f1f444cc14a3634cc35e53ad73b0974fe9e0efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 01/56] fix: log_stats when a run ends exactly at the last
 warmup iteration

The end of warmup is recorded at the start of the following step, so a run
stopping exactly after warmup_iterations steps (e.g. evolve with
stop_iteration=10) raised AttributeError instead of logging its stats.
---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..5d94c07 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -761,7 +761,7 @@ class InitialValueSolver(SolverBase):
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From b01376b7894366d232da82c4feebfb7c322759e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/56] fix: log_stats (and evolve) before any step has been
 taken

Evolving a solver that already meets a stop criterion raised AttributeError
because the end of the setup time is only recorded on the first step.
---
 dedalus/core/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 5d94c07..6e33438 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -588,6 +588,8 @@ class InitialValueSolver(SolverBase):
         self.stop_sim_time = np.inf
         self.stop_wall_time = np.inf
         self.stop_iteration = np.inf
+        # Default end of setup, updated on first step
+        self.start_time_end = self.wall_time
         logger.debug('Finished IVP instantiation')
 
     @property
-- 
2.43.0


From ca6039849d5484559bcd4454a660657a226841dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 03/56] fix: write each axis's own mode numbers as
 coefficient-space output scales

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..1b953b7 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -553,7 +553,7 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 96858376e6f406f3ed7ad7bc530ed34facb559a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 04/56] fix: find previous output sets by exact name, and
 continue numbering past sets without records

---
 dedalus/core/evaluator.py | 59 ++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 1b953b7..06e0032 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -399,38 +399,37 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
-            sets = list(self.base_path.glob(set_pattern))
+            # Find outputs of previous sessions, by set number
+            set_pattern = re.compile(re.escape(self.name) + r"_s(\d+)(\.h5)?")
+            sets = {}
+            for path in self.base_path.glob('*'):
+                m = set_pattern.fullmatch(path.name)
+                if m:
+                    sets.setdefault(int(m.group(1)), []).append(path)
             if mode == "overwrite":
-                for set in sets:
-                    if set.is_dir():
-                        shutil.rmtree(str(set))
-                    else:
-                        set.unlink()
+                for paths in sets.values():
+                    for set in paths:
+                        if set.is_dir():
+                            shutil.rmtree(str(set))
+                        else:
+                            set.unlink()
                 set_num = 1
                 total_write_num = 0
             elif mode == "append":
-                set_nums = []
-                if sets:
-                    for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
-                        if m:
-                            set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
-                    joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
-                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
+                max_set = max(sets, default=0)
+                last_write_num = 0
+                # Find last recorded write, skipping any sets that ended before recording one
+                for prev_set in sorted(sets, reverse=True):
+                    joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,prev_set))
+                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,prev_set))
                     if os.path.exists(str(joined_file)):
-                        with h5py.File(str(joined_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
+                        last_write_num = self.get_last_write_num(joined_file)
                     elif os.path.exists(str(p0_file)):
-                        with h5py.File(str(p0_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    else:
-                        last_write_num = 0
-                        logger.warning("Cannot determine write num from files. Restarting count.")
-                else:
-                    max_set = 0
-                    last_write_num = 0
+                        last_write_num = self.get_last_write_num(p0_file)
+                    if last_write_num:
+                        break
+                if sets and not last_write_num:
+                    logger.warning("Cannot determine write num from files. Restarting count.")
                 set_num = max_set + 1
                 total_write_num = last_write_num
         else:
@@ -446,6 +445,14 @@ class H5FileHandlerBase(Handler):
             if comm.rank == 0:
                 base_path.mkdir(exist_ok=True, parents=True)
 
+    @staticmethod
+    def get_last_write_num(path):
+        """Get last write number recorded in a file, or 0 if it has no records."""
+        with h5py.File(str(path), 'r') as file:
+            if 'scales' in file and 'write_number' in file['scales']:
+                return int(np.max(file['scales']['write_number'][:], initial=0))
+        return 0
+
     def add_task(self, *args, **kw):
         super().add_task(*args, **kw)
         # Add data distribution information to task dictionary
-- 
2.43.0


From 7fdf111426ada287cc1a6b9543c2378c1641b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 05/56] fix: keep set numbers in output file names when the
 handler name contains a dot

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 06e0032..da930f1 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -499,7 +499,7 @@ class H5FileHandlerBase(Handler):
 
     @property
     def current_file(self):
-        return self.current_path.with_suffix('.h5')
+        return self.base_path.joinpath(f"{self.name}_s{self.set_num}.h5")
 
     def get_file(self, **kw):
         """Return current HDF5 file, creating if necessary."""
-- 
2.43.0


From 1624a70667087b2bd353c53a69679380d842197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 06/56] fix: merge virtual outputs as written by the current
 file handlers

---
 dedalus/tools/post.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 92c2f65..df04390 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -157,7 +157,7 @@ def merge_virtual_file(virtual_file_path, cleanup=False):
 
     # Cleanup after completed merge, if directed
     if cleanup:
-        folder = merged_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
+        folder = merged_file_path.parent.joinpath("{}/".format(merged_file_path.stem))
         logger.info("cleaning up {}".format(folder))
         if os.path.isdir(folder):
             shutil.rmtree(folder)
@@ -203,11 +203,16 @@ def merge_distributed_set(set_path, cleanup=False):
     set_path = pathlib.Path(set_path)
     logger.info("Merging set {}".format(set_path))
 
-    set_stem = set_path.stem
+    set_stem = set_path.name
     proc_paths = set_path.glob("{}_p*.h5".format(set_stem))
     proc_paths = natural_sort(proc_paths)
     joint_path = set_path.parent.joinpath("{}.h5".format(set_stem))
 
+    # Merge using virtual file if present, since it holds the metadata and scales
+    if joint_path.exists():
+        merge_virtual_file(joint_path, cleanup=cleanup)
+        return
+
     # Create joint file, overwriting if it already exists
     with h5py.File(str(joint_path), mode='w') as joint_file:
         # Setup joint file based on first process file (arbitrary)
@@ -276,14 +281,21 @@ def merge_setup(joint_file, proc_paths, virtual=False):
                                                     dtype=proc_dset.dtype,
                                                     chunks=True)
             # Dataset metadata
-            joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
+            if 'task_number' in proc_dset.attrs:
+                joint_dset.attrs['task_number'] = proc_dset.attrs['task_number']
             joint_dset.attrs['constant'] = proc_dset.attrs['constant']
             joint_dset.attrs['grid_space'] = proc_dset.attrs['grid_space']
             joint_dset.attrs['scales'] = proc_dset.attrs['scales']
 
             for i, proc_dim in enumerate(proc_dset.dims):
                 joint_dset.dims[i].label = proc_dim.label
-                if joint_dset.dims[i].label == 't':
+                if virtual:
+                    # Reattach copied scales
+                    for scalename, proc_scale in proc_dim.items():
+                        scale = joint_file['scales'][proc_scale.name.split('/')[-1]]
+                        scale.make_scale(scalename)
+                        joint_dset.dims[i].attach_scale(scale)
+                elif joint_dset.dims[i].label == 't':
                     for scalename in ['sim_time', 'wall_time', 'timestep', 'iteration', 'write_number']:
                         scale = joint_file['scales'][scalename]
                         joint_dset.dims.create_scale(scale, scalename)
-- 
2.43.0


From 35030062a64e6d0967599264cd02a2ae3df3698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 07/56] fix: infer grid scales without rounding up when loading
 or filtering by grid shape

---
 dedalus/core/field.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..60c6e2f 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -761,12 +761,20 @@ class Field(Current):
         else:
             self[layout] = func(global_data[local_slices])
 
+    def _get_grid_shape_scales(self, grid_shape):
+        """Get scales producing specified global grid shape."""
+        base_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        grid_shape = np.array(grid_shape)
+        scales = grid_shape / base_shape
+        # Nudge scales where roundoff would otherwise round up to a larger grid
+        return np.where(np.ceil(scales * base_shape) > grid_shape, np.nextafter(scales, 0), scales)
+
     def load_from_global_grid_data(self, global_data, pre_slices=tuple(), func=None):
         """Load local grid data from array-like global grid data."""
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._get_grid_shape_scales(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -959,8 +967,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._get_grid_shape_scales(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From c66e11154f39fdd4e40f7dfaa5d90036f4d24067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 08/56] fix: set global data of vector and tensor fields

---
 dedalus/core/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 60c6e2f..f1971ce 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -622,8 +622,9 @@ class Field(Current):
         return copy
 
     def set_global_data(self, global_data):
-        elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        component_slices = tuple(slice(None) for cs in self.tensorsig)
+        spatial_slices = self.layout.slices(self.domain, self.scales)
+        self.set_local_data(global_data[component_slices + spatial_slices])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From c8b51b40f8902cea1e833699dde6948c6f6b1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 09/56] fix: zero unresolved cosine modes when only the
 constant mode is resolved

---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..8200187 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From ee34005429bef183a9427efa74b735cad986ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 10/56] fix: leave fields in the decremented layout after a
 group transpose without communication

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..b017e3a 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From db7982a72491c830181838ed6ad032699272012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 11/56] fix: build Alltoallv transposes with chunked blocks, as
 TransposePlanner calls them

---
 dedalus/core/transposes.pyx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..882463d 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -254,6 +254,8 @@ cdef class AlltoallvTranspose:
     ----------
     global_shape : ndarray of np.int32
         Global array shape
+    chunk_shape : ndarray of np.int32
+        Chunk shape
     dtype : data type
         Data type
     axis : int
@@ -267,6 +269,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +287,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +300,15 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
-        # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Global number of chunks
+        CG1 = -(-global_shape[axis] // C1)  # ceil
+        CG2 = -(-global_shape[axis+1] // C2)  # ceil
+        # Local number of elements
+        B1 = C1 * -(-CG1 // pycomm.size)
+        B2 = C2 * -(-CG2 // pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From f4b9e330aa59d9635b12e507811a04967c658414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 12/56] fix: split non-contiguous group slices instead of
 covering them with one bounding box

---
 dedalus/core/distributor.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index b017e3a..961df40 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -480,17 +480,19 @@ class Layout:
         for s in itertools.product(*slices):
             sliced_selections = selections[tuple(s)]
             if np.any(sliced_selections): # some elements match group
-                # assume selected groups are cartesian product, find left and right bounds
-                lefts = list(map(np.min, np.where(sliced_selections)))
-                rights = list(map(np.max, np.where(sliced_selections)))
-                # build multidimensional group slice
-                group_slice = []
-                for i in range(dim):
+                # assume selected groups are cartesian products of contiguous runs, find bounds of each run
+                run_slices = []
+                for i, indices in enumerate(np.where(sliced_selections)):
                     if s[i] != slice(None):
-                        group_slice.append(s[i])
+                        run_slices.append([s[i]])
                     else:
-                        group_slice.append(slice(lefts[i], rights[i]+1))
-                group_slices.append(tuple(group_slice))
+                        indices = np.unique(indices)
+                        runs = np.split(indices, np.where(np.diff(indices) > 1)[0] + 1)
+                        run_slices.append([slice(run[0], run[-1]+1) for run in runs])
+                # build multidimensional group slices
+                for group_slice in itertools.product(*run_slices):
+                    if np.any(selections[group_slice]):
+                        group_slices.append(group_slice)
         return group_slices
 
     def slices(self, domain, scales):
-- 
2.43.0


From 6664da6767c07126fd11232704a4f5713a04a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 13/56] fix: take Cartesian and direct-product components along
 tensor indices beyond the first; keep the coordinate in gradients along a
 single coordinate

---
 dedalus/core/operators.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..4254fcb 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2342,9 +2342,6 @@ class CartesianGradient(Gradient):
     cs_type = (coords.CartesianCoordinates, coords.Coordinate)
 
     def __init__(self, operand, coordsys, out=None):
-        # Wrap to handle gradient wrt single coordinate
-        if isinstance(coordsys, coords.Coordinate):
-            coordsys = coords.CartesianCoordinates(coordsys.name)
         # Assemble partial derivatives along each coordinate
         args = [Differentiate(operand, coord) for coord in coordsys.coords]
         # TODO: get rid of this hack
@@ -3354,7 +3351,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3375,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From f8cbc3a9fd6d9399a473804075f45417a6882288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 14/56] fix: resolve negative tensor indices in transposes,
 components and skew

---
 dedalus/core/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4254fcb..e192f3e 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1927,8 +1927,8 @@ class TransposeComponents(LinearOperator, metaclass=MultiClass):
         self.input_basis = self.domain.get_basis(self.coordsys)
         # Store new axis order
         new_axis_order = np.arange(len(self.tensorsig) + self.dist.dim)
-        new_axis_order[indices[0]] = indices[1]
-        new_axis_order[indices[1]] = indices[0]
+        new_axis_order[i0] = i1
+        new_axis_order[i1] = i0
         self.new_axis_order = tuple(new_axis_order)
 
     def new_operand(self, operand, **kw):
@@ -2067,6 +2067,7 @@ class Skew(LinearOperator, metaclass=MultiClass):
         return False
 
     def __init__(self, operand, index=0, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.coordsys = operand.tensorsig[index]
@@ -2245,6 +2246,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2270,6 +2272,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2303,6 +2306,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
         super().__init__(operand, index=index, out=out)
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
-- 
2.43.0


From d4270441c6f9e3dc5931de6d71bd1d8699e6bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 15/56] fix: curl on direct products with the plane first

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index e192f3e..d68ea98 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3765,7 +3765,7 @@ class DirectProductCurl(Curl):
             az = 0
             uz, uh = comps
             cz, ch = coordsys.coordsystems
-        elif comps[0].dim == 2 and comps[1].dim == 1:
+        elif comps[0].tensorsig[index].dim == 2 and comps[1].tensorsig[index].dim == 1:
             az = 2
             uh, uz = comps
             ch, cz = coordsys.coordsystems
-- 
2.43.0


From 30c00923b5e2e4b86a9ef024256a52924fb6d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 16/56] fix: resolve negative tensor indices in Cartesian and
 direct-product components

---
 dedalus/core/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d68ea98..a4815e0 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3316,6 +3316,7 @@ class CartesianComponent(CartCompBase):
     cs_type = (coords.CartesianCoordinates, coords.Coordinate)
 
     def __init__(self, operand, index, comp, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.comp = comp
@@ -3364,6 +3365,7 @@ class DirectProductComponent(CartCompBase):
     cs_type = coords.DirectProduct
 
     def __init__(self, operand, index, comp, out=None):
+        if index < 0: index += len(operand.tensorsig)
         super().__init__(operand, out=out)
         self.index = index
         self.comp = comp
-- 
2.43.0


From 54c7e1bde3d01a4818a2e6ef7def1ab90d59ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 17/56] fix: keep the index order in Cartesian curls of tensors

---
 dedalus/core/operators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a4815e0..a30ef8b 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3707,7 +3707,14 @@ class CartesianCurl(Curl):
         ez = operand.dist.VectorField(coordsys, name='ez')
         for i,e in enumerate([ex,ey,ez]):
             e['g'][i] = 1
-        arg = x_comp*ex + y_comp*ey + z_comp*ez
+        # Place curl index in position of operand index
+        rank = len(operand.tensorsig)
+        if index % rank == rank - 1:
+            arg = x_comp*ex + y_comp*ey + z_comp*ez
+        elif index % rank == 0:
+            arg = ex*x_comp + ey*y_comp + ez*z_comp
+        else:
+            raise NotImplementedError("CartesianCurl is only implemented for the first and last tensor indices.")
         if not coordsys.right_handed:
             arg *= -1
         # arg = ([x_comp, y_comp, z_comp],)
-- 
2.43.0


From 35c41e0e6c40672554e504833415ee64d663278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 18/56] fix: Laplacian, divergence and curl of operands varying
 along only some of the coordinates

---
 dedalus/core/operators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a30ef8b..c0e5b11 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3424,6 +3424,8 @@ class Divergence(LinearOperator, metaclass=MultiClass):
     def _preprocess_args(cls, operand, index=0, out=None):
         if isinstance(operand, Number):
             raise SkipDispatchException(output=0)
+        if not any([operand.domain.get_basis(c) for c in operand.tensorsig[index].coords]):
+            raise SkipDispatchException(output=0)
         return [operand], {'index': index, 'out': out}
 
     @classmethod
@@ -3675,6 +3677,8 @@ class Curl(LinearOperator, metaclass=MultiClass):
     def _preprocess_args(cls, operand, index=0, out=None):
         if isinstance(operand, Number):
             raise SkipDispatchException(output=0)
+        if not any([operand.domain.get_basis(c) for c in operand.tensorsig[index].coords]):
+            raise SkipDispatchException(output=0)
         return [operand], {'index': index, 'out': out}
 
     @classmethod
@@ -4001,11 +4005,8 @@ class Laplacian(LinearOperator, metaclass=MultiClass):
             coordsys = operand.dist.single_coordsys
             if coordsys is False:
                 raise ValueError("coordsys must be specified.")
-        elif isinstance(coordsys, coords.DirectProduct):
-            if not any([operand.domain.get_basis(cs) for cs in coordsys.coordsystems]):
-                raise SkipDispatchException(output=0)
-        elif isinstance(coordsys, coords.CartesianCoordinates):
-            if not any([operand.domain.get_basis(cs) for cs in coordsys.coords]):
+        if isinstance(coordsys, (coords.DirectProduct, coords.CartesianCoordinates)):
+            if not any([operand.domain.get_basis(c) for c in coordsys.coords]):
                 raise SkipDispatchException(output=0)
         elif operand.domain.get_basis(coordsys) is None:
             raise SkipDispatchException(output=0)
-- 
2.43.0


From 259f49ebff27cd4a01e35e511727cfc464153df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 19/56] fix: combine curvilinear interface fields with
 constants in sums and products

---
 dedalus/core/arithmetic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..7c33408 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -98,7 +98,8 @@ class Add(Future, metaclass=MultiClass):
         """Build output bases."""
         dist = unify_attributes(args, 'dist')
         bases = []
-        for coord in args[0].domain.bases_by_coord:
+        # Arguments may have bases on different coordinates (e.g. interfaces of curvilinear bases)
+        for coord in dict.fromkeys(coord for arg in args for coord in arg.domain.bases_by_coord):
             ax_bases = tuple(arg.domain.bases_by_coord.get(coord, None) for arg in args)
             # All constant bases yields constant basis
             if all(basis is None for basis in ax_bases):
@@ -270,9 +271,10 @@ class Product(Future):
         bases = []
         arg0_bases = arg0.domain.bases_by_coord
         arg1_bases = arg1.domain.bases_by_coord
-        for coord in arg0_bases:
-            b0 = arg0_bases[coord]
-            b1 = arg1_bases[coord]
+        # Arguments may have bases on different coordinates (e.g. interfaces of curvilinear bases)
+        for coord in {**arg0_bases, **arg1_bases}:
+            b0 = arg0_bases.get(coord, None)
+            b1 = arg1_bases.get(coord, None)
             # All constant bases yields constant basis
             if b0 is None and b1 is None:
                 continue
-- 
2.43.0


From df6ae913ba5a235fad3d6dc441dc706b6f322db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 20/56] fix: skew of vectors on curvilinear interfaces, and its
 matrix beyond the first axis

---
 dedalus/core/operators.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index c0e5b11..a80e98e 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2131,12 +2131,19 @@ class SpinSkew(Skew):
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
         self.azimuth_axis = self.dist.get_axis(self.coordsys.coords[0])
+        # Interfaces (1D azimuth bases) keep coordinate components in coefficient space
+        basis = self.domain.get_basis(self.coordsys)
+        self.spin_components = (basis is not None) and (basis.dim > 1)
 
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         # Build identity factors for each tangent space and coeffs
         shape = subproblem.field_shape(self)
         factors = [sparse.identity(size, format='csr') for size in shape]
+        # Left handed coordinate components
+        if not self.spin_components:
+            factors[self.index] = np.array([[0, 1], [-1, 0]])
+            return reduce(sparse.kron, factors, 1).tocsr()
         # Weight by spin (spinorder: -, +)
         factors[self.index] = np.array([[-1, 0], [0, 1]])
         # Multiply by 1j
@@ -2144,7 +2151,7 @@ class SpinSkew(Skew):
             factors[self.index] = 1j * factors[self.index]
         else:
             azimuth_index = len(self.tensorsig) + self.azimuth_axis
-            id_m = sparse.identity(shape[self.azimuth_axis]//2, format='csr')
+            id_m = sparse.identity(shape[azimuth_index]//2, format='csr')
             mul_1j = np.array([[0, -1], [1, 0]])
             factors[azimuth_index] = sparse.kron(id_m, mul_1j)
         return reduce(sparse.kron, factors, 1).tocsr()
@@ -2159,7 +2166,7 @@ class SpinSkew(Skew):
         out.preset_layout(arg.layout)
         # Apply skew
         if arg.data.size:
-            if arg.layout.grid_space[azimuth_axis+1]:
+            if arg.layout.grid_space[azimuth_axis+1] or not self.spin_components:
                 # Left handed
                 sx = axslice(self.index, 0, 1)
                 sy = axslice(self.index, 1, 2)
@@ -2434,7 +2441,7 @@ class DirectProductGradient(Gradient):
         # Taken from Add operator
         dist = unify_attributes(args, 'dist')
         bases = []
-        for coord in args[0].domain.bases_by_coord:
+        for coord in dict.fromkeys(coord for arg in args for coord in arg.domain.bases_by_coord):
             ax_bases = tuple(arg.domain.bases_by_coord.get(coord, None) for arg in args)
             # All constant bases yields constant basis
             if all(basis is None for basis in ax_bases):
-- 
2.43.0


From 730563262c1bc8cbfb5a325f742953538d578e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 21/56] fix: annulus and shell radial factors when the radius
 is not the last axis

---
 dedalus/core/basis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..17a0686 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2173,8 +2173,8 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         return Jacobi.transforms[self.radius_library](grid_size, self.Nmax+1, a, b, a0, b0)
 
     @CachedMethod
-    def radial_transform_factor(self, scale, data_axis, dk):
-        r = reshape_vector(self._radius_grid(scale), dim=data_axis, axis=data_axis-1)
+    def radial_transform_factor(self, scale, data_axis, data_dim, dk):
+        r = reshape_vector(self._radius_grid(scale), dim=data_dim, axis=data_axis)
         return (self.dR/r)**dk
 
     def forward_transform_radius(self, field, axis, gdata, cdata):
@@ -2182,7 +2182,7 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Expand gdata if mmax=0 and dtype=float for spin recombination
         if self.mmax == 0 and self.dtype == np.float64:
             m_axis = len(field.tensorsig) + axis - 1
@@ -2221,7 +2221,7 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         self.backward_spin_recombination(field.tensorsig, axis, temp, gdata)
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
         if self.mmax == 0 and self.dtype == np.float64:
             gdata_orig[:] = gdata[axslice(m_axis, 0, 1)]
 
@@ -3790,8 +3790,8 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         return Q0[0,0]
 
     @CachedMethod
-    def radial_transform_factor(self, scale, data_axis, dk):
-        r = reshape_vector(self._radius_grid(scale), dim=data_axis, axis=data_axis-1)
+    def radial_transform_factor(self, scale, data_axis, data_dim, dk):
+        r = reshape_vector(self._radius_grid(scale), dim=data_dim, axis=data_axis)
         return (self.dR/r)**dk
 
     @CachedMethod
@@ -3816,7 +3816,7 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Apply recombinations
         self.forward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         temp = np.copy(gdata)
@@ -3841,7 +3841,7 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         self.backward_regularity_recombination(field.tensorsig, axis, gdata, self.ell_maps(field.dist))
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
 
     @CachedMethod
     def operator_matrix(self, op, l, regtotal, size=None):
@@ -4477,7 +4477,7 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Apply regularity recombination using 3D ell map
         radial_basis.forward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         # Perform radial transforms component-by-component
@@ -4505,7 +4505,7 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         radial_basis.backward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
 
     def build_ncc_matrix(self, product, subproblem, ncc_cutoff, max_ncc_terms):
         axis = product.dist.last_axis(self)
-- 
2.43.0


From 8a585240b9e8afff8b41c249da02b6d0fb5af536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 22/56] fix: pass zeros through linear operators in symbolic
 transformations; keep argument order when replacing operator types

split, sym_diff and replace handed the number 0 to operators that only accept
fields (components, locks), and replacing an operator type swapped old and new
in the recursion.
---
 dedalus/core/operators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a80e98e..ef0df14 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -672,6 +672,12 @@ class LinearOperator(FutureField):
         # Subclasses must implement with correct arguments
         raise NotImplementedError("%s has not implemented the new_operand method." %type(self))
 
+    def _new_operand_or_zero(self, operand):
+        # Linear operators map zero to zero, including those that only accept fields
+        if isinstance(operand, Number) and operand == 0:
+            return 0
+        return self.new_operand(operand)
+
     def split(self, *vars):
         """Split into expressions containing and not containing specified operands/operators."""
         # Check for matching operator
@@ -680,12 +686,12 @@ class LinearOperator(FutureField):
                 if isinstance(self, var):
                     return (self, 0)
         # Distribute over split operand
-        return tuple(self.new_operand(arg) for arg in self.operand.split(*vars))
+        return tuple(self._new_operand_or_zero(arg) for arg in self.operand.split(*vars))
 
     def sym_diff(self, var):
         """Symbolically differentiate with respect to specified operand."""
         # Differentiate argument
-        return self.new_operand(self.operand.sym_diff(var))
+        return self._new_operand_or_zero(self.operand.sym_diff(var))
 
     def replace(self, old, new):
         """Replace specified operand/operator."""
@@ -694,12 +700,12 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
             new_operand = self.operand.replace(old, new)
-            return self.new_operand(new_operand)
+            return self._new_operand_or_zero(new_operand)
 
     def expand(self, *vars):
         """Expand expression over specified variables."""
-- 
2.43.0


From 27eca0bbfd6fa57c4bcde7e984a9be93bdc6a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 23/56] fix: give time derivatives and averages over intervals
 the new_operand method

---
 dedalus/core/operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index ef0df14..ea7e27f 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1026,6 +1026,12 @@ class TimeDerivative(LinearOperator):
     def base(self):
         return TimeDerivative
 
+    def new_operand(self, operand, **kw):
+        # Time derivatives of numbers vanish
+        if isinstance(operand, Number):
+            return 0
+        return TimeDerivative(operand, **kw)
+
     def _expand_linop(self, operand, vars):
         """Expand over linear operator."""
         # Halt expansion when hitting another time derivative
@@ -1289,6 +1295,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From 83be86709481576bf4b7ab3355b8008c09b4f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 24/56] fix: expansion of products

---
 dedalus/core/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 7c33408..46e1f17 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -322,11 +322,11 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From 763e3386786535e7b907fcd244ec3c9959a8b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 25/56] fix: let locked operands move between their permitted
 layouts

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index ea7e27f..10df042 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -823,7 +823,7 @@ class Lock(FutureLockedField, LinearOperator):
         """Perform operation."""
         arg0 = self.args[0]
         out.preset_layout(arg0.layout)
-        out.lock_to_layouts(self.layouts)
+        out.lock_to_layouts(*self.layouts)
         np.copyto(out.data, arg0.data)
 
     def new_operand(self, operand, **kw):
-- 
2.43.0


From 71118c9a7cb8a99615315b1eb22b473eaebfd6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 26/56] fix: interpolate and average operands that are constant
 along the coordinate

Splitting or expanding (f + g)(x=0) with g constant along x raised an
AttributeError.
---
 dedalus/core/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 10df042..90a5d10 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1097,6 +1097,9 @@ class Interpolate(SpectralOperator, metaclass=MultiClass):
             coord = operand.domain.get_coord(coord)
         else:
             raise ValueError("coord must be Coordinate or str")
+        # Skip operands that are constant along coord
+        if operand.domain.get_basis(coord) is None:
+            raise SkipDispatchException(output=operand)
         return (operand, coord, position), {'out': out}
 
 #    @classmethod
@@ -1265,6 +1268,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         # Check coordinate type
         if not isinstance(coord, (coords.Coordinate, coords.CoordinateSystem)):
             raise ValueError("coords must be Coordinate or str")
+        # Skip operands that are constant along coord
+        if isinstance(coord, coords.Coordinate) and operand.domain.get_basis(coord) is None:
+            raise SkipDispatchException(output=operand)
         return (operand, coord), {}
 
     @classmethod
-- 
2.43.0


From 0bdc1cfaeafa951ca56e7b4794a4afc017f73a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 27/56] fix: curvilinear gradients of constants vanish, as
 their Laplacians do

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 90a5d10..2dd0bc1 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2355,6 +2355,9 @@ class Gradient(LinearOperator, metaclass=MultiClass):
             coordsys = operand.dist.single_coordsys
             if coordsys is False:
                 raise ValueError("coordsys must be specified.")
+        # Curvilinear gradients of constants vanish
+        if isinstance(coordsys, coords.CurvilinearCoordinateSystem) and operand.domain.get_basis(coordsys) is None:
+            raise SkipDispatchException(output=0)
         return [operand, coordsys], {'out': out}
 
     @classmethod
-- 
2.43.0


From 9b3b6dcd4b53999e97b780861514abcb74e1b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 28/56] fix: key memoized calls on all their arguments, and
 count them once towards the size limit

---
 dedalus/tools/cache.py | 53 +++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 6bccbf9..3a5f6bf 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -52,40 +52,33 @@ class CachedFunction:
         self.function = function
         self.__name__ = function.__name__
         self.__doc__ = function.__doc__
+        self.signature = inspect.signature(function)
         # Caching attributes
         self.cache = OrderedDict()
+        self.resolved_calls = {}
         self.max_size = max_size
-        # Retrieve arg names and default kw
-        argnames, _, _, defaults, _, _, _ = inspect.getfullargspec(function)
-        self.argnames = argnames
-        if defaults:
-            self.defaults = dict(zip(reversed(argnames), reversed(defaults)))
-        else:
-            self.defaults = dict()
 
     def __call__(self, *args, **kw):
         # First try direct call signature
         direct_call = (args, tuple(kw.items()))
         try:
-            return self.cache[direct_call]
+            return self.cache[self.resolved_calls[direct_call]]
         except KeyError:
             pass
         # Then try full resolved call
-        resolved_call = serialize_call(args, kw, self.argnames, self.defaults)
-        try:
+        resolved_call = serialize_call(self.signature, args, kw)
+        if resolved_call in self.cache:
             result = self.cache[resolved_call]
-            # Add direct call key to avoid resolving it in subsequent calls
-            self.cache[direct_call] = result
-            return result
-        except KeyError:
-            pass
-        # Reduce cache size if necessary
-        while len(self.cache) >= self.max_size:
-            self.cache.popitem(last=False)
-        # Compute and cache result
-        result = self.function(*args, **kw)
-        self.cache[direct_call] = result
-        self.cache[resolved_call] = result
+        else:
+            # Compute result
+            result = self.function(*args, **kw)
+            # Reduce cache size if necessary
+            while self.cache and len(self.cache) >= self.max_size:
+                old_call, _ = self.cache.popitem(last=False)
+                self.resolved_calls = {k: v for k, v in self.resolved_calls.items() if v != old_call}
+            self.cache[resolved_call] = result
+        # Add direct call key to avoid resolving it in subsequent calls
+        self.resolved_calls[direct_call] = resolved_call
         return result
 
 
@@ -150,14 +143,10 @@ class CachedClass(type):
         # return call.args[1:]
 
 
-def serialize_call(args, kw, argnames, defaults):
+def serialize_call(signature, args, kw):
     """Serialize args/kw into cache key."""
-    call = list(args)
-    for name in argnames[len(args):]:
-        try:
-            arg = kw[name]
-        except KeyError:
-            arg = defaults[name]
-        call.append(arg)
-    return tuple(call)
-
+    call = signature.bind(*args, **kw)
+    call.apply_defaults()
+    # Variable keywords are the only unhashable argument container
+    return tuple(frozenset(arg.items()) if signature.parameters[name].kind is inspect.Parameter.VAR_KEYWORD else arg
+                 for name, arg in call.arguments.items())
-- 
2.43.0


From 9562e8493dd85036f5eebbee180951570624c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 29/56] fix: keep memoized methods and attributes apart from
 those they override, and class methods apart from their subclasses'

---
 dedalus/tools/cache.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 3a5f6bf..4e4bc20 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -28,7 +28,9 @@ class CachedAttribute:
             # Set method output as instance attribute
             # (overrides reference to descriptor from instance)
             attribute = self.method(instance)
-            setattr(instance, self.__name__, attribute)
+            # Unless accessed as an overridden attribute, e.g. via super()
+            if not overridden(self, instance):
+                setattr(instance, self.__name__, attribute)
             return attribute
 
     def __call__(self, *args, **kw):
@@ -90,6 +92,12 @@ class CachedMethod(CachedFunction):
         # Return self when accessed from class
         if instance is None:
             return self
+        # Share cache when accessed as a class method, since subclasses inherit class attributes
+        if isinstance(instance, type):
+            return types.MethodType(self, instance)
+        # Bind without cache when accessed as an overridden method, e.g. via super()
+        if overridden(self, instance):
+            return types.MethodType(self.function, instance)
         # Build new cached method and bind to instance
         # (allows the cache to be deallocated with the instance)
         new_cached_method = CachedMethod(self.function, self.max_size)
@@ -143,6 +151,11 @@ class CachedClass(type):
         # return call.args[1:]
 
 
+def overridden(descriptor, instance):
+    """Check whether an instance's class uses another attribute than the descriptor under its name."""
+    return getattr(type(instance), descriptor.__name__, descriptor) is not descriptor
+
+
 def serialize_call(signature, args, kw):
     """Serialize args/kw into cache key."""
     call = signature.bind(*args, **kw)
-- 
2.43.0


From b94ab6ee5dcb754433385a05160b9536fe1a505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 30/56] fix: RealFourier NCC matrices for constant arguments

---
 dedalus/core/basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 17a0686..37b496c 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1179,7 +1179,9 @@ class RealFourier(FourierBase, metaclass=CachedClass):
         rows = np.concatenate(rows)
         cols = np.concatenate(cols)
         data = np.concatenate(data)
-        matrix = sparse.coo_matrix((data, (rows, cols)), shape=(k_out.size, k_arg.size)).tocsr()
+        # Drop sine columns for constant arguments, which just have the cosine
+        keep = cols < k_arg.size
+        matrix = sparse.coo_matrix((data[keep], (rows[keep], cols[keep])), shape=(k_out.size, k_arg.size)).tocsr()
         return matrix
 
 
-- 
2.43.0


From ac14e228d9721cdc3401ee7d6e72912485b1f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 31/56] fix: matrices converting constants along separable
 Jacobi axes

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 37b496c..aaacc2f 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -694,8 +694,8 @@ class ConvertConstantJacobi(operators.ConvertConstant, operators.SpectralOperato
             unit_amplitude = 1 / output_basis.constant_mode_value
             return np.array([[unit_amplitude]])
         else:
-            # Constructor should only loop over group 0.
-            raise ValueError("This should never happen.")
+            # Constants only have group 0
+            return np.zeros(shape=(1, 0))
 
 
 class DifferentiateJacobi(operators.Differentiate, operators.SpectralOperator1D):
-- 
2.43.0


From 9ca72745c2682a377f035d5f43a58b17789f3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 32/56] fix: matrices of operators acting on Cartesian and
 direct-product curls

---
 dedalus/core/operators.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 2dd0bc1..f7cd2aa 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3762,7 +3762,6 @@ class CartesianCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3770,6 +3769,15 @@ class CartesianCurl(Curl):
     def matrix_coupling(self, *vars):
         return self.args[0].matrix_coupling(*vars)
 
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
+
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         pass
@@ -3849,7 +3857,6 @@ class DirectProductCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3857,6 +3864,15 @@ class DirectProductCurl(Curl):
     def matrix_coupling(self, *vars):
         return self.args[0].matrix_coupling(*vars)
 
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
+
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         pass
-- 
2.43.0


From 7164722dcec01911c9025013727a45ecd22eec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 33/56] fix: polar boundary matrices of vectors with axes after
 the radius

---
 dedalus/core/basis.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index aaacc2f..9598f01 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1576,7 +1576,7 @@ class SpinRecombinationBasis:
                 factors.append(None)
         return factors
 
-    def spin_recombination_matrix(self, tensorsig, n_upstream):
+    def spin_recombination_matrix(self, tensorsig, n_upstream, n_downstream=1):
         # Combine factors, replacing None placeholders
         factors = self.spin_recombination_factors(tensorsig)
         for i, cs in enumerate(tensorsig):
@@ -1592,6 +1592,9 @@ class SpinRecombinationBasis:
             #matrix = np.array([[matrix.real,-matrix.imag],[matrix.imag,matrix.real]])
             matrix = (np.kron(matrix.real,np.array([[1,0],[0,1]]))
                       + np.kron(matrix.imag,np.array([[0,-1],[1,0]])))
+        # Add space for downstream groups
+        if n_downstream > 1:
+            matrix = np.kron(matrix, np.identity(n_downstream))
         return matrix
 
     def forward_spin_recombination(self, tensorsig, colat_axis, gdata, out):
@@ -4895,7 +4898,8 @@ class PolarRadialInterpolate(operators.Interpolate, operators.PolarMOperator):
         radial_basis = self.input_basis
         if self.tensorsig != ():
             n_upstream = prod(subproblem.coeff_shape(self.domain)[:self.last_axis-1])
-            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream)
+            n_downstream = prod(subproblem.coeff_shape(self.domain)[self.last_axis+1:])
+            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream, n_downstream=n_downstream)
             matrix = U.T.conj() @ matrix
         return matrix
 
@@ -4980,7 +4984,8 @@ class LiftDisk(operators.Lift, operators.PolarMOperator):
         # Convert tau to spin first
         if self.tensorsig:
             n_upstream = prod(subshape_out[:radial_axis-1])
-            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream)
+            n_downstream = prod(subshape_in[radial_axis+1:])
+            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream, n_downstream=n_downstream)
             matrix = (matrix @ sparse.csr_matrix(U)).tocsr()
         return matrix
 
@@ -5031,7 +5036,8 @@ class LiftAnnulus(operators.Lift, operators.PolarMOperator):
         # Convert tau to spin first
         if self.tensorsig:
             n_upstream = prod(subshape_out[:self.last_axis-1])
-            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream)
+            n_downstream = prod(subshape_in[self.last_axis+1:])
+            U = radial_basis.spin_recombination_matrix(self.tensorsig, n_upstream=n_upstream, n_downstream=n_downstream)
             matrix = (matrix @ sparse.csr_matrix(U)).tocsr()
         return matrix
 
-- 
2.43.0


From 7fa43971166be0a1c3cbce015a5f2dd16a22b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 34/56] fix: message when a matsolver overrides a solver option

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 6e33438..452815e 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -112,7 +112,7 @@ class SolverBase:
         # Process option overrides from matsolver
         for key, value in matsolver.config.items():
             if getattr(self, key, None) is not value:
-                logger.info("matsolver overriding solver option '%i' with '%s'" %(key, value))
+                logger.info("matsolver overriding solver option '%s' with '%s'" %(key, value))
                 setattr(self, key, value)
         # Setup subsystems and subproblems without building matrices
         self.subsystems = subsystems.build_subsystems(self)
-- 
2.43.0


From 5cf9d5f6a92cfb4f02ce504f2ae8de8e35480a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 35/56] fix: subproblems keep using field data replaced by
 changing scales

---
 dedalus/core/subsystems.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..9350637 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,28 +319,35 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
-    def _input_field_views(self, fields):
+    @CachedMethod(max_size=2)
+    def _input_field_views(self, fields, buffer_ids):
         views = []
         for field, buffer_data in zip(fields, self._input_views):
             for buffer_view, field_slices in buffer_data:
                 field_view = field.data[field_slices]
                 views.append((buffer_view, field_view))
-        return tuple(views)
+        # Keep references to buffers so their ids are not reused
+        return tuple(views), tuple(field.buffer for field in fields)
 
-    @CachedMethod
-    def _output_field_views(self, fields):
+    @CachedMethod(max_size=2)
+    def _output_field_views(self, fields, buffer_ids):
         views = []
         for field, buffer_data in zip(fields, self._output_views):
             for buffer_view, field_slices in buffer_data:
                 field_view = field.data[field_slices]
                 views.append((buffer_view, field_view))
-        return tuple(views)
+        # Keep references to buffers so their ids are not reused
+        return tuple(views), tuple(field.buffer for field in fields)
+
+    @staticmethod
+    def _field_buffer_ids(fields):
+        # Field buffers are replaced when changing to scales above dealias
+        return tuple(id(field.buffer) for field in fields)
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
         # Gather from fields
-        views = self._input_field_views(tuple(fields))
+        views, _ = self._input_field_views(tuple(fields), self._field_buffer_ids(fields))
         for buffer_view, field_view in views:
             np.copyto(buffer_view, field_view)
         # Apply right preconditioner inverse to compress inputs
@@ -352,7 +359,7 @@ class Subproblem:
     def gather_outputs(self, fields, out=None):
         """Gather and precondition subproblem data from output-like field list."""
         # Gather from fields
-        views = self._output_field_views(tuple(fields))
+        views, _ = self._output_field_views(tuple(fields), self._field_buffer_ids(fields))
         for buffer_view, field_view in views:
             np.copyto(buffer_view, field_view)
         # Apply left preconditioner to compress outputs
@@ -366,7 +373,7 @@ class Subproblem:
         # Undo right preconditioner inverse to expand inputs
         apply_sparse(self.pre_right, data, axis=0, out=self._input_buffer)
         # Scatter to fields
-        views = self._input_field_views(tuple(fields))
+        views, _ = self._input_field_views(tuple(fields), self._field_buffer_ids(fields))
         for buffer_view, field_view in views:
             np.copyto(field_view, buffer_view)
 
@@ -375,7 +382,7 @@ class Subproblem:
         # Undo left preconditioner to expand outputs
         apply_sparse(self.pre_left_pinv, data, axis=0, out=self._output_buffer)
         # Scatter to fields
-        views = self._output_field_views(tuple(fields))
+        views, _ = self._output_field_views(tuple(fields), self._field_buffer_ids(fields))
         for buffer_view, field_view in views:
             np.copyto(field_view, buffer_view)
 
-- 
2.43.0


From f924a16ff48d6b01b9d0003681e2c8daf69bdc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 36/56] fix: products of tensors over the parts of direct
 products in matrices

---
 dedalus/core/arithmetic.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 46e1f17..371a21f 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -571,16 +571,32 @@ class Product(Future):
         if axis > 0:
             G = self.Gamma(A_tensorsig, B_tensorsig, C_tensorsig, A_group, B_group, C_group, axis-1)
         # Apply Q
-        cs = self.dist.get_coordsystem(axis)
-        cs_axis = self.dist.get_axis(cs)
-        subaxis = axis - cs_axis
-        QA = cs.backward_intertwiner(subaxis, len(A_tensorsig), A_group[cs_axis:]).T
-        QB = cs.backward_intertwiner(subaxis, len(B_tensorsig), B_group[cs_axis:]).T
-        QC = cs.forward_intertwiner(subaxis, len(C_tensorsig), C_group[cs_axis:])
+        QA = self._intertwiner('backward', A_tensorsig, A_group, axis).T
+        QB = self._intertwiner('backward', B_tensorsig, B_group, axis).T
+        QC = self._intertwiner('forward', C_tensorsig, C_group, axis)
         Q = kron(QA, QB, QC)
         G = (Q @ G.ravel()).reshape(G.shape)
         return G
 
+    def _intertwiner(self, direction, tensorsig, group, axis):
+        """Intertwiner of specified axis over tensor components."""
+        cs = self.dist.get_coordsystem(axis)
+        cs_axis = self.dist.get_axis(cs)
+        # Tensors over the coordinate system of the axis
+        if all(index_cs is cs for index_cs in tensorsig):
+            intertwiner = getattr(cs, f'{direction}_intertwiner')
+            return intertwiner(axis-cs_axis, len(tensorsig), group[cs_axis:])
+        # Tensors over other coordinate systems, e.g. components of direct products
+        factors = []
+        for index_cs in tensorsig:
+            index_axis = self.dist.get_axis(index_cs)
+            if index_axis <= axis < index_axis + index_cs.dim:
+                vector_intertwiner = getattr(index_cs, f'{direction}_vector_intertwiner')
+                factors.append(vector_intertwiner(axis-index_axis, group[index_axis:]))
+            else:
+                factors.append(np.identity(index_cs.dim))
+        return kron(*factors)
+
     def GammaCoord(self, A_tensorsig, B_tensorsig, C_tensorsig):
         raise NotImplementedError("%s has not implemented GammaCoord" %type(self))
 
-- 
2.43.0


From 652204cfbab0f27aa6e3abd0454d353b2c63ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 37/56] fix: radial subproblems of the ball and shell depend on
 ell

---
 dedalus/core/basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 9598f01..35ff759 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4191,6 +4191,9 @@ class Spherical3DBasis(MultidimensionalBasis):
 
     def matrix_dependence(self, matrix_coupling):
         matrix_dependence = matrix_coupling.copy()
+        # Radial truncation and allowed regularities depend on ell
+        if matrix_coupling[2]:
+            matrix_dependence[1] = True
         if matrix_coupling[1]:
             matrix_dependence[0] = True
         return matrix_dependence
-- 
2.43.0


From 263da47d24fddc53fa1361be3ac1e547bd75b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 38/56] fix: sphere subproblems depend on ell

---
 dedalus/core/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 35ff759..588646f 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2779,6 +2779,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
 
     def matrix_dependence(self, matrix_coupling):
         matrix_dependence = matrix_coupling.copy()
+        # Truncation of spin components depends on ell
+        matrix_dependence[1] = True
         if matrix_coupling[1]:
             matrix_dependence[0] = True
         return matrix_dependence
-- 
2.43.0


From e9fb36ea162878cc28a238fcb94b31d95ebf92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 39/56] fix: sparse inverses of 1x1 matrices

---
 dedalus/libraries/matsolvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..9b1d5de 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -224,7 +224,9 @@ class SparseInverse(SparseSolver):
     """Sparse inversion solve."""
 
     def __init__(self, matrix, solver=None):
-        self.matrix_inverse = spla.inv(matrix.tocsc())
+        # Restore shape of 1x1 inverses, which SciPy returns as vectors
+        inverse = spla.inv(matrix.tocsc())
+        self.matrix_inverse = sp.csc_matrix(inverse.reshape(matrix.shape))
 
     def solve(self, vector):
         return self.matrix_inverse @ vector
-- 
2.43.0


From f5171e87e1d5cc114ef2651a63c7b47d878a9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 40/56] fix: keep groups that equation conditions tell apart in
 separate subproblems

---
 dedalus/core/solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 452815e..0755e1d 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -1,5 +1,6 @@
 """Solver classes."""
 
+import ast
 from mpi4py import MPI
 import numpy as np
 import time
@@ -91,6 +92,11 @@ class SolverBase:
                 first_axis = self.dist.get_basis_axis(basis)
                 slices = slice(first_axis, first_axis+basis.dim)
                 self.matrix_dependence[slices] = self.matrix_dependence[slices] | basis.matrix_dependence(matrix_coupling[slices])
+            # Conditions may distinguish between any of the groups they refer to
+            names = {node.id for node in ast.walk(ast.parse(eq['condition'].strip(), mode='eval')) if isinstance(node, ast.Name)}
+            for axis, coord in enumerate(self.dist.coords):
+                if 'n' + coord.name in names:
+                    self.matrix_dependence[axis] = True
         # Process config options
         if matsolver is None:
             matsolver = config['linear algebra'][self.matsolver_default]
-- 
2.43.0


From 547fc86af69c752c41fc0b82aa1fcdcca6b83e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 41/56] fix: keep the axisymmetric group of polar coordinates
 in its own subproblem

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 39ffa2c..032dc2b 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -261,7 +261,7 @@ class PolarCoordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     spin_ordering = (-1, +1)
     dim = 2
-    default_nonconst_groups = (0, 0)
+    default_nonconst_groups = (1, 1) # m=0 has different validity
 
     def __init__(self, azimuth, radius):
         self.names = (azimuth, radius)
-- 
2.43.0


From 7a6dbd9ce0addc98fed446e3c99d787ca450dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 42/56] fix: L2 norm of rank-2 tensors uses the existing
 operators

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index f1971ce..35a3292 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -860,7 +860,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.trace(arithmetic.dot(operators.transpose(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From deef5977c95ceb36e26eccbf283f3e4b47808262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 43/56] fix: initial simulation time keeps its sign

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 0755e1d..3ebb2aa 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -583,7 +583,7 @@ class InitialValueSolver(SolverBase):
             timestepper = timesteppers.schemes[timestepper]
         self.timestepper = timestepper(self)
         # Attributes
-        self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
+        self.sim_time = self.initial_sim_time = problem.time.allgather_data(layout='g').real.item()
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
         if np.isrealobj(self.dtype.type()):
-- 
2.43.0


From 7cb2a0be73cca0bcf0c1f21efed51cada378e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 44/56] fix: default time field takes the dtype of the problem

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..6311f83 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -294,7 +294,7 @@ class InitialValueProblem(ProblemBase):
     def __init__(self, variables, time='t', **kw):
         super().__init__(variables, **kw)
         if isinstance(time, str):
-            self.time = Field(dist=self.dist, name=time, dtype=np.float64)
+            self.time = Field(dist=self.dist, name=time, dtype=np.result_type(*[var.dtype for var in self.variables]))
         elif isinstance(time, Field):
             if any(time.domain.nonconstant):
                 raise ValueError("Time field cannot have any bases.")
-- 
2.43.0


From e61d18d94d15d3e4e0152dc6749f0fa2e8553342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 45/56] fix: output grids use the scales of their own axes

---
 dedalus/core/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index da930f1..0cca19e 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -554,10 +554,12 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    basis_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - basis_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[basis_axis:basis_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-- 
2.43.0


From b28daed1dddd950e6a5872399aba33795d99c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 46/56] fix: evaluate the RHS on every step and restart output
 schedules from a loaded state

---
 dedalus/core/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 3ebb2aa..dcf47d8 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -573,7 +573,8 @@ class InitialValueSolver(SolverBase):
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Always evaluate F, including when the iteration is set back
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -670,6 +671,9 @@ class InitialValueSolver(SolverBase):
             logger.info("Loading write: {}".format(write))
             logger.info("Loading sim time: {}".format(self.sim_time))
             logger.info("Loading timestep: {}".format(dt))
+            # Restart handler schedules from loaded iteration and sim time
+            for handler in self.evaluator.handlers:
+                handler.last_sim_div = handler.last_iter_div = -1
             # Load fields
             for field in self.state:
                 if field.name in file['tasks']:
-- 
2.43.0


From 67eb5eda00d8aa9aed4cb46e42fc981ae8fa8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 47/56] fix: build LBVP matrices together when any process has
 some to build

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index dcf47d8..78063eb 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -393,7 +393,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Building requires communication: join if any process has subproblems to build
+        if self.dist.comm.allreduce(len(sp_to_build)):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From 9281634ba92b4056a62a63277d5ce88d278d28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 48/56] fix: mask empty coefficients of spheres with more
 azimuthal modes than degrees

---
 dedalus/core/basis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 588646f..8815bff 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2894,6 +2894,11 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
                 m[m_max] = Nphi//2 - 1
                 ell[m_max] = j[m_max] - shift
             groups = np.array([m, ell])
+            # Mask empty slots when there are more azimuthal modes than ells
+            empty = (np.abs(m) > ell)
+            if np.any(empty):
+                groups = np.ma.masked_array(groups)
+                groups[:, empty] = np.ma.masked
         return groups
 
     def __eq__(self, other):
@@ -4325,6 +4330,10 @@ class Spherical3DBasis(MultidimensionalBasis):
             nmin = self.radial_basis._nmin(ell)
             groups = np.ma.masked_array(groups)
             groups[:, n < nmin] = np.ma.masked
+        if np.ma.is_masked(s2_groups):
+            # Keep masked sphere modes
+            groups = np.ma.masked_array(groups)
+            groups[:, np.ma.getmaskarray(s2_groups).any(axis=0)] = np.ma.masked
         return groups
 
     # def valid_elements(self, *args):
-- 
2.43.0


From 46ab99f524e7273056cf14d60f85c0f4ebfc1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 49/56] fix: transform the highest azimuthal modes of disks

---
 dedalus/core/basis.py      | 2 +-
 dedalus/core/transforms.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 8815bff..3178468 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2359,7 +2359,7 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         # Other attributes
         self.volume = np.pi * radius**2
         self.radial_COV = AffineCOV((0, 1), (0, radius))
-        if self.mmax > 2*self.Nmax:
+        if self.mmax//2 > self.Nmax:
             logger.warning("You are using more azimuthal modes than can be resolved with your current radial resolution")
         self.grid_params = (coordsys, dtype, radius, alpha, dealias, azimuth_library, radius_library)
         self.edge = self.S1_basis(radius)
diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 8200187..44e931f 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -1366,8 +1366,8 @@ class DiskRadialTransform(NonSeparableTransform):
         Nphi = self.Nphi
         Nmax = self.Nmax
         for m, mg_slice, mc_slice, n_slice in self.m_maps:
-            # Skip transforms when |m| > 2*Nmax
-            if abs(m) <= 2*Nmax:
+            # Skip transforms when |m|//2 > Nmax
+            if abs(m)//2 <= Nmax:
                 # Use rectangular transform matrix, padded with zeros when Nmin > abs(m)//2
                 grm = gdata[:, mg_slice, :, :]
                 crm = cdata[:, mc_slice, n_slice, :]
@@ -1381,7 +1381,7 @@ class DiskRadialTransform(NonSeparableTransform):
         Nphi = self.Nphi
         Nmax = self.Nmax
         for m, mg_slice, mc_slice, n_slice in self.m_maps:
-            if abs(m) > 2*Nmax:
+            if abs(m)//2 > Nmax:
                 # Write zeros because they'll be used by the inverse azimuthal transform
                 gdata[:, mg_slice, :, :] = 0
             else:
-- 
2.43.0


From 09d076dadc0a858ab369c1962e7f3604b024e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 50/56] fix: zero azimuthal modes without grid data on disks
 and annuli

---
 dedalus/core/basis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 3178468..02c9327 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1971,9 +1971,11 @@ class PolarBasis(SpinBasis):
                 self.local_grid_radius(dist, scales[1]))
 
     def forward_transform_azimuth_Mmax0(self, field, axis, gdata, cdata):
-        # slice_axis = axis + len(field.tensorsig)
-        # np.copyto(cdata[axslice(slice_axis, 0, 1)], gdata)
-        np.copyto(cdata[axslice(axis+len(field.tensorsig), 0, 1)], gdata)
+        # Zero remaining modes, through a copy since cdata and gdata may share a buffer
+        slice_axis = axis + len(field.tensorsig)
+        temp = np.zeros_like(cdata)
+        np.copyto(temp[axslice(slice_axis, 0, 1)], gdata)
+        np.copyto(cdata, temp)
 
     def forward_transform_azimuth(self, field, axis, gdata, cdata):
         # Call Fourier transform
-- 
2.43.0


From 2ff9d092ff7a445cedda030c7f3179331e47be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 51/56] fix: matrices of polar boundary values no longer alter
 the cached spin recombinations

---
 dedalus/core/basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 02c9327..3eda24b 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1577,14 +1577,13 @@ class SpinRecombinationBasis:
         return factors
 
     def spin_recombination_matrix(self, tensorsig, n_upstream, n_downstream=1):
-        # Combine factors, replacing None placeholders
-        factors = self.spin_recombination_factors(tensorsig)
+        # Combine factors, replacing None placeholders without modifying cached list
+        factors = list(self.spin_recombination_factors(tensorsig))
         for i, cs in enumerate(tensorsig):
             if factors[i] is None:
                 factors[i] = np.identity(cs.dim)
         # Add space for upstream groups
         if n_upstream > 1:
-            # Create new list to avoid modifying cached list
             factors = factors + [np.identity(n_upstream)]
         matrix = kron(*factors)
         # Expand for cos and msin parts
-- 
2.43.0


From 8f05885f5b82b197160e92e697eccef32b1b1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:34 +0000
Subject: [PATCH 52/56] fix: matrices of polar components of tensors with
 further indices or axes

---
 dedalus/core/basis.py | 54 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 3eda24b..5e13050 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5992,30 +5992,26 @@ class S2AngularComponent(operators.AngularComponent):
         np.copyto(out.data, operand.data[axslice(self.index,0,2)])
 
 
+def polar_component_matrix(operator, subproblem, component):
+    """Matrix selecting a component of the specified tensor index of an operator's operand."""
+    operand = operator.args[0]
+    # Select along tensor index, identity over others
+    factors = [np.identity(cs.dim) for cs in operand.tensorsig]
+    factors[operator.index] = factors[operator.index][component:component+1]
+    # Identity over coefficients
+    factors.append(sparse.identity(subproblem.coeff_size(operand.domain), format='csr'))
+    matrix = factors[0]
+    for factor in factors[1:]:
+        matrix = sparse.kron(matrix, factor, format='csr')
+    return matrix
+
+
 class PolarAzimuthalComponent(operators.AzimuthalComponent):
 
     basis_type = IntervalBasis
 
     def subproblem_matrix(self, subproblem):
-        operand = self.args[0]
-        input_dim = len(operand.tensorsig)
-        output_dim = len(self.tensorsig)
-        matrix = []
-        for output in range(2**output_dim):
-            index_out = np.unravel_index(output, [2]*output_dim)
-            matrix_row = []
-            for input in range(2**input_dim):
-                index_in = np.unravel_index(input, [2]*input_dim)
-                if tuple(index_in[:self.index] + index_in[self.index+1:]) == index_out and index_in[self.index] == 0:
-                    matrix_row.append(1)
-                else:
-                    matrix_row.append(0)
-            matrix.append(matrix_row)
-        matrix = np.array(matrix)
-        if self.dtype == np.float64:
-            # Block-diag for sin/cos parts for real dtype
-            matrix = sparse.kron(matrix, sparse.eye(2))
-        return matrix
+        return polar_component_matrix(self, subproblem, 0)
 
     def operate(self, out):
         """Perform operation."""
@@ -6031,25 +6027,7 @@ class PolarRadialComponent(operators.RadialComponent):
     basis_type = IntervalBasis
 
     def subproblem_matrix(self, subproblem):
-        operand = self.args[0]
-        input_dim = len(operand.tensorsig)
-        output_dim = len(self.tensorsig)
-        matrix = []
-        for output in range(2**output_dim):
-            index_out = np.unravel_index(output, [2]*output_dim)
-            matrix_row = []
-            for input in range(2**input_dim):
-                index_in = np.unravel_index(input, [2]*input_dim)
-                if tuple(index_in[:self.index] + index_in[self.index+1:]) == index_out and index_in[self.index] == 1:
-                    matrix_row.append(1)
-                else:
-                    matrix_row.append(0)
-            matrix.append(matrix_row)
-        matrix = np.array(matrix)
-        if self.dtype == np.float64:
-            # Block-diag for sin/cos parts for real dtype
-            matrix = sparse.kron(matrix, sparse.eye(2))
-        return matrix
+        return polar_component_matrix(self, subproblem, 1)
 
     def operate(self, out):
         """Perform operation."""
-- 
2.43.0


From 4a02cc64c57d63e478e86abf6aea3e1aea7a431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 53/56] fix: traces of polar tensors without radial dependence
 in matrices

---
 dedalus/core/operators.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index f7cd2aa..24615bb 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1854,19 +1854,25 @@ class PolarTrace(Trace):
     def __init__(self, *args, **kw):
         super().__init__(*args, **kw)
         self.radius_axis = self.dist.get_axis(self.coordsys.coords[1])
+        # Determine if coefficients are spin components
+        self.spin_components = (self.input_basis is not None) and (self.input_basis.dim > 1)
 
     def subproblem_matrix(self, subproblem):
-        m = subproblem.group[self.radius_axis - 1]
-        # [-+, +-] are 1, other components are 0
-        # [ 1,  2]
-        trace_spin = np.zeros(4)
-        trace_spin[[1, 2]] = 1
+        trace_comps = np.zeros(4)
+        if self.spin_components:
+            # [-+, +-] are 1, other components are 0
+            # [ 1,  2]
+            trace_comps[[1, 2]] = 1
+        else:
+            # [pp, rr] are 1, other components are 0
+            # [ 0,  3]
+            trace_comps[[0, 3]] = 1
         # Kronecker up identity for remaining tensor components
         n_eye = prod(cs.dim for cs in self.tensorsig)
         # Kronecker up identity for coeff size
         n_eye *= subproblem.coeff_size(self.domain)
         eye = sparse.identity(n_eye, self.dtype, format='csr')
-        matrix = sparse.kron(trace_spin, eye)
+        matrix = sparse.kron(trace_comps, eye)
         return matrix
 
 
-- 
2.43.0


From 0cef1140465baa59a63363795f8b6472d17a37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 54/56] fix: matrices of curls over direct products of a line
 and a disk

---
 dedalus/core/operators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 24615bb..a27f591 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3864,6 +3864,16 @@ class DirectProductCurl(Curl):
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
 
+    def reinitialize(self, **kw):
+        new = super().reinitialize(**kw)
+        # Reinitialize internal products, since their output bases depend on the NCC variables
+        if isinstance(new, DirectProductCurl):
+            arg = new.args[0].reinitialize(**kw)
+            new.args[0] = arg
+            new.original_args = (arg,) + new.original_args[1:]
+            new.domain = arg.domain
+        return new
+
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
 
-- 
2.43.0


From 2879b7997ecc763338fc756acc365e3d6cae2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 55/56] fix: matrices of products with vector coefficients in
 real disks read the sine parts of azimuthal components from the wrong
 coefficients

---
 dedalus/core/basis.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 5e13050..0aa7ea0 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2541,7 +2541,7 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         return dedalus_sphere.zernike.polynomials(2, self.n_size(m), self.alpha + self.k, np.abs(m + spintotal), native_z)
 
     @CachedMethod
-    def radius_multiplication_matrix(self, m, spintotal, order, d):
+    def radius_multiplication_matrix(self, m, spintotal, order, d, size=None):
         if order == 0:
             operator = dedalus_sphere.zernike.operator(2, 'Id', radius=self.radius)
         else:
@@ -2554,7 +2554,9 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
             R = dedalus_sphere.zernike.operator(2, 'R', radius=1)
             R2 = R(-1) @ R(+1)
             operator = R2**(d//2) @ operator
-        return operator(self.n_size(m), self.alpha + self.k, abs(m + spintotal)).square.astype(np.float64)
+        if size is None:
+            size = self.n_size(m)
+        return operator(size, self.alpha + self.k, abs(m + spintotal)).square.astype(np.float64)
 
     @classmethod
     def _last_axis_component_ncc_matrix(cls, subproblem, ncc_basis, arg_basis, out_basis, coeffs, ncc_comp, arg_comp, out_comp, ncc_tensorsig, arg_tensorsig, out_tensorsig, cutoff=1e-6):
@@ -2571,21 +2573,25 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         a_ncc = ncc_basis.alpha + ncc_basis.k
         b_ncc = regtotal_ncc
         N = ncc_basis.n_size(m)
+        N0 = ncc_basis.n_size(0)
         d = regtotal_ncc - abs(diff_regtotal)
+        # Pad for dealiasing
+        Nmat = 3*((N0+1)//2)
         if (d >= 0) and (d % 2 == 0):
-            J = arg_basis.operator_matrix('Z', m, spintotal_arg)
-            A, B = clenshaw.jacobi_recursion(N, a_ncc, b_ncc, J)
+            J = arg_basis.operator_matrix('Z', m, spintotal_arg, size=Nmat)
+            A, B = clenshaw.jacobi_recursion(N0, a_ncc, b_ncc, J)
             # assuming that we're doing ball for now...
-            f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(N)
-            prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d)
+            f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(Nmat)
+            prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d, size=Nmat)
             if ncc_basis.dtype == np.float64:
-                coeffs_filter = coeffs.ravel()[:2*N]
-                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N], A, B, f0, cutoff=cutoff)
-                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N:], A, B, f0, cutoff=cutoff)
+                coeffs_cos_filter = coeffs[0].ravel()[:N0]
+                coeffs_msin_filter = coeffs[1].ravel()[:N0]
+                matrix_cos = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N,:N]
+                matrix_msin = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N,:N]
                 matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
             elif ncc_basis.dtype == np.complex128:
-                coeffs_filter = coeffs.ravel()[:N]
-                matrix = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff)
+                coeffs_filter = coeffs.ravel()[:N0]
+                matrix = (prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff))[:N,:N]
         else:
             if ncc_basis.dtype == np.float64:
                 matrix = sparse.csr_matrix((2*N, 2*N))
-- 
2.43.0


From 746b72b8690530db2d7867e324480cc7c67f598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:41 +0000
Subject: [PATCH 56/56] fix: gradients over direct products of fields that are
 constant along one of the factors

---
 dedalus/core/operators.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a27f591..921f999 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2455,6 +2455,11 @@ class DirectProductGradient(Gradient):
 
     def __init__(self, operand, coordsys, out=None):
         args = [Gradient(operand, cs) for cs in coordsys.coordsystems]
+        # Use products with zero vectors for vanishing gradients
+        self._vanishing = [isinstance(arg, Number) for arg in args]
+        for i, cs in enumerate(coordsys.coordsystems):
+            if self._vanishing[i]:
+                args[i] = operand.dist.VectorField(cs, dtype=operand.dtype) * operand
         bases = self._build_bases(operand, *args)
         args = [convert(arg, bases) for arg in args]
         LinearOperator.__init__(self, *args, out=out)
@@ -2495,7 +2500,14 @@ class DirectProductGradient(Gradient):
 
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
-        return sparse.vstack([arg.expression_matrices(subproblem, [self.operand])[self.operand] for arg in self.args])
+        matrices = []
+        for arg, vanishing in zip(self.args, self._vanishing):
+            if vanishing:
+                shape = (subproblem.field_size(arg), subproblem.field_size(self.operand))
+                matrices.append(sparse.csr_matrix(shape, dtype=self.dtype))
+            else:
+                matrices.append(arg.expression_matrices(subproblem, [self.operand])[self.operand])
+        return sparse.vstack(matrices)
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0

