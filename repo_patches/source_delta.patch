From e8adee83ab2f6ff0b217be94036729c8e9cf1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 01/38] fix: simulation time is in seconds when a run with
 dates is continued

The date at which a continued run starts was computed as
timedelta(initial_simulation_time), i.e. in days.
---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..79a34df 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1090,7 +1090,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From 2bc8aa0bd385bfa3c7d80b531e9c6671a8d9b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 02/38] fix: accept zero as start_time or end_time of a
 callback

---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..c43ffbe 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -202,8 +202,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = -numpy.inf if start_time is None else start_time
+        self.end_time = numpy.inf if end_time is None else end_time
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From 4cd8b6796925fc0ae87b740d49a0b44fb4130d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 03/38] fix: keep the initial date read by load_state in
 subsequent HDF5 exports

---
 thetis/exporter.py | 7 +++++++
 thetis/solver.py   | 2 ++
 thetis/solver2d.py | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..d546944 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -350,6 +350,13 @@ class ExportManager(object):
         for k in self.exporters:
             self.exporters[k].set_next_export_ix(next_export_ix)
 
+    def set_initial_time(self, initial_time):
+        """Set the initial date stored by all HDF5 exporters"""
+        self.initial_time = initial_time
+        for e in self.exporters.values():
+            if isinstance(e, HDF5Exporter):
+                e.initial_time = initial_time
+
     def export(self, time=None):
         """
         Export all designated functions to disk
diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..183358d 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1128,6 +1128,8 @@ class FlowSolver(FrozenClass):
         self.next_export_t += self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
+            # the initial date may have been read from the stored state
+            e.set_initial_time(self.options.simulation_initial_date)
 
     def print_state(self, cputime, print_header=False):
         """
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 79a34df..dfffd47 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -919,6 +919,8 @@ class FlowSolver2d(FrozenClass):
         self.next_export_t += self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
+            # the initial date may have been read from the stored state
+            e.set_initial_time(self.options.simulation_initial_date)
 
     def print_state(self, cputime, print_header=False):
         """
-- 
2.43.0


From 5debec5d70225b48da90ed69fbb4e06d24eb2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 04/38] fix: load 3D fields from checkpoints

HDF5Exporter.load looked for the checkpoint information on the extruded
mesh, which never has it, so that FlowSolver.load_state always failed.
---
 thetis/exporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index d546944..127765b 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -222,7 +222,9 @@ class HDF5Exporter(ExporterBase):
         else:
             with CheckpointFile(filename, 'r') as f:
                 mesh = function.function_space().mesh()
-                if not hasattr(mesh, 'sfXC'):
+                # extruded meshes are loaded through their base mesh
+                base_mesh = mesh._base_mesh if mesh.extruded else mesh
+                if not hasattr(base_mesh, 'sfXC'):
                     raise IOError('When loading fields from hdf5 checkpoint files, you should also read the mesh from checkpoint. See the documentation for `read_mesh_from_checkpoint()`')
                 g = f.load_function(mesh, function.name())
                 function.assign(g)
-- 
2.43.0


From 6865042ec86ba29491ffe8c57dc9e4b14eb189bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 05/38] fix: ESDIRK stages with a zero first coefficient in
 non-mixed spaces

The stage expression was the old solution function itself when a[i][0] is
zero, and the following in-place addition then modified that function
instead of building an expression, so that the implicit terms were
evaluated explicitly.
---
 thetis/rungekutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 85f58c2..bc33aa8 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -497,7 +497,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     if j == 0:
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
-                        u += self.a[i][j]*self.dt_const*self.k[j]
+                        # NOTE u is solution_old itself if a[i][0] == 0, do not add in place
+                        u = u + self.a[i][j]*self.dt_const*self.k[j]
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         else:
-- 
2.43.0


From def60cf9ed3f69c069edbc6ce986a6e5d1710f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 06/38] fix: GridInterpolator regarded target points on cell
 edges as outside the grid

Round-off can give a weight of -1e-17 at an edge of a simplex inside the
source grid; such points were given the fill value (NaN by default).
---
 thetis/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 8c6b924..2b77956 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -200,7 +200,9 @@ class GridInterpolator(object):
             self.vtx = vertices
             self.wts = numpy.hstack((bary, 1 - bary.sum(axis=1, keepdims=True)))
             self.outside = numpy.any(~numpy.isfinite(self.wts), axis=1)
-            self.outside += numpy.any(self.wts < 0, axis=1)
+            # NOTE negative weights do not imply that the point is outside:
+            # they can be round-off at an edge of the simplex
+            self.outside += simplex < 0
             self.outside = numpy.nonzero(self.outside)[0]
             self.fill_nearest *= len(self.outside) > 0
             if self.fill_nearest:
-- 
2.43.0


From 70d4e10fbe4db347680fbccfeab2431980903839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 07/38] fix: nearest point fill in lat-lon interpolators used a
 subset of the source grid

The source grid is cropped to the cells that contain target points; the
source point that is nearest to a target outside the grid was not
necessarily in the cropped grid.
---
 thetis/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thetis/interpolation.py b/thetis/interpolation.py
index 2b77956..57b6abd 100644
--- a/thetis/interpolation.py
+++ b/thetis/interpolation.py
@@ -318,6 +318,12 @@ def _get_subset_nodes(grid_x, grid_y, target_x, target_y):
     simplex = tri.find_simplex(target_xy)
     vertices = numpy.take(tri.simplices, simplex, axis=0)
     nodes = numpy.unique(vertices.ravel())
+    outside = simplex < 0
+    if outside.any():
+        # nearest source points are needed outside the grid
+        from scipy.spatial import cKDTree
+        dist, ix = cKDTree(grid_xy).query(target_xy[outside])
+        nodes = numpy.union1d(nodes, ix)
     nodes_x, nodes_y = numpy.unravel_index(nodes, orig_shape)
 
     # x and y bounds for reading a subset of the netcdf data
-- 
2.43.0


From 135e41c10fffe8c930a5c512265f560f92c6b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 08/38] fix: vector limiter used a scalar space with different
 nodes

FunctionSpace(mesh, 'DG', 1) has Gauss-Legendre nodes by default whereas
the P1DG vector fields are nodal at the vertices, so that the components
were limited as if they were different functions.
---
 thetis/limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index f1cdd80..c50ae44 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -65,7 +65,8 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         assert_function_space(p1dg_space, ['Discontinuous Lagrange', 'DQ'], 1)
         self.is_vector = p1dg_space.value_size > 1
         if self.is_vector:
-            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), 'DG', 1)
+            # use the same element, i.e. the same nodes, as the vector space
+            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), p1dg_space.ufl_element().sub_elements[0])
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_scalar_space)
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
-- 
2.43.0


From a28fcf66fe79c97e11b729b58c20f8c648ca4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 09/38] fix: diagnostics of a run continued in another output
 directory

A callback in append mode did not create its HDF5 file when there was
none to append to, and failed at the first evaluation.
---
 thetis/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index c43ffbe..285b895 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,7 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        if comm.rank == 0 and (new_file or not os.path.exists(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
-- 
2.43.0


From d24ae1355f9d0300a183a0ddb34394bba19a015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 10/38] fix: export callbacks with a start time in 3D runs

The export index exceeds the number of entries in the diagnostics file if
the first exports were before start_time; the run was aborted.
---
 thetis/callback.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 285b895..7b1094f 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -139,16 +139,17 @@ class DiagnosticHDF5(object):
         :type variables: tuple of float
         :kwarg time: time stamp of entry
         :type time: float
-        :kwarg int index: If provided, defines the time index in the file
+        :kwarg int index: If provided, defines the time index in the file. If
+            there are fewer entries, the new entry is appended.
         """
         if self.comm.rank == 0:
             with h5py.File(self.filename, 'a') as hdf5file:
-                if index is not None:
-                    nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
+                nentries = self._nentries(hdf5file)
+                if index is not None and index < nentries:
                     ix = index
-                if index is None or expand_required:
+                else:
+                    # NOTE the index can exceed the number of entries, e.g. if
+                    # the first evaluations were skipped due to a start time
                     self._expand(hdf5file)
                     ix = self._nentries(hdf5file) - 1
                 if self.include_time:
-- 
2.43.0


From 6ac8f7d14754261092f7ae827a10ae79e98338fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 11/38] fix: keep diagnostics files when a 2D run is continued

As in FlowSolver, callbacks append to existing HDF5 files if the run is
continued in its own output directory; they were overwritten.
---
 thetis/solver2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index dfffd47..062bcaf 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -143,6 +143,7 @@ class FlowSolver2d(FrozenClass):
         if 'tracer_2d' in field_metadata:
             field_metadata.pop('tracer_2d')
         self.solve_tracer = False
+        self._simulation_continued = False
         self.keep_log = keep_log
         self._field_preproc_funcs = {}
 
@@ -912,6 +913,7 @@ class FlowSolver2d(FrozenClass):
 
         # for next export
         self.export_initial_state = outputdir != self.options.output_directory
+        self._simulation_continued = not self.export_initial_state
         if self.export_initial_state:
             offset = 0
         else:
@@ -1086,6 +1088,12 @@ class FlowSolver2d(FrozenClass):
                                                  append_to_log=True)
             self.add_callback(c, eval_interval='export')
 
+        if self._simulation_continued:
+            # keep the diagnostics of the continued run
+            for m in self.callbacks:
+                for k in self.callbacks[m]:
+                    self.callbacks[m][k].set_write_mode('append')
+
         initial_simulation_time = self.simulation_time
         internal_iteration = 0
 
-- 
2.43.0


From fd99604b6a95d25632b2c5606380f7f075b3e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 12/38] fix: detectors and time series of velocity in
 Raviart-Thomas spaces

The point evaluation spaces were scalar for vector-valued elements other
than VectorElement, e.g. for uv_2d with element_family rt-dg.
---
 thetis/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..49d8b31 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -1175,7 +1175,8 @@ def vom_interpolator_functions(solver_obj, field_names, locations):
     for field_name in field_names:
         field = solver_obj.fields[field_name]
 
-        if isinstance(field.function_space().ufl_element(), VectorElement):
+        # NOTE vector-valued elements (e.g. RT) are not instances of VectorElement
+        if len(field.function_space().value_shape) > 0:
             P0DG = VectorFunctionSpace(vom, "DG", 0)
             P0DG_input_ordering = VectorFunctionSpace(vom.input_ordering, "DG", 0)
         else:
-- 
2.43.0


From 35d41f7a1cb08aece4fc73a0a58b95a9e042b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 13/38] fix: labels of user defined fields can be used by
 several solver objects

Meta data of added fields, e.g. tracers, persist in field_metadata, and a
second solver object with the same tracer label could not be created.
---
 thetis/field_defs.py | 3 +++
 thetis/solver.py     | 4 ++--
 thetis/solver2d.py   | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/thetis/field_defs.py b/thetis/field_defs.py
index fa0733a..bac9cc7 100644
--- a/thetis/field_defs.py
+++ b/thetis/field_defs.py
@@ -256,3 +256,6 @@ field_metadata['turbine_density_2d'] = {
     'unit': 'm-2',
     'filename': 'turbine_density_2d'
 }
+
+default_fields = frozenset(field_metadata)
+"""Labels of the fields above; labels of user defined fields can be used again by another solver object."""
diff --git a/thetis/solver.py b/thetis/solver.py
index 183358d..c63f6c5 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -13,7 +13,7 @@ import time as time_mod
 from mpi4py import MPI
 from . import exporter
 import weakref
-from .field_defs import field_metadata
+from .field_defs import field_metadata, default_fields
 from .options import ModelOptions3d
 from . import callback
 from .log import *
@@ -632,7 +632,7 @@ class FlowSolver(FrozenClass):
         assert shortname is None or isinstance(shortname, str)
         assert isinstance(unit, str)
         assert preproc_func is None or callable(preproc_func)
-        assert label not in field_metadata, f"Field '{label}' already exists."
+        assert label not in default_fields and label not in self.fields, f"Field '{label}' already exists."
         assert ' ' not in label, "Labels cannot contain spaces"
         assert ' ' not in filename, "Filenames cannot contain spaces"
         field_metadata[label] = {
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 062bcaf..e7d9ffc 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -15,7 +15,7 @@ import time as time_mod
 from mpi4py import MPI
 from . import exporter
 from .turbines import TidalTurbineFarm, DiscreteTidalTurbineFarm
-from .field_defs import field_metadata
+from .field_defs import field_metadata, default_fields
 from .options import ModelOptions2d
 from . import callback
 from .log import *
@@ -372,7 +372,7 @@ class FlowSolver2d(FrozenClass):
         assert shortname is None or isinstance(shortname, str)
         assert isinstance(unit, str)
         assert preproc_func is None or callable(preproc_func)
-        assert label not in field_metadata, f"Field '{label}' already exists."
+        assert label not in default_fields and label not in self.fields, f"Field '{label}' already exists."
         assert ' ' not in label, "Labels cannot contain spaces"
         assert ' ' not in filename, "Filenames cannot contain spaces"
         field_metadata[label] = {
-- 
2.43.0


From 1db2d1385e30e90b653314b7f3d670a1ea6bd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 14/38] fix: 2D runs with both tracers and sediment

The coupled time integrator was created without the sediment and exner
integrators if there were tracers (KeyError).
---
 thetis/solver2d.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index e7d9ffc..47b571e 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -681,17 +681,11 @@ class FlowSolver2d(FrozenClass):
                 weakref.proxy(self), steppers[self.options.swe_timestepper_type],
                 steppers[self.options.nh_model_options.free_surface_timestepper_type]
             )
-        elif self.solve_tracer:
+        elif self.solve_tracer or self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
             self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
                 weakref.proxy(self), {
                     'shallow_water': steppers[self.options.swe_timestepper_type],
                     'tracer': steppers[self.options.tracer_timestepper_type],
-                },
-            )
-        elif self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
-            self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
-                weakref.proxy(self), {
-                    'shallow_water': steppers[self.options.swe_timestepper_type],
                     'sediment': steppers[self.options.sediment_model_options.sediment_timestepper_type],
                     'exner': steppers[self.options.sediment_model_options.exner_timestepper_type],
                 },
-- 
2.43.0


From fe5cddadd872874c86b561da09433a8f1748804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 15/38] fix: non-hydrostatic 2D runs with update_free_surface =
 False

The free surface integrator was accessed although it does not exist.
---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0


From 85123791fdaebe3d4d29ada463fda601b092efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 16/38] fix: forcing fields given as UFL expressions act in all
 parts of a time step

---
 thetis/timeintegrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 8c5b14b..0b356c1 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -102,6 +102,9 @@ class TimeIntegrator(TimeIntegratorBase):
                     # causes issues in the adjoint. Constants with a domain, created by Constaint(.., domain=...),
                     # are now just Functions on the Real space, so are dealt with under isinstance(..., Function)
                     self.fields_old[k] = self.fields[k]
+                else:
+                    # UFL expressions and plain numbers do not have a separate old value either
+                    self.fields_old[k] = self.fields[k]
 
     def update_fields_old(self):
         """
-- 
2.43.0


From 4cddf2207177fefc96662ff370379d980d485f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 17/38] fix: porosity can be a Function in the Exner equation

---
 thetis/exner_eq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exner_eq.py b/thetis/exner_eq.py
index 9e72951..04b8939 100644
--- a/thetis/exner_eq.py
+++ b/thetis/exner_eq.py
@@ -72,7 +72,7 @@ class ExnerSourceTerm(ExnerTerm):
         morfac = fields.get('morfac')
         porosity = fields.get('porosity')
 
-        fac = Constant(morfac/(1.0-porosity))
+        fac = morfac/(1.0-porosity)
         H = self.depth.get_total_depth(fields_old['elev_2d'])
 
         erosion = self.sediment_model.get_erosion_term()
@@ -105,7 +105,7 @@ class ExnerBedloadTerm(ExnerTerm):
         morfac = fields.get('morfac')
         porosity = fields.get('porosity')
 
-        fac = Constant(morfac/(1.0-porosity))
+        fac = morfac/(1.0-porosity)
 
         # bnd_conditions are the shallow water bcs, any boundary for which
         # nothing is specified is assumed closed
-- 
2.43.0


From 098efbf60c2859015cd85fec1fa0c597761d8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 18/38] fix: bedload-only sediment runs

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..f688dd5 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -413,5 +413,5 @@ class SedimentModel(object):
                 # slope effect angle correction due to gravity
                 self.stress.interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
-        if self.use_advective_velocity_correction:
+        if self.solve_suspended_sediment and self.use_advective_velocity_correction:
             self.correction_factor_model.update()
-- 
2.43.0


From 0c21a7dc58c4f03f04b82fe8aaf040758883b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 19/38] fix: volume source in the PressureProjectionPicard time
 integrator

---
 thetis/timeintegrator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 0b356c1..164c66e 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -413,6 +413,14 @@ class PressureProjectionPicard(TimeIntegrator):
                 + (1-theta_const)*self.equation.residual('implicit', self.solution_old, self.solution_old, self.fields_old, self.fields_old, bnd_conditions)
             )
         )
+        # sources of the continuity equation; those of the mom. eqn. are already included in u^*
+        for key in self.equation.terms:
+            if self.equation.labels[key] == 'source' and key not in self.equation_mom.terms:
+                term = self.equation.terms[key]
+                self.F += -self.dt_const*(
+                    theta_const*term.residual(uv_lagged, eta_lagged, uv_lagged, eta_lagged, self.fields, self.fields, bnd_conditions)
+                    + (1-theta_const)*term.residual(uv_old, eta_old, uv_old, eta_old, self.fields_old, self.fields_old, bnd_conditions)
+                )
         # subtract G eta_lagged: G is the implicit term in the mom. eqn.
         for key in self.equation_mom.terms:
             if self.equation_mom.labels[key] == 'implicit':
-- 
2.43.0


From dc13f67ff30dbdccc8e021c178741e980d94b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 20/38] fix: wetting and drying with the
 PressureProjectionPicard time integrator

---
 thetis/timeintegrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thetis/timeintegrator.py b/thetis/timeintegrator.py
index 164c66e..25e5038 100644
--- a/thetis/timeintegrator.py
+++ b/thetis/timeintegrator.py
@@ -406,6 +406,7 @@ class PressureProjectionPicard(TimeIntegrator):
         # where u^* is the velocity solved for in the mom. eqn., and G eta_lagged the gradient term in that eqn.
         uv_test, eta_test = split(self.equation.test)
         mass_term_star = inner(uv_test, self.uv_star)*dx + inner(eta_test, eta_old)*dx
+        mass_term_star += -self.equation.bathymetry_displacement_mass_term.residual([self.uv_star, eta_old])
         self.F = (
             self.equation.mass_term(self.solution) - mass_term_star
             - self.dt_const*(
-- 
2.43.0


From d7739c3a6501fe9bbac57a5bab6ed1683bfea1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 21/38] fix: apply the advective velocity factor to normal
 velocities on tracer boundaries

With tracer_advective_velocity_factor different from one the external
velocity of 'uv' and 'flux' boundaries is multiplied by the factor, but
that of 'un' boundaries was not, so that the tracer saw the average of
the corrected and the uncorrected velocity on these boundaries.
---
 thetis/tracer_eq_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 02464c7..3db3ee0 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -108,7 +108,7 @@ class TracerTerm(Term):
             area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = self.corr_factor * funcs['flux']/area*self.normal
         elif 'un' in funcs:
-            uv_ext = funcs['un']*self.normal
+            uv_ext = self.corr_factor * funcs['un']*self.normal
         else:
             uv_ext = uv_in
 
-- 
2.43.0


From 864c92aaa9a4e03420828229a7034459cd79f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 22/38] fix: viscosity with open boundaries at polynomial
 degree zero

With polynomial_degree 0 the gradient of the test function vanishes, and
the boundary integrals of the viscosity term could not be built because
their measure had no domain (ValueError: This integral is missing an
integration domain).
---
 thetis/shallowwater_eq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/shallowwater_eq.py b/thetis/shallowwater_eq.py
index cec728c..3e91e35 100644
--- a/thetis/shallowwater_eq.py
+++ b/thetis/shallowwater_eq.py
@@ -589,7 +589,8 @@ class HorizontalViscosityTerm(ShallowWaterMomentumTerm):
             # Dirichlet bcs only for DG
             for bnd_marker in self.boundary_markers:
                 funcs = bnd_conditions.get(bnd_marker)
-                ds_bnd = ds(int(bnd_marker), degree=self.quad_degree)
+                ds_bnd = ds(int(bnd_marker), degree=self.quad_degree,
+                            domain=self.mesh)
                 if self.impose_dynamic_bnd(funcs, bnd_marker):
                     if 'un' in funcs:
                         delta_uv = (dot(uv, n) - funcs['un'])*n
-- 
2.43.0


From e70c28912b9e86210377dfd0a036206a335f4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 23/38] fix: boundary values that vary in space, and walls with
 drag, in the bedload term of the Exner equation

---
 thetis/exner_eq.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/thetis/exner_eq.py b/thetis/exner_eq.py
index 04b8939..163a56c 100644
--- a/thetis/exner_eq.py
+++ b/thetis/exner_eq.py
@@ -110,16 +110,23 @@ class ExnerBedloadTerm(ExnerTerm):
         # bnd_conditions are the shallow water bcs, any boundary for which
         # nothing is specified is assumed closed
 
+        def is_zero(value):
+            try:
+                return float(value) == 0.0
+            except (TypeError, ValueError):
+                # varies in space: not known to be zero
+                return False
+
         for bnd_marker in (bnd_conditions or []):
-            no_contr = False
-            keys = [*bnd_conditions[bnd_marker].keys()]
-            values = [*bnd_conditions[bnd_marker].values()]
-            for i in range(len(keys)):
-                if keys[i] not in ('elev', 'uv'):
-                    if float(values[i]) == 0.0:
+            funcs = bnd_conditions[bnd_marker]
+            # a boundary with drag only is a wall
+            no_contr = not any(key in ('elev', 'uv', 'un', 'flux') for key in funcs)
+            for key, value in funcs.items():
+                if key in ('un', 'flux'):
+                    if is_zero(value):
                         no_contr = True
-                elif keys[i] == 'uv':
-                    if all(j == 0.0 for j in [float(j) for j in values[i]]):
+                elif key == 'uv':
+                    if all(is_zero(value[i]) for i in range(2)):
                         no_contr = True
             if not no_contr:
                 f += -self.test*(fac*qbx*self.n[0] + fac*qby*self.n[1])*self.ds(bnd_marker)
-- 
2.43.0


From 5c91aeacc52c909972e0ed4e8ba62f732dd739c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 24/38] fix: bedload transport where the water is at rest

---
 thetis/sediment_model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index f688dd5..1720c07 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -175,6 +175,9 @@ class SedimentModel(object):
 
         # calculate bed shear stress
         self.unorm = (self.u**2) + (self.v**2)
+        # lower bounds that avoid divisions by zero where water is at rest (there is no transport)
+        self.unorm_min = Constant(1e-20)
+        self.stress_min = Constant(1e-10)
 
         self.bed_stress = Function(self.P1_2d).interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
@@ -212,8 +215,8 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa = Function(self.P1_2d).interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa = Function(self.P1_2d).interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            self.calfa = Function(self.P1_2d).interpolate(self.uv_cg[0]/sqrt(max_value(self.unorm, self.unorm_min)))
+            self.salfa = Function(self.P1_2d).interpolate(self.uv_cg[1]/sqrt(max_value(self.unorm, self.unorm_min)))
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
@@ -264,7 +267,7 @@ class SedimentModel(object):
             velocity_slide = (self.u*free_surface_dy)-(self.v*free_surface_dx)
 
             tandelta_factor = Constant(7)*self.g*self.rhow*self.depth_tot*self.qfc\
-                / (Constant(2)*self.alpha_secc*((self.u**2) + (self.v**2)))
+                / (Constant(2)*self.alpha_secc*max_value(self.unorm, self.unorm_min))
 
             # accounts for helical flow effect in a curver channel
             if self.use_angle_correction:
@@ -276,10 +279,10 @@ class SedimentModel(object):
                 t_2 = ((self.bed_stress*slopecoef*self.salfa) - (self.u*tandelta_factor*velocity_slide))
 
             # calculated to normalise the new angles
-            t4 = sqrt((t_1**2) + (t_2**2))
+            t4 = sqrt(max_value((t_1**2) + (t_2**2), self.stress_min**2))
 
             # updated magnitude correction and angle corrections
-            slopecoef_secc = t4/self.bed_stress
+            slopecoef_secc = t4/max_value(self.bed_stress, self.stress_min)
 
             calfanew = t_1/t4
             salfanew = t_2/t4
@@ -406,8 +409,8 @@ class SedimentModel(object):
 
         if self.use_bedload:
             # calculate angle of flow
-            self.calfa.interpolate(self.uv_cg[0]/sqrt(self.unorm))
-            self.salfa.interpolate(self.uv_cg[1]/sqrt(self.unorm))
+            self.calfa.interpolate(self.uv_cg[0]/sqrt(max_value(self.unorm, self.unorm_min)))
+            self.salfa.interpolate(self.uv_cg[1]/sqrt(max_value(self.unorm, self.unorm_min)))
 
             if self.use_angle_correction:
                 # slope effect angle correction due to gravity
-- 
2.43.0


From fc2ba1b143c3049b86b0c3ba5aa6473b0d5e18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 25/38] fix: limit of the advective velocity correction factor
 of sediment

Where the Rouse number is one the first integral had the wrong sign.
---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 1720c07..c20962c 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -34,7 +34,7 @@ class CorrectiveVelocityFactor:
                                                      settling_velocity/ustar, Constant(1))
 
         Ione = conditional(r1conv > Constant(1e-8), (Constant(1) - Amax**r1conv)/r1conv,
-                           conditional(r1conv < Constant(- 1e-8), (Constant(1) - Amax**r1conv)/r1conv, ln(Amax)))
+                           conditional(r1conv < Constant(- 1e-8), (Constant(1) - Amax**r1conv)/r1conv, -ln(Amax)))
 
         Itwo = conditional(r1conv > Constant(1e-8), -(Ione + (ln(Amax)*(Amax**r1conv)))/r1conv,
                            conditional(r1conv < Constant(- 1e-8), -(Ione + (ln(Amax)*(Amax**r1conv)))/r1conv,
-- 
2.43.0


From ea90e25198454fd2a87fb5a9c789fdb1e9738867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 26/38] fix: give every 3D time stepper options object its own
 component options

---
 thetis/options.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 3cf395a..58b371b 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -265,16 +265,16 @@ class ImplicitTracerTimeStepperOptions3d(TimeStepperOptions3d):
 class SSPRKTimeStepperOptions3d(TimeStepperOptions3d):
     """Options for 3d SSPRK coupled time integrator"""
     use_automatic_timestep = Bool(True, help='Set time step automatically based on local CFL conditions.').tag(config=True)
-    swe_options = SWETimeStepperOptions3d()
-    implicit_momentum_options = ImplicitMomentumTimeStepperOptions3d()
-    explicit_momentum_options = ExplicitMomentumTimeStepperOptions3d()
-    implicit_tracer_options = ImplicitTracerTimeStepperOptions3d()
-    explicit_tracer_options = ExplicitTracerTimeStepperOptions3d()
+    swe_options = Instance(SWETimeStepperOptions3d, args=()).tag(config=True)
+    implicit_momentum_options = Instance(ImplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_momentum_options = Instance(ExplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    implicit_tracer_options = Instance(ImplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_tracer_options = Instance(ExplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
 
 
 class LeapFrogTimeStepperOptions3d(SSPRKTimeStepperOptions3d):
     """Options for 3d LeapFrog coupled time integrator"""
-    swe_options = ImplicitSWETimeStepperOptions3d()
+    swe_options = Instance(ImplicitSWETimeStepperOptions3d, args=()).tag(config=True)
 
 
 class TurbulenceModelOptions(FrozenHasTraits):
-- 
2.43.0


From 51a8a8e9685f7bb0dcb7cf4f7b0c35d589da1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 27/38] fix: do not share default Constants between options
 objects

---
 thetis/configuration.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index f78b86e..0652b13 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -144,10 +144,23 @@ class BoundedFloat(traitlets.Float):
         return proposal
 
 
+def copy_constant(value):
+    """
+    Copy default value if it is a :class:`Constant`, so that assigning to it does
+    not change the default of other objects.
+    """
+    if isinstance(value, Constant):
+        return Constant(value.values().reshape(value.ufl_shape))
+    return value
+
+
 class FiredrakeConstantTraitlet(traitlets.TraitType):
     default_value = None
     info_text = 'a Firedrake Constant'
 
+    def default(self, obj=None):
+        return copy_constant(super().default(obj))
+
     def validate(self, obj, value):
         if isinstance(value, Constant):
             return value
@@ -161,6 +174,9 @@ class FiredrakeCoefficient(traitlets.TraitType):
     default_value = None
     info_text = 'a Firedrake Constant or Function'
 
+    def default(self, obj=None):
+        return copy_constant(super().default(obj))
+
     def validate(self, obj, value):
         if isinstance(value, (Constant, Function)):
             return value
@@ -176,6 +192,9 @@ class FiredrakeScalarExpression(traitlets.TraitType):
     default_value = None
     info_text = 'a scalar UFL expression'
 
+    def default(self, obj=None):
+        return copy_constant(super().default(obj))
+
     def validate(self, obj, value):
         if (isinstance(value, ufl.core.expr.Expr)
                 and ufl.checks.is_ufl_scalar(value)):
@@ -194,6 +213,9 @@ class FiredrakeVectorExpression(traitlets.TraitType):
     default_value = None
     info_text = 'a vector UFL expression'
 
+    def default(self, obj=None):
+        return copy_constant(super().default(obj))
+
     def validate(self, obj, value):
         if (isinstance(value, ufl.core.expr.Expr)
                 and not ufl.checks.is_ufl_scalar(value)):
-- 
2.43.0


From 48a0d3945504d53143c96d5ff20253e3e87cf914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 28/38] fix: updating options does not depend on the order of
 the entries

---
 thetis/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index 0652b13..f80f368 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -293,7 +293,9 @@ class OptionsBase:
         else:
             assert isinstance(options, traitlets.HasTraits), 'options must be a dict or HasTraits object'
             params_dict = options._trait_values
-        for key in params_dict:
+        # setting a paired option resets its options object: set those first
+        traits = self.traits()
+        for key in sorted(params_dict, key=lambda k: not isinstance(traits.get(k), PairedEnum)):
             self.__setattr__(key, params_dict[key])
 
     def __str__(self):
-- 
2.43.0


From 6bd6e2d973da41876903f2e2ddecd5af0c700f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 29/38] fix: tracer system with parameters for some of the
 tracers only

---
 thetis/options.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 58b371b..37decb4 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -1005,11 +1005,8 @@ class ModelOptions2d(CommonModelOptions):
         shortnames = shortnames or names
         units = units or ['-']*N
         assert len(names) == len(filenames) == len(shortnames) == len(units) == N
-        if kwargs == {}:
-            kwargs = {label: {} for label in labels}
         assert set(kwargs.keys()).issubset(set(labels))
-        for label in labels:
-            kwargs[label]['mixed'] = True
+        kwargs = {label: {**kwargs.get(label, {}), 'mixed': True} for label in labels}
         self.tracer_fields[','.join(labels)] = function
         if function is not None:
             for label, child in zip(labels, function.subfunctions):
-- 
2.43.0


From 3de7852ac39d99ed0ff6ed42c1d7216700f55216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 30/38] fix: update the 3D forcings in the leap-frog coupled
 time integrator

---
 thetis/coupled_timeintegrator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thetis/coupled_timeintegrator.py b/thetis/coupled_timeintegrator.py
index de2b988..add7a77 100644
--- a/thetis/coupled_timeintegrator.py
+++ b/thetis/coupled_timeintegrator.py
@@ -442,6 +442,9 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         if self.options.use_ale_moving_mesh:
             self.fields.w_mesh_3d.assign(0.0)
 
+        if update_forcings3d is not None:
+            update_forcings3d(t)
+
         with timed_stage('salt_eq'):
             if self.options.solve_salinity:
                 self.timesteppers.salt_expl.predict()
@@ -499,6 +502,9 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler ALE step from Omega_n to Omega_{n+1}
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t + 0.5*self.solver.dt)
+
         with timed_stage('salt_eq'):
             if self.options.solve_salinity:
                 self.timesteppers.salt_expl.eval_rhs()
@@ -536,6 +542,8 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
             if self.options.use_limiter_for_velocity:
                 self.solver.uv_limiter.apply(self.fields.uv_3d)
 
+        if update_forcings3d is not None:
+            update_forcings3d(t + self.solver.dt)
         if self.options.use_implicit_vertical_diffusion:
             self._update_2d_coupling()
             self._update_baroclinicity()
-- 
2.43.0


From 299f9257de2e83344c86c5b2123ccbad4cee01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 31/38] fix: depth-averaged velocity in 3D when both uv_2d and
 uv_3d are given as initial conditions

---
 thetis/solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index c63f6c5..ddcfe88 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -940,9 +940,8 @@ class FlowSolver(FrozenClass):
         if uv_2d is not None:
             self.fields.uv_2d.project(uv_2d)
             self.fields.uv_dav_2d.project(uv_2d)
-            if uv_3d is None:
-                ExpandFunctionTo3d(self.fields.uv_2d, self.fields.uv_dav_3d,
-                                   elem_height=self.fields.v_elem_size_3d).solve()
+            ExpandFunctionTo3d(self.fields.uv_2d, self.fields.uv_dav_3d,
+                               elem_height=self.fields.v_elem_size_3d).solve()
         if uv_3d is not None:
             self.fields.uv_3d.project(uv_3d)
         if salt is not None and self.options.solve_salinity:
-- 
2.43.0


From e332b18a695c2eb6a3bf676586f3d1f4ac7ca42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 32/38] fix: top facet nodes of elements of vertical degree
 zero

---
 thetis/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 49d8b31..3a35fe2 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -341,7 +341,7 @@ def get_facet_mask(function_space, facet='bottom'):
     # compute top/bottom facet indices
     # extruded dimension is the inner loop in index
     # on interval elements, the end points are the first two dofs
-    offset = 0 if facet == 'bottom' else 1
+    offset = 0 if facet == 'bottom' or nb_nodes_v == 1 else 1
     indices = numpy.arange(nb_nodes_h)*nb_nodes_v + offset
     return indices
 
-- 
2.43.0


From 726eea0ce653150f2bde39847627af30b766d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 33/38] fix: vertical average of velocity in H(div) spaces in a
 moving mesh

---
 thetis/utility3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 7a0137a..d227a51 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -199,7 +199,9 @@ class VerticalIntegrator(object):
         else:
             source = input
         self.l = inner(source, phi)*self.dx + bnd_term
-        self.prob = LinearVariationalProblem(self.a, self.l, output, constant_jacobian=average)
+        # NOTE the matrix of Piola-mapped elements depends on the mesh stretching
+        self.prob = LinearVariationalProblem(self.a, self.l, output,
+                                             constant_jacobian=average and e_continuity.horizontal != 'hdiv')
         self.solver = LinearVariationalSolver(self.prob, solver_parameters=solver_parameters)
 
     @PETSc.Log.EventDecorator("thetis.VerticalIntegrator.solve")
-- 
2.43.0


From 25f6834fa965e3daf01083a4e0f66ac705a51cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 34/38] fix: vertical gradient solver must reassemble its mass
 matrix when the mesh moves

---
 thetis/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index 300a521..f790bd3 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -199,7 +199,7 @@ class VerticalGradSolver(object):
         l = -inner(p, Dx(test, 2))*dx
         l += avg(p)*jump(test, normal[2])*dS_h
         l += p*test*normal[2]*(ds_t + ds_b)
-        prob = LinearVariationalProblem(a, l, self.solution, constant_jacobian=True)
+        prob = LinearVariationalProblem(a, l, self.solution, constant_jacobian=False)
         self.weak_grad_solver = LinearVariationalSolver(prob, solver_parameters=solver_parameters)
 
     @PETSc.Log.EventDecorator("thetis.VerticalGradSolver.solve")
-- 
2.43.0


From 55fb4537d9fce57937c380b7c330342d209cc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 35/38] fix: VerticalIntegrator applied its boundary value with
 the wrong sign

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index d227a51..b2de174 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -176,10 +176,10 @@ class VerticalIntegrator(object):
         self.ds_bottom = ds_bottom(degree=self.quad_degree)
 
         if bottom_to_top:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_bottom
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_bottom
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_surf
         else:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_surf
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_surf
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_bottom
 
         self.a = -inner(Dx(phi, 2), tri)*self.dx + mass_bnd_term
-- 
2.43.0


From ab489e9c7e9bb5f7c62e3b3021e188407f6e7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 36/38] fix: Smagorinsky viscosity ignored the slope of the
 layers in the weak velocity gradient

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index b2de174..d77d4d6 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -958,8 +958,8 @@ class SmagorinskyViscosity(object):
                 for ix in range(2):
                     i = 2*iuv + ix
                     vol_term = -inner(Dx(test_grad[i], ix), uv[iuv])*dx
-                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*dS_v
-                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*ds_v
+                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*(dS_v + dS_h)
+                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*(ds_v + ds_t + ds_b)
                     rhs_terms.extend([vol_term, int_term, ext_term])
             l = sum(rhs_terms)
             prob = LinearVariationalProblem(a, l, self.grad)
-- 
2.43.0


From f7f50be6f98ee159d244a55c72773518432dc67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 37/38] fix: weak density projection must reassemble its mass
 matrix when the mesh moves

---
 thetis/utility3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index d77d4d6..c2b838e 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -309,7 +309,7 @@ class DensitySolverWeak(object):
         rho0 = physical_constants['rho0']
 
         f = self.eos.eval(self.s, self.t, self.p, rho0)
-        self.projector = Projector(f, self.density)
+        self.projector = Projector(f, self.density, constant_jacobian=False)
 
     def ensure_positive_salinity(self):
         """
-- 
2.43.0


From 770b9b5e1181a281e5a894431035d699bc4d6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 38/38] fix: initial 3D fields must be projected after the mesh
 has moved to the initial elevation

---
 thetis/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index ddcfe88..900aa52 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -937,6 +937,10 @@ class FlowSolver(FrozenClass):
             self.initialize()
         if elev is not None:
             self.fields.elev_2d.project(elev)
+        if self.options.use_ale_moving_mesh:
+            # the 3D fields must be projected on the moved mesh
+            self.timestepper._update_3d_elevation()
+            self.timestepper._update_moving_mesh()
         if uv_2d is not None:
             self.fields.uv_2d.project(uv_2d)
             self.fields.uv_dav_2d.project(uv_2d)
@@ -955,9 +959,6 @@ class FlowSolver(FrozenClass):
                 self.fields.psi_3d.project(psi)
             self.turbulence_model.initialize()
 
-        if self.options.use_ale_moving_mesh:
-            self.timestepper._update_3d_elevation()
-            self.timestepper._update_moving_mesh()
         self.timestepper.initialize()
         # update all diagnostic variables
         self.timestepper._update_all_dependencies(self.simulation_time,
-- 
2.43.0

