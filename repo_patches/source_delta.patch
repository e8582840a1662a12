From dbb33d2a5a842fc90de82f4b6112b85ee0658e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 01/40] fix: apply the advective velocity factor to 'un' tracer
 boundary data

---
 thetis/tracer_eq_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq_2d.py b/thetis/tracer_eq_2d.py
index 02464c7..3db3ee0 100644
--- a/thetis/tracer_eq_2d.py
+++ b/thetis/tracer_eq_2d.py
@@ -108,7 +108,7 @@ class TracerTerm(Term):
             area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = self.corr_factor * funcs['flux']/area*self.normal
         elif 'un' in funcs:
-            uv_ext = funcs['un']*self.normal
+            uv_ext = self.corr_factor * funcs['un']*self.normal
         else:
             uv_ext = uv_in
 
-- 
2.43.0


From b33add479786d9008b930b4e854978d8d77be1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 02/40] fix: index the boundary length in the 3D tracer 'flux'
 boundary condition

---
 thetis/tracer_eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/tracer_eq.py b/thetis/tracer_eq.py
index df32401..3749d86 100644
--- a/thetis/tracer_eq.py
+++ b/thetis/tracer_eq.py
@@ -105,7 +105,7 @@ class TracerTerm(Term):
         elif 'flux' in funcs:
             assert self.bathymetry is not None
             h_ext = elev_ext + self.bathymetry
-            area = h_ext*self.boundary_len  # NOTE using external data only
+            area = h_ext*self.boundary_len[bnd_id]  # NOTE using external data only
             uv_ext = funcs['flux']/area*self.normal
         elif 'un' in funcs:
             uv_ext = funcs['un']*self.normal
-- 
2.43.0


From c947c6c7a1047c142360a5f90d149a51df79bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 03/40] fix: do not modify the old solution when building DIRK
 stage forms

With a zero first coefficient in a stage row (ESDIRKMidpoint), UFL simplifies
u_old + 0*dt*k to u_old, and the in-place addition of the next tendency was
then executed on that function instead of entering the form.
---
 thetis/rungekutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index 85f58c2..fc9f10c 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -497,7 +497,8 @@ class DIRKGeneric(RungeKuttaTimeIntegrator):
                     if j == 0:
                         u = u_old + self.a[i][j]*self.dt_const*self.k[j]
                     else:
-                        u += self.a[i][j]*self.dt_const*self.k[j]
+                        # NOTE u may be u_old itself if the first coefficient is zero
+                        u = u + self.a[i][j]*self.dt_const*self.k[j]
                 self.F.append(-inner(self.k[i], test)*dx
                               + self.equation.residual(terms_to_add, u, u_nl, fields, fields, bnd_conditions))
         else:
-- 
2.43.0


From 30ce53be2aebf5071062c046412c6f7c7acce4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 04/40] fix: start explicit Runge-Kutta steps from the current
 solution

ERKGeneric (and IMEX schemes built on it) restarted every step from its own
copy of the previous result, discarding changes made to the solution between
steps, e.g. by limiters, coupling or a newly assigned state.
---
 thetis/rungekutta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thetis/rungekutta.py b/thetis/rungekutta.py
index fc9f10c..567619f 100644
--- a/thetis/rungekutta.py
+++ b/thetis/rungekutta.py
@@ -834,6 +834,9 @@ class ERKGeneric(RungeKuttaTimeIntegrator):
         will add to it.
         """
         if not additive:
+            if i_stage == 0:
+                # NOTE solution may have changed since the last step
+                self.solution_old.assign(self.solution)
             self.solution.assign(self.solution_old)
         if self._nontrivial and i_stage > 0:
             self.solution += self.sol_expressions[i_stage]
-- 
2.43.0


From 7c8ee4336509e79da6889e56be47af2ec730615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 05/40] fix: build all sub-integrators when tracers and
 sediment are both solved

With tracers enabled, create_timestepper passed no integrators for the
sediment and Exner equations, so enabling both raised a KeyError.
---
 thetis/solver2d.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ef5a31b..dfef571 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -680,17 +680,11 @@ class FlowSolver2d(FrozenClass):
                 weakref.proxy(self), steppers[self.options.swe_timestepper_type],
                 steppers[self.options.nh_model_options.free_surface_timestepper_type]
             )
-        elif self.solve_tracer:
+        elif self.solve_tracer or self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
             self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
                 weakref.proxy(self), {
                     'shallow_water': steppers[self.options.swe_timestepper_type],
                     'tracer': steppers[self.options.tracer_timestepper_type],
-                },
-            )
-        elif self.options.sediment_model_options.solve_suspended_sediment or self.options.sediment_model_options.solve_exner:
-            self.timestepper = coupled_timeintegrator_2d.GeneralCoupledTimeIntegrator2D(
-                weakref.proxy(self), {
-                    'shallow_water': steppers[self.options.swe_timestepper_type],
                     'sediment': steppers[self.options.sediment_model_options.sediment_timestepper_type],
                     'exner': steppers[self.options.sediment_model_options.exner_timestepper_type],
                 },
-- 
2.43.0


From 29d0c7272b6563934861b21847b5a681d9743709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 06/40] fix: allow non-hydrostatic mode without free surface
 update

NonHydrostaticTimeIntegrator2D accessed the free surface integrator even
when update_free_surface is disabled, in which case it does not exist.
---
 thetis/coupled_timeintegrator_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/coupled_timeintegrator_2d.py b/thetis/coupled_timeintegrator_2d.py
index a5f10e0..a0b355b 100644
--- a/thetis/coupled_timeintegrator_2d.py
+++ b/thetis/coupled_timeintegrator_2d.py
@@ -180,7 +180,8 @@ class NonHydrostaticTimeIntegrator2D(CoupledTimeIntegrator2D):
             self.elev_old = Function(self.fields.elev_2d)
         self.serial_advancing = not hasattr(self.timesteppers.swe2d, 'n_stages') \
             or self.options.swe_timestepper_type == 'SSPIMEX'
-        self.multi_stages_fs = hasattr(self.timesteppers.fs2d, 'n_stages') \
+        self.multi_stages_fs = self.nh_options.update_free_surface \
+            and hasattr(self.timesteppers.fs2d, 'n_stages') \
             and self.nh_options.free_surface_timestepper_type != 'BackwardEuler'
         if self.multi_stages_fs:
             msg = 'The multi-stage type of Shallow Water and ' \
-- 
2.43.0


From 2b84a1a08bb1652a771031a95c39fd94d4a51a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 07/40] fix: interpret the initial simulation time in seconds
 when an end date is set

datetime.timedelta takes days as its first argument, so a simulation
continued at t > 0 with simulation_end_date stopped at the wrong time.
---
 thetis/solver.py   | 2 +-
 thetis/solver2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 7083b8e..b37038e 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1293,7 +1293,7 @@ class FlowSolver(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index dfef571..ecbe21a 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -1084,7 +1084,7 @@ class FlowSolver2d(FrozenClass):
         init_date = self.options.simulation_initial_date
         end_date = self.options.simulation_end_date
         if (init_date is not None and end_date is not None):
-            now = init_date + datetime.timedelta(initial_simulation_time)
+            now = init_date + datetime.timedelta(seconds=initial_simulation_time)
             assert end_date > now, f'Simulation end date must be greater than initial time {now}'
             print_output(
                 f'Running simulation\n'
-- 
2.43.0


From e4fd4f4a68962a95bedad5e72e2ae2923e885ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 08/40] fix: restore simulation time from files without a time
 stamp

HDF5Exporter.load returns time=None if the file has no time attribute, so
load_state set the simulation time to None instead of iteration*dt.
---
 thetis/solver.py   | 4 +++-
 thetis/solver2d.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index b37038e..5fe07ed 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1106,7 +1106,9 @@ class FlowSolver(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
         self.iteration = iteration
         self.simulation_time = t
 
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index ecbe21a..114853e 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -890,7 +890,9 @@ class FlowSolver2d(FrozenClass):
             iteration = int(numpy.ceil(self.next_export_t/self.dt))
         if t is None:
             # prefer metadata time if available
-            t = metadata.get('time', iteration * self.dt)
+            t = metadata.get('time')
+            if t is None:
+                t = iteration * self.dt
             if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
                 initial_time = metadata['initial_time_iso']
                 if isinstance(initial_time, str):
-- 
2.43.0


From 5f7fe0b319653cc13f03b030a231af56f6c424e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 09/40] fix: keep the start date given by the user in 3D
 load_state

As in the 2D solver, the stored start date belongs to the stored simulation
time and must not be used together with a time given by the caller.
---
 thetis/solver.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 5fe07ed..d22f31f 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1109,18 +1109,17 @@ class FlowSolver(FrozenClass):
             t = metadata.get('time')
             if t is None:
                 t = iteration * self.dt
+            # if initial_time stored in file, update options
+            if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
+                initial_time = metadata['initial_time_iso']
+                if isinstance(initial_time, str):
+                    self.options.simulation_initial_date = datetime.datetime.fromisoformat(initial_time)
+                else:
+                    # already a datetime object
+                    self.options.simulation_initial_date = initial_time
         self.iteration = iteration
         self.simulation_time = t
 
-        # if initial_time stored in file, update options
-        if 'initial_time_iso' in metadata and metadata['initial_time_iso'] is not None:
-            initial_time = metadata['initial_time_iso']
-            if isinstance(initial_time, str):
-                self.options.simulation_initial_date = datetime.datetime.fromisoformat(initial_time)
-            else:
-                # already a datetime object
-                self.options.simulation_initial_date = initial_time
-
         # for next export
         self.export_initial_state = outputdir != self.options.output_directory
         if self.export_initial_state:
-- 
2.43.0


From 15cd571899392ae75addd56e7eda4874b2c0dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 10/40] fix: schedule the first export relative to the restart
 time in 3D load_state

next_export_t was computed from the export index, so overriding t or
i_export delayed the exports or made the model export at every time step.
---
 thetis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index d22f31f..e282b63 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1126,7 +1126,7 @@ class FlowSolver(FrozenClass):
             offset = 0
         else:
             offset = 1
-        self.next_export_t += self.options.simulation_export_time
+        self.next_export_t = self.simulation_time + self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
 
-- 
2.43.0


From 551560fc1f7ba47c3c32227c9c4cc237a7e1b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 11/40] fix: label restarted output with the restored start
 date

load_state may replace the simulation start date, but the exporters kept
the date they were created with, so exported times and dates disagreed.
---
 thetis/exporter.py | 6 ++++++
 thetis/solver.py   | 1 +
 thetis/solver2d.py | 1 +
 3 files changed, 8 insertions(+)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 4eb5001..2af76a9 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -350,6 +350,12 @@ class ExportManager(object):
         for k in self.exporters:
             self.exporters[k].set_next_export_ix(next_export_ix)
 
+    def set_initial_time(self, initial_time):
+        """Set simulation initial time to all child exporters"""
+        self.initial_time = initial_time
+        for k in self.exporters:
+            self.exporters[k].initial_time = initial_time
+
     def export(self, time=None):
         """
         Export all designated functions to disk
diff --git a/thetis/solver.py b/thetis/solver.py
index e282b63..72b5e3f 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -1129,6 +1129,7 @@ class FlowSolver(FrozenClass):
         self.next_export_t = self.simulation_time + self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
+            e.set_initial_time(self.options.simulation_initial_date)
 
     def print_state(self, cputime, print_header=False):
         """
diff --git a/thetis/solver2d.py b/thetis/solver2d.py
index 114853e..2449c4f 100644
--- a/thetis/solver2d.py
+++ b/thetis/solver2d.py
@@ -915,6 +915,7 @@ class FlowSolver2d(FrozenClass):
         self.next_export_t += self.options.simulation_export_time
         for e in self.exporters.values():
             e.set_next_export_ix(self.i_export + offset)
+            e.set_initial_time(self.options.simulation_initial_date)
 
     def print_state(self, cputime, print_header=False):
         """
-- 
2.43.0


From bf7f195456ece9a5f51ded4e65cfbd02c34d61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 12/40] fix: accept zero as callback start and end time

---
 thetis/callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 09ba053..c43ffbe 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -202,8 +202,8 @@ class DiagnosticCallback(ABC):
         self.include_time = include_time
         self._create_new_file = True
         self._hdf5_initialized = False
-        self.start_time = start_time or -numpy.inf
-        self.end_time = end_time or numpy.inf
+        self.start_time = -numpy.inf if start_time is None else start_time
+        self.end_time = numpy.inf if end_time is None else end_time
 
         init_date = self.solver_obj.options.simulation_initial_date
         if init_date is not None and include_time:
-- 
2.43.0


From 7fcc8f24c4fdbeb99274a456c62e4be2bf6dd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 13/40] fix: accumulate time integrals over the elapsed
 simulation time

---
 thetis/callback.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index c43ffbe..34c94a8 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -606,15 +606,17 @@ class AccumulatorCallback(DiagnosticCallback):
         kwargs.setdefault('append_to_log', False)
         super(AccumulatorCallback, self).__init__(solver_obj, **kwargs)
         self.scalar_callback = scalar_callback      # Evaluate functional
-        self.dt = solver_obj.options.timestep
         self.integrant = 0.
         self.old_value = None
+        self.old_time = None
 
     def __call__(self):
         scalar_value = self.scalar_callback()
+        time = self.solver_obj.simulation_time
         if self.old_value is not None:
-            self.integrant += 0.5 * (self.old_value + scalar_value) * self.dt
+            self.integrant += 0.5 * (self.old_value + scalar_value) * (time - self.old_time)
         self.old_value = scalar_value
+        self.old_time = time
 
         return scalar_value
 
-- 
2.43.0


From 6133f209216a661d0c4a98e4e9fc2c33b9cd7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 14/40] fix: store diagnostics of callbacks that start after
 the first export

---
 thetis/callback.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 34c94a8..01bf971 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -145,9 +145,12 @@ class DiagnosticHDF5(object):
             with h5py.File(self.filename, 'a') as hdf5file:
                 if index is not None:
                     nentries = self._nentries(hdf5file)
-                    assert index <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(index, nentries, self.filename)
-                    expand_required = index == nentries
-                    ix = index
+                    if nentries == 0:
+                        # the first entry may come after the first export
+                        hdf5file.attrs['first_index'] = index
+                    ix = index - int(hdf5file.attrs.get('first_index', 0))
+                    assert 0 <= ix <= nentries, 'time index out of range {:} <= {:} \n  in file {:}'.format(ix, nentries, self.filename)
+                    expand_required = ix == nentries
                 if index is None or expand_required:
                     self._expand(hdf5file)
                     ix = self._nentries(hdf5file) - 1
-- 
2.43.0


From fe6e32a770dd49afd937379f24020ade6af2b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 15/40] fix: create the diagnostics file when there is none to
 append to

---
 thetis/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/callback.py b/thetis/callback.py
index 01bf971..6af8ba4 100644
--- a/thetis/callback.py
+++ b/thetis/callback.py
@@ -88,7 +88,7 @@ class DiagnosticHDF5(object):
         self.nvars = len(varnames)
         self.array_dim = array_dim
         self.include_time = include_time
-        if comm.rank == 0 and new_file:
+        if comm.rank == 0 and (new_file or not os.path.isfile(filename)):
             # create empty file with correct datasets
             with h5py.File(filename, 'w') as hdf5file:
                 if include_time:
-- 
2.43.0


From 746412f259df61b9e9f38f97d289ad9a24004c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 16/40] fix: update the 3D forcings in the LeapFrog coupled
 integrator

CoupledLeapFrogAM3.advance accepted update_forcings3d but never called it, so
time dependent 3D boundary conditions and sources stayed at their initial
values. Update them to the time of each right hand side evaluation: t for the
prediction and t + dt/2 for the correction step.
---
 thetis/coupled_timeintegrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thetis/coupled_timeintegrator.py b/thetis/coupled_timeintegrator.py
index de2b988..cb63860 100644
--- a/thetis/coupled_timeintegrator.py
+++ b/thetis/coupled_timeintegrator.py
@@ -439,6 +439,8 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler step in fixed domain Omega_n
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t)
         if self.options.use_ale_moving_mesh:
             self.fields.w_mesh_3d.assign(0.0)
 
@@ -499,6 +501,8 @@ class CoupledLeapFrogAM3(CoupledTimeIntegrator):
         # - Forward Euler ALE step from Omega_n to Omega_{n+1}
         # -------------------------------------------------
 
+        if update_forcings3d is not None:
+            update_forcings3d(t + 0.5*self.solver.dt)
         with timed_stage('salt_eq'):
             if self.options.solve_salinity:
                 self.timesteppers.salt_expl.eval_rhs()
-- 
2.43.0


From 73687de0afacd5ee7ead873ff1e6f2e819e7bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 17/40] fix: Kantha-Clayson stability function option used an
 undefined class

---
 thetis/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index 300a521..bb179fc 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -421,7 +421,7 @@ class GenericLengthScaleModel(TurbulenceModel):
                      'lim_alpha_buoy': True,
                      'smooth_alpha_buoy_lim': False}
         if stability_function_name == 'Kantha-Clayson':
-            self.stability_func = StabilityFunctionKanthaClayson(**stab_args)
+            self.stability_func = GOTMStabilityFunctionKanthaClayson(**stab_args)
         elif stability_function_name == 'Canuto A':
             self.stability_func = StabilityFunctionCanutoA(**stab_args)
         elif stability_function_name == 'Canuto B':
-- 
2.43.0


From ab14b81741f8d8a3c5c0dd9d7b755724bef5ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 18/40] fix: compute_cmu0 returned NaN for the Kantha-Clayson
 stability function

---
 thetis/stability_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index d4cfa83..c8b3bf2 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -220,7 +220,8 @@ class StabilityFunctionBase(ABC):
             a = self.d5 - self.n2
             b = self.d2 - self.n0
             c = self.d0
-            a_shear = (-b - numpy.sqrt(b**2 - 4*a*c))/2/a
+            # this form of the root is valid also for a = 0 (Kantha-Clayson)
+            a_shear = 2*c/(-b + numpy.sqrt(b**2 - 4*a*c))
             s_m, s_h = self.eval_funcs(a_buoy, a_shear)
             cm0 = s_m**0.25
         else:
-- 
2.43.0


From 6c48d6240285844fd7ac19a77117492e90c171b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 19/40] fix: coefficients s2 and s6 of the Cheng stability
 function

---
 thetis/stability_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/stability_functions.py b/thetis/stability_functions.py
index c8b3bf2..abe4319 100644
--- a/thetis/stability_functions.py
+++ b/thetis/stability_functions.py
@@ -647,10 +647,10 @@ class ChengStabilityFunctionBase(StabilityFunctionBase):
 
         self.s0 = 0.5*self.l1
         self.s1 = -1.0/3*self.l4*self.l5**-2*(self.l6 + self.l7) + 2.0/3*self.l4/self.l5*(self.l1 - 1.0/3*self.l2 - self.l3) + 0.5*self.l1/self.l5*self.l8
-        self.s2 = 1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
+        self.s2 = -1.0/8*self.l1*self.l5**-2*(self.l6**2 - self.l7**2)
         self.s4 = 2.0/3/self.l5
         self.s5 = 2.0/3*self.l4*self.l5**-2
-        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2)
+        self.s6 = 2.0/3/self.l5*(self.l3**2 - 1.0/3*self.l2**2) - 0.5*self.l1/self.l5*(self.l3 - 1.0/3*self.l2) + 0.25*self.l1*self.l5**-2*(self.l6 - self.l7)
 
         self.dd0 = 1
         self.dd1 = (7.0/3*self.l4 + self.l8)/self.l5
-- 
2.43.0


From 970e637c73c6ec7863fd73da9ad7c115f3d378fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 20/40] fix: SedimentModel.update failed without suspended
 sediment

---
 thetis/sediment_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index 02328cb..f688dd5 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -413,5 +413,5 @@ class SedimentModel(object):
                 # slope effect angle correction due to gravity
                 self.stress.interpolate(self.rhow*Constant(0.5)*self.qfc*self.unorm)
 
-        if self.use_advective_velocity_correction:
+        if self.solve_suspended_sediment and self.use_advective_velocity_correction:
             self.correction_factor_model.update()
-- 
2.43.0


From 63d5a1fcffef8a31d0c139aad7750c5e9579eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 21/40] fix: VerticalIntegrator applied the boundary value with
 the wrong sign

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 7a0137a..645771b 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -176,10 +176,10 @@ class VerticalIntegrator(object):
         self.ds_bottom = ds_bottom(degree=self.quad_degree)
 
         if bottom_to_top:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_bottom
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_bottom
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_surf
         else:
-            bnd_term = normal[2]*inner(bnd_value, phi)*self.ds_surf
+            bnd_term = -normal[2]*inner(bnd_value, phi)*self.ds_surf
             mass_bnd_term = normal[2]*inner(tri, phi)*self.ds_bottom
 
         self.a = -inner(Dx(phi, 2), tri)*self.dx + mass_bnd_term
-- 
2.43.0


From 36234fd57fc3bf1acd2f087b6702d0c81070332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 22/40] fix: Smagorinsky viscosity neglected velocity on
 sloping horizontal facets

---
 thetis/utility3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 645771b..8656006 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -956,8 +956,8 @@ class SmagorinskyViscosity(object):
                 for ix in range(2):
                     i = 2*iuv + ix
                     vol_term = -inner(Dx(test_grad[i], ix), uv[iuv])*dx
-                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*dS_v
-                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*ds_v
+                    int_term = inner(avg(uv[iuv]), jump(test_grad[i], normal[ix]))*(dS_v + dS_h)
+                    ext_term = inner(uv[iuv], test_grad[i]*normal[ix])*(ds_v + ds_surf + ds_bottom)
                     rhs_terms.extend([vol_term, int_term, ext_term])
             l = sum(rhs_terms)
             prob = LinearVariationalProblem(a, l, self.grad)
-- 
2.43.0


From 17faabe1d6a7c3376b415b7a23edc78cf37a2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 23/40] fix: baroclinic head used the inverse of the default
 rho0

---
 thetis/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index a6654b8..67bb1c1 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -487,7 +487,8 @@ def compute_baroclinic_head(solver):
         solver.density_solver.solve()
     with timed_stage('rho_integral'):
         solver.rho_integrator.solve()
-        solver.fields.baroc_head_3d *= -physical_constants['rho0_inv']
+        baroc_head = solver.fields.baroc_head_3d
+        baroc_head.assign(-1.0/float(physical_constants['rho0'])*baroc_head)
     with timed_stage('int_pg_solve'):
         solver.int_pg_calculator.solve()
 
-- 
2.43.0


From 36d29bce7934d59044cc326bf491a9fc1e67eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 24/40] fix: VerticalGradSolver reused the mass matrix of the
 initial mesh

---
 thetis/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/turbulence.py b/thetis/turbulence.py
index bb179fc..fa7c245 100644
--- a/thetis/turbulence.py
+++ b/thetis/turbulence.py
@@ -199,7 +199,7 @@ class VerticalGradSolver(object):
         l = -inner(p, Dx(test, 2))*dx
         l += avg(p)*jump(test, normal[2])*dS_h
         l += p*test*normal[2]*(ds_t + ds_b)
-        prob = LinearVariationalProblem(a, l, self.solution, constant_jacobian=True)
+        prob = LinearVariationalProblem(a, l, self.solution)
         self.weak_grad_solver = LinearVariationalSolver(prob, solver_parameters=solver_parameters)
 
     @PETSc.Log.EventDecorator("thetis.VerticalGradSolver.solve")
-- 
2.43.0


From 8a843177e483306118dfdc0df9e466625ac6d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 25/40] fix: DensitySolverWeak reused the mass matrix of the
 initial mesh

---
 thetis/utility3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/utility3d.py b/thetis/utility3d.py
index 8656006..82fca15 100644
--- a/thetis/utility3d.py
+++ b/thetis/utility3d.py
@@ -307,7 +307,7 @@ class DensitySolverWeak(object):
         rho0 = physical_constants['rho0']
 
         f = self.eos.eval(self.s, self.t, self.p, rho0)
-        self.projector = Projector(f, self.density)
+        self.projector = Projector(f, self.density, constant_jacobian=False)
 
     def ensure_positive_salinity(self):
         """
-- 
2.43.0


From a998824b1c32ba898cab99dfdd76f452d7d42cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 26/40] fix: KineticEnergyCalculator discarded the interpolated
 kinetic energy

---
 thetis/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/diagnostics.py b/thetis/diagnostics.py
index 975dec8..8099be6 100644
--- a/thetis/diagnostics.py
+++ b/thetis/diagnostics.py
@@ -245,7 +245,7 @@ class KineticEnergyCalculator(DiagnosticCalculator):
             self.projector.project()
         else:
             assert hasattr(self, 'interpolator')
-            self.interpolator.assemble()
+            self.ke.assign(self.interpolator.assemble())
 
 
 class DualWeightedResidual2D(DiagnosticCalculator):
-- 
2.43.0


From f3be594105591a67ca9414327f846b4d613f6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 27/40] fix: Smagorinsky viscosity neglected the depth-averaged
 velocity

---
 thetis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index 72b5e3f..d1986d4 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -829,7 +829,7 @@ class FlowSolver(FrozenClass):
         self.mesh_updater = ALEMeshUpdater(self)
 
         if self.options.use_smagorinsky_viscosity:
-            self.smagorinsky_diff_solver = SmagorinskyViscosity(self.fields.uv_3d, self.fields.smag_visc_3d,
+            self.smagorinsky_diff_solver = SmagorinskyViscosity(tot_uv_3d, self.fields.smag_visc_3d,
                                                                 self.options.smagorinsky_coefficient, self.fields.h_elem_size_3d,
                                                                 self.fields.max_h_diff,
                                                                 weak_form=True)
-- 
2.43.0


From 7980303f6e200ff225f26a7f504ae649d8d3d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 28/40] fix: ATMInterpolator reads the time variable "time" of
 its data files

---
 thetis/forcing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/forcing.py b/thetis/forcing.py
index fefce4c..80a397b 100644
--- a/thetis/forcing.py
+++ b/thetis/forcing.py
@@ -267,7 +267,7 @@ class ATMInterpolator(AtmosphericForcingInterpolator):
                          ncfile, init_date,
                          vect_rotator,
                          east_wind_var_name="uwind", north_wind_var_name="vwind",
-                         pressure_var_name="prmsl",
+                         pressure_var_name="prmsl", time_var_name="time",
                          temporal_interpolator=ATMNetCDFTime,
                          fill_mode=fill_mode, fill_value=fill_value,
                          verbose=verbose)
-- 
2.43.0


From 668a35436f836e0483ba37c211b6b04b4b214869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 29/40] fix: VTKExporter looked for the .pvd suffix at the
 start of the file name

---
 thetis/exporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index 2af76a9..fecd48a 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -87,7 +87,7 @@ class VTKExporter(ExporterBase):
         suffix = '.pvd'
         path = os.path.join(outputdir, filename)
         # append suffix if missing
-        if (len(filename) < len(suffix)+1 or filename[:len(suffix)] != suffix):
+        if (len(filename) < len(suffix)+1 or filename[-len(suffix):] != suffix):
             self.filename += suffix
         path = os.path.join(path, self.filename)
         self.outfile = VTKFile(path)
-- 
2.43.0


From 37e36ccebe03bbf7912a6aac6ad93dfb30a5a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 30/40] fix: ExportManagers created without preprocessors
 shared one dictionary of preprocessors

---
 thetis/exporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thetis/exporter.py b/thetis/exporter.py
index fecd48a..ba3e598 100644
--- a/thetis/exporter.py
+++ b/thetis/exporter.py
@@ -262,7 +262,7 @@ class ExportManager(object):
     def __init__(self, outputdir, fields_to_export, functions, field_metadata,
                  export_type='vtk', next_export_ix=0, verbose=False,
                  legacy_mode=False,
-                 preproc_funcs={},
+                 preproc_funcs=None,
                  include_time=False, initial_time=None):
         """
         :arg string outputdir: directory where files are stored
@@ -283,7 +283,7 @@ class ExportManager(object):
         self.functions.update(functions)
         self.field_metadata = field_metadata
         self.verbose = verbose
-        self.preproc_callbacks = preproc_funcs
+        self.preproc_callbacks = {} if preproc_funcs is None else preproc_funcs
         self.include_time = include_time
         self.initial_time = initial_time
         # for each field create an exporter
-- 
2.43.0


From c1fdb4d346518f9d70cd2874148a0ea95d4d1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 31/40] fix: set_log_directory truncated the log file when
 asked to append to it

---
 thetis/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/log.py b/thetis/log.py
index e4e06dc..85eef98 100644
--- a/thetis/log.py
+++ b/thetis/log.py
@@ -136,7 +136,7 @@ def set_log_directory(output_directory, comm=COMM_WORLD, mode='w'):
     create_directory(output_directory)
     if comm.rank == 0:
         buffer_content = thetis_log_config.mem_buffer.getvalue()
-        with open(logfile, 'w') as f:
+        with open(logfile, mode) as f:
             f.write(buffer_content)
     rm_buf_handlers()
     thetis_log_config.filename = logfile
-- 
2.43.0


From 9940b02f50652c41f22f0ae0744e47acf2672491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 32/40] fix: FlowSolver.create_equations opened the log file a
 second time, on every process

---
 thetis/solver.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/thetis/solver.py b/thetis/solver.py
index d1986d4..7578c90 100644
--- a/thetis/solver.py
+++ b/thetis/solver.py
@@ -654,13 +654,6 @@ class FlowSolver(FrozenClass):
         if 'uv_3d' not in self.fields:
             self.create_fields()
 
-        if self.options.log_output and not self.options.no_exports:
-            logfile = os.path.join(create_directory(self.options.output_directory), 'log')
-            mode = "a" if self.keep_log else "w"
-            filehandler = logging.logging.FileHandler(logfile, mode=mode)
-            filehandler.setFormatter(logging.logging.Formatter('%(message)s'))
-            output_logger.addHandler(filehandler)
-
         self.depth = DepthExpression(self.fields.bathymetry_2d,
                                      use_nonlinear_equations=self.options.use_nonlinear_equations)
 
-- 
2.43.0


From e7932eae4c5ef2fdf2cb7fd1c30b9446698c9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 33/40] fix: create_directory raised on the root process only
 and left the others in a barrier

---
 thetis/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 67bb1c1..7d76e94 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -263,13 +263,13 @@ def create_directory(path, comm=COMM_WORLD):
 
     Raises IOError if a file with the same name already exists.
     """
+    is_file = False
     if comm.rank == 0:
-        if os.path.exists(path):
-            if not os.path.isdir(path):
-                raise IOError('file with same name exists', path)
-        else:
-            os.makedirs(path)
-    comm.barrier()
+        is_file = os.path.exists(path) and not os.path.isdir(path)
+        if not is_file:
+            os.makedirs(path, exist_ok=True)
+    if comm.bcast(is_file, root=0):
+        raise IOError('file with same name exists', path)
     return path
 
 
-- 
2.43.0


From f38e56390e00dc74fd7f3f789cb0b21df0cf4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 34/40] fix: SedimentModel checked the range of dstar on each
 process separately

---
 thetis/sediment_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thetis/sediment_model.py b/thetis/sediment_model.py
index f688dd5..5dce700 100644
--- a/thetis/sediment_model.py
+++ b/thetis/sediment_model.py
@@ -137,7 +137,8 @@ class SedimentModel(object):
         self.R = self.rhos/self.rhow - Constant(1)
 
         self.dstar = Function(self.P1_2d).interpolate(self.average_size*((self.g*self.R)/(self.viscosity**2))**(1/3))
-        if float(max(self.dstar.dat.data[:])) < 1:
+        dstar_max = self.dstar.comm.allreduce(self.dstar.dat.data.max(), op=MPI.MAX)
+        if dstar_max < 1:
             raise ValueError('dstar value less than 1')
         self.thetacr = Function(self.P1_2d).interpolate(conditional(self.dstar < 4, 0.24*(self.dstar**(-1)),
                                                         conditional(self.dstar < 10, 0.14*(self.dstar**(-0.64)),
-- 
2.43.0


From f37a17b6e3683a8ed3fa8608f483ca638b05419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 35/40] fix: VertexBasedP1DGLimiter lost the boundary facet
 bounds of vector fields

---
 thetis/limiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thetis/limiter.py b/thetis/limiter.py
index f1cdd80..0170870 100644
--- a/thetis/limiter.py
+++ b/thetis/limiter.py
@@ -65,7 +65,7 @@ class VertexBasedP1DGLimiter(VertexBasedLimiter):
         assert_function_space(p1dg_space, ['Discontinuous Lagrange', 'DQ'], 1)
         self.is_vector = p1dg_space.value_size > 1
         if self.is_vector:
-            p1dg_scalar_space = FunctionSpace(p1dg_space.mesh(), 'DG', 1)
+            p1dg_scalar_space = get_functionspace(p1dg_space.mesh(), 'DG', 1)
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_scalar_space)
         else:
             super(VertexBasedP1DGLimiter, self).__init__(p1dg_space)
-- 
2.43.0


From c1751ad2ecf2886b161901a61933627653182530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 36/40] fix: freeze an object again when an unfrozen method
 raises

---
 thetis/utility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thetis/utility.py b/thetis/utility.py
index 7d76e94..89cfc82 100755
--- a/thetis/utility.py
+++ b/thetis/utility.py
@@ -49,10 +49,11 @@ def unfrozen(method):
     def wrapper(self, *args, **kwargs):
         self._isfrozen = False
         self._unfreezedepth += 1
-        ret = method(self, *args, **kwargs)
-        self._unfreezedepth -= 1
-        self._isfrozen = self._unfreezedepth == 0
-        return ret
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._unfreezedepth -= 1
+            self._isfrozen = self._unfreezedepth == 0
 
     return wrapper
 
-- 
2.43.0


From ddbdde4878fcebf862f5b99c2d82133391497c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 37/40] fix: options.update keeps paired options given before
 their enum

---
 thetis/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thetis/configuration.py b/thetis/configuration.py
index f78b86e..95fd7a8 100644
--- a/thetis/configuration.py
+++ b/thetis/configuration.py
@@ -271,7 +271,9 @@ class OptionsBase:
         else:
             assert isinstance(options, traitlets.HasTraits), 'options must be a dict or HasTraits object'
             params_dict = options._trait_values
-        for key in params_dict:
+        # changing a PairedEnum resets its paired options: assign those first
+        traits = self.traits()
+        for key in sorted(params_dict, key=lambda k: not isinstance(traits.get(k), PairedEnum)):
             self.__setattr__(key, params_dict[key])
 
     def __str__(self):
-- 
2.43.0


From bc8654d5a4fdd722dfec77996d935b15cc97c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 38/40] fix: add_tracer_system_2d accepts parameters for some
 of the tracers

---
 thetis/options.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 3cf395a..464197b 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -1005,11 +1005,8 @@ class ModelOptions2d(CommonModelOptions):
         shortnames = shortnames or names
         units = units or ['-']*N
         assert len(names) == len(filenames) == len(shortnames) == len(units) == N
-        if kwargs == {}:
-            kwargs = {label: {} for label in labels}
         assert set(kwargs.keys()).issubset(set(labels))
-        for label in labels:
-            kwargs[label]['mixed'] = True
+        kwargs = {label: dict(kwargs.get(label, {}), mixed=True) for label in labels}
         self.tracer_fields[','.join(labels)] = function
         if function is not None:
             for label, child in zip(labels, function.subfunctions):
-- 
2.43.0


From c059c0c9de44dc48cff3f73c182bf17c32e86186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 39/40] fix: ModelOptions2d.update copies the tracers

---
 thetis/options.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thetis/options.py b/thetis/options.py
index 464197b..6cb28d6 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -948,6 +948,13 @@ class ModelOptions2d(CommonModelOptions):
         self.tracer_fields = OrderedDict()
         super().__init__(*args, **kwargs)
 
+    def update(self, options):
+        super().update(options)
+        # the tracers are not traits
+        if isinstance(options, ModelOptions2d):
+            self.tracer.update(options.tracer)
+            self.tracer_fields.update(options.tracer_fields)
+
     def add_tracer_2d(self, label, name, filename, shortname=None, unit='-', **kwargs):
         """
         Add a 2D tracer field to :attr:`tracer`.
-- 
2.43.0


From 5c4d17c1dabdc82e5fa7acf31f085cf210f41742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:35 +0000
Subject: [PATCH 40/40] fix: every 3D time stepper options object has its own
 nested options

---
 thetis/options.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thetis/options.py b/thetis/options.py
index 6cb28d6..04bf12d 100644
--- a/thetis/options.py
+++ b/thetis/options.py
@@ -265,16 +265,16 @@ class ImplicitTracerTimeStepperOptions3d(TimeStepperOptions3d):
 class SSPRKTimeStepperOptions3d(TimeStepperOptions3d):
     """Options for 3d SSPRK coupled time integrator"""
     use_automatic_timestep = Bool(True, help='Set time step automatically based on local CFL conditions.').tag(config=True)
-    swe_options = SWETimeStepperOptions3d()
-    implicit_momentum_options = ImplicitMomentumTimeStepperOptions3d()
-    explicit_momentum_options = ExplicitMomentumTimeStepperOptions3d()
-    implicit_tracer_options = ImplicitTracerTimeStepperOptions3d()
-    explicit_tracer_options = ExplicitTracerTimeStepperOptions3d()
+    swe_options = Instance(SWETimeStepperOptions3d, args=()).tag(config=True)
+    implicit_momentum_options = Instance(ImplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_momentum_options = Instance(ExplicitMomentumTimeStepperOptions3d, args=()).tag(config=True)
+    implicit_tracer_options = Instance(ImplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
+    explicit_tracer_options = Instance(ExplicitTracerTimeStepperOptions3d, args=()).tag(config=True)
 
 
 class LeapFrogTimeStepperOptions3d(SSPRKTimeStepperOptions3d):
     """Options for 3d LeapFrog coupled time integrator"""
-    swe_options = ImplicitSWETimeStepperOptions3d()
+    swe_options = Instance(ImplicitSWETimeStepperOptions3d, args=()).tag(config=True)
 
 
 class TurbulenceModelOptions(FrozenHasTraits):
-- 
2.43.0

