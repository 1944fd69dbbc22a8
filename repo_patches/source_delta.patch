From 766f0913b76a8c6d6de80e90b24c43e9b423f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:23 +0000
Subject: [PATCH 01/29] fix: gather the (2D) topography as a 2D field when
 initializing the Euler netCDF output

It was gathered as a 3D field, so with more than one process per panel the ranks of the
non-gathering panels disagreed on the exchange and the job hung.
---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..e6ae2ad 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
-- 
2.43.0


From bdeb72cd44a3ee58a1144b4688750d140f333043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 02/29] fix: netCDF output no longer modifies the model state

With topography, the surface height was added in place to a view of the state vector, so
every write changed the simulation (and winds and vorticity were computed with the wrong depth).
---
 wx_factory/output/output_cubesphere_netcdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index e6ae2ad..3aa0dec 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,8 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            height = h + self.topo.hsurf if self.topo is not None else h
+            self.store_field(geom.to_single_block(prepare(height)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From abb07e03a949e985db31cd97ebef30c5befa65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 03/29] fix: create output files within the simulation's own
 communicator

The default communicator of SingleProcess is COMM_WORLD, so a simulation running on a
subset of the processes hung as soon as it opened its output file.
---
 wx_factory/output/output_cubesphere_fst.py    | 4 ++--
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_fst.py b/wx_factory/output/output_cubesphere_fst.py
index afbfc98..5934893 100644
--- a/wx_factory/output/output_cubesphere_fst.py
+++ b/wx_factory/output/output_cubesphere_fst.py
@@ -78,7 +78,7 @@ class OutputCubesphereFst(OutputCubesphere):
 
         sys.stdout.flush()
 
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.file = rmn.fst24_file(self.filename, "RSF+R/W")
 
             # print(f"lon = \n{lon / 180.0 * math.pi}")
@@ -136,7 +136,7 @@ class OutputCubesphereFst(OutputCubesphere):
             u1 = get_field(Q[idx_hu1, ...] / Q[idx_h, ...])
             u2 = get_field(Q[idx_hu2, ...] / Q[idx_h, ...])
 
-            with SingleProcess() as s, Conditional(s):
+            with SingleProcess(self.comm) as s, Conditional(s):
                 h_rec = self._make_record("h", step_id, h)
                 self.file.write(h_rec, rewrite=0)
 
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 3aa0dec..08d4b4d 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
-- 
2.43.0


From 4b4d61ba8266bc89c75413e0e1a63356c5c1b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 04/29] fix: a failed netCDF write stops every process

The write was done by rank 0 outside of any SingleProcess context, so the other processes
never learned about a failure (disk full, etc.) and waited forever.
---
 wx_factory/output/output_cubesphere_netcdf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 08d4b4d..c5234fb 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -76,7 +76,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
         grid_data2D = ("npe", "Xdim", "Ydim")
 
-        if self.ncfile is not None:
+        with SingleProcess(self.comm) as s, Conditional(s):
             # write general attributes
             self.ncfile.history = "Created " + time.ctime(time.time())
             self.ncfile.description = "GEF Model"
@@ -275,7 +275,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
         panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
 
-        if self.rank == 0:
+        with SingleProcess(self.comm) as s, Conditional(s):
             xxx[:] = panel_x
             yyy[:] = panel_y
             if self.config.equations == "euler":
@@ -289,7 +289,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
             topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
-        if self.rank == 0:
+        with SingleProcess(self.comm) as s, Conditional(s):
             for i in range(6):
                 tile[i] = i
                 lon[i, :, :] = lons[i]
@@ -304,7 +304,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         geom = self.geometry
 
         idx = 0
-        if self.ncfile is not None:
+        with SingleProcess(self.comm) as s, Conditional(s):
             idx = len(self.ncfile["time"])
             self.ncfile["time"][idx] = step_id * self.config.dt
 
@@ -361,6 +361,6 @@ class OutputCubesphereNetcdf(OutputCubesphere):
     def store_field(self, field: NDArray, name: str, step_id: int) -> None:
         """Store data in the open netcdf file."""
         fields = self._gather_field(field, self.num_dim)
-        if fields is not None:
+        with SingleProcess(self.comm) as s, Conditional(s):
             for i, f in enumerate(fields):
                 self.ncfile[name][step_id, i] = f
-- 
2.43.0


From d773b6c0d477dd9d68e88f90a559120ea60333c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:17 +0000
Subject: [PATCH 05/29] fix: SRERK passes its device to KIOPS and PMEX

Without it they used the default device, i.e. reduced over COMM_WORLD, so that a simulation
running on a subset of the processes hung.
---
 wx_factory/integrators/srerk.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/srerk.py b/wx_factory/integrators/srerk.py
index e75fefd..f8b4bb9 100644
--- a/wx_factory/integrators/srerk.py
+++ b/wx_factory/integrators/srerk.py
@@ -110,7 +110,15 @@ class Srerk(Integrator):
         elif self.exponential_solver == "pmex":
 
             z, stats = pmex(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                device=self.device,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -306,6 +314,7 @@ class Srerk(Integrator):
                     mmin=16,
                     mmax=64,
                     task1=False,
+                    device=self.device,
                 )
 
                 if mpirank == 0:
@@ -329,6 +338,7 @@ class Srerk(Integrator):
                     mmin=16,
                     mmax=64,
                     task1=False,
+                    device=self.device,
                 )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
-- 
2.43.0


From 2244b3e03fe01a9f7c2fe6ebcad0cba000554ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:33 +0000
Subject: [PATCH 06/29] fix: the Newton-Krylov solver works on the communicator
 of its integrator's device

It used the default device and COMM_WORLD, so implicit integrators hung in a simulation
running on a subset of the processes.
---
 wx_factory/integrators/backward_euler.py |  1 +
 wx_factory/integrators/bdf2.py           | 10 ++++-
 wx_factory/integrators/crank_nicolson.py |  1 +
 wx_factory/solvers/nonlin.py             | 48 +++++++++++++++---------
 4 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/wx_factory/integrators/backward_euler.py b/wx_factory/integrators/backward_euler.py
index bbebc90..cafb8af 100644
--- a/wx_factory/integrators/backward_euler.py
+++ b/wx_factory/integrators/backward_euler.py
@@ -36,6 +36,7 @@ class BackwardEuler(Integrator):
             fgmres_precond=self.preconditioner,
             verbose=False,
             maxiter=maxiter,
+            device=self.device,
         )
         t1 = time()
 
diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..2ec6de4 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -22,7 +22,7 @@ class Bdf2(Integrator):
                 init_dt = dt / self.init_substeps
                 nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
 
-                newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
+                newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol, device=self.device)
         else:
             maxiter = None
 
@@ -33,7 +33,13 @@ class Bdf2(Integrator):
                 self.preconditioner.prepare(dt, Q, self.Qprev)
                 maxiter = 800
             newQ, num_iter, residuals = newton_krylov(
-                nonlin_fun, Q, f_tol=self.tol, fgmres_precond=self.preconditioner, verbose=False, maxiter=maxiter
+                nonlin_fun,
+                Q,
+                f_tol=self.tol,
+                fgmres_precond=self.preconditioner,
+                verbose=False,
+                maxiter=maxiter,
+                device=self.device,
             )
         t1 = time()
 
diff --git a/wx_factory/integrators/crank_nicolson.py b/wx_factory/integrators/crank_nicolson.py
index 6cc9074..3bf3114 100644
--- a/wx_factory/integrators/crank_nicolson.py
+++ b/wx_factory/integrators/crank_nicolson.py
@@ -33,6 +33,7 @@ class CrankNicolson(Integrator):
             fgmres_precond=self.preconditioner,
             verbose=False,
             maxiter=maxiter,
+            device=self.device,
         )
         t1 = time()
 
diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index f8a408f..b86a241 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -5,6 +5,8 @@ import scipy.sparse.linalg
 import scipy.optimize
 from time import time
 
+from device import Device
+
 from .fgmres import fgmres
 from .global_operations import global_norm, global_inf_norm
 
@@ -22,7 +24,11 @@ def newton_krylov(
     x_tol=None,
     x_rtol=None,
     line_search="armijo",
+    device=None,
 ):
+    """Solve F(x) = 0. All norms are computed over the communicator of `device` (default CpuDevice)."""
+    if device is None:
+        device = Device.get_default()
 
     t_start = time()
     iteration = 0
@@ -48,10 +54,16 @@ def newton_krylov(
 
     dx = numpy.full_like(x, numpy.inf)
     Fx = func(x)
-    Fx_norm = global_norm(Fx)
+    Fx_norm = global_norm(Fx, device=device)
 
     jacobian = KrylovJacobian(
-        x.copy(), Fx, func, fgmres_restart=fgmres_restart, fgmres_maxiter=fgmres_maxiter, fgmres_precond=fgmres_precond
+        x.copy(),
+        Fx,
+        func,
+        fgmres_restart=fgmres_restart,
+        fgmres_maxiter=fgmres_maxiter,
+        fgmres_precond=fgmres_precond,
+        device=device,
     )
 
     if maxiter is None:
@@ -65,10 +77,10 @@ def newton_krylov(
     for n in range(maxiter):
 
         iteration += 1
-        f_norm = global_inf_norm(Fx)
-        x_norm = global_inf_norm(x)
+        f_norm = global_inf_norm(Fx, comm=device.comm)
+        x_norm = global_inf_norm(x, comm=device.comm)
 
-        dx_norm = global_inf_norm(dx)
+        dx_norm = global_inf_norm(dx, comm=device.comm)
 
         residuals.append((f_norm, time() - t_start, 0.0))
 
@@ -90,12 +102,12 @@ def newton_krylov(
 
         # Line search, or Newton step
         if line_search:
-            s, x, Fx, Fx_norm_new = _nonlin_line_search(func, x, Fx, dx, line_search)
+            s, x, Fx, Fx_norm_new = _nonlin_line_search(func, x, Fx, dx, line_search, device=device)
         else:
             s = 1.0
             x = x + dx
             Fx = func(x)
-            Fx_norm_new = global_norm(Fx)
+            Fx_norm_new = global_norm(Fx, device=device)
 
         jacobian.update(x.copy(), Fx)
 
@@ -110,7 +122,7 @@ def newton_krylov(
 
         # Print status
         if verbose:
-            sys.stdout.write(f"{n:3d}:  |F(x)| = {global_inf_norm(Fx):.3e}; step {s}\n")
+            sys.stdout.write(f"{n:3d}:  |F(x)| = {global_inf_norm(Fx, comm=device.comm):.3e}; step {s}\n")
             sys.stdout.flush()
     else:
         print("The maximum number of iterations allowed by the JFNK method has been reached.")
@@ -121,18 +133,18 @@ def newton_krylov(
     return numpy.reshape(x, x0.shape), iteration - 1, residuals
 
 
-def _nonlin_line_search(func, x, Fx, dx, search_type="armijo", rdiff=1e-8, smin=1e-2):
+def _nonlin_line_search(func, x, Fx, dx, search_type="armijo", rdiff=1e-8, smin=1e-2, device=None):
     tmp_s = [0]
     tmp_Fx = [Fx]
-    tmp_phi = [global_norm(Fx) ** 2]
-    s_norm = global_norm(x) / global_norm(dx)
+    tmp_phi = [global_norm(Fx, device=device) ** 2]
+    s_norm = global_norm(x, device=device) / global_norm(dx, device=device)
 
     def phi(s, store=True):
         if s == tmp_s[0]:
             return tmp_phi[0]
         xt = x + s * dx
         v = func(xt)
-        p = global_norm(v) ** 2
+        p = global_norm(v, device=device) ** 2
         if store:
             tmp_s[0] = s
             tmp_phi[0] = p
@@ -165,14 +177,14 @@ def _nonlin_line_search(func, x, Fx, dx, search_type="armijo", rdiff=1e-8, smin=
         Fx = tmp_Fx[0]
     else:
         Fx = func(x)
-    Fx_norm = global_norm(Fx)
+    Fx_norm = global_norm(Fx, device=device)
 
     return s, x, Fx, Fx_norm
 
 
 class KrylovJacobian:
 
-    def __init__(self, x, f, func, fgmres_restart, fgmres_maxiter, fgmres_precond):
+    def __init__(self, x, f, func, fgmres_restart, fgmres_maxiter, fgmres_precond, device=None):
         self.func = func
         self.shape = (f.size, x.size)
         self.dtype = f.dtype
@@ -180,6 +192,7 @@ class KrylovJacobian:
         self.fgmres_restart = fgmres_restart
         self.fgmres_maxiter = fgmres_maxiter
         self.fgmres_precond = fgmres_precond
+        self.device = device if device is not None else Device.get_default()
 
         self.x0 = x
         self.f0 = f
@@ -189,12 +202,12 @@ class KrylovJacobian:
         self.op = scipy.sparse.linalg.aslinearoperator(self)
 
     def _update_diff_step(self):
-        mx = global_inf_norm(self.x0)
-        mf = global_inf_norm(self.f0)
+        mx = global_inf_norm(self.x0, comm=self.device.comm)
+        mf = global_inf_norm(self.f0, comm=self.device.comm)
         self.omega = self.rdiff * max(1, mx) / max(1, mf)
 
     def matvec(self, v):
-        nv = global_norm(v)
+        nv = global_norm(v, device=self.device)
         if nv == 0:
             return 0 * v
         sc = self.omega / nv
@@ -208,6 +221,7 @@ class KrylovJacobian:
             restart=self.fgmres_restart,
             maxiter=self.fgmres_maxiter,
             preconditioner=self.fgmres_precond,
+            device=self.device,
         )
         # print(f'reached residual {res:.3e} after {num_iter:3d} iterations')
         return sol
-- 
2.43.0


From e659b52dcdba49a554f49e55054e3672f41fb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:33 +0000
Subject: [PATCH 07/29] fix: write saved states atomically

A crash or a full disk while saving a state over an existing one left a truncated file and
destroyed the previous checkpoint.
---
 wx_factory/output/state.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/state.py b/wx_factory/output/state.py
index bacab3a..fe0684a 100644
--- a/wx_factory/output/state.py
+++ b/wx_factory/output/state.py
@@ -1,3 +1,4 @@
+import os
 from typing import Optional, Tuple
 
 from numpy.typing import NDArray
@@ -7,13 +8,20 @@ from device import Device
 
 
 def save_state(state: NDArray, param: Configuration, output_file_name: str, device: Device = None) -> None:
-    """Save simulation state into a file, along with its configuration."""
-    with open(output_file_name, "wb+") as output_file:
-        if device is None:
-            device = Device.get_default()
+    """Save simulation state into a file, along with its configuration.
+
+    The file appears under its name only once it is complete, so an interruption can never leave a partial state there
+    (or destroy the one that was there before)."""
+    if device is None:
+        device = Device.get_default()
+    temp_file_name = f"{output_file_name}.tmp"
+    with open(temp_file_name, "wb+") as output_file:
         device.xp.save(output_file, state)
         output_file.write(bytes(f"{param.state_version}\n", "utf-8"))
         output_file.write(bytes(param.config_content, "utf-8"))
+        output_file.flush()
+        os.fsync(output_file.fileno())
+    os.replace(temp_file_name, output_file_name)
 
 
 def load_state(
-- 
2.43.0


From b776bc47d7875e4a89dc77a04356b01080f5c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:45 +0000
Subject: [PATCH 08/29] fix: FGMRES processes agree on whether the solver has
 stagnated

The test used the local part of the vectors only, so that some processes could leave the
solver while the others waited for them.
---
 wx_factory/solvers/fgmres.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..3283466 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -257,12 +257,13 @@ def fgmres(
 
         # TODO : End cpu calculation here
         # Has GMRES stagnated?
+        # All processes must take the same decision, so it has to be based on the global change
         indices = x != 0
-        if indices.any():
-            change = xp.max(xp.abs(update[indices] / x[indices]))
-            if change < 1e-12:
-                # No change, halt
-                return x, norm_r, norm_b, niter, -1, residuals
+        change = float(xp.max(xp.abs(update[indices] / x[indices]))) if indices.any() else -1.0
+        change = comm.allreduce(change, op=MPI.MAX)
+        if 0.0 <= change < 1e-12:
+            # No change, halt
+            return x, norm_r, norm_b, niter, -1, residuals
 
         # test for convergence
         if norm_r < tol_relative:
-- 
2.43.0


From 3cc2de38466e3f4ac15df2aca22cc3cb4db3a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:45 +0000
Subject: [PATCH 09/29] fix: any error while opening the solver stats database
 is signalled to every process

Only OperationalError was; a file that is not a database, for example, gives a DatabaseError
and left all other processes waiting.
---
 wx_factory/output/solver_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 2f584ea..f4e0197 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -118,7 +118,7 @@ class SolverStatsOutput:
             self.create_results_table()
             self.comm.allreduce(0)
 
-        except sqlite3.OperationalError:
+        except sqlite3.Error:
             # Signal failure to the other PEs
             self.comm.allreduce(1)
             raise
-- 
2.43.0


From 4e16357c360f554fef90f59ffbf48e8af22800b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:00 +0000
Subject: [PATCH 10/29] fix: the solver stats database goes to the output
 directory actually in use

When the requested directory cannot be created the output goes to ./results, but the database
was still opened in the directory that does not exist.
---
 wx_factory/output/output_manager.py | 2 +-
 wx_factory/output/solver_stats.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..9f032c1 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -72,7 +72,7 @@ class OutputManager:
         self.output_dir = s.return_value
 
         if self.config.store_solver_stats > 0:
-            self.solver_stats_output = SolverStatsOutput(config, self.device)
+            self.solver_stats_output = SolverStatsOutput(config, self.device, self.output_dir)
 
         # Choose a file name hash based on a certain set of parameters:
         state_params = (
diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index f4e0197..e6a3b05 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -88,7 +88,7 @@ class ColumnSet:
 class SolverStatsOutput:
     """Contains necessary info to store solver stats into a SQL database"""
 
-    def __init__(self, param: Configuration, device: Device) -> None:
+    def __init__(self, param: Configuration, device: Device, output_dir: Optional[str] = None) -> None:
         """Connect to the DB file and create (if necessary) the tables. Only 1 PE will perform DB operations."""
 
         self.comm = device.comm
@@ -110,7 +110,7 @@ class SolverStatsOutput:
         self.columns.step_id.value = 0
 
         self.db_name = self.param.solver_stats_file
-        self.db = f"{self.param.output_dir}/{self.db_name}"
+        self.db = f"{self.param.output_dir if output_dir is None else output_dir}/{self.db_name}"
 
         try:
             self.db_connection = sqlite3.connect(self.db)
-- 
2.43.0


From 758d584b7ab9692cd7c00749c4782ea4c921b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:01 +0000
Subject: [PATCH 11/29] fix: create the solver stats tables in a single
 transaction

A crash between the first and the last one left a database which every later run found
unusable (results_param is there, so the missing tables were never created).
---
 wx_factory/output/solver_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index e6a3b05..50f6c66 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -134,6 +134,9 @@ class SolverStatsOutput:
         )
 
         if len(self.db_cursor.fetchall()) == 0:  # The table does not exist
+            # Create all tables or none. (Each of these statements would be its own transaction otherwise.)
+            self.db_cursor.execute("BEGIN")
+
             create_string = f"""
                 CREATE TABLE {self.param_table} (
                     entry_id          integer PRIMARY KEY,
-- 
2.43.0


From 4a1f1d3acda32b9dacfde760eb8b24d5b6ab3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 12/29] fix: conversion of covariant vectors from panel 2 to
 its south neighbor

The first component was computed from the second one.
---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From fda546d5b9f2449688adda64e22c8f9f5f8537b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 13/29] fix: report output times above 1000 s

Formatting them raised a ValueError at the very end of the run (and the minutes were wrong).
---
 wx_factory/output/output_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index 9f032c1..cc3f903 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,9 +26,8 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
+        h = int(seconds) // 3600
+        rem = int(seconds) % 3600
         m = rem // 60
         s = rem % 60
         return f"{h}:{m:02d}:{s:02d}"
-- 
2.43.0


From 58558ca613816a55af1c4e2c2c25854787d2394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 14/29] fix: a failure within MultipleProcesses stops the
 processes that succeeded too

They had no exception to propagate, so they silently continued without the ones that failed.
---
 wx_factory/wx_mpi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/wx_mpi.py b/wx_factory/wx_mpi.py
index 0966854..f68f02c 100644
--- a/wx_factory/wx_mpi.py
+++ b/wx_factory/wx_mpi.py
@@ -116,6 +116,9 @@ class MultipleProcesses:
 
         total_errors = self.comm.allreduce(num_errors)
 
+        if total_errors > 0 and exception_type is None:
+            raise _SkippableFailure("Another process has failed in a MultipleProcesses context")
+
         return total_errors == 0
 
 
-- 
2.43.0


From 8a77193d4947a39daae3192f9e2c3fe07515cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 15/29] fix: a simulation performs the announced number of
 steps and ends at t_end

The time was accumulated, so that roundoff added a tiny step at the end (dt = 0.1), the
announced number of steps could be one too many, and the time step in the configuration was
overwritten by the length of the last step.
---
 wx_factory/simulation/simulation.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index b411ea8..3a32f9a 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -126,26 +126,30 @@ class Simulation:
         self.output.step(self.initial_Q, self.starting_step)
         sys.stdout.flush()
 
-        self.t = self.config.dt * self.starting_step
+        self.t = min(self.config.dt * self.starting_step, self.config.t_end)
         self.integrator.sim_time = self.t
-        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt)) - self.starting_step
+        # Number of steps is rounded up, but t_end / dt may be just above a whole number because of roundoff
+        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt - 1e-9)) - self.starting_step
 
     def step(self):
         """Advance the simulation by one time step."""
         if self.t < self.config.t_end:
-            if self.t + self.config.dt > self.config.t_end:
-                self.config.dt = self.config.t_end - self.t
-                self.t = self.config.t_end
-            else:
-                self.t += self.config.dt
-
+            dt = self.config.dt
+            next_t = (self.step_id + 1) * dt
+            tiny = 1e-9 * dt
+            if next_t >= self.config.t_end - tiny:  # Last step: it ends exactly at t_end
+                if next_t > self.config.t_end + tiny:
+                    dt = self.config.t_end - self.t  # Last step is shorter than the others
+                next_t = self.config.t_end
+
+            self.t = next_t
             self.step_id += 1
 
             if self.rank == 0:
                 print(f"Step {self.step_id} of {self.num_steps + self.starting_step}", flush=True)
 
-            self.Q = self.integrator.step(self.Q, self.config.dt)
-            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, self.config.dt)
+            self.Q = self.integrator.step(self.Q, dt)
+            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, dt)
 
             if self.rank == 0:
                 print(f"Elapsed time for step: {self.integrator.latest_time:.3f} secs", flush=True)
@@ -182,6 +186,7 @@ class Simulation:
     def run(self):
         """Run the entire simulation step by step"""
         self.step_id = self.starting_step
+        self.t = min(self.config.dt * self.starting_step, self.config.t_end)
         self.Q = self.initial_Q
 
         start_time = time()
-- 
2.43.0


From f4058a06e3f963ab75c3a4d4b61a111faf2b35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 16/29] fix: time of the last record in the netCDF output

It was computed from the length of the last step instead of the time step of the run.
---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index c5234fb..e675c5a 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -306,7 +306,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         idx = 0
         with SingleProcess(self.comm) as s, Conditional(s):
             idx = len(self.ncfile["time"])
-            self.ncfile["time"][idx] = step_id * self.config.dt
+            self.ncfile["time"][idx] = min(step_id * self.config.dt, self.config.t_end)
 
         if isinstance(geom, CubedSphere2D):  # Shallow water
 
-- 
2.43.0


From 9f9863a4ebe555db4259a7a14e27bd032cdcb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 17/29] fix: Ydim coordinate of the netCDF output with several
 processes per panel

---
 wx_factory/output/output_cubesphere.py        | 7 ++++---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index b790527..5caca8b 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -126,8 +126,9 @@ class OutputCubesphere(OutputManager):
         if self.rank == 0:
             print("================================================================================================")
 
-    def _gather_panel(self, field: NDArray) -> Optional[NDArray]:
-        """ """
+    def _gather_panel(self, field: NDArray, along_column: bool = False) -> Optional[NDArray]:
+        """Gather the blocks of a panel on its first process. The blocks of a 1D field (a coordinate) are taken along the
+        first row of tiles of the panel, or along its first column if `along_column` is set."""
         panel_comm = self.process_topology.panel_comm
         xp = self.device.xp
 
@@ -144,7 +145,7 @@ class OutputCubesphere(OutputManager):
 
         side = self.process_topology.num_lines_per_panel
         if field.ndim == 1:
-            panel_field = xp.concatenate(panel_fields[:side])
+            panel_field = xp.concatenate(panel_fields[::side] if along_column else panel_fields[:side])
         else:
             panel_field = xp.concatenate(
                 [xp.concatenate(panel_fields[i * side : (i + 1) * side], axis=-1) for i in range(side)], axis=-2
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index e675c5a..aa032bb 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -273,7 +273,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[...]), along_column=True)
 
         with SingleProcess(self.comm) as s, Conditional(s):
             xxx[:] = panel_x
-- 
2.43.0


From 1ecf5b70a169fa3c99c4ed62c2823abbca453afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 18/29] fix: cwy_ne can compute the true norm of a vector when
 its estimate breaks down

---
 wx_factory/solvers/cwy_ne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..0681976 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -231,9 +231,9 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                global_sum_nrm = numpy.empty_link(local_sum)
+                global_sum_nrm = numpy.empty_like(local_sum)
                 MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
-                nrm = math.sqrt(gloal_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 # compute norm estimate in quad precision
-- 
2.43.0


From 305dbd80e682a2148256e8d79298b686f0445120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:44 +0000
Subject: [PATCH 19/29] fix: the last Hessenberg column is kept when PMEX, CWY
 and ICWY solvers find an exact Krylov space

---
 wx_factory/solvers/cwy_ne.py     | 3 ++-
 wx_factory/solvers/icwy_ne.py    | 3 ++-
 wx_factory/solvers/icwy_neiop.py | 3 ++-
 wx_factory/solvers/pmex.py       | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 0681976..ea809fa 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -244,6 +244,8 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
                 # nrm = math.sqrt(global_temp_vec[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
@@ -251,7 +253,6 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # 7. Normalize
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..f5b4e8e 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -197,13 +197,14 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
                 # nrm = math.sqrt(global_temp[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..55a304a 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -199,13 +199,14 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
 
+            H[indx:j, j - 1] = tmp
+
             # Happy breakdown
             if nrmish < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrmish
-            H[indx:j, j - 1] = tmp
             V[j, :] /= nrmish
 
             krystep += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..339138d 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -219,6 +219,8 @@ def pmex(
                 # compute norm estimate in quad precision
                 curr_nrm = device.xp.array(device.xp.sqrt(global_vec[-1, 1] - sum_sqrd), device.xp.float64)
 
+            H[0:j, j - 1] = sol
+
             # Happy breakdown
             if curr_nrm < tol:
                 happy = True
@@ -227,7 +229,6 @@ def pmex(
             # Normalize vector and set norm to H matrix
             V[j, :] /= curr_nrm
             H[j, j - 1] = curr_nrm
-            H[0:j, j - 1] = sol
 
             krystep += 1
 
-- 
2.43.0


From 3e1a3dc83f6914e8a49a1768227aa8beef9236c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:24 +0000
Subject: [PATCH 20/29] fix: jobs that share a solver stats database do not
 create its tables at the same time

---
 wx_factory/output/solver_stats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 50f6c66..3fc97f2 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -125,6 +125,10 @@ class SolverStatsOutput:
 
     def create_results_table(self):
         """Create the results tables in the database, if they don't already exist."""
+        # Create all tables or none (each of these statements would be its own transaction otherwise), and keep other
+        # jobs that use the same DB from creating them at the same time
+        self.db_cursor.execute("BEGIN IMMEDIATE")
+
         # First make sure the results table does not exist yet in the DB
         self.db_cursor.execute(
             """
@@ -134,9 +138,6 @@ class SolverStatsOutput:
         )
 
         if len(self.db_cursor.fetchall()) == 0:  # The table does not exist
-            # Create all tables or none. (Each of these statements would be its own transaction otherwise.)
-            self.db_cursor.execute("BEGIN")
-
             create_string = f"""
                 CREATE TABLE {self.param_table} (
                     entry_id          integer PRIMARY KEY,
@@ -177,7 +178,6 @@ class SolverStatsOutput:
                 """
             )
 
-            self.db_connection.commit()
         else:  # The table exists, check its columns
             self.db_cursor.execute(f"PRAGMA table_info({self.param_table})")
             col_info = self.db_cursor.fetchall()
@@ -201,6 +201,8 @@ class SolverStatsOutput:
                         print(f"Add string = {add_string}")
                         self.db_cursor.execute(add_string)
 
+        self.db_connection.commit()
+
     def write_output(
         self,
         total_time: float,
-- 
2.43.0


From 08b071549f56157d4505f510526237352ea814ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:22 +0000
Subject: [PATCH 21/29] fix: area element of the 2D metric (global integrals
 were half their value)

---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From 29570a33656dcdc99b8c4ca73d9d6aa9db00d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 22/29] fix: exponential solvers work on the simulation's
 communicator

The low-synchronisation Krylov solvers (and EXODE) reduced over MPI.COMM_WORLD, and EPI-stiff called KIOPS with
the default device. A simulation on part of the processes of a job hung.
---
 wx_factory/integrators/epi.py                 | 111 +++++-
 wx_factory/integrators/epi_stiff.py           |  11 +-
 .../integrators/explicit_runge_kutta.py       |   7 +-
 wx_factory/integrators/srerk.py               | 319 ++++++++++++------
 wx_factory/solvers/cwy_1s.py                  |  10 +-
 wx_factory/solvers/cwy_ne.py                  |  14 +-
 wx_factory/solvers/cwy_ne1s.py                |  10 +-
 wx_factory/solvers/dcgs2.py                   |  14 +-
 wx_factory/solvers/exode.py                   |   3 +
 wx_factory/solvers/icwy_1s.py                 |  10 +-
 wx_factory/solvers/icwy_ne.py                 |  12 +-
 wx_factory/solvers/icwy_ne1s.py               |  12 +-
 wx_factory/solvers/icwy_neiop.py              |  12 +-
 wx_factory/solvers/kiops_nest.py              |  10 +-
 wx_factory/solvers/pmex_1s.py                 |  26 +-
 wx_factory/solvers/pmex_ne1s.py               |  28 +-
 16 files changed, 418 insertions(+), 191 deletions(-)

diff --git a/wx_factory/integrators/epi.py b/wx_factory/integrators/epi.py
index 6542543..e942f1b 100644
--- a/wx_factory/integrators/epi.py
+++ b/wx_factory/integrators/epi.py
@@ -140,7 +140,15 @@ class Epi(Integrator):
         # ----pmex with 1-sync-----
         elif self.exponential_solver == "pmex_1s":
             phiv, stats = pmex_1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -154,7 +162,15 @@ class Epi(Integrator):
         # ----pmex with norm estimate+1s-----
         elif self.exponential_solver == "pmex_ne1s":
             phiv, stats = pmex_ne1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -168,7 +184,15 @@ class Epi(Integrator):
         # ----- icwy norm estimate + 1sync-----
         elif self.exponential_solver == "icwy_ne1s":
             phiv, stats = icwy_ne1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -182,7 +206,15 @@ class Epi(Integrator):
         # ----- icwy norm estimate -----
         elif self.exponential_solver == "icwy_ne":
             phiv, stats = icwy_ne(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -196,7 +228,15 @@ class Epi(Integrator):
         # ----- icwy 1-sync-----
         elif self.exponential_solver == "icwy_1s":
             phiv, stats = icwy_1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -210,7 +250,15 @@ class Epi(Integrator):
         # ----- icwy iop+norm estimate-----
         elif self.exponential_solver == "icwy_neiop":
             phiv, stats = icwy_neiop(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -224,7 +272,15 @@ class Epi(Integrator):
         # ----- cwy norm estimate + 1sync-----
         elif self.exponential_solver == "cwy_ne1s":
             phiv, stats = cwy_ne1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -238,7 +294,15 @@ class Epi(Integrator):
         # ----- cwy norm estimate -----
         elif self.exponential_solver == "cwy_ne":
             phiv, stats = cwy_ne(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -252,7 +316,15 @@ class Epi(Integrator):
         # ----- cwy 1-sync-----
         elif self.exponential_solver == "cwy_1s":
             phiv, stats = cwy_1s(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -266,7 +338,15 @@ class Epi(Integrator):
         # ----- dcgs2 -----
         elif self.exponential_solver == "dcgs2":
             phiv, stats = dcgs2(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -280,7 +360,15 @@ class Epi(Integrator):
         # ----- kiops + norm estimate-----
         elif self.exponential_solver == "kiops_ne":
             phiv, stats = kiops_nest(
-                [1.0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1.0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -301,6 +389,7 @@ class Epi(Integrator):
                 atol=self.tol,
                 task1=False,
                 verbose=False,
+                comm=self.device.comm,
             )
 
             # comment out for scaling test
diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..fa8106d 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -99,6 +99,7 @@ class EpiStiff(Integrator):
                 atol=self.tol,
                 task1=False,
                 verbose=False,
+                comm=self.device.comm,
             )
 
             # comment out for scaling test
@@ -110,7 +111,15 @@ class EpiStiff(Integrator):
 
         else:
             phiv, stats = kiops(
-                [1], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                [1],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                device=self.device,
             )
 
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 1f8002e..ab875dc 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -70,6 +70,7 @@ class RungeKutta:
         atol: float = 1e-6,
         first_step: Optional[float] = None,
         controller: Union[str, Tuple[float, float, float, float], None] = None,
+        comm: MPI.Comm = MPI.COMM_WORLD,
     ):
         """
         Initialize the Runge-Kutta solver.
@@ -86,6 +87,7 @@ class RungeKutta:
             controller: Step size controller type or parameters
                         Choices: "deadbeat", "PI3040", "PI4020", "H211PI", "H110", "H211D", "H211B",
                         or a tuple (kb1, kb2, a, g) specifying the controller parameters
+            comm: Communicator of the processes that hold a part of the state vector
 
         Raises:
             TypeError: If dtypes of solution and derivative do not match
@@ -115,6 +117,7 @@ class RungeKutta:
         self.njev = 0
         self.nlu = 0
 
+        self.comm = comm
         self.max_step = max_step
         self.rtol, self.atol = rtol, atol
         self.f = self.fun(self.t, self.y)
@@ -367,7 +370,7 @@ class RungeKutta:
 
             # exclude K[-1] if not FSAL. It could contain nan or inf
             err_estimate = h * (self.K[: self.n_stages + self.FSAL].T @ self.E[: self.n_stages + self.FSAL])
-            error_norm = global_inf_norm(err_estimate / scale)
+            error_norm = global_inf_norm(err_estimate / scale, comm=self.comm)
 
             # evaluate error
             if error_norm < 1:
@@ -426,7 +429,7 @@ class RungeKutta:
         self.h = h
         self.f = self.K[self.n_stages].copy()
         self.error_norm_old = error_norm
-        self.error_estimation = global_inf_norm(err_estimate)
+        self.error_estimation = global_inf_norm(err_estimate, comm=self.comm)
 
         # output
         self.t = t_new
diff --git a/wx_factory/integrators/srerk.py b/wx_factory/integrators/srerk.py
index f8b4bb9..2232513 100644
--- a/wx_factory/integrators/srerk.py
+++ b/wx_factory/integrators/srerk.py
@@ -132,7 +132,15 @@ class Srerk(Integrator):
         # ----pmex with 1-sync-----
         elif self.exponential_solver == "pmex_1s":
             z, stats = pmex_1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -146,7 +154,15 @@ class Srerk(Integrator):
         # ----pmex with norm estimate+1s-----
         elif self.exponential_solver == "pmex_ne1s":
             z, stats = pmex_ne1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -160,7 +176,15 @@ class Srerk(Integrator):
         # ----- icwy norm estimate + 1sync-----
         elif self.exponential_solver == "icwy_ne1s":
             z, stats = icwy_ne1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -174,7 +198,15 @@ class Srerk(Integrator):
         # ----- icwy norm estimate -----
         elif self.exponential_solver == "icwy_ne":
             z, stats = icwy_ne(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -188,7 +220,15 @@ class Srerk(Integrator):
         # ----- icwy 1-sync-----
         elif self.exponential_solver == "icwy_1s":
             z, stats = icwy_1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -202,7 +242,15 @@ class Srerk(Integrator):
         # ----- icwy iop+norm estimate-----
         elif self.exponential_solver == "icwy_neiop":
             z, stats = icwy_neiop(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -216,7 +264,15 @@ class Srerk(Integrator):
         # ----- cwy norm estimate + 1sync-----
         elif self.exponential_solver == "cwy_ne1s":
             z, stats = cwy_ne1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -230,7 +286,15 @@ class Srerk(Integrator):
         # ----- cwy norm estimate -----
         elif self.exponential_solver == "cwy_ne":
             z, stats = cwy_ne(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -244,7 +308,15 @@ class Srerk(Integrator):
         # ----- cwy 1-sync-----
         elif self.exponential_solver == "cwy_1s":
             z, stats = cwy_1s(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -258,7 +330,15 @@ class Srerk(Integrator):
         # ----- dcgs2 -----
         elif self.exponential_solver == "dcgs2":
             z, stats = dcgs2(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -272,7 +352,15 @@ class Srerk(Integrator):
         # ----- kiops + norm estimate-----
         elif self.exponential_solver == "kiops_ne":
             z, stats = kiops_nest(
-                self.c[0], matvec_handle, vec, tol=self.tol, m_init=self.krylov_size, mmin=16, mmax=64, task1=False
+                self.c[0],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
             )
             self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
@@ -352,15 +440,16 @@ class Srerk(Integrator):
             # ----pmex with 1-sync-----
             elif self.exponential_solver == "pmex_1s":
                 z, stats = pmex_1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -373,15 +462,16 @@ class Srerk(Integrator):
             # ----pmex with norm estimate+1s-----
             elif self.exponential_solver == "pmex_ne1s":
                 z, stats = pmex_ne1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -394,15 +484,16 @@ class Srerk(Integrator):
             # ----- icwy norm estimate + 1sync-----
             elif self.exponential_solver == "icwy_ne1s":
                 z, stats = icwy_ne1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -415,15 +506,16 @@ class Srerk(Integrator):
             # ----- icwy norm estimate -----
             elif self.exponential_solver == "icwy_ne":
                 z, stats = icwy_ne(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -436,15 +528,16 @@ class Srerk(Integrator):
             # ----- icwy 1-sync-----
             elif self.exponential_solver == "icwy_1s":
                 z, stats = icwy_1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -457,15 +550,16 @@ class Srerk(Integrator):
             # ----- icwy iop+norm estimate-----
             elif self.exponential_solver == "icwy_neiop":
                 z, stats = icwy_neiop(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -478,15 +572,16 @@ class Srerk(Integrator):
             # ----- cwy norm estimate + 1sync-----
             elif self.exponential_solver == "cwy_ne1s":
                 z, stats = cwy_ne1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -498,15 +593,16 @@ class Srerk(Integrator):
             # ----- cwy norm estimate -----
             elif self.exponential_solver == "cwy_ne":
                 z, stats = cwy_ne(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -519,15 +615,16 @@ class Srerk(Integrator):
             # ----- cwy 1-sync-----
             elif self.exponential_solver == "cwy_1s":
                 z, stats = cwy_1s(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -540,15 +637,16 @@ class Srerk(Integrator):
             # ----- dcgs2 -----
             elif self.exponential_solver == "dcgs2":
                 z, stats = dcgs2(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
@@ -561,15 +659,16 @@ class Srerk(Integrator):
             # ----- kiops + norm estimate-----
             elif self.exponential_solver == "kiops_ne":
                 z, stats = kiops_nest(
-                    self.c[i_proj],
-                    matvec_handle,
-                    vec,
-                    tol=self.tol,
-                    m_init=self.krylov_size,
-                    mmin=16,
-                    mmax=64,
-                    task1=False,
-                )
+                self.c[i_proj],
+                matvec_handle,
+                vec,
+                tol=self.tol,
+                m_init=self.krylov_size,
+                mmin=16,
+                mmax=64,
+                task1=False,
+                comm=self.device.comm,
+            )
                 self.krylov_size = math.floor(0.7 * stats[5] + 0.3 * self.krylov_size)
 
                 if mpirank == 0:
diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..9280fd4 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -55,9 +55,9 @@ References:
 """
 
 
-def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -101,7 +101,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -181,7 +181,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             local_vec = V[0:j, 0:n] @ V[j - 1 : j + 1, 0:n].T
 
             global_vec = numpy.empty_like(local_vec)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
             global_vec += V[0:j, n : n + p] @ V[j - 1 : j + 1, n : n + p].T
 
             # 3. norm of previous vector
@@ -225,7 +225,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
         if not reached_mmax:
             local_sum = V[m, :] @ V[m, :]
             gsum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [gsum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [gsum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(gsum)
 
             V[m, :] /= finalNrm
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index ea809fa..198d6b4 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -53,9 +53,9 @@ References:
 """
 
 
-def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=MPI.COMM_WORLD):
 
-    rank = MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
     ppo, n = u.shape
     p = ppo - 1
 
@@ -95,7 +95,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -153,7 +153,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Normalize initial vector (this norm is nonzero)
             local_sum = V[0, 0:n] @ V[0, 0:n]
-            β = math.sqrt(MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+            β = math.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
 
             # The first Krylov basis vector
             V[j, :] /= β
@@ -178,7 +178,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             """
          startV = MPI.Wtime()
          temp_vec = V[0:j+1,0:n].dot(numpy.transpose(V[j-1:j+1,0:n])) #might revert to old code, not blast versions, slower
-         global_temp_vec  = MPI.COMM_WORLD.allreduce(temp_vec) #<-- slighly slower
+         global_temp_vec  = comm.allreduce(temp_vec) #<-- slighly slower
          global_temp_vec += V[0:j+1, n:n+p].dot(numpy.transpose(V[j-1:j+1,n:n+p])) #array may not be contiguous
 
          endV = MPI.Wtime()
@@ -189,7 +189,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             # ---all other ones-------------
             temp_vec = V[0 : j + 1, 0:n] @ V[j - 1 : j + 1, 0:n].T
             global_temp_vec = numpy.empty_like(temp_vec)
-            MPI.COMM_WORLD.Allreduce([temp_vec, MPI.DOUBLE], [global_temp_vec, MPI.DOUBLE])
+            comm.Allreduce([temp_vec, MPI.DOUBLE], [global_temp_vec, MPI.DOUBLE])
             global_temp_vec += V[0 : j + 1, n : n + p] @ V[j - 1 : j + 1, n : n + p].T
             # --------------------------------
 
@@ -232,7 +232,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
                 global_sum_nrm = numpy.empty_like(local_sum)
-                MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
+                comm.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
                 nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..4bbe20c 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -54,7 +54,7 @@ References:
 """
 
 
-def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
     ppo, n = u.shape
     p = ppo - 1
@@ -93,7 +93,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -175,7 +175,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
             # 3. V_{j}^T * [v_{j-1}, v_j]
             local_vec = V[0 : j + 1, :] @ V[j - 1 : j + 1, :].T
             global_vec = numpy.empty_like(local_vec)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
 
             # 4. norm of previous vector
             nrm = numpy.sqrt(global_vec[j - 1, 0])
@@ -219,7 +219,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
                     # compute true norm
                     local_sum = V[j, :] @ V[j, :]
                     global_sum = numpy.empty_like(local_sum)
-                    mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+                    comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
                     curr_nrm = math.sqrt(global_sum)
 
                 else:
@@ -246,7 +246,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
         if not reached_mmax:
             local_sum = V[m, :] @ V[m, :]
             gsum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [gsum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [gsum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(gsum)
 
             V[m, :] /= finalNrm
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..f5e1ad6 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -53,9 +53,9 @@ References:
 """
 
 
-def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -93,7 +93,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -148,7 +148,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Normalize initial vector (this norm is nonzero)
             local_sum = V[0, 0:n] @ V[0, 0:n]
-            β = math.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+            β = math.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
 
         # full orthogonalization process
         # dcgs2
@@ -172,7 +172,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
             if j == 1 or prev_normalized:
                 local_sum = V[j - 1, :] @ V[j, :].T
                 global_sum = numpy.empty_like(local_sum)
-                mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+                comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
 
                 H[j - 1, j - 1] = global_sum
                 V[j, :] -= V[j - 1, :].dot(H[j - 1, j - 1])
@@ -185,7 +185,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
                 local_sum = V[0:j, :] @ V[j - 1 : j + 1, :].T
                 global_sum = numpy.empty_like(local_sum)
-                mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+                comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
 
                 # compute norm of previous vec using pythagoras theorem
                 nrm = math.sqrt(global_sum[j - 1, 0] - global_sum[0 : j - 1, 0].T.dot(global_sum[0 : j - 1, 0]))
@@ -235,7 +235,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             local_sum = V[0:m, :] @ V[m, :].T
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
 
             finalNrm = numpy.sqrt(global_sum[-1] - numpy.sum(global_sum[0:m] ** 2))
 
diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..0e25b64 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -3,6 +3,7 @@ import numpy
 import sys
 
 # from integrators.butcher import *
+from mpi4py import MPI
 from scipy.sparse.linalg import eigs
 
 
@@ -16,6 +17,7 @@ def exode(
     atol=1e-6,
     task1=False,
     verbose=False,
+    comm=MPI.COMM_WORLD,
 ):
     # Import here to resolve circular import
     from integrators.butcher import METHODS
@@ -59,6 +61,7 @@ def exode(
         first_step=exode.first_step,
         rtol=rtol,
         atol=atol,
+        comm=comm,
     )
 
     ts = [t0]
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..700d844 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -53,9 +53,9 @@ References:
 """
 
 
-def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -96,7 +96,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -179,7 +179,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
             local_sum = V[0:j, :] @ V[j - 1 : j + 1, :].T
 
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
             # 2. norm of previous vector
             nrm = numpy.sqrt(global_sum[-1, 0])
 
@@ -224,7 +224,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             local_sum = V[m, :] @ V[m, :]
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(global_sum)
 
             V[m, :] /= finalNrm
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index f5b4e8e..a6709c3 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -52,9 +52,9 @@ References:
 """
 
 
-def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -95,7 +95,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -148,7 +148,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Normalize initial vector (this norm is nonzero)
             local_sum = V[0, 0:n] @ V[0, 0:n]
-            β = math.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+            β = math.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
 
             # The first Krylov basis vector
             V[j, :] /= β
@@ -166,7 +166,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
             # temp is of size jx2. the second column will be V^{T}*a_{j-1}
             temp = V[0 : j + 1, 0:n] @ V[j - 1 : j + 1, 0:n].T
             global_temp = numpy.empty_like(temp)
-            mpi4py.MPI.COMM_WORLD.Allreduce([temp, mpi4py.MPI.DOUBLE], [global_temp, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([temp, mpi4py.MPI.DOUBLE], [global_temp, mpi4py.MPI.DOUBLE])
             global_temp += V[0 : j + 1, n : n + p] @ V[j - 1 : j + 1, n : n + p].T
 
             # 2. Build matrix T
@@ -187,7 +187,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             if global_temp[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                nrm = numpy.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = numpy.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 nrm = numpy.array(numpy.sqrt(global_temp[-1, 1] - sum_sqrt), numpy.float128)
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..03b6b99 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -51,9 +51,9 @@ References:
 """
 
 
-def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -95,7 +95,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -178,7 +178,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
             # temp is of size (j+1)x2. the second column will be V_j^{T}[v_{j-1} v_j]
             local_sum = V[0 : j + 1, :] @ V[j - 1 : j + 1, :].T
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
 
             # 4. true norm of previous vector
             nrm = numpy.sqrt(global_sum[j - 1, 0])
@@ -225,7 +225,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
                     # compute true norm
                     local_sum = V[j, :] @ V[j, :]
                     global_sum = numpy.empty_like(local_sum)
-                    mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+                    comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
                     curr_nrm = math.sqrt(global_sum)
 
                 else:
@@ -254,7 +254,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             local_sum = V[m, :] @ V[m, :]
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(global_sum)
 
             V[m, :] /= finalNrm
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 55a304a..e8ce465 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -52,9 +52,9 @@ References:
 """
 
 
-def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+    rank = comm.Get_rank()
 
     ppo, n = u.shape
     p = ppo - 1
@@ -95,7 +95,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -148,7 +148,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Normalize initial vector (this norm is nonzero)
             local_sum = V[0, 0:n] @ V[0, 0:n]
-            β = math.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+            β = math.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
 
             # The first Krylov basis vector
             V[j, :] /= β
@@ -173,7 +173,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             temp = V[indx : j + 1, 0:n] @ V[j - 1 : j + 1, 0:n].T
 
             global_temp = numpy.empty_like(temp)
-            mpi4py.MPI.COMM_WORLD.Allreduce([temp, mpi4py.MPI.DOUBLE], [global_temp, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([temp, mpi4py.MPI.DOUBLE], [global_temp, mpi4py.MPI.DOUBLE])
             global_temp += V[indx : j + 1, n : n + p].dot(numpy.transpose(V[j - 1 : j + 1, n : n + p]))
 
             # 2. Build matrix T
@@ -194,7 +194,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             if global_temp[-1, 1] < sum_sqrd:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                nrmish = numpy.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+                nrmish = numpy.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..11f8a18 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -54,7 +54,7 @@ References:
 """
 
 
-def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False):
+def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=False, comm=mpi4py.MPI.COMM_WORLD):
 
     ppo, n = u.shape
     p = ppo - 1
@@ -95,7 +95,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
-    normU = numpy.amax(mpi4py.MPI.COMM_WORLD.allreduce(local_nrmU))
+    normU = numpy.amax(comm.allreduce(local_nrmU))
 
     # Normalization factors
     if ppo > 1 and normU > 0:
@@ -148,7 +148,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Normalize initial vector (this norm is nonzero)
             local_sum = V[0, 0:n] @ V[0, 0:n]
-            β = math.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+            β = math.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
 
             # The first Krylov basis vector
             V[j, :] /= β
@@ -172,7 +172,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             # --------------------------
 
             b = V[ilow : j + 1, :] @ V[j, :]
-            global_b = mpi4py.MPI.COMM_WORLD.allreduce(b)
+            global_b = comm.allreduce(b)
 
             idx = min(1, j - 1)
             H[ilow:j, j - 1] = global_b[0 : idx + 1]
@@ -184,7 +184,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             if global_b[-1] < sum_sqrd:
                 # do a regular communincation
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                nrm = numpy.sqrt(mpi4py.MPI.COMM_WORLD.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = numpy.sqrt(comm.allreduce(local_sum) + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 nrm = math.sqrt(global_b[-1] - sum_sqrd)
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..2a756a3 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -10,9 +10,21 @@ from time import time
 # change to false to get accurate portrail of pm method
 # post modern arnoldi with true 1sync method
 # def pmex_1s(τ_out, A, u, tol = 1e-7, delta = 1.2, m_init = 1, mmax = 128, reuse_info = True, task1 = False):
-def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reuse_info=False, task1=False):
-
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+def pmex_1s(
+    τ_out,
+    A,
+    u,
+    tol=1e-7,
+    delta=1.2,
+    m_init=10,
+    mmin=10,
+    mmax=128,
+    reuse_info=False,
+    task1=False,
+    comm=mpi4py.MPI.COMM_WORLD,
+):
+
+    rank = comm.Get_rank()
     ppo, n = u.shape
     p = ppo - 1
 
@@ -68,7 +80,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
     global_normU = numpy.empty_like(local_nrmU)
-    mpi4py.MPI.COMM_WORLD.Allreduce([local_nrmU, mpi4py.MPI.DOUBLE], [global_normU, mpi4py.MPI.DOUBLE])
+    comm.Allreduce([local_nrmU, mpi4py.MPI.DOUBLE], [global_normU, mpi4py.MPI.DOUBLE])
     normU = numpy.amax(global_normU)
 
     # Normalization factors
@@ -139,7 +151,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
          # Normalize initial vector (this norm is nonzero)
          local_sum = V[0, 0:n] @ V[0, 0:n]
          global_sum_nrm = numpy.empty_like(local_sum)
-         mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum_nrm, mpi4py.MPI.DOUBLE])
+         comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum_nrm, mpi4py.MPI.DOUBLE])
          β = math.sqrt( global_sum_nrm + V[j, n:n+p] @ V[j, n:n+p] )
 
          # The first Krylov basis vector
@@ -160,7 +172,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
             local_vec = V[0:j, 0:n] @ V[j - 1 : j + 1, 0:n].T
 
             global_vec = numpy.empty_like(local_vec)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
             global_vec += V[0:j, n : n + p] @ V[j - 1 : j + 1, n : n + p].T
 
             # 3. compute norm of previous vector
@@ -218,7 +230,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
         if not reached_mmax:
             local_sum = V[m, :] @ V[m, :]
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(global_sum)
 
             V[m, :] /= finalNrm
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..72da6a5 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -8,9 +8,21 @@ import scipy.linalg
 # def pmex_ne1s(τ_out, A, u, tol = 1e-7, delta = 1.2, m_init = 1, mmax = 128, reuse_info = True, task1 = False):
 
 
-def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reuse_info=False, task1=False):
-
-    rank = mpi4py.MPI.COMM_WORLD.Get_rank()
+def pmex_ne1s(
+    τ_out,
+    A,
+    u,
+    tol=1e-7,
+    delta=1.2,
+    m_init=10,
+    mmin=10,
+    mmax=128,
+    reuse_info=False,
+    task1=False,
+    comm=mpi4py.MPI.COMM_WORLD,
+):
+
+    rank = comm.Get_rank()
     ppo, n = u.shape
     p = ppo - 1
 
@@ -64,7 +76,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
     # compute the 1-norm of u
     local_nrmU = numpy.sum(abs(u[1:, :]), axis=1)
     global_normU = numpy.empty_like(local_nrmU)
-    mpi4py.MPI.COMM_WORLD.Allreduce([local_nrmU, mpi4py.MPI.DOUBLE], [global_normU, mpi4py.MPI.DOUBLE])
+    comm.Allreduce([local_nrmU, mpi4py.MPI.DOUBLE], [global_normU, mpi4py.MPI.DOUBLE])
     normU = numpy.amax(global_normU)
 
     # Normalization factors
@@ -125,7 +137,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
          # Normalize initial vector (this norm is nonzero)
          local_sum = V[0, 0:n] @ V[0, 0:n]
          global_sum_nrm = numpy.empty_like(local_sum)
-         mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum_nrm, mpi4py.MPI.DOUBLE])
+         comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum_nrm, mpi4py.MPI.DOUBLE])
          β = math.sqrt( global_sum_nrm + V[j, n:n+p] @ V[j, n:n+p] )
 
          # The first Krylov basis vector
@@ -155,7 +167,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
             # 3. compute terms needed T matrix
             local_vec = V[0 : j + 1, :] @ V[j - 1 : j + 1, :].T
             global_vec = numpy.empty_like(local_vec)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_vec, mpi4py.MPI.DOUBLE], [global_vec, mpi4py.MPI.DOUBLE])
 
             # 4. compute norm of previous vector
             nrm = numpy.sqrt(global_vec[j - 1, 0])
@@ -214,7 +226,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
                     # compute true norm
                     local_sum = V[j, :] @ V[j, :]
                     global_sum = numpy.empty_like(local_sum)
-                    mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+                    comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
                     curr_nrm = math.sqrt(global_sum)
 
                 else:
@@ -241,7 +253,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
         if not reached_mmax:
             local_sum = V[m, :] @ V[m, :]
             global_sum = numpy.empty_like(local_sum)
-            mpi4py.MPI.COMM_WORLD.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
+            comm.Allreduce([local_sum, mpi4py.MPI.DOUBLE], [global_sum, mpi4py.MPI.DOUBLE])
             finalNrm = numpy.sqrt(global_sum)
 
             V[m, :] /= finalNrm
-- 
2.43.0


From ccb817160b976bde4b82c6bf337520129900424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:17 +0000
Subject: [PATCH 23/29] fix: an error on a single process other than 0 is not
 reported as success

---
 WxFactory | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/WxFactory b/WxFactory
index 5da768b..6173963 100755
--- a/WxFactory
+++ b/WxFactory
@@ -138,7 +138,8 @@ def main():
                     print(f"There was an error while running WxFactory. Only rank 0 is printing the traceback:")
                 raise e
 
-            raise SystemExit
+            # Stop quietly, but do not report success if the error occurred on this very process
+            raise SystemExit(0 if isinstance(e, SystemExit) else 1)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 90b1cba6b38c273e0d65de49963143e64de59c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 24/29] fix: relative vorticity (velocity components were
 swapped and derivatives lacked the interface values)

---
 wx_factory/output/diagnostic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..e87088d 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,10 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    # Derivatives within each element (the DFR operators would also need the values at the interfaces)
+    elem_shape = u1_dual.shape[:-1] + mtrx.diff.shape
+    du1dx2 = (mtrx.diff @ u1_dual.reshape(elem_shape)).reshape(u1_dual.shape)
+    du2dx1 = (u2_dual.reshape(elem_shape) @ mtrx.diff_tr).reshape(u2_dual.shape)
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 794060f457415785a404a7ea63d0d13dd575f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 25/29] fix: the first step of bdf2 advances by a whole time
 step (its backward Euler start took half the tendency)

---
 wx_factory/integrators/bdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index 2ec6de4..f8eb185 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -20,7 +20,7 @@ class Bdf2(Integrator):
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol, device=self.device)
         else:
-- 
2.43.0


From 4f7b6226bdb430fdd4f369c403c5d5e1fabc6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:26 +0000
Subject: [PATCH 26/29] fix: a disallowed number of processes is also refused
 with a cartesian grid

---
 wx_factory/simulation/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index 3a32f9a..3dfa5f1 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -233,6 +233,11 @@ class Simulation:
                         f"(total) to {self.config.num_elements_horizontal} (per PE)"
                     )
                 print(f"allowed_pe_counts = {self.allowed_pe_counts}")
+        elif self.comm.size != self.allowed_pe_counts:
+            raise ValueError(
+                f"Invalid number of processors ({self.comm.size}) for grid type {self.config.grid_type}. "
+                f"The only allowed count is {self.allowed_pe_counts}"
+            )
 
     def _create_geometry(self) -> Geometry:
         """Create the appropriate geometry for the given problem"""
-- 
2.43.0


From e414a7ab495404cd18cc4f88faf53fd8a161d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:01 +0000
Subject: [PATCH 27/29] fix: exode keeps its step size per integrator, not
 across simulations of the same process

---
 wx_factory/integrators/epi.py       |  2 ++
 wx_factory/integrators/epi_stiff.py |  2 ++
 wx_factory/solvers/exode.py         | 14 ++++++++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/wx_factory/integrators/epi.py b/wx_factory/integrators/epi.py
index e942f1b..4d3f2c6 100644
--- a/wx_factory/integrators/epi.py
+++ b/wx_factory/integrators/epi.py
@@ -42,6 +42,7 @@ class Epi(Integrator):
         self.elem = param.num_elements_horizontal
         self.exode_method = param.exode_method
         self.exode_controller = param.exode_controller
+        self.exode_memory = {}
 
         if order == 2:
             self.A = self.device.xp.array([[]])
@@ -390,6 +391,7 @@ class Epi(Integrator):
                 task1=False,
                 verbose=False,
                 comm=self.device.comm,
+                memory=self.exode_memory,
             )
 
             # comment out for scaling test
diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index fa8106d..5b64d7a 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -21,6 +21,7 @@ class EpiStiff(Integrator):
         self.exponential_solver = param.exponential_solver
         self.exode_method = param.exode_method
         self.exode_controller = param.exode_controller
+        self.exode_memory = {}
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
@@ -100,6 +101,7 @@ class EpiStiff(Integrator):
                 task1=False,
                 verbose=False,
                 comm=self.device.comm,
+                memory=self.exode_memory,
             )
 
             # comment out for scaling test
diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 0e25b64..491a936 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -18,12 +18,18 @@ def exode(
     task1=False,
     verbose=False,
     comm=MPI.COMM_WORLD,
+    memory=None,
 ):
+    """
+    :param memory: Dictionary where the size of the steps taken by one call is kept, to be used for the first step of the
+                   next call with the same dictionary. It must not be shared between simulations.
+    """
     # Import here to resolve circular import
     from integrators.butcher import METHODS
 
-    if not hasattr(exode, "first_step"):
-        exode.first_step = τ_out  # TODO : use CFL condition ?
+    if memory is None:
+        memory = {}
+    first_step = memory.get("first_step", τ_out)  # TODO : use CFL condition ?
 
     # TODO : implement dense output for output at intermediate values of τ_out
 
@@ -58,7 +64,7 @@ def exode(
         y0,
         tf,
         controller=controller,
-        first_step=exode.first_step,
+        first_step=first_step,
         rtol=rtol,
         atol=atol,
         comm=comm,
@@ -135,6 +141,6 @@ def exode(
     # keep track of h_previous, use as first step for next iteration.
     # print("previous step = ", stats[4], "final step = ", stats[5])
 
-    exode.first_step = numpy.median(numpy.diff(ts))
+    memory["first_step"] = numpy.median(numpy.diff(ts))
 
     return solution, stats
-- 
2.43.0


From 0c8f679c9dc18627780f148670256c5e0d4db26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 28/29] fix: a run that stops before its end because a solver
 failed ends with an error

---
 wx_factory/simulation/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index 3dfa5f1..5b56bf8 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -196,6 +196,12 @@ class Simulation:
 
         self.output.finalize(time() - start_time)  # Close any open output file
 
+        if self.t < self.config.t_end:
+            raise RuntimeError(
+                f"Simulation stopped after step {self.step_id} (of {self.num_steps + self.starting_step}), "
+                f"because the solver failed (failure flag {self.integrator.failure_flag})"
+            )
+
     def _make_device(self) -> Device:
         """Create the device object which will determine on what hardware (CPU/GPU) each part of the simulation will
         be executed."""
-- 
2.43.0


From 2a82abaab291ef4f65bd4481e96c5cf79cc826b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:37 +0000
Subject: [PATCH 29/29] fix: FGMRES started from the solution returns it, and a
 converged solve is not reported as stagnated

---
 wx_factory/solvers/fgmres.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 3283466..eba9213 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -175,6 +175,10 @@ def fgmres(
 
     residuals.append(((norm_r / norm_b).item(), time() - t_start, 0.0))
 
+    # The initial approximation may already be the solution (there is no Krylov space to build in that case)
+    if norm_r == 0.0:
+        return x, norm_r, norm_b, 0, 0, residuals
+
     for outer in range(maxiter):
         # NOTE: We are dealing with row-major matrices, but we store the transpose of H and V.
         H = xp.zeros((restart + 2, restart + 2))
@@ -256,6 +260,10 @@ def fgmres(
                 print(f"{prefix}res: {norm_r/norm_b:.2e} (iter {niter})", flush=True)
 
         # TODO : End cpu calculation here
+        # test for convergence
+        if norm_r < tol_relative:
+            return x, norm_r, norm_b, niter, 0, residuals
+
         # Has GMRES stagnated?
         # All processes must take the same decision, so it has to be based on the global change
         indices = x != 0
@@ -265,10 +273,6 @@ def fgmres(
             # No change, halt
             return x, norm_r, norm_b, niter, -1, residuals
 
-        # test for convergence
-        if norm_r < tol_relative:
-            return x, norm_r, norm_b, niter, 0, residuals
-
     # end outer loop
 
     flag = 0
-- 
2.43.0

