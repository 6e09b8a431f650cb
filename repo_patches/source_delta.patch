From b86494e354532f306d3655391baca60cc90e6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 01/45] fix: derivative along a singleton dimension is zero,
 not the identity

---
 angler/derivatives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..70da9bf 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            # a single cell is uniform along x, so the derivative vanishes
+            Dws = sp.csr_matrix((Ny, Ny))
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +37,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            # a single cell is uniform along y, so the derivative vanishes
+            Dws = sp.csr_matrix((Nx, Nx))
     return Dws
 
 
-- 
2.43.0


From a8b0d1cbf5f55c1e0c572d8a2051719aa0eebcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 02/45] fix: scipy branch of solver_complex2real called an
 undefined spsolve

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..28b72f3 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From 5e6fc9475350375116ae6fa69f4b6257473f0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 03/45] fix: nonlinear solvers raised NameError instead of the
 intended polarization error

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From fdc81e5519b237e1de2d5eac015d6ec097afe946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 04/45] fix: hybrid nonlinear solver honours conv_threshold
 when deciding to continue with Newton

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..59fc873 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -208,7 +208,7 @@ class Simulation:
             (Fx, Fy, Fz, conv_array) = born_solve(self, Estart,
                                               conv_threshold, 20,
                                               averaging=averaging) 
-            if conv_array[-1] > 1e-10:
+            if conv_array[-1] > conv_threshold:
                 (Fx, Fy, Fz, conv_array) = newton_solve(self, Fz,
                                                     conv_threshold, 20,
                                                     averaging=averaging)                                       
-- 
2.43.0


From c358e5eb7121e4d172e1f0aa045fe46fc936bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 05/45] fix: assigning eps_r handles 1D arrays and keeps the
 domain size in step with its shape

---
 angler/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 59fc873..8cdcc7a 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,11 +94,13 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = np.reshape(new_eps, grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
         self.Ny = Ny
+        self.xrange = [0, float(self.Nx*self.dl)]
+        self.yrange = [0, float(self.Ny*self.dl)]
 
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
-- 
2.43.0


From a5ed401a35f35b02ff3428a7b3bcb18624c83159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 06/45] fix: init_design_region('halfway') no longer writes
 into the caller's permittivity array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 8cdcc7a..edff2f3 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -316,7 +316,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From f9b71982aa272bb32c442fdae7cccd03b75338ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 07/45] fix: Hz polarization returns Ex, Ey consistent with the
 averaged permittivity in the system matrix

---
 angler/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index edff2f3..d49f528 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -112,7 +112,7 @@ class Simulation:
         self.fields = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
         self.fields_nl = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
 
-    def solve_fields(self, include_nl=False, timing=False, averaging=False,
+    def solve_fields(self, include_nl=False, timing=False, averaging=True,
                      matrix_format=DEFAULT_MATRIX_FORMAT):
         # performs direct solve for A given source
 
@@ -179,7 +179,7 @@ class Simulation:
             raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
 
     def solve_fields_nl(self,
-                        timing=False, averaging=False,
+                        timing=False, averaging=True,
                         Estart=None, solver_nl='hybrid', conv_threshold=1e-10,
                         max_num_iter=50,
                         matrix_format=DEFAULT_MATRIX_FORMAT):
-- 
2.43.0


From 28ada546788898fd7be82b85732b07a38d53cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 08/45] fix: flux_probe averages the field onto the cell edge
 where the transverse field lives

---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index d49f528..a16f07a 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -272,9 +272,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: averaging the full field uses the neighbour on the same side as the backward difference
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -294,9 +294,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: averaging the full field uses the neighbour on the same side as the backward difference
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From 5fe41acc4a6d1b3b91e3d4138df3caa22f0aa229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 09/45] fix: nonlinear Hx and Hy gradients referenced an
 undefined field

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..e03b4c3 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From 5ea621f2ebd86ea188e03fa9489bbbf78c2acda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 10/45] fix: drho_bar_drho used names that were never imported

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..c66d6b0 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from functools import wraps, partial
+from autograd import grad
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
@@ -23,8 +24,7 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    grad_rho_bar = grad(partial(rho_bar, eta=eta, beta=beta))
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From c52ffd12f9cd7dc079bc989b8c46c96d1ddff354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 11/45] fix: modes of waveguides along x average the
 permittivity along the cross section

---
 angler/source/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..f9b3478 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -71,7 +71,8 @@ class mode:
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
-        eps_r = simulation.eps_r[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+        # (as a 1D line along the waveguide cross section, whatever its orientation)
+        eps_r = simulation.eps_r[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]].reshape((-1,))
         N = eps_r.size
 
         Dxb = createDws('x', 'b', [simulation.dl], [N], matrix_format=matrix_format)
-- 
2.43.0


From 38161b1595f771d1e104ccc3a0ea63fc242a704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 12/45] fix: sign of a modal source no longer depends on the
 eigensolver's random start

---
 angler/source/mode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index f9b3478..0149d0a 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -97,7 +97,12 @@ class mode:
         else:
             src = vecs[:, self.order-1]
 
-        src *= self.scale
+        # an eigenvector is defined up to a phase: choose the one that makes its first main lobe positive
+        src = src.reshape((-1,))
+        lobe = np.argmax(np.abs(src) > np.max(np.abs(src))/2)
+        src = src*np.exp(-1j*np.angle(src[lobe]))
+
+        src = src*self.scale
 
         if self.direction_normal == 'x':
             src = src.reshape((1, -1))
-- 
2.43.0


From 4c92657d28d5798dffae6576f7c9ca185a04e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 13/45] fix: modal source normalization uses the waveguide the
 mode is injected in, and only that mode

---
 angler/source/mode.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 0149d0a..9c8ffa6 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -29,22 +29,20 @@ class mode:
         # get some information from the permittivity
         original_eps = simulation.eps_r
         (Nx, Ny) = original_eps.shape
-        eps_max = np.max(np.abs(original_eps))
-        norm_eps = np.ones((Nx, Ny))
+        norm_eps = np.ones((Nx, Ny), dtype=original_eps.dtype)
 
-        # make a new simulation and get a new probe center
+        # make a new simulation (driven by this mode only) and get a new probe center
         simulation_norm = deepcopy(simulation)
+        simulation_norm.src = np.zeros_like(simulation.src)
         new_center = list(self.center)
 
         # compute where the source and waveguide should be
         if self.direction_normal == "x":
-            inds_y = original_eps[self.center[0], :] > 1
-            norm_eps[:, inds_y] = eps_max
-            new_center[0] = Nx - new_center[0]
+            norm_eps[:, :] = original_eps[self.center[0], :].reshape((1, -1))
+            new_center[0] = (Nx - new_center[0]) % Nx
         elif self.direction_normal == "y":
-            inds_x = original_eps[:, self.center[1]] > 1
-            norm_eps[inds_x, :] = eps_max
-            new_center[1] = Ny - new_center[1]
+            norm_eps[:, :] = original_eps[:, self.center[1]].reshape((-1, 1))
+            new_center[1] = (Ny - new_center[1]) % Ny
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
@@ -52,7 +50,8 @@ class mode:
         simulation_norm.eps_r = norm_eps
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
-        W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
+        # (the mode is launched both ways, so the probe may lie on either side of the source)
+        W_in = np.abs(simulation_norm.flux_probe(self.direction_normal, new_center, self.width))
 
         # save this value in the original simulation
         simulation.W_in = W_in
-- 
2.43.0


From 858ac165c19d9f5833ac1db881eaf5f271e16176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 14/45] fix: density filter wraps around periodic boundaries in
 x

---
 angler/filter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..266eb57 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -50,14 +50,12 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
             row_index = sub2ind((Nx, Ny), i1, j1)
 
             for i_diff in diffs:
-                i2 = i1 + i_diff
                 for j_diff in diffs:
-                    j2 = j1 + j_diff
-                    r2 = np.array([i2, j2])
+                    r2 = np.array([i1 + i_diff, j1 + j_diff])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
+                    i2 = (i1 + i_diff) % Nx
+                    j2 = (j1 + j_diff) % Ny
 
                     col_index = sub2ind((Nx, Ny), i2, j2)
 
-- 
2.43.0


From 9b78d53b63d18a29ebb94badabe3752d11a05b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 15/45] fix: density filter is a weighted average, and leaves
 pixels out of its reach unchanged

---
 angler/filter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 266eb57..e3bde9d 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -68,18 +68,19 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
 
     W = sp.csr_matrix((vals, (row_indeces, col_indeces)), shape=(N, N))
 
-    des_vec = design_region.reshape((-1,))
+    norm_vec = W.dot(np.ones((Nx*Ny,)))
+
+    # pixels out of reach of the filter (norm of 0) are left as they are
+    des_vec = design_region.reshape((-1,)) * (norm_vec > 0)
     no_des_vec = 1-des_vec
     des_mat = sp.diags(des_vec, shape=(N, N))
     no_des_mat = sp.diags(no_des_vec, shape=(N, N))
 
-    W_des = W.dot(des_mat) + no_des_mat
-
-    norm_vec = W.dot(np.ones((Nx*Ny,)))
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    # each filtered density is a weighted average of the densities around it
+    W = norm_mat.dot(W)
 
     return des_mat.dot(W) + no_des_mat
 
-- 
2.43.0


From 60cf6489ba258f8dce7ed2fa55d48cd022efc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 16/45] fix: gradients propagate through the transpose of the
 density filter

---
 angler/gradients.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index e03b4c3..881e803 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -28,7 +28,7 @@ def grad_linear_Ez(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -66,7 +66,7 @@ def grad_linear_Hx(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -104,7 +104,7 @@ def grad_linear_Hy(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -133,7 +133,7 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -169,7 +169,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -207,7 +207,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -270,7 +270,7 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -341,7 +341,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -412,7 +412,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
-- 
2.43.0


From 9822c0480eb69f09fdb5b30d1df526eefa7c0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 17/45] fix: wrap() returned indices outside of the grid

---
 angler/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index e3bde9d..d2fb7b6 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
@@ -54,8 +54,8 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i1 + i_diff, j1 + j_diff])
 
                     # wrap around for periodic BC
-                    i2 = (i1 + i_diff) % Nx
-                    j2 = (j1 + j_diff) % Ny
+                    i2 = wrap(i1 + i_diff, Nx)
+                    j2 = wrap(j1 + j_diff, Ny)
 
                     col_index = sub2ind((Nx, Ny), i2, j2)
 
-- 
2.43.0


From d2623ec3cac2d7f7066c4e33dce03462c4d71865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 18/45] fix: LBFGS passed options that current scipy no longer
 accepts

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..8c6886b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -314,8 +314,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From cd6184d1fe58a7ef5afaa214616b0091e023a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 19/45] fix: optimization of a simulation without an
 initialized design region

---
 angler/optimization.py | 4 ++--
 angler/simulation.py   | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 8c6886b..30c043d 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -194,8 +194,8 @@ class Optimization():
         # get the material density from the simulation if only the first time being run
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
-        
+            self.simulation.rho = eps2rho(eps, self.eps_m)
+
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
diff --git a/angler/simulation.py b/angler/simulation.py
index a16f07a..585a2bb 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -48,6 +48,9 @@ class Simulation:
         # construct the system matrix
         self.eps_r = eps_r
 
+        # material density (set by init_design_region or when an optimization starts)
+        self.rho = None
+
         self.modes = []
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
-- 
2.43.0


From b4277c385e12161288fbd3c576427ee6c344faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 20/45] fix: optimization only changes the permittivity within
 the design region

---
 angler/optimization.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 30c043d..d4356d5 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -8,7 +8,7 @@ from autograd import grad
 
 from angler.constants import *
 from angler.filter import (eps2rho, rho2eps, get_W, deps_drhob, drhob_drhot,
-                    drhot_drho, rho2rhot, drhot_drho, rhot2rhob)
+                    drhot_drho, rho2rhot, drhot_drho, rhot2rhob, rhob2eps)
 
 
 class Optimization():
@@ -101,12 +101,21 @@ class Optimization():
 
         return gradient_sum
 
+    def _rho2eps(self, rho):
+        """ Permittivity corresponding to density rho.
+            Filtering and projection only act within the design region
+        """
+
+        eps = rho2eps(rho=rho, eps_m=self.eps_m, W=self.W, eta=self.eta, beta=self.beta)
+        outside = self.design_region != 1
+        eps[outside] = rhob2eps(rho, eps_m=self.eps_m)[outside]
+        return eps
+
     def check_deriv(self, Npts=5, d_rho=1e-3):
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self.fields_current = False
-        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
 
         # solve for the linear fields and grad of the linear objective function
         grad_avm = self.compute_dJ(self.simulation, self.design_region)
@@ -129,8 +138,7 @@ class Optimization():
 
             # make a copy of the current simulation
             sim_new = copy.deepcopy(self.simulation)
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._rho2eps(rho_new)
 
             sim_new.rho = rho_new
             sim_new.eps_r = eps_new
@@ -387,8 +395,7 @@ class Optimization():
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._rho2eps(rho_new)
             self.simulation.eps_r = eps_new
 
         self.fields_current = False
@@ -427,12 +434,12 @@ class Optimization():
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
 
-        self.simulation.rho = self.simulation.rho + self.design_region * step_size * grad
-        self.simulation.rho[self.simulation.rho < 0] = 0
-        self.simulation.rho[self.simulation.rho > 1] = 1
+        rho_new = self.simulation.rho + self.design_region * step_size * grad
+        rho_new[(self.design_region == 1) & (rho_new < 0)] = 0
+        rho_new[(self.design_region == 1) & (rho_new > 1)] = 1
+        self.simulation.rho = rho_new
 
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
         self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
-- 
2.43.0


From 8e8fd178c6f226d65209cd60f74847ba38ea4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 21/45] fix: optimization starts from the filtered and
 projected permittivity it optimizes

---
 angler/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index d4356d5..80d5298 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -204,8 +204,10 @@ class Optimization():
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
 
+        # start from the permittivity that this density describes (after filtering and projection)
+        self.simulation.eps_r = self._rho2eps(self.simulation.rho)
         self.fields_current = False
-        
+
         allowed = ['LBFGS', 'GD', 'ADAM']
 
         if method.lower() in ['lbfgs']:
-- 
2.43.0


From 214407387cfed2e627205be2ad6dc10312f7959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 22/45] fix: source amplitude update could flip the sign of the
 source or divide by zero

---
 angler/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 80d5298..270c201 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -428,9 +428,13 @@ class Optimization():
                 # compute the index shift and update the source according to the ratio
                 dn = self.simulation.compute_index_shift()
                 max_dn = np.max(dn)
-                ratio = self.max_ind_shift / max_dn
 
-                self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
+                # without any index shift, there is nothing to limit
+                if max_dn == 0:
+                    break
+
+                ratio = self.max_ind_shift / max_dn
+                self.simulation.src = self.simulation.src * np.sqrt(ratio) * (1 - epsilon)
         self.fields_current = False
 
     def _update_rho(self, grad, step_size):
-- 
2.43.0


From ca0559fe8996adc2ca7c5c29f09b1b9f35e4b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 23/45] fix: scan_power probes of the linear fields saw the
 fields of the unscaled source

---
 angler/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 270c201..d5b1582 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -559,6 +559,7 @@ class Optimization():
 
             sim_new.modes[0].scale = s
             sim_new.modes[0].setup_src(sim_new)
+            sim_new.solve_fields()
             W_in = sim_new.W_in
 
             powers.append(W_in)
-- 
2.43.0


From fdce2de2c59a23db42167dd10234ca8037eb36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 24/45] fix: compute_J and compute_dJ returned stale values for
 another simulation, source or permittivity

---
 angler/optimization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index d5b1582..1589597 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -42,6 +42,9 @@ class Optimization():
         self.src_amplitudes = []
         self.objfn_list = []
         self.fields_current = False     # are the field_args current?  if not, will need to recompute
+        self.field_arg_list = []
+        self.fields_state = []          # simulation, system matrix and nonlinearities ...
+        self.fields_src = None          # ... and source that they were solved for
 
     def _solve_objfn_arg_fields(self, simulation):
         """ 
@@ -49,8 +52,13 @@ class Optimization():
             also checks if it's linear (and if so, doesnt solve_nl)
         """
 
-        # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        # do something only if the stored fields do not belong to the current state of this simulation
+        state = [simulation, simulation.A, *simulation.nonlinearity]
+        if (not self.fields_current
+                or len(state) != len(self.fields_state)
+                or any(a is not b for a, b in zip(state, self.fields_state))
+                or not np.array_equal(simulation.src, self.fields_src)
+                or simulation.fields[simulation.pol] is None):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -70,7 +78,9 @@ class Optimization():
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
 
-            # lets other functions know the field_arg_list is up to date
+            # lets other functions know the field_arg_list is up to date, and for what
+            self.fields_state = state
+            self.fields_src = np.array(simulation.src)
             self.fields_current = True
 
 
-- 
2.43.0


From 9cf7413b12b65279d58bc90b10a1eec7421c9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 25/45] fix: logscale field plots

---
 angler/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..23c74b6 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -17,7 +17,10 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        # a logarithmic scale cannot start at (or below) 0: start it at the smallest positive value
+        if vmin is None or vmin <= 0:
+            vmin = np.min(field_val[field_val > 0])
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
-- 
2.43.0


From 91e1d7a46e5a0bfedca1c91d62ee5ebf6c6d7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 26/45] fix: plt_objs without an axis

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 1589597..753a2dd 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -472,6 +472,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            _, ax = plt.subplots(1, constrained_layout=True)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
-- 
2.43.0


From 3e202bedc89f0ea377dcb38c3a7bebd4750bcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 27/45] fix: temporary plots with current numpy, a single panel
 or the default panels

---
 angler/optimization.py | 7 ++++---
 angler/plot.py         | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 753a2dd..47210e6 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -365,14 +365,15 @@ class Optimization():
             f, faxs = plt.subplots(2, 2, figsize=self.temp_plt.figsize)
             axs = faxs.ravel()
         else:
-            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize, squeeze=False)
+            axs = axs.ravel()
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -391,7 +392,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
diff --git a/angler/plot.py b/angler/plot.py
index 23c74b6..bdce212 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -92,7 +92,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0


From d9a1b272b81acfdb2356b35e4e711aa815ed603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 28/45] fix: gradients of Hz, Ex and Ey for Hz polarization

---
 angler/gradients.py | 231 +++++++++++---------------------------------
 1 file changed, 56 insertions(+), 175 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 881e803..856e75a 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -225,217 +225,98 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
 ####################################################################################################################################
 
 
-def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
+def _eps_inv_Hz(simulation, averaging=True):
+    # inverse permittivities seen by Ey (x edges) and Ex (y edges), as in the system matrix
 
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
-    omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
+    EPSILON_0_ = EPSILON_0*simulation.L0
+    eps = EPSILON_0_*simulation.eps_r
 
     if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
+        return (1/grid_average(eps, 'x').reshape((-1,)),
+                1/grid_average(eps, 'y').reshape((-1,)))
     else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
+        return (1/eps.reshape((-1,)), 1/eps.reshape((-1,)))
 
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
+def _sensitivity_Hz(optimization, Hz, b_aj, partial_Ex=0, partial_Ey=0, averaging=True):
+    """ gradient for Hz polarization, given the source of the adjoint problem (b_aj)
+        and minus the partials of J with respect to Ex and Ey, which depend on the permittivity
+        also explicitly (not only through Hz)
+    """
+
+    simulation = optimization.simulation
+    EPSILON_0_ = EPSILON_0*simulation.L0
+    omega = simulation.omega
+    (Dyb, Dxb, Dxf, Dyf) = unpack_derivs(simulation.derivs)
+    (eps_x_inv, eps_y_inv) = _eps_inv_Hz(simulation, averaging=averaging)
 
     # get fields
     Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    Ex_vec =  1/1j/omega * eps_y_inv * Dyb.dot(Hz_vec)
+    Ey_vec = -1/1j/omega * eps_x_inv * Dxb.dot(Hz_vec)
 
     # adjoint
-    # partial = -dJ(*args)
-    # partial_vec = partial.reshape((-1,))
+    (Ex_aj, Ey_aj) = adjoint_linear_Hz(simulation, b_aj, averaging=averaging)
+    Ex_aj_vec = np.reshape(Ex_aj, (-1,))
+    Ey_aj_vec = np.reshape(Ey_aj, (-1,))
 
-    b_aj = -dJ(*args)
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W).T
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
+    # sensitivity to the permittivities at the x and y edges ...
+    sens_x = EPSILON_0_*Ey_vec*(omega**2*Ey_aj_vec + eps_x_inv*partial_Ey)
+    sens_y = EPSILON_0_*Ex_vec*(omega**2*Ex_aj_vec + eps_y_inv*partial_Ex)
 
+    # ... and to the permittivities at the cell centers, which are averaged onto the edges
+    sens_x = np.reshape(sens_x, Hz.shape)
+    sens_y = np.reshape(sens_y, Hz.shape)
     if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
-
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))    
-
-def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
-
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
-    omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
-
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
-
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Hz.shape)
-
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
+        sens_x = (sens_x + np.roll(sens_x, -1, axis=0))/2
+        sens_y = (sens_y + np.roll(sens_y, -1, axis=1))/2
+    sens_eps = optimization.design_region*(sens_x + sens_y)
 
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
     filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
+    sensitivity_vec = eps_mat*filt_mat.dot(proj_mat*np.reshape(sens_eps, (-1,)))
 
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
-    else:
+def grad_linear_Hz(optimization, dJ, Hz, args, averaging=True):
+    """gives the linear field gradient: partial J/ partial * H_lin dH_lin / deps"""
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    b_aj = -dJ(*args)
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
+    return _sensitivity_Hz(optimization, Hz, b_aj, averaging=averaging)
 
-def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ex(optimization, dJ, Hz, args, averaging=True):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
-
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
+    Dyb = optimization.simulation.derivs['Dyb']
+    (_, eps_y_inv) = _eps_inv_Hz(optimization.simulation, averaging=averaging)
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
+    # get the adjoint Hz corresponding to Ex
+    partial_vec = -dJ(*args).reshape((-1,))
+    b_aj_vec = 1/1j/omega * Dyb.T.dot(eps_y_inv*partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W).T
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
+    return _sensitivity_Hz(optimization, Hz, b_aj, partial_Ex=partial_vec, averaging=averaging)
 
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+def grad_linear_Ey(optimization, dJ, Hz, args, averaging=True):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
-    else:
+    omega = optimization.simulation.omega
+    Dxb = optimization.simulation.derivs['Dxb']
+    (eps_x_inv, _) = _eps_inv_Hz(optimization.simulation, averaging=averaging)
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    # get the adjoint Hz corresponding to Ey
+    partial_vec = -dJ(*args).reshape((-1,))
+    b_aj_vec = -1/1j/omega * Dxb.T.dot(eps_x_inv*partial_vec)
+    b_aj = b_aj_vec.reshape(Hz.shape)
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
+    return _sensitivity_Hz(optimization, Hz, b_aj, partial_Ey=partial_vec, averaging=averaging)
 
 def grad_kerr_Hz(optimization, dJ, Ez_nl, args):
     raise NotImplementedError("need to write gradient for kerr Hz")
-- 
2.43.0


From 0d35a5c535a70081033432290fca017fb2e1e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 29/45] fix: stored fields are not reused for an objective with
 other arguments

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 47210e6..f149001 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -43,7 +43,7 @@ class Optimization():
         self.objfn_list = []
         self.fields_current = False     # are the field_args current?  if not, will need to recompute
         self.field_arg_list = []
-        self.fields_state = []          # simulation, system matrix and nonlinearities ...
+        self.fields_state = []          # simulation, system matrix, nonlinearities, arguments ...
         self.fields_src = None          # ... and source that they were solved for
 
     def _solve_objfn_arg_fields(self, simulation):
@@ -53,7 +53,7 @@ class Optimization():
         """
 
         # do something only if the stored fields do not belong to the current state of this simulation
-        state = [simulation, simulation.A, *simulation.nonlinearity]
+        state = [simulation, simulation.A, *simulation.nonlinearity, *self.objective.arg_list]
         if (not self.fields_current
                 or len(state) != len(self.fields_state)
                 or any(a is not b for a, b in zip(state, self.fields_state))
-- 
2.43.0


From 89db8e24cc3b682e0d1497191c10900ca9681ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 30/45] fix: modes are ordered by closeness to the guess of the
 effective index

---
 angler/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index 28b72f3..60b9ed0 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -114,6 +114,9 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     if timing:
         start = time()
     (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
+    # (the eigenvalues come in no particular order: sort them by their distance from the guess)
+    order = np.argsort(np.abs(values - guess_value))
+    (values, vectors) = (values[order], vectors[:, order])
     if timing:
         end = time()
         print('Elapsed time for eigs() is %.4f secs' % (end - start))
-- 
2.43.0


From b7dcf2fc2031ce4b959faec0cd9800b415b7bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 31/45] fix: temporary plots are written into their folder,
 with or without a trailing slash

---
 angler/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index f149001..6f891c5 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -1,6 +1,7 @@
 import numpy as np
 import scipy.sparse as sp
 import copy
+import os
 import progressbar
 import matplotlib.pylab as plt
 from scipy.optimize import minimize, fmin_l_bfgs_b
@@ -392,7 +393,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
+        fname = os.path.join(self.temp_plt.folder, 'it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
-- 
2.43.0


From bed1e6f3fadc3ea3951b9acc46f5a008564630c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 32/45] fix: temporary plots without a modal source, in Hz
 polarization or with weak fields

---
 angler/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 6f891c5..7246e73 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -346,11 +346,14 @@ class Optimization():
         Nplots = len(self.temp_plt.plot_what)
         plt.close('all')
 
-        Ez_lin = self.simulation.fields['Ez']
+        Ez_lin = self.simulation.fields[self.simulation.pol]
 
         # This is what was used for the T-port in the paper    
-        vmin = 4 * np.sqrt(self.simulation.W_in)
+        # (if there is an input power to go by, and the field exceeds it)
+        vmin = 4 * np.sqrt(getattr(self.simulation, 'W_in', 0))
         vmax = np.abs(Ez_lin).max()/1.5
+        if vmin >= vmax:
+            vmin = 0
 
         # # This is more general but less flexible
         # if self.temp_plt.vlims[0] == None:
-- 
2.43.0


From c624ee69776241517d4e93c03b546aa31455236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 33/45] fix: badly conditioned systems solved wrongly by the
 MKL back end

---
 angler/linalg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index 60b9ed0..72bae34 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -141,6 +141,10 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
         x = pSolve.solve(b)
         pSolve.clear()
 
+        # MKL only pivots within blocks, which fails for some badly conditioned systems (e.g. coarse grids)
+        if not np.linalg.norm(A.dot(x) - b) <= 1e-8*np.linalg.norm(b):
+            x = spl.spsolve(A, b)
+
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
 
@@ -178,6 +182,10 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         x = pSolve.solve(np.hstack((b_re, b_im)))
         pSolve.clear()
 
+        # (see solver_direct)
+        if not np.linalg.norm(Areal.dot(x) - np.hstack((b_re, b_im))) <= 1e-8*np.linalg.norm(b):
+            x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
+
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
-- 
2.43.0


From 79ca58fd5afe1aaa2342813bc6f03c08211533b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 34/45] fix: regions that return 0 or 1 instead of booleans
 overwrote the first rows of the permittivity

---
 angler/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/structures.py b/angler/structures.py
index d7f2794..93fcbed 100644
--- a/angler/structures.py
+++ b/angler/structures.py
@@ -34,7 +34,7 @@ def apply_regions(reg_list, xs, ys, eps_start, eps_background=1):
     # loop through lambdas and apply masks
     for reg in reg_list:
         reg_vec = np.vectorize(reg)
-        material_mask = reg_vec(xs, ys)
+        material_mask = reg_vec(xs, ys).astype(bool)
         eps_r[material_mask] = eps_start
 
     return eps_r
-- 
2.43.0


From ac85eadb5209c2a8f869b3fe24bdaaeaf9f72d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:35 +0000
Subject: [PATCH 35/45] fix: init_design_region dropped the imaginary part of
 the permittivity outside, and truncated to integers

---
 angler/simulation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 585a2bb..45d00e2 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -311,27 +311,30 @@ class Simulation:
     def init_design_region(self, design_region, eps_m, style=''):
         """ Initializes the design_region permittivity depending on style"""
 
+        # (pixels may take fractional values, and those outside of the region may be complex)
+        dtype = np.result_type(self.eps_r, np.float64)
+
         if style == 'full':
             # eps_m filled in design region
-            eps_full = self.eps_r.copy()
+            eps_full = self.eps_r.astype(dtype)
             eps_full[design_region == 1] = eps_m
             self.eps_r = eps_full
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r.copy()
+            eps_halfway = self.eps_r.astype(dtype)
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
         elif style == 'empty':
             # nothing in design region
-            eps_empty = self.eps_r.copy()
+            eps_empty = self.eps_r.astype(dtype)
             eps_empty[design_region == 1] = 1
             self.eps_r = eps_empty
 
         elif style == 'random':
             # random pixels in design region
-            eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
+            eps_random = ((eps_m-1)*np.random.random(self.eps_r.shape)+1).astype(dtype)
             eps_random[design_region == 0] = self.eps_r[design_region == 0]
             self.eps_r = eps_random
 
@@ -339,7 +342,7 @@ class Simulation:
             # random pixels in design region.  Symmetric across y=0
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
-            eps_random = (eps_m-1)*R_sym+1
+            eps_random = ((eps_m-1)*R_sym+1).astype(dtype)
             eps_random[design_region == 0] = self.eps_r[design_region == 0]
             self.eps_r = eps_random
 
-- 
2.43.0


From c8b0d4c4d0450e7eb9f5bb207f212fb0aded4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:13 +0000
Subject: [PATCH 36/45] fix: plots of 1D simulations failed when drawing the
 outline of the structure

---
 angler/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index bdce212..c4cc802 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -25,7 +25,8 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
 
-    if outline:
+    # (there are no contours of a 1D structure)
+    if outline and min(outline_val.shape) > 1:
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
@@ -51,7 +52,8 @@ def plt_base_eps(field_val, outline_val, cmap, vmin, vmax,
     if cbar:
         plt.colorbar(h, label='relative permittivity', ax=ax)
 
-    if outline:
+    # (there are no contours of a 1D structure)
+    if outline and min(outline_val.shape) > 1:
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
-- 
2.43.0


From fc3ccee1ea554f707df2074da8fe2d6a9cbc4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:13 +0000
Subject: [PATCH 37/45] fix: animations had the extents of x and y exchanged

---
 angler/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index c4cc802..78e7a00 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -69,14 +69,14 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
     field_val = field_val.transpose()
 
     fig, ax = plt.subplots(1, constrained_layout=True)
-    h = ax.imshow(np.zeros(field_val.shape).transpose(), origin='lower')
+    h = ax.imshow(np.zeros(field_val.shape), origin='lower')
 
     ax.set_xticks([])
     ax.set_yticks([])
 
     def init():
         vmax = np.abs(field_val).max()
-        h.set_data(np.zeros(field_val.shape).transpose())
+        h.set_data(np.zeros(field_val.shape))
         h.set_cmap('RdBu')
         h.set_clim(vmin=-vmax, vmax=+vmax)
 
-- 
2.43.0


From 97aee6556e4cc09668d692b5adc8d81c02d3d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 38/45] fix: modes of degenerate cross sections differed from
 call to call

---
 angler/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index 72bae34..0ecaf89 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -113,6 +113,9 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
 
     if timing:
         start = time()
+    if guess_vector is None:
+        # (otherwise a random one is used, and degenerate modes differ from call to call)
+        guess_vector = np.random.RandomState(0).rand(A.shape[0])
     (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
     # (the eigenvalues come in no particular order: sort them by their distance from the guess)
     order = np.argsort(np.abs(values - guess_value))
-- 
2.43.0


From 04c2e6b9073be7c59782cc7c6d9fd873bde3e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:31 +0000
Subject: [PATCH 39/45] fix: filters for boolean design regions raised an error

---
 angler/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index d2fb7b6..73d7bd3 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -71,7 +71,8 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     norm_vec = W.dot(np.ones((Nx*Ny,)))
 
     # pixels out of reach of the filter (norm of 0) are left as they are
-    des_vec = design_region.reshape((-1,)) * (norm_vec > 0)
+    # (the design region may be a boolean array)
+    des_vec = 1.0 * design_region.reshape((-1,)) * (norm_vec > 0)
     no_des_vec = 1-des_vec
     des_mat = sp.diags(des_vec, shape=(N, N))
     no_des_mat = sp.diags(no_des_vec, shape=(N, N))
-- 
2.43.0


From f26774e0881dcc44522d8d2a114029ebc673d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:15 +0000
Subject: [PATCH 40/45] fix: probes and modes at the last line, given as -1,
 were empty

---
 angler/simulation.py  | 4 ++--
 angler/source/mode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 45d00e2..29605b8 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -256,11 +256,11 @@ class Simulation:
 
         # first extract the slice of the permittivity
         if direction_normal == "x":
-            inds_x = [center[0], center[0]+1]
+            inds_x = [center[0], center[0]+1 or None]   # (None: -1 is the last one)
             inds_y = [int(center[1]-width/2), int(center[1]+width/2)]
         elif direction_normal == "y":
             inds_x = [int(center[0]-width/2), int(center[0]+width/2)]
-            inds_y = [center[1], center[1]+1]
+            inds_y = [center[1], center[1]+1 or None]   # (None: -1 is the last one)
         else:
             raise ValueError("The value of direction_normal is neither x nor y!")
 
diff --git a/angler/source/mode.py b/angler/source/mode.py
index 9c8ffa6..d0b2d25 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -62,11 +62,11 @@ class mode:
 
         # first extract the slice of the permittivity
         if self.direction_normal == "x":
-            inds_x = [self.center[0], self.center[0]+1]
+            inds_x = [self.center[0], self.center[0]+1 or None]   # (None: -1 is the last one)
             inds_y = [int(self.center[1]-self.width/2), int(self.center[1]+self.width/2)]
         elif self.direction_normal == "y":
             inds_x = [int(self.center[0]-self.width/2), int(self.center[0]+self.width/2)]
-            inds_y = [self.center[1], self.center[1]+1]
+            inds_y = [self.center[1], self.center[1]+1 or None]   # (None: -1 is the last one)
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
-- 
2.43.0


From c4b708afe61927bc00970f4eebab8e1ee9c5f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 41/45] fix: animations need matplotlib.animation to be
 imported

---
 angler/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/plot.py b/angler/plot.py
index 78e7a00..514f968 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
+import matplotlib.animation
 from matplotlib.colors import LogNorm
 
 
-- 
2.43.0


From f65613e4c0b92fe0a913741569d629b2bdd5d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 42/45] fix: the input waveguide of N_port was displaced by a
 fixed length, whatever the unit

---
 angler/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/structures.py b/angler/structures.py
index 93fcbed..f4c8c87 100644
--- a/angler/structures.py
+++ b/angler/structures.py
@@ -135,7 +135,7 @@ def N_port(N, L, H, w, d, l, spc, dl, NPML, eps_start, eps_background=1):
 
     # define the regions
     box    = lambda x, y: (np.abs(x) < L/2) * (np.abs(y-y_mid) < H/2)
-    wg_in  = lambda x, y: (x < 0)           * (np.abs(y-0.01) < dl*wg_width_px/2)  # note, this slight offset is to fix gridding issues
+    wg_in  = lambda x, y: (x < 0)           * (np.abs(y-dl/10) < dl*wg_width_px/2)  # note, this slight offset is to fix gridding issues
 
     reg_list = [box, wg_in]
     for i in range(N):
-- 
2.43.0


From 4d2e28058e4e1a3b548d122c8fc5ab94e451e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 43/45] fix: axis and direction names were compared by
 identity: computed names raised an error or dropped the absorbing layers

---
 angler/derivatives.py | 10 +++++-----
 angler/pml.py         |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 70da9bf..1002bc8 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -11,15 +11,15 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
 
     Nx = N[0]
     dx = dL[0]
-    if len(N) is not 1:
+    if len(N) != 1:
         Ny = N[1]
         dy = dL[1]
     else:
         Ny = 1
         dy = 1
-    if w is 'x':
+    if w == 'x':
         if Nx > 1:
-            if s is 'f':
+            if s == 'f':
                 dxf = sp.diags([-1, 1, 1], [0, 1, -Nx+1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxf, sp.eye(Ny), format=matrix_format)
             else:
@@ -28,9 +28,9 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
         else:
             # a single cell is uniform along x, so the derivative vanishes
             Dws = sp.csr_matrix((Ny, Ny))
-    if w is 'y':
+    if w == 'y':
         if Ny > 1:
-            if s is 'f':
+            if s == 'f':
                 dyf = sp.diags([-1, 1, 1], [0, 1, -Ny+1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyf, format=matrix_format)
             else:
diff --git a/angler/pml.py b/angler/pml.py
index 412f3be..45299b6 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -26,12 +26,12 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     hw = np.diff(wrange)[0]/Nw
     dw = Nw_pml*hw
     for i in range(0, Nw):
-        if s is 'f':
+        if s == 'f':
             if i <= Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
             elif i > Nw - Nw_pml:
                 sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
-        if s is 'b':
+        if s == 'b':
             if i <= Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
             elif i > Nw - Nw_pml:
-- 
2.43.0


From d73a51fd9fbc78737fc6a6a4ab1f94a2e0f8da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 44/45] fix: gradients mixed the stored fields with those
 solved for another source in between

---
 angler/optimization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 7246e73..35bfeb2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -54,7 +54,7 @@ class Optimization():
         """
 
         # do something only if the stored fields do not belong to the current state of this simulation
-        state = [simulation, simulation.A, *simulation.nonlinearity, *self.objective.arg_list]
+        state = self._get_fields_state(simulation)
         if (not self.fields_current
                 or len(state) != len(self.fields_state)
                 or any(a is not b for a, b in zip(state, self.fields_state))
@@ -80,11 +80,21 @@ class Optimization():
             self.field_arg_list = field_arg_list
 
             # lets other functions know the field_arg_list is up to date, and for what
-            self.fields_state = state
+            self.fields_state = self._get_fields_state(simulation)
             self.fields_src = np.array(simulation.src)
             self.fields_current = True
 
 
+    def _get_fields_state(self, simulation):
+        """ The objects that the fields in the objective function depend on, and the fields themselves,
+            which anyone may have solved for another source since """
+
+        state = [simulation, simulation.A, *simulation.nonlinearity, *self.objective.arg_list,
+                 simulation.fields[simulation.pol]]
+        if not self.objective.is_linear():
+            state.append(simulation.fields_nl[simulation.pol])
+        return state
+
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
 
-- 
2.43.0


From 29de00615a8e688977ed13bbda62fabcce895e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 45/45] fix: gradients of nonlinear objectives used the
 nonlinear terms computed last, for whatever field

---
 angler/adjoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/adjoint.py b/angler/adjoint.py
index a3ad326..09cc875 100644
--- a/angler/adjoint.py
+++ b/angler/adjoint.py
@@ -74,6 +74,7 @@ def adjoint_kerr_Ez(simulation, b_aj,
     M = Nx*Ny
 
     Ez = simulation.fields_nl['Ez']
+    simulation.compute_nl(Ez)
     Anl = simulation.A + simulation.Anl
     dAde = omega**2*EPSILON_0_*simulation.dnl_de
 
-- 
2.43.0

