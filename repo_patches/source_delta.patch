From 658fba2142f52fefd598277cc24e7ed928d156d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 01/40] fix: evaluate the slab evolution operator (rhs returned
 its input unchanged)

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..84ea8e5 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,18 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    if self.source_type[4] == 1: # MMS source depends on the angle
+                        source.make_source_not_isotropic(t, mul, xL, xR)
+                        S = source.S
+                    RHS = np.dot(G,U)
+                    RHS -= LU
+                    RHS += mul*np.dot(L,U)
+                    RHS -= VV
+                    RHS += PV
+                    RHS += 0.5*S
+                    V_new[angle,space,:] = RHS
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From c30882d87edd2b488ff0d5893ae76f2c0fbe1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 02/40] fix: reset the absorption moments before accumulating
 them

---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..73af888 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M + 1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From 5243db6ea97e40bc30e443b2f1b8735712d1e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 03/40] fix: re-evaluate time dependent opacity on cells that
 did not move

---
 moving_mesh_transport/solver_classes/opacity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 73af888..bc11604 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,8 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        if self.sigma_func['fake_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From 63c18b9cf2d48ff376ae21cad73ab8ceebe54c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 04/40] fix: record the initial edges for every mesh layout

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..8c7b90d 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -855,7 +855,7 @@ class mesh_class(object):
                     elif self.move_func == 2:
                             self.thin_square_init_func()
 
-        # self.edges0 = self.edges
+        self.edges0 = self.edges
         self.Dedges_const = self.Dedges
 
 
-- 
2.43.0


From 5c72d9ea016f902d66ad51b9ee31ae68c2d99fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 05/40] fix: move the mesh of every source type with its edge
 velocities

---
 moving_mesh_transport/solver_classes/mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 8c7b90d..7dc8232 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -257,9 +257,10 @@ class mesh_class(object):
                     else:
                             print("no move function selected")
                             assert(0)
-            elif np.all(self.source_type == 0):
-                # print(self.Dedges)
-                self.edges = self.edges0 + self.Dedges*t
+            else:
+                # every other layout moves each edge with its own constant speed
+                self.edges = self.edges0 + self.Dedges_const*t
+                self.Dedges = self.Dedges_const
 
             # if self.debugging == True:
             #     for itest in range(self.edges.size()):
-- 
2.43.0


From 836b3d90b5cb6e132f47ba51248774b602923694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 06/40] fix: lay out a mesh for the manufactured solution
 problem

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 7dc8232..0f9b82a 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -802,7 +802,7 @@ class mesh_class(object):
         """
         print('initializing mesh')
         # if self.problem_type in ['plane_IC']:
-        if self.source_type[0] == 1 or self.source_type[0] == 2:
+        if self.source_type[0] == 1 or self.source_type[0] == 2 or self.source_type[4] == 1:
             self.simple_moving_init_func()
 
         if self.thick == False:     # thick and thin sources have different moving functions
-- 
2.43.0


From 6f4d645c4dcb0be4216cb60e2dc49b55b1d5f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 07/40] fix: stop the mesh of a finite domain at the wall
 independently of the call history

---
 moving_mesh_transport/solver_classes/mesh.py | 37 +++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 0f9b82a..2f5d2b9 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -177,7 +177,7 @@ class mesh_class(object):
 
 
             elif self.source_type[1] == 1:
-                if self.finite_domain == True and t == self.tfinal:
+                if self.finite_domain == True and t == self.tfinal and self.tactual == 0.0: # static mesh
 
                 # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
                 
@@ -185,8 +185,9 @@ class mesh_class(object):
                     self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
                     
 
-                elif (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
-                    self.edges = self.edges
+                elif (self.finite_domain == True) and t >= self.time_to_wall(self.edges0, self.Dedges_const, self.Dedges_const*0):
+                    t_stop = self.time_to_wall(self.edges0, self.Dedges_const, self.Dedges_const*0)
+                    self.edges = self.edges0 + self.Dedges_const*t_stop
                     self.Dedges = self.Dedges_const*0
                 else:
                     # print(self.edges0, 'edges0')
@@ -199,7 +200,7 @@ class mesh_class(object):
 
             elif (self.source_type[2] == 1 or self.source_type[1] == 1) and self.finite_domain == True: #or self.source_type[0]!=0:
                 # self.finite_domain = True # what is the deal with this?
-                if (self.finite_domain == True) and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
+                if self.move_func != 0 and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
                         self.edges = self.edges
                         self.Dedges = self.Dedges_const*0
                     # if t == self.tfinal:
@@ -208,9 +209,11 @@ class mesh_class(object):
                     # else:
                 else:
                     if self.move_func == 0:
-                            if t >= self.t0:
+                            t_stop = self.time_to_wall(self.edges0, self.Dedges_const, self.Dedges_const*0)
+                            if t > self.t0 and t_stop > self.t0:
                                 self.move_middle_edges(t)
-                                tnew1 = t - self.t0 
+                                t_stop = self.t0 + self.time_to_wall(self.edges0_2, self.Dedges_const, self.c1s)
+                                tnew1 = min(t, t_stop) - self.t0 
 
                             ### uncomment this to go back to the old mesh
 
@@ -228,9 +231,13 @@ class mesh_class(object):
                                 self.Dedges = self.c1s * tnew1 + self.Dedges_const
 
 
-                            elif (t < self.t0):
+                            else:
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*min(t, t_stop)
+                                self.Dedges = self.Dedges_const
+
+                            if t >= t_stop: # the mesh fills the domain
+                                self.Dedges = self.Dedges_const*0
 
 
                             # self.Dedges = self.Dedges_const
@@ -272,10 +279,22 @@ class mesh_class(object):
             if self.wave_loc_array[0,3,ix] < self.wave_loc_array[0,3,ix +1]:
                 self.wave_loc_array[0,3,ix] = self.wave_loc_array[0,3,ix +1]
 
+    def time_to_wall(self, edges, speeds, accelerations):
+        """
+        The time the outermost edge needs to reach the end of the finite domain
+        """
+        room = self.domain_width/2 - edges[-1]
+        if room <= 0.0:
+            return 0.0
+        disc = speeds[-1]**2 + 2 * accelerations[-1] * room
+        if disc < 0.0 or speeds[-1] + math.sqrt(disc) <= 0.0:
+            return np.inf
+        return 2 * room / (speeds[-1] + math.sqrt(disc))
+
     def move_middle_edges(self,t):
         middlebin = int(self.N_space/2)
         sidebin = int(middlebin/2)
-        if self.Dedges[sidebin] == 0:
+        if t > self.t0:
             self.edges0_2 = self.edges0 + self.Dedges_const * self.t0
             # final_pos = self.edges0[-1] + self.Dedges[-1] * self.tfinal
             final_pos = self.pad
-- 
2.43.0


From 4da89bc282b02a76cdb3fc65d0ce893431816f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 08/40] fix: pass the geometry when solve() picks nodes at
 several times

---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From 4cd76ddccc6ae9a06a5b8f83f0f81f9d7f8f1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 09/40] fix: add the uncollided flux of the exit points to the
 exit flux

---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From 32c4f1ad49c401db081e7755878170d88f16a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 10/40] fix: use the total cross section in the spherical
 absorption term

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 84ea8e5..c4e287f 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -335,7 +335,7 @@ class rhs_class():
                     # if max(np.abs(PV - PV2)) >= 1e-10:
                     #     assert(0)
                     RHS += PV * self.c
-                    RHS -= U
+                    RHS -= VV
 
                     # RHS2 -= (3 * (a+b) / 2 / (a*b + b**2 + a**2)) * dterm 
 
-- 
2.43.0


From 0193499f0a2d35faa20f443928313cd5248cde81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 11/40] fix: accept an opacity selection without the fake_sedov
 entry

---
 moving_mesh_transport/solver_classes/opacity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index bc11604..f221bd6 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,7 +62,7 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        if self.sigma_func['fake_sedov'] == True:
+        if 'fake_sedov' in self.sigma_func and self.sigma_func['fake_sedov'] == True:
             self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
-- 
2.43.0


From 4a67e6d9aa9a915f5987c86c53003b8820861699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 12/40] fix: name the fake sedov opacity in the shipped mesh
 parameters as the solver does

---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From f66f61080c06efce2a0720309cf24398d672c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 13/40] fix: apply the source strength once

---
 moving_mesh_transport/solver_classes/sources.py              | 4 ++--
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..2b01133 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -131,6 +131,7 @@ class source_class(object):
                 elif self.source_type[5] == 1:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, self.gaussian_source)
+                self.S = self.S * self.source_strength
         
         elif self.geometry['sphere'] == True:
             if self.uncollided == True:
@@ -146,7 +147,6 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
 
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From 239933d092fc3fdf9d9cd5fc4298103d2d61af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 14/40] fix: select the boundary source results with the named
 opacity

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..418ac07 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func["constant"] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func["gaussian"] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func["siewert1"] == 1 or solver.sigma_func["siewert2"] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func["fake_sedov"] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma["siewert1"] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma["siewert2"] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From 67e0d550211464b1482ec8aaf1458536e329bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 15/40] fix: read the temperature wave of every problem from
 its own folder

---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..4f6359a 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -91,7 +91,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -148,7 +148,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From eab95d0231218ffaaa7c69d9c3306a583fb68c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 16/40] fix: keep the angular flux of a saved solution inside
 its problem folder

---
 .../loading_and_saving/load_solution.py         |  7 +++++--
 .../loading_and_saving/save_output.py           | 17 +++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 4f6359a..984110a 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -50,10 +50,13 @@ class load_sol:
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str]['psi'][:,:]
+        group_str = full_str.lstrip('/')
+        if not f[self.problem_name].__contains__(group_str):
+            group_str = full_str # older files keep the angular flux outside of the problem folder
+        self.psi = f[self.problem_name][group_str]['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str]['mus'][:]
+        self.mus = f[self.problem_name][group_str]['mus'][:]
 
       
         self.ws = f[self.problem_name]['weights/' + full_str][:]
diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..7c844c0 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -196,23 +196,24 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
         
-        if not f[folder_name].__contains__(full_str):
-            f.create_group(full_str)
+        group_str = full_str.lstrip('/') # inside of the folder of this problem
+        if not f[folder_name].__contains__(group_str):
+            f[folder_name].create_group(group_str)
 
 
 
-        if f[folder_name][full_str].__contains__('psi'):
-            del f[folder_name][full_str]['psi']
-        if f[folder_name][full_str].__contains__('mus'):
-            del f[folder_name][full_str]['mus']
+        if f[folder_name][group_str].__contains__('psi'):
+            del f[folder_name][group_str]['psi']
+        if f[folder_name][group_str].__contains__('mus'):
+            del f[folder_name][group_str]['mus']
         print("saving solution")
         dset[0] = xs
         dset[1] = phi
         if folder_name != 'transport':
             dset[2] = e
         
-        dsetpsi = f[folder_name][full_str].create_dataset('psi', data = psi)
-        dsetmus = f[folder_name][full_str].create_dataset('mus', data = mus)
+        dsetpsi = f[folder_name][group_str].create_dataset('psi', data = psi)
+        dsetmus = f[folder_name][group_str].create_dataset('mus', data = mus)
         # dsetpsi = psi
         # dset[3] = psi
         # dset[2] = self.ws
-- 
2.43.0


From c84f44d7e9a626d1750c58c584158954f3e28021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 17/40] fix: keep the radii of a finite sphere non negative

---
 moving_mesh_transport/solver_classes/mesh.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 2f5d2b9..fed7fed 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -182,7 +182,7 @@ class mesh_class(object):
                 # print(self.edges0[-1] + t * self.speed, "###### final edge ######")
                 
                 # if self.edges0[-1] + t * self.speed > 5 and self.finite_domain == True:
-                    self.edges = np.linspace(-self.domain_width/2, self.domain_width/2, self.N_space+1)
+                    self.edges = self.even_edges(self.domain_width/2)
                     
 
                 elif (self.finite_domain == True) and t >= self.time_to_wall(self.edges0, self.Dedges_const, self.Dedges_const*0):
@@ -291,6 +291,15 @@ class mesh_class(object):
             return np.inf
         return 2 * room / (speeds[-1] + math.sqrt(disc))
 
+    def even_edges(self, right):
+        """
+        Evenly spaced edges of a slab centred at zero or of a sphere
+        """
+        left = -right
+        if self.geometry['sphere'] == True:
+            left = 0.0
+        return np.linspace(left, right, self.N_space + 1)
+
     def move_middle_edges(self,t):
         middlebin = int(self.N_space/2)
         sidebin = int(middlebin/2)
@@ -299,7 +308,7 @@ class mesh_class(object):
             # final_pos = self.edges0[-1] + self.Dedges[-1] * self.tfinal
             final_pos = self.pad
             # final_pos = self.x0 + self.pad
-            final_array = np.linspace(-final_pos, final_pos, self.N_space + 1)
+            final_array = self.even_edges(final_pos)
             # print(final_array, 'final array')
 
             # constant velocity
-- 
2.43.0


From e77f783f2c19180391e4031b04dcb3f7318c05d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 18/40] fix: keep the radii of a thick gaussian sphere non
 negative

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index fed7fed..5f31d20 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -462,7 +462,7 @@ class mesh_class(object):
         # if right_edge < self.x0:
             # right_edge = self.x0 + self.tfinal
 
-        self.edges = np.linspace(-right_edge, right_edge, self.N_space + 1)
+        self.edges = self.even_edges(right_edge)
         self.Dedges = self.edges * 0
 
 
-- 
2.43.0


From 3c6c8fff41c8fa11effa1fbaee5d0005d669fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 19/40] fix: a boundary source on one side of a single cell
 stays on that side

---
 .../solver_classes/numerical_flux.py               | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/numerical_flux.py b/moving_mesh_transport/solver_classes/numerical_flux.py
index 61c5851..f7c1f46 100644
--- a/moving_mesh_transport/solver_classes/numerical_flux.py
+++ b/moving_mesh_transport/solver_classes/numerical_flux.py
@@ -159,7 +159,7 @@ class LU_surf(object):
         self.xL_minus = self.edges[0] - dx
         self.xR_plus = self.edges[-1] + dx
         
-    def is_boundary_source_on(self, space, t):
+    def is_boundary_source_on(self, side, t):
         returnval = False
         if self.source_type[4] == 1:
             returnval = True
@@ -168,12 +168,8 @@ class LU_surf(object):
         elif self.boundary_source == True:
             if self.uncollided == False:
                 if t <= self.t0:
-                    if space == 0:
-                        if self.boundary_on[0] == 1:
-                            returnval = True
-                    elif space == self.N_space - 1:
-                        if self.boundary_on[1] == 1:
-                            returnval = True
+                    if self.boundary_on[side] == 1: # [left, right]
+                        returnval = True
         return returnval
 
 
@@ -182,7 +178,7 @@ class LU_surf(object):
                 if space != 0:
                     self.v0 += self.B_LR_func(j, self.hm)[1]*(u[space-1,j])
                     
-                elif space == 0 and self.is_boundary_source_on(space, t): # special MMS case
+                elif space == 0 and self.is_boundary_source_on(0, t): # special MMS case
                     self.v0 += self.integrate_quad(t, self.xL_minus, self.edges[space], j, "l") * self.B_LR_func(j, self.h)[1] 
                 
                 elif space == 0 and self.geometry['sphere'] == True: #reflecing BC for sphere
@@ -196,7 +192,7 @@ class LU_surf(object):
                 if space != self.N_space - 1:
                     self.v3 += self.B_LR_func(j, self.hp)[0]*(u[space+1,j])
                     
-                elif space == self.N_space - 1 and self.is_boundary_source_on(space, t):
+                elif space == self.N_space - 1 and self.is_boundary_source_on(1, t):
                     self.v3 += self.integrate_quad(t, self.edges[space+1], self.xR_plus, j, "r") * self.B_LR_func(j, self.h)[0] 
             
     
-- 
2.43.0


From 0f071ac4f3b6fce0d5ef43fa3c1c159c73fdd6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:38 +0000
Subject: [PATCH 20/40] fix: S2 square source switched off keeps the trailing
 edge of both beams

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..d1b529e 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,7 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, max(t - (x+x0)*3/math.sqrt(3),0))
             else:
                 return 0
          
-- 
2.43.0


From 9707c991270399a3d79f5b793e51d992a1fc5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/40] fix: the uncollided solution of a ball has a value at
 its centre

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index 6c0e820..e79056d 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -230,7 +230,8 @@ class uncollided_solution(object):
         N01  = 4 * math.pi * self.x0**3 / 3
         N0 = 1
         n0 = N0 / (4. * math.pi / 3. * (self.x0 ** 3)) / (4. * math.pi)
-        for ix, r in enumerate(xs):
+        for ix in range(xs.size):
+            r = max(xs[ix], 1e-12) # the value at the centre is the limit
             tt = t + 1e-12
             mu_crit = min(1., max(-1.,0.5*(tt/r+r/tt-self.x0**2/(r*tt))))
             r2 = r ** 2 + t ** 2 - 2 * mu_crit * r * t
-- 
2.43.0


From 529e32456f934f27014e3694ef1c90651cd2906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 22/40] fix: the box of a static plane pulse does not reach
 beyond a grid of two cells

---
 .../solver_classes/build_problem.py           | 450 +++++++++---------
 1 file changed, 225 insertions(+), 225 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/build_problem.py b/moving_mesh_transport/solver_classes/build_problem.py
index 9a970d3..04c8733 100644
--- a/moving_mesh_transport/solver_classes/build_problem.py
+++ b/moving_mesh_transport/solver_classes/build_problem.py
@@ -1,225 +1,225 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-"""
-Created on Wed Jan 26 07:24:05 2022
-
-@author: William Bennett
-"""
-import numpy as np
-from numba import int64, float64, jit, njit, deferred_type
-from numba.experimental import jitclass
-from numba import types, typed
-# from main import IC_func 
-from .mesh import mesh_class
-from .functions import normPn, normTn
-from .mutables import IC_func
-from .functions import weight_func_Tn
-
-import yaml
-from pathlib import Path
-import numba as nb
-
-###############################################################################
-mesh_class_type = deferred_type()
-mesh_class_type.define(mesh_class.class_type.instance_type)
-IC_func_type = deferred_type()
-IC_func_type.define(IC_func.class_type.instance_type)
-kv_ty = (types.int64, types.unicode_type)
-# Explicitly define the types of the key and value:
-params_default = nb.typed.Dict.empty(key_type=nb.typeof('par_1'),value_type=nb.typeof(1))
-
-data = [('N_ang', int64), 
-        ('N_space', int64),
-        ('M', int64),
-        ('tfinal', float64),
-        ('sigma_t', float64),
-        ('sigma_s', float64),
-        ('IC', float64[:,:,:]),
-        ('mus', float64[:]),
-        ('ws', float64[:]),
-        ('xs_quad', float64[:]),
-        ('ws_quad', float64[:]),
-        ('x0', float64),
-        ('t0', float64),
-        ("source_type", int64[:]),
-        ("uncollided", int64),
-        ("moving", int64),
-        ("move_type", int64[:]),
-        ("argument", float64[:]),
-        ("temp", float64),
-        ("t_quad", float64[:]),
-        ("t_ws", float64[:]),
-        ('scattering_ratio', float64),
-        ('thermal_couple', nb.typeof(params_default)),
-        ('temp_function', int64[:]),
-        ('e_init', float64),
-        ('sigma', float64),
-        ('particle_v', float64),
-        ('edge_v', float64),
-        ('cv0', float64),
-        ('thick', int64),
-        ('wave_loc_array', float64[:,:,:]),
-        ('source_strength', float64),
-        ('move_factor', float64),
-        ('sigma_a', float64),
-        ('l', float64),
-        ('save_wave_loc', int64),
-        ('pad', float64),
-        ('leader_pad', float64),
-        ('quad_thick_source', float64[:]),
-        ('quad_thick_edge', float64[:]),
-        ('boundary_on', int64[:]), 
-        ('boundary_source_strength', float64),
-        ('boundary_source', int64),
-        # ('sigma_func', int64[:]),
-        ('sigma_func', nb.typeof(params_default)),
-        ('Msigma', int64),
-        ('domain_width', float64),
-        ('finite_domain', int64),
-        ('fake_sedov_v0', float64),
-        ('x01', float64),
-        ('test_dimensional_rhs', int64),
-        ('epsilon', float64), 
-        ('geometry', nb.typeof(params_default)),
-        ]
-###############################################################################
-
-@jitclass(data)
-class build(object):
-    def __init__(self, N_ang, N_space, M, tfinal, x0, t0, mus, ws, xs_quad, ws_quad, sigma_t, sigma_s, 
-    source_type, uncollided, moving, move_type, t_quad, t_ws, thermal_couple, temp_function, e_initial, sigma, particle_v, 
-    edge_v, cv0, thick, wave_loc_array, source_strength, move_factor, l, save_wave_loc, pad, leader_pad, quad_thick_source,
-     quad_thick_edge, boundary_on, boundary_source_strength, boundary_source, sigma_func, Msigma, finite_domain, domain_width, 
-     fake_sedov_v0, test_dimensional_rhs, epsilon, geometry):
-        self.N_ang = N_ang
-        self.N_space = N_space
-        self.M = M
-        self.tfinal = tfinal
-        self.sigma_t = sigma_t
-        self.sigma_s = sigma_s
-        self.sigma_a = sigma_t-sigma_s
-        self.scattering_ratio = self.sigma_s / self.sigma_t
-        self.mus = mus
-        self.ws = ws/np.sum(ws)
-        self.xs_quad = xs_quad
-        self.ws_quad = ws_quad
-        self.x0 = x0
-        self.source_type = np.array(list(source_type), dtype = np.int64)
-        self.uncollided = uncollided 
-        self.moving = moving
-        self.move_type = np.array(list(move_type), dtype = np.int64)
-        self.t_quad = t_quad
-        self.t_ws = t_ws
-        self.t0 = t0
-        # self.sigma_func = np.array(list(sigma_func), dtype = np.int64)
-        self.sigma_func = sigma_func
-
-        self.test_dimensional_rhs = test_dimensional_rhs
-
-        self.thermal_couple = thermal_couple
-        self.temp_function = np.array(list(temp_function), dtype = np.int64)
-        self.sigma = sigma
-        self.particle_v = particle_v
-        self.edge_v = edge_v
-        self.cv0 = cv0
-        self.thick = thick
-        self.wave_loc_array = wave_loc_array
-        self.source_strength = source_strength
-        self.move_factor = move_factor
-        self.l = l
-        self.save_wave_loc = save_wave_loc
-        self.pad = pad
-        self.leader_pad = leader_pad
-        self.quad_thick_source = quad_thick_source
-        self.quad_thick_edge = quad_thick_edge
-        self.boundary_on = np.array(list(boundary_on), dtype = np.int64)
-        self.boundary_source = boundary_source
-        self.boundary_source_strength = boundary_source_strength
-        self.Msigma = Msigma
-        self.finite_domain = finite_domain
-        self.domain_width = domain_width
-        self.fake_sedov_v0 = fake_sedov_v0
-        
-        if self.thermal_couple['none'] == 1:
-            self.IC = np.zeros((N_ang, N_space, M+1))
-        elif self.thermal_couple['none'] != 1:
-            self.IC = np.zeros((N_ang + 1, N_space, M+1))
-        self.epsilon = epsilon
-        self.geometry = geometry
-       
-        self.e_init = e_initial
-        # self.e_initial = 1e-4
-        
-        
-    def integrate_quad(self, a, b, ang, space, j, ic):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        mu = self.mus[ang]
-        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))
-
-    def integrate_quad_sphere(self, a, b, ang, space, j, ic):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        mu = self.mus[ang]
-        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * 2.0 * normTn(j, argument, a, b))
-        
-
-    def integrate_e(self, a, b, space, j):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        self.IC[self.N_ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * self.IC_e_func(argument) * normPn(j, argument, a, b))
-    
-    def IC_e_func(self,x):
-        return np.ones(x.size) * self.e_init
-                
-    def make_IC(self):
-        edges = mesh_class(self.N_space, self.x0, self.tfinal, self.moving, self.move_type, self.source_type, 
-        self.edge_v, self.thick, self.move_factor, self.wave_loc_array, self.pad,  self.leader_pad, self.quad_thick_source, 
-        self.quad_thick_edge, self.finite_domain, self.domain_width, self.fake_sedov_v0, self.boundary_on, self.t0, self.geometry)
-        edges_init = edges.edges
-
-        # The current method for handling delta functions
-        if self.moving == False and self.source_type[0] == 1 and self.uncollided == False and self.N_space%2 == 0:
-            if self.geometry['slab'] == True:
-                right_edge_index = int(self.N_space/2 + 1)
-                left_edge_index = int(self.N_space/2 - 1)
-                self.x0 = edges_init[right_edge_index] - edges_init[left_edge_index]
-            # temp = (edges_init[int(self.N_space/2 + 1)] - edges_init[self.N_space/2 - 1]) 
-            elif self.geometry['sphere'] == True:
-                self.x0 = edges_init[1] - edges_init[0]
-                print(self.x0, 'x0')
-            
-        if self.thermal_couple['none'] != 1:
-            for space in range(self.N_space):
-                for j in range(self.M + 1):
-                    self.integrate_e(edges_init[space], edges_init[space+1], space, j)
-
-        if self.moving == False and self.source_type[0] == 2 and self.uncollided == False and self.N_space%2 == 0:
-            i = 0
-            it = 0
-            while i==0:
-                if edges_init[it] <= -self.x0 <= edges_init[it+1]:
-                    i = 1
-                else:
-                    it += 1
-                if it > edges_init.size:
-                    assert(0)
-
-            x1 = edges_init[int(self.N_space/2)] - edges_init[int(self.N_space/2)+1]
-            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, x1, self.geometry)
-        
-        else:
-            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, 0.0, self.geometry)
-
-
-        for ang in range(self.N_ang):
-            for space in range(self.N_space):
-                for j in range(self.M + 1):
-                    if self.geometry['slab'] == True:
-                        self.integrate_quad(edges_init[space], edges_init[space+1], ang, space, j, ic)
-                    elif self.geometry['sphere'] == True:
-                        self.integrate_quad_sphere(edges_init[space], edges_init[space+1], ang, space, j, ic)
-
-    
-        
-        
-        
-        
-        
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+"""
+Created on Wed Jan 26 07:24:05 2022
+
+@author: William Bennett
+"""
+import numpy as np
+from numba import int64, float64, jit, njit, deferred_type
+from numba.experimental import jitclass
+from numba import types, typed
+# from main import IC_func 
+from .mesh import mesh_class
+from .functions import normPn, normTn
+from .mutables import IC_func
+from .functions import weight_func_Tn
+
+import yaml
+from pathlib import Path
+import numba as nb
+
+###############################################################################
+mesh_class_type = deferred_type()
+mesh_class_type.define(mesh_class.class_type.instance_type)
+IC_func_type = deferred_type()
+IC_func_type.define(IC_func.class_type.instance_type)
+kv_ty = (types.int64, types.unicode_type)
+# Explicitly define the types of the key and value:
+params_default = nb.typed.Dict.empty(key_type=nb.typeof('par_1'),value_type=nb.typeof(1))
+
+data = [('N_ang', int64), 
+        ('N_space', int64),
+        ('M', int64),
+        ('tfinal', float64),
+        ('sigma_t', float64),
+        ('sigma_s', float64),
+        ('IC', float64[:,:,:]),
+        ('mus', float64[:]),
+        ('ws', float64[:]),
+        ('xs_quad', float64[:]),
+        ('ws_quad', float64[:]),
+        ('x0', float64),
+        ('t0', float64),
+        ("source_type", int64[:]),
+        ("uncollided", int64),
+        ("moving", int64),
+        ("move_type", int64[:]),
+        ("argument", float64[:]),
+        ("temp", float64),
+        ("t_quad", float64[:]),
+        ("t_ws", float64[:]),
+        ('scattering_ratio', float64),
+        ('thermal_couple', nb.typeof(params_default)),
+        ('temp_function', int64[:]),
+        ('e_init', float64),
+        ('sigma', float64),
+        ('particle_v', float64),
+        ('edge_v', float64),
+        ('cv0', float64),
+        ('thick', int64),
+        ('wave_loc_array', float64[:,:,:]),
+        ('source_strength', float64),
+        ('move_factor', float64),
+        ('sigma_a', float64),
+        ('l', float64),
+        ('save_wave_loc', int64),
+        ('pad', float64),
+        ('leader_pad', float64),
+        ('quad_thick_source', float64[:]),
+        ('quad_thick_edge', float64[:]),
+        ('boundary_on', int64[:]), 
+        ('boundary_source_strength', float64),
+        ('boundary_source', int64),
+        # ('sigma_func', int64[:]),
+        ('sigma_func', nb.typeof(params_default)),
+        ('Msigma', int64),
+        ('domain_width', float64),
+        ('finite_domain', int64),
+        ('fake_sedov_v0', float64),
+        ('x01', float64),
+        ('test_dimensional_rhs', int64),
+        ('epsilon', float64), 
+        ('geometry', nb.typeof(params_default)),
+        ]
+###############################################################################
+
+@jitclass(data)
+class build(object):
+    def __init__(self, N_ang, N_space, M, tfinal, x0, t0, mus, ws, xs_quad, ws_quad, sigma_t, sigma_s, 
+    source_type, uncollided, moving, move_type, t_quad, t_ws, thermal_couple, temp_function, e_initial, sigma, particle_v, 
+    edge_v, cv0, thick, wave_loc_array, source_strength, move_factor, l, save_wave_loc, pad, leader_pad, quad_thick_source,
+     quad_thick_edge, boundary_on, boundary_source_strength, boundary_source, sigma_func, Msigma, finite_domain, domain_width, 
+     fake_sedov_v0, test_dimensional_rhs, epsilon, geometry):
+        self.N_ang = N_ang
+        self.N_space = N_space
+        self.M = M
+        self.tfinal = tfinal
+        self.sigma_t = sigma_t
+        self.sigma_s = sigma_s
+        self.sigma_a = sigma_t-sigma_s
+        self.scattering_ratio = self.sigma_s / self.sigma_t
+        self.mus = mus
+        self.ws = ws/np.sum(ws)
+        self.xs_quad = xs_quad
+        self.ws_quad = ws_quad
+        self.x0 = x0
+        self.source_type = np.array(list(source_type), dtype = np.int64)
+        self.uncollided = uncollided 
+        self.moving = moving
+        self.move_type = np.array(list(move_type), dtype = np.int64)
+        self.t_quad = t_quad
+        self.t_ws = t_ws
+        self.t0 = t0
+        # self.sigma_func = np.array(list(sigma_func), dtype = np.int64)
+        self.sigma_func = sigma_func
+
+        self.test_dimensional_rhs = test_dimensional_rhs
+
+        self.thermal_couple = thermal_couple
+        self.temp_function = np.array(list(temp_function), dtype = np.int64)
+        self.sigma = sigma
+        self.particle_v = particle_v
+        self.edge_v = edge_v
+        self.cv0 = cv0
+        self.thick = thick
+        self.wave_loc_array = wave_loc_array
+        self.source_strength = source_strength
+        self.move_factor = move_factor
+        self.l = l
+        self.save_wave_loc = save_wave_loc
+        self.pad = pad
+        self.leader_pad = leader_pad
+        self.quad_thick_source = quad_thick_source
+        self.quad_thick_edge = quad_thick_edge
+        self.boundary_on = np.array(list(boundary_on), dtype = np.int64)
+        self.boundary_source = boundary_source
+        self.boundary_source_strength = boundary_source_strength
+        self.Msigma = Msigma
+        self.finite_domain = finite_domain
+        self.domain_width = domain_width
+        self.fake_sedov_v0 = fake_sedov_v0
+        
+        if self.thermal_couple['none'] == 1:
+            self.IC = np.zeros((N_ang, N_space, M+1))
+        elif self.thermal_couple['none'] != 1:
+            self.IC = np.zeros((N_ang + 1, N_space, M+1))
+        self.epsilon = epsilon
+        self.geometry = geometry
+       
+        self.e_init = e_initial
+        # self.e_initial = 1e-4
+        
+        
+    def integrate_quad(self, a, b, ang, space, j, ic):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        mu = self.mus[ang]
+        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))
+
+    def integrate_quad_sphere(self, a, b, ang, space, j, ic):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        mu = self.mus[ang]
+        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * 2.0 * normTn(j, argument, a, b))
+        
+
+    def integrate_e(self, a, b, space, j):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        self.IC[self.N_ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * self.IC_e_func(argument) * normPn(j, argument, a, b))
+    
+    def IC_e_func(self,x):
+        return np.ones(x.size) * self.e_init
+                
+    def make_IC(self):
+        edges = mesh_class(self.N_space, self.x0, self.tfinal, self.moving, self.move_type, self.source_type, 
+        self.edge_v, self.thick, self.move_factor, self.wave_loc_array, self.pad,  self.leader_pad, self.quad_thick_source, 
+        self.quad_thick_edge, self.finite_domain, self.domain_width, self.fake_sedov_v0, self.boundary_on, self.t0, self.geometry)
+        edges_init = edges.edges
+
+        # The current method for handling delta functions
+        if self.moving == False and self.source_type[0] == 1 and self.uncollided == False and self.N_space%2 == 0:
+            if self.geometry['slab'] == True:
+                right_edge_index = int(self.N_space/2 + 1)
+                left_edge_index = int(self.N_space/2 - 1)
+                self.x0 = min(edges_init[right_edge_index] - edges_init[left_edge_index], edges_init[-1]) # within the grid
+            # temp = (edges_init[int(self.N_space/2 + 1)] - edges_init[self.N_space/2 - 1]) 
+            elif self.geometry['sphere'] == True:
+                self.x0 = edges_init[1] - edges_init[0]
+                print(self.x0, 'x0')
+            
+        if self.thermal_couple['none'] != 1:
+            for space in range(self.N_space):
+                for j in range(self.M + 1):
+                    self.integrate_e(edges_init[space], edges_init[space+1], space, j)
+
+        if self.moving == False and self.source_type[0] == 2 and self.uncollided == False and self.N_space%2 == 0:
+            i = 0
+            it = 0
+            while i==0:
+                if edges_init[it] <= -self.x0 <= edges_init[it+1]:
+                    i = 1
+                else:
+                    it += 1
+                if it > edges_init.size:
+                    assert(0)
+
+            x1 = edges_init[int(self.N_space/2)] - edges_init[int(self.N_space/2)+1]
+            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, x1, self.geometry)
+        
+        else:
+            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, 0.0, self.geometry)
+
+
+        for ang in range(self.N_ang):
+            for space in range(self.N_space):
+                for j in range(self.M + 1):
+                    if self.geometry['slab'] == True:
+                        self.integrate_quad(edges_init[space], edges_init[space+1], ang, space, j, ic)
+                    elif self.geometry['sphere'] == True:
+                        self.integrate_quad_sphere(edges_init[space], edges_init[space+1], ang, space, j, ic)
+
+    
+        
+        
+        
+        
+        
-- 
2.43.0


From 971ad0f673ebf142c7d213f91a3fd228dd7dc5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 23/40] fix: the two point Lobatto rule has its weights

---
 moving_mesh_transport/solver_classes/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index d1b529e..590aee0 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,6 +643,7 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
+        if n > 1:
             ws[0] = 2/ (n*(n-1))
             ws[-1] = 2/ (n*(n-1))
         # if testing == True:
-- 
2.43.0


From 89a68f6b8dd6928b5855e7fbcc436f8ed75eb465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 24/40] fix: the derivative of the slab basis is taken with
 respect to position

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 590aee0..93c489f 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -107,7 +107,7 @@ def dx_normPn(n, x, a = -1.0, b = 1.0):
             tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
 
 
-    return tmp * fact
+    return tmp * fact * 2 / (b-a)
 
 
 
-- 
2.43.0


From d09a54fcb20709225adf8e868d3b5bb5227392b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 25/40] fix: wave interpolation stays inside its table

---
 moving_mesh_transport/solver_classes/mesh_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh_functions.py b/moving_mesh_transport/solver_classes/mesh_functions.py
index e9c8fc6..da4df1f 100644
--- a/moving_mesh_transport/solver_classes/mesh_functions.py
+++ b/moving_mesh_transport/solver_classes/mesh_functions.py
@@ -98,13 +98,13 @@ def _interp1d(xnew, xvals, yvals, ynew):
         x_b = xvals[0]
         y_b = yvals[0]
     else:
-        while xnew[0] >= xvals[i] and i < N:
+        while i < N and xnew[0] >= xvals[i]:
             i += 1
+        if i == N:
+            i = N-1
         if xnew[0] == xvals[i]:
             ynew[0] = yvals[i]
             return ynew
-        if i == N:
-            i = N-1
         x_a = xvals[i-1]
         y_a = yvals[i-1]
         x_b = xvals[i]
-- 
2.43.0


From 517e07776747df37cdae451e0f2dd5eb74318997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 26/40] fix: store the points and fluxes of a solution in full
 precision

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 7c844c0..5f8461c 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -194,7 +194,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + 'solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
+        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), dtype = 'float64')
         
         group_str = full_str.lstrip('/') # inside of the folder of this problem
         if not f[folder_name].__contains__(group_str):
-- 
2.43.0


From a75563c99ac026b09f3d564a2afd4ddc7d6d0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 27/40] fix: rows of a saved solution that are not written read
 as zero

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 5f8461c..b344913 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -194,7 +194,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + 'solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), dtype = 'float64')
+        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), dtype = 'float64', fillvalue = 0.0)
         
         group_str = full_str.lstrip('/') # inside of the folder of this problem
         if not f[folder_name].__contains__(group_str):
-- 
2.43.0


From 59b9d33def83ee76b68357ba0934dee23b484d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 28/40] fix: integrate opacities of high order with enough
 quadrature points

The spatial rule has 2M+1 points, which integrates the products of two basis
functions and an opacity of order Msigma only when Msigma <= 2M+1: for M=0 and
Msigma=2 the second moment of the opacity leaked into the collision term.
---
 moving_mesh_transport/solver_functions/main_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 06a525f..602f357 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -115,7 +115,8 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
     # xs_quad = quadpy.c1.gauss_legendre(2*M+1).points
     # ws_quad = quadpy.c1.gauss_legendre(2*M+1).weights
     if geometry['slab'] == True:
-        xs_quad, ws_quad = quadrature(2*M+1, 'gauss_legendre')
+        # enough points for the products of two basis functions and an opacity of order Msigma
+        xs_quad, ws_quad = quadrature(max(2*M+1, M+Msigma+1), 'gauss_legendre')
     elif geometry['sphere'] == True:
         xs_quad, ws_quad = quadrature(6*M+1, 'chebyshev')
 
-- 
2.43.0


From 8defead9b1aff0f8f1bc6a28751a302de81084f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 29/40] fix: square_source(All = True) and several widths do
 not fail after the runs

With All=True no results are kept, so the comparison of self.x0 with the width
of the benchmark raised an AttributeError, and a list of several widths made
the comparison ambiguous.
---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 418ac07..58564fd 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -112,7 +112,7 @@ class run:
         else:
             solver.main(uncollided, moving)
             self.get_results(solver)
-        if self.x0 == 2.5:
+        if All == False and self.x0[0] == 2.5:
             self.olson_henderson_bench(self.tfinal)
             plt.figure(9)
             plt.plot(self.xs, self.phi, '-.', label = 'scalar flux', mfc = 'none')
-- 
2.43.0


From 1dc1a00bce41643abda7650d44b8f37640c27272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 30/40] fix: the energy of every evaluation time is returned
 and saved

solve returned phi*0 of all times (or the energy of the last time only) and
the solver handed that two dimensional array to the row of one time, so saving
a transfer problem with evaluation times failed.
---
 moving_mesh_transport/solver.py                          | 2 +-
 moving_mesh_transport/solver_functions/main_functions.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..ebf6cfb 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -165,7 +165,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e[it], sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 602f357..50dccd2 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -255,6 +255,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         exit_dist = np.zeros((eval_array.size, N_ang, 2))
         exit_phi = np.zeros((eval_array.size, 2))
         xs_ret = np.zeros((eval_array.size, xs.size))
+        e = np.zeros((eval_array.size, xs.size))
         for it, tt in enumerate(eval_array):
             mesh.move(tt)
             edges = mesh.edges
@@ -268,9 +269,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             exit_dist[it], exit_phi[it] = output.get_exit_dist(uncollided_sol)
             xs_ret[it] = xs
             if thermal_couple == 1:
-                e = output.make_e()
-            else:
-                e = phi*0
+                e[it] = output.make_e()
     computation_time = end-start
     
     return xs_ret, phi, psi, exit_dist, exit_phi,  e, computation_time, sol_last, mus, ws, edges, wavespeed_array, tpnts, left_edges, right_edges, wave_tpnts, wave_xpnts, T_front_location, mus
-- 
2.43.0


From 206ccbd74ba19050fa26fd18cf66a76c920eb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 31/40] fix: the reference of the boundary driven problem with
 a gaussian opacity is a number per point

x0 is a list: adding its one element array to an entry of phi_sol raises a
TypeError, so boundary_source() failed after its run.
---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 58564fd..243ecf7 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -346,7 +346,7 @@ class run:
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
                 if self.mus[l] < 0:
-                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0, self.mus[l])
+                    phi_sol[ix] += self.ws[l] * fsol(self.xs[ix], self.x0[0], self.mus[l])
             
 
 
-- 
2.43.0


From 84a69d22fc781c0fba89cba2baf58c9b260c2d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 32/40] fix: the sqrt(t) grid stops at the wall, whatever was
 asked before

---
 moving_mesh_transport/solver_classes/mesh.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 5f31d20..ccd386f 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -200,7 +200,7 @@ class mesh_class(object):
 
             elif (self.source_type[2] == 1 or self.source_type[1] == 1) and self.finite_domain == True: #or self.source_type[0]!=0:
                 # self.finite_domain = True # what is the deal with this?
-                if self.move_func != 0 and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
+                if self.move_func != 0 and self.move_func != 2 and (self.edges[-1] >= self.domain_width/2 or abs(self.edges[-1]-self.domain_width/2)<=1e-2):
                         self.edges = self.edges
                         self.Dedges = self.Dedges_const*0
                     # if t == self.tfinal:
@@ -500,8 +500,13 @@ class mesh_class(object):
             sqrt_t = math.sqrt(1e-10)
 
         # move the interior edges
-        self.Dedges = self.Dedges_const * move_factor * 0.5 / sqrt_t
-        self.edges = self.edges0 + self.Dedges_const * move_factor * sqrt_t
+        # the mesh stops when it fills the domain
+        sqrt_t_stop = self.time_to_wall(self.edges0, self.Dedges_const * move_factor, self.Dedges_const * 0)
+        if sqrt_t >= sqrt_t_stop:
+            self.Dedges = self.Dedges_const * 0
+        else:
+            self.Dedges = self.Dedges_const * move_factor * 0.5 / sqrt_t
+        self.edges = self.edges0 + self.Dedges_const * move_factor * min(sqrt_t, sqrt_t_stop)
 
     
 
-- 
2.43.0


From 9eb8a4f4659eecb1bc2184a4f80b4539e11bd095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 33/40] fix: the inner edge of the thick square layout is at
 rest when its fronts move

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ccd386f..fb1ceec 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -604,7 +604,7 @@ class mesh_class(object):
         
         # initialize derivatives
         self.Dedges[0:sidebin] = (self.edges[0:sidebin] + self.x0 )/(self.edges[-1] - self.x0)
-        self.Dedges[sidebin:sidebin+middlebin] = 0       
+        self.Dedges[sidebin:sidebin+middlebin+1] = 0       
         self.Dedges[middlebin+sidebin + 1:] = (self.edges[middlebin+sidebin + 1:] - self.x0)/(self.edges[-1] - self.x0)
         self.Dedges = self.Dedges * self.speed
         self.edges0 = self.edges
-- 
2.43.0


From 5d1132d841337e9e6f5a5a150256ec185585ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 34/40] fix: the static grid of a thick gaussian source ends at
 x0 for every move type

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index fb1ceec..ef202b0 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -452,7 +452,7 @@ class mesh_class(object):
         # if abs(self.wave_loc_array[0, 2, -1]) > 5:
         if self.move_func == 1:
             right_edge = self.wave_loc_array[0,3,-1] + self.pad
-        elif self.move_func == 0:
+        else:
             right_edge = self.x0
         print(self.move_func, 'move_func')
         print(right_edge, 'right edge')
-- 
2.43.0


From d459a0d015cc203f96a6d63ed87801464f2a01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 35/40] fix: the steady gaussian reference uses the opacity the
 problem has

---
 moving_mesh_transport/solver_functions/run_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 243ecf7..a8d820c 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -341,7 +341,7 @@ class run:
     
     def steady_state_gaussian_benchmark(self):
         f = lambda x1, x2, sigma: np.sqrt(np.pi/2)*sigma*(erf(x2/math.sqrt(2)/sigma) - erf(x1/math.sqrt(2)/sigma))
-        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 0.5)) / mu) 
+        fsol = lambda x, x0, mu: np.exp((f(-x0, x, 2.0)) / mu) 
         phi_sol = self.xs * 0 
         for ix in range(self.xs.size):
             for l in range(self.ws.size):
-- 
2.43.0


From 08b777d9e331c3d612b39b0739af34892a74042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 36/40] fix: line endings of build_problem.py as they were

---
 .../solver_classes/build_problem.py           | 450 +++++++++---------
 1 file changed, 225 insertions(+), 225 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/build_problem.py b/moving_mesh_transport/solver_classes/build_problem.py
index 04c8733..c2ba2d3 100644
--- a/moving_mesh_transport/solver_classes/build_problem.py
+++ b/moving_mesh_transport/solver_classes/build_problem.py
@@ -1,225 +1,225 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-"""
-Created on Wed Jan 26 07:24:05 2022
-
-@author: William Bennett
-"""
-import numpy as np
-from numba import int64, float64, jit, njit, deferred_type
-from numba.experimental import jitclass
-from numba import types, typed
-# from main import IC_func 
-from .mesh import mesh_class
-from .functions import normPn, normTn
-from .mutables import IC_func
-from .functions import weight_func_Tn
-
-import yaml
-from pathlib import Path
-import numba as nb
-
-###############################################################################
-mesh_class_type = deferred_type()
-mesh_class_type.define(mesh_class.class_type.instance_type)
-IC_func_type = deferred_type()
-IC_func_type.define(IC_func.class_type.instance_type)
-kv_ty = (types.int64, types.unicode_type)
-# Explicitly define the types of the key and value:
-params_default = nb.typed.Dict.empty(key_type=nb.typeof('par_1'),value_type=nb.typeof(1))
-
-data = [('N_ang', int64), 
-        ('N_space', int64),
-        ('M', int64),
-        ('tfinal', float64),
-        ('sigma_t', float64),
-        ('sigma_s', float64),
-        ('IC', float64[:,:,:]),
-        ('mus', float64[:]),
-        ('ws', float64[:]),
-        ('xs_quad', float64[:]),
-        ('ws_quad', float64[:]),
-        ('x0', float64),
-        ('t0', float64),
-        ("source_type", int64[:]),
-        ("uncollided", int64),
-        ("moving", int64),
-        ("move_type", int64[:]),
-        ("argument", float64[:]),
-        ("temp", float64),
-        ("t_quad", float64[:]),
-        ("t_ws", float64[:]),
-        ('scattering_ratio', float64),
-        ('thermal_couple', nb.typeof(params_default)),
-        ('temp_function', int64[:]),
-        ('e_init', float64),
-        ('sigma', float64),
-        ('particle_v', float64),
-        ('edge_v', float64),
-        ('cv0', float64),
-        ('thick', int64),
-        ('wave_loc_array', float64[:,:,:]),
-        ('source_strength', float64),
-        ('move_factor', float64),
-        ('sigma_a', float64),
-        ('l', float64),
-        ('save_wave_loc', int64),
-        ('pad', float64),
-        ('leader_pad', float64),
-        ('quad_thick_source', float64[:]),
-        ('quad_thick_edge', float64[:]),
-        ('boundary_on', int64[:]), 
-        ('boundary_source_strength', float64),
-        ('boundary_source', int64),
-        # ('sigma_func', int64[:]),
-        ('sigma_func', nb.typeof(params_default)),
-        ('Msigma', int64),
-        ('domain_width', float64),
-        ('finite_domain', int64),
-        ('fake_sedov_v0', float64),
-        ('x01', float64),
-        ('test_dimensional_rhs', int64),
-        ('epsilon', float64), 
-        ('geometry', nb.typeof(params_default)),
-        ]
-###############################################################################
-
-@jitclass(data)
-class build(object):
-    def __init__(self, N_ang, N_space, M, tfinal, x0, t0, mus, ws, xs_quad, ws_quad, sigma_t, sigma_s, 
-    source_type, uncollided, moving, move_type, t_quad, t_ws, thermal_couple, temp_function, e_initial, sigma, particle_v, 
-    edge_v, cv0, thick, wave_loc_array, source_strength, move_factor, l, save_wave_loc, pad, leader_pad, quad_thick_source,
-     quad_thick_edge, boundary_on, boundary_source_strength, boundary_source, sigma_func, Msigma, finite_domain, domain_width, 
-     fake_sedov_v0, test_dimensional_rhs, epsilon, geometry):
-        self.N_ang = N_ang
-        self.N_space = N_space
-        self.M = M
-        self.tfinal = tfinal
-        self.sigma_t = sigma_t
-        self.sigma_s = sigma_s
-        self.sigma_a = sigma_t-sigma_s
-        self.scattering_ratio = self.sigma_s / self.sigma_t
-        self.mus = mus
-        self.ws = ws/np.sum(ws)
-        self.xs_quad = xs_quad
-        self.ws_quad = ws_quad
-        self.x0 = x0
-        self.source_type = np.array(list(source_type), dtype = np.int64)
-        self.uncollided = uncollided 
-        self.moving = moving
-        self.move_type = np.array(list(move_type), dtype = np.int64)
-        self.t_quad = t_quad
-        self.t_ws = t_ws
-        self.t0 = t0
-        # self.sigma_func = np.array(list(sigma_func), dtype = np.int64)
-        self.sigma_func = sigma_func
-
-        self.test_dimensional_rhs = test_dimensional_rhs
-
-        self.thermal_couple = thermal_couple
-        self.temp_function = np.array(list(temp_function), dtype = np.int64)
-        self.sigma = sigma
-        self.particle_v = particle_v
-        self.edge_v = edge_v
-        self.cv0 = cv0
-        self.thick = thick
-        self.wave_loc_array = wave_loc_array
-        self.source_strength = source_strength
-        self.move_factor = move_factor
-        self.l = l
-        self.save_wave_loc = save_wave_loc
-        self.pad = pad
-        self.leader_pad = leader_pad
-        self.quad_thick_source = quad_thick_source
-        self.quad_thick_edge = quad_thick_edge
-        self.boundary_on = np.array(list(boundary_on), dtype = np.int64)
-        self.boundary_source = boundary_source
-        self.boundary_source_strength = boundary_source_strength
-        self.Msigma = Msigma
-        self.finite_domain = finite_domain
-        self.domain_width = domain_width
-        self.fake_sedov_v0 = fake_sedov_v0
-        
-        if self.thermal_couple['none'] == 1:
-            self.IC = np.zeros((N_ang, N_space, M+1))
-        elif self.thermal_couple['none'] != 1:
-            self.IC = np.zeros((N_ang + 1, N_space, M+1))
-        self.epsilon = epsilon
-        self.geometry = geometry
-       
-        self.e_init = e_initial
-        # self.e_initial = 1e-4
-        
-        
-    def integrate_quad(self, a, b, ang, space, j, ic):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        mu = self.mus[ang]
-        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))
-
-    def integrate_quad_sphere(self, a, b, ang, space, j, ic):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        mu = self.mus[ang]
-        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * 2.0 * normTn(j, argument, a, b))
-        
-
-    def integrate_e(self, a, b, space, j):
-        argument = (b-a)/2*self.xs_quad + (a+b)/2
-        self.IC[self.N_ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * self.IC_e_func(argument) * normPn(j, argument, a, b))
-    
-    def IC_e_func(self,x):
-        return np.ones(x.size) * self.e_init
-                
-    def make_IC(self):
-        edges = mesh_class(self.N_space, self.x0, self.tfinal, self.moving, self.move_type, self.source_type, 
-        self.edge_v, self.thick, self.move_factor, self.wave_loc_array, self.pad,  self.leader_pad, self.quad_thick_source, 
-        self.quad_thick_edge, self.finite_domain, self.domain_width, self.fake_sedov_v0, self.boundary_on, self.t0, self.geometry)
-        edges_init = edges.edges
-
-        # The current method for handling delta functions
-        if self.moving == False and self.source_type[0] == 1 and self.uncollided == False and self.N_space%2 == 0:
-            if self.geometry['slab'] == True:
-                right_edge_index = int(self.N_space/2 + 1)
-                left_edge_index = int(self.N_space/2 - 1)
-                self.x0 = min(edges_init[right_edge_index] - edges_init[left_edge_index], edges_init[-1]) # within the grid
-            # temp = (edges_init[int(self.N_space/2 + 1)] - edges_init[self.N_space/2 - 1]) 
-            elif self.geometry['sphere'] == True:
-                self.x0 = edges_init[1] - edges_init[0]
-                print(self.x0, 'x0')
-            
-        if self.thermal_couple['none'] != 1:
-            for space in range(self.N_space):
-                for j in range(self.M + 1):
-                    self.integrate_e(edges_init[space], edges_init[space+1], space, j)
-
-        if self.moving == False and self.source_type[0] == 2 and self.uncollided == False and self.N_space%2 == 0:
-            i = 0
-            it = 0
-            while i==0:
-                if edges_init[it] <= -self.x0 <= edges_init[it+1]:
-                    i = 1
-                else:
-                    it += 1
-                if it > edges_init.size:
-                    assert(0)
-
-            x1 = edges_init[int(self.N_space/2)] - edges_init[int(self.N_space/2)+1]
-            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, x1, self.geometry)
-        
-        else:
-            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, 0.0, self.geometry)
-
-
-        for ang in range(self.N_ang):
-            for space in range(self.N_space):
-                for j in range(self.M + 1):
-                    if self.geometry['slab'] == True:
-                        self.integrate_quad(edges_init[space], edges_init[space+1], ang, space, j, ic)
-                    elif self.geometry['sphere'] == True:
-                        self.integrate_quad_sphere(edges_init[space], edges_init[space+1], ang, space, j, ic)
-
-    
-        
-        
-        
-        
-        
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+"""
+Created on Wed Jan 26 07:24:05 2022
+
+@author: William Bennett
+"""
+import numpy as np
+from numba import int64, float64, jit, njit, deferred_type
+from numba.experimental import jitclass
+from numba import types, typed
+# from main import IC_func 
+from .mesh import mesh_class
+from .functions import normPn, normTn
+from .mutables import IC_func
+from .functions import weight_func_Tn
+
+import yaml
+from pathlib import Path
+import numba as nb
+
+###############################################################################
+mesh_class_type = deferred_type()
+mesh_class_type.define(mesh_class.class_type.instance_type)
+IC_func_type = deferred_type()
+IC_func_type.define(IC_func.class_type.instance_type)
+kv_ty = (types.int64, types.unicode_type)
+# Explicitly define the types of the key and value:
+params_default = nb.typed.Dict.empty(key_type=nb.typeof('par_1'),value_type=nb.typeof(1))
+
+data = [('N_ang', int64), 
+        ('N_space', int64),
+        ('M', int64),
+        ('tfinal', float64),
+        ('sigma_t', float64),
+        ('sigma_s', float64),
+        ('IC', float64[:,:,:]),
+        ('mus', float64[:]),
+        ('ws', float64[:]),
+        ('xs_quad', float64[:]),
+        ('ws_quad', float64[:]),
+        ('x0', float64),
+        ('t0', float64),
+        ("source_type", int64[:]),
+        ("uncollided", int64),
+        ("moving", int64),
+        ("move_type", int64[:]),
+        ("argument", float64[:]),
+        ("temp", float64),
+        ("t_quad", float64[:]),
+        ("t_ws", float64[:]),
+        ('scattering_ratio', float64),
+        ('thermal_couple', nb.typeof(params_default)),
+        ('temp_function', int64[:]),
+        ('e_init', float64),
+        ('sigma', float64),
+        ('particle_v', float64),
+        ('edge_v', float64),
+        ('cv0', float64),
+        ('thick', int64),
+        ('wave_loc_array', float64[:,:,:]),
+        ('source_strength', float64),
+        ('move_factor', float64),
+        ('sigma_a', float64),
+        ('l', float64),
+        ('save_wave_loc', int64),
+        ('pad', float64),
+        ('leader_pad', float64),
+        ('quad_thick_source', float64[:]),
+        ('quad_thick_edge', float64[:]),
+        ('boundary_on', int64[:]), 
+        ('boundary_source_strength', float64),
+        ('boundary_source', int64),
+        # ('sigma_func', int64[:]),
+        ('sigma_func', nb.typeof(params_default)),
+        ('Msigma', int64),
+        ('domain_width', float64),
+        ('finite_domain', int64),
+        ('fake_sedov_v0', float64),
+        ('x01', float64),
+        ('test_dimensional_rhs', int64),
+        ('epsilon', float64), 
+        ('geometry', nb.typeof(params_default)),
+        ]
+###############################################################################
+
+@jitclass(data)
+class build(object):
+    def __init__(self, N_ang, N_space, M, tfinal, x0, t0, mus, ws, xs_quad, ws_quad, sigma_t, sigma_s, 
+    source_type, uncollided, moving, move_type, t_quad, t_ws, thermal_couple, temp_function, e_initial, sigma, particle_v, 
+    edge_v, cv0, thick, wave_loc_array, source_strength, move_factor, l, save_wave_loc, pad, leader_pad, quad_thick_source,
+     quad_thick_edge, boundary_on, boundary_source_strength, boundary_source, sigma_func, Msigma, finite_domain, domain_width, 
+     fake_sedov_v0, test_dimensional_rhs, epsilon, geometry):
+        self.N_ang = N_ang
+        self.N_space = N_space
+        self.M = M
+        self.tfinal = tfinal
+        self.sigma_t = sigma_t
+        self.sigma_s = sigma_s
+        self.sigma_a = sigma_t-sigma_s
+        self.scattering_ratio = self.sigma_s / self.sigma_t
+        self.mus = mus
+        self.ws = ws/np.sum(ws)
+        self.xs_quad = xs_quad
+        self.ws_quad = ws_quad
+        self.x0 = x0
+        self.source_type = np.array(list(source_type), dtype = np.int64)
+        self.uncollided = uncollided 
+        self.moving = moving
+        self.move_type = np.array(list(move_type), dtype = np.int64)
+        self.t_quad = t_quad
+        self.t_ws = t_ws
+        self.t0 = t0
+        # self.sigma_func = np.array(list(sigma_func), dtype = np.int64)
+        self.sigma_func = sigma_func
+
+        self.test_dimensional_rhs = test_dimensional_rhs
+
+        self.thermal_couple = thermal_couple
+        self.temp_function = np.array(list(temp_function), dtype = np.int64)
+        self.sigma = sigma
+        self.particle_v = particle_v
+        self.edge_v = edge_v
+        self.cv0 = cv0
+        self.thick = thick
+        self.wave_loc_array = wave_loc_array
+        self.source_strength = source_strength
+        self.move_factor = move_factor
+        self.l = l
+        self.save_wave_loc = save_wave_loc
+        self.pad = pad
+        self.leader_pad = leader_pad
+        self.quad_thick_source = quad_thick_source
+        self.quad_thick_edge = quad_thick_edge
+        self.boundary_on = np.array(list(boundary_on), dtype = np.int64)
+        self.boundary_source = boundary_source
+        self.boundary_source_strength = boundary_source_strength
+        self.Msigma = Msigma
+        self.finite_domain = finite_domain
+        self.domain_width = domain_width
+        self.fake_sedov_v0 = fake_sedov_v0
+        
+        if self.thermal_couple['none'] == 1:
+            self.IC = np.zeros((N_ang, N_space, M+1))
+        elif self.thermal_couple['none'] != 1:
+            self.IC = np.zeros((N_ang + 1, N_space, M+1))
+        self.epsilon = epsilon
+        self.geometry = geometry
+       
+        self.e_init = e_initial
+        # self.e_initial = 1e-4
+        
+        
+    def integrate_quad(self, a, b, ang, space, j, ic):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        mu = self.mus[ang]
+        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * normPn(j, argument, a, b))
+
+    def integrate_quad_sphere(self, a, b, ang, space, j, ic):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        mu = self.mus[ang]
+        self.IC[ang,space,j] = 0.5 * (b-a) * np.sum(self.ws_quad * ic.function(argument, mu) * 2.0 * normTn(j, argument, a, b))
+        
+
+    def integrate_e(self, a, b, space, j):
+        argument = (b-a)/2*self.xs_quad + (a+b)/2
+        self.IC[self.N_ang,space,j] = (b-a)/2 * np.sum(self.ws_quad * self.IC_e_func(argument) * normPn(j, argument, a, b))
+    
+    def IC_e_func(self,x):
+        return np.ones(x.size) * self.e_init
+                
+    def make_IC(self):
+        edges = mesh_class(self.N_space, self.x0, self.tfinal, self.moving, self.move_type, self.source_type, 
+        self.edge_v, self.thick, self.move_factor, self.wave_loc_array, self.pad,  self.leader_pad, self.quad_thick_source, 
+        self.quad_thick_edge, self.finite_domain, self.domain_width, self.fake_sedov_v0, self.boundary_on, self.t0, self.geometry)
+        edges_init = edges.edges
+
+        # The current method for handling delta functions
+        if self.moving == False and self.source_type[0] == 1 and self.uncollided == False and self.N_space%2 == 0:
+            if self.geometry['slab'] == True:
+                right_edge_index = int(self.N_space/2 + 1)
+                left_edge_index = int(self.N_space/2 - 1)
+                self.x0 = min(edges_init[right_edge_index] - edges_init[left_edge_index], edges_init[-1]) # within the grid
+            # temp = (edges_init[int(self.N_space/2 + 1)] - edges_init[self.N_space/2 - 1]) 
+            elif self.geometry['sphere'] == True:
+                self.x0 = edges_init[1] - edges_init[0]
+                print(self.x0, 'x0')
+            
+        if self.thermal_couple['none'] != 1:
+            for space in range(self.N_space):
+                for j in range(self.M + 1):
+                    self.integrate_e(edges_init[space], edges_init[space+1], space, j)
+
+        if self.moving == False and self.source_type[0] == 2 and self.uncollided == False and self.N_space%2 == 0:
+            i = 0
+            it = 0
+            while i==0:
+                if edges_init[it] <= -self.x0 <= edges_init[it+1]:
+                    i = 1
+                else:
+                    it += 1
+                if it > edges_init.size:
+                    assert(0)
+
+            x1 = edges_init[int(self.N_space/2)] - edges_init[int(self.N_space/2)+1]
+            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, x1, self.geometry)
+        
+        else:
+            ic = IC_func(self.source_type, self.uncollided, self.x0, self.source_strength, self.sigma, 0.0, self.geometry)
+
+
+        for ang in range(self.N_ang):
+            for space in range(self.N_space):
+                for j in range(self.M + 1):
+                    if self.geometry['slab'] == True:
+                        self.integrate_quad(edges_init[space], edges_init[space+1], ang, space, j, ic)
+                    elif self.geometry['sphere'] == True:
+                        self.integrate_quad_sphere(edges_init[space], edges_init[space+1], ang, space, j, ic)
+
+    
+        
+        
+        
+        
+        
-- 
2.43.0


From ba6b03aeaa8b43947487810c99b1b38e8b399fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 37/40] fix: errors against benchmarks are computed when the
 comparison is on

---
 moving_mesh_transport/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index ebf6cfb..070580e 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -234,7 +234,7 @@ class main_class(parameter_load_class):
                 ##################################################################
                     
                 if self.benchmarking == True:
-                    if self.thermal_couple == 0:
+                    if self.thermal_couple['none'] == 1:
                         if self.c_scaling == False:
                             benchmark_solution = benchmark(np.abs(xs))[0] #benchmark for RMS
                         elif self.c_scaling == True:
@@ -242,7 +242,7 @@ class main_class(parameter_load_class):
 
                         RMS = np.sqrt(np.mean((phi - benchmark_solution)**2))
                     
-                    elif self.thermal_couple == 1:
+                    elif self.thermal_couple['none'] != 1:
                         if  (self.weights == "gauss_lobatto" and (self.sigma != 300 and self.x0[0] != 400)):
                             e_xs = benchmark(np.abs(xs))[2][:,0]
                             phi_bench = benchmark(np.abs(xs))[2][:,1]
@@ -307,7 +307,7 @@ class main_class(parameter_load_class):
                 if self.benchmarking == True:
                     print("RMSE", RMS)
                     if self.major == 'cells':
-                        if self.thermal_couple == 1:
+                        if self.thermal_couple['none'] != 1:
                             print("energy RMSE", RMS_energy)
                             if count > 0:
                                 print("material energy convergence order", "%.2f" % convergence(self.RMS_list_energy[count-1], self.N_spaces[count-1], RMS_energy, N_space))
-- 
2.43.0


From 692b51f2e010cc730b1d5095814de7ad5e24bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 38/40] fix: benchmarks answer positions beyond their table, in
 any order

---
 .../loading_and_saving/load_bench.py          | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_bench.py b/moving_mesh_transport/loading_and_saving/load_bench.py
index ddb6ef9..fe95c96 100644
--- a/moving_mesh_transport/loading_and_saving/load_bench.py
+++ b/moving_mesh_transport/loading_and_saving/load_bench.py
@@ -90,23 +90,10 @@ class load_bench:
         original_xs = self.xs
         
 
-        if abs(xs[-1]-xs[0]) <= 1e-12:
-            symmetric = True
-        else:
-            symmetric = False
-        edge_of_interpolated_sol = original_xs[-1]
-        if symmetric == False:
-            edge_index = np.argmin(np.abs(xs-edge_of_interpolated_sol))
-            self.xs_inside = xs[0:edge_index]
-            stiched_solution[0:edge_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[0:edge_index] = self.interpolated_uncollided_solution(self.xs_inside)
-        elif symmetric == True:
-            # assuming that the vector is even 
-            middle_index = int(xs.size/2)
-            edge_index = np.argmin(np.abs(xs[middle_index:-1]-edge_of_interpolated_sol))
-            self.xs_inside = xs[middle_index-edge_index:edge_index+middle_index]
-            stiched_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_solution(self.xs_inside)
-            stiched_uncollided_solution[middle_index-edge_index:edge_index+middle_index] = self.interpolated_uncollided_solution(self.xs_inside)
+        inside = np.abs(xs) <= original_xs[-1]
+        self.xs_inside = xs[inside]
+        stiched_solution[inside] = self.interpolated_solution(self.xs_inside)
+        stiched_uncollided_solution[inside] = self.interpolated_uncollided_solution(self.xs_inside)
             
         return [stiched_solution, stiched_uncollided_solution]
     
@@ -123,7 +110,7 @@ class load_bench:
         if self.ask_for_bench == True:
             original_xs = self.xs
 
-            if xs[-1] > original_xs[-1]:
+            if np.max(xs) > original_xs[-1]:
                 beyond_solution_domain = True
             else:
                 beyond_solution_domain = False
-- 
2.43.0


From 5db2b3f61163c7879f1419b75d611446dbdc80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 39/40] fix: two digits of the Siewert tables

---
 moving_mesh_transport/solver_functions/run_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index a8d820c..0868efc 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -358,10 +358,10 @@ class run:
         self.psibenchpsis = np.array([0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0])
         self.psi0bench = np.array([0.58966, 0.53112, 0.44328, 0.38031, 0.33296, 
                                 0.29609, 0.26656, 0.24239, 0.22223, 0.20517, 0.19055])
-        self.psi1bench = np.array([0.6075e-5, 0.62952e-5, 0.96423e-5, 0.16234e-4, 
+        self.psi1bench = np.array([0.6075e-5, 0.69252e-5, 0.96423e-5, 0.16234e-4, 
         0.43858e-4, 0.16937e-3, 0.57347e-3, 0.15128e-2, 0.32437e-2, 0.59604e-2, 0.97712e-2 ])
 
-        self.psi0benchinf = np.array([0.89780, 0.88784, 0.86958, 0.85230, 0.83550, 0.81900, 0.80278, 
+        self.psi0benchinf = np.array([0.89780, 0.88784, 0.86958, 0.85230, 0.83550, 0.81900, 0.80268, 
                                     0.78649, 0.77043, 0.75450, 0.73872])
 
         self.psi1benchinf = np.array([0.10220, 0.11216, 0.13042, 0.14770, 0.16450, 0.18100, 0.19732, 
-- 
2.43.0


From a6e687cee298a9e8446d464574080c0722a1b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 40/40] fix: boundary radiation with an odd number of
 directions

---
 moving_mesh_transport/solver_classes/uncollided_solutions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index e79056d..b6e19c7 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -96,7 +96,8 @@ class uncollided_solution(object):
         argument = self.mus
         funcval = argument * 0
         for imu, xmu in enumerate(argument):
-            funcval[imu] = func(xmu, t, x)
+            if xmu > 0: # only these directions enter
+                funcval[imu] = func(xmu, t, x)
         # return (b-a)/2 * np.sum(self.t_ws * funcval) 
         return 2*np.sum(np.multiply(self.ws, funcval))
         
-- 
2.43.0

