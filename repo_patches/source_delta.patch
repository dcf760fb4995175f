From 39b095f5a7a533a62cf5e01f0865d79b2b40b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 01/29] fix: add the starting quadrature weight of later
 segments to the running cost

---
 mpopt/mpopt.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..b75e884 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -186,6 +186,7 @@ class mpopt:
         dynamics = self._ocp.get_dynamics(phase)
         path_constraints = self._ocp.get_path_constraints(phase)
         running_costs = self._ocp.get_running_costs(phase)
+        quad_weights = self.collocation.get_quad_weight_matrices()
         for index in range(self._Npoints):
             if point > self.poly_orders[seg]:
                 seg, point = seg + 1, 1
@@ -203,7 +204,18 @@ class mpopt:
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
             # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            h_quad = h_seg
+            if point == self.poly_orders[seg] and seg < self.n_segments - 1:
+                # Node shared with the next segment: average the widths of the two
+                # segments with respective quadrature weights
+                w_end = quad_weights[self.poly_orders[seg]][-1]
+                w_start = quad_weights[self.poly_orders[seg + 1]][0]
+                width = (
+                    w_end * self.seg_widths[seg, phase]
+                    + w_start * self.seg_widths[seg + 1, phase]
+                ) / (w_end + w_start)
+                h_quad = (tf - t0) / (self.tau1 - self.tau0) * width
+            q[index] = h_quad * ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
@@ -4060,6 +4072,9 @@ class Collocation:
         comp_quad_weights = ca.vertcat(
             *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
         ).T
+        # Node shared by two segments: add the starting weight of the later segment
+        for i in range(1, len(poly_orders)):
+            comp_quad_weights[sum(poly_orders[:i])] += quad_mats[poly_orders[i]][0]
 
         return comp_quad_weights
 
-- 
2.43.0


From b8bf5c7fc4960f420f7408d49393e96097cbdfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 02/29] fix: order the initial guess of the controls control by
 control

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b75e884..395a2da 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -697,7 +697,7 @@ class mpopt:
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3036,7 +3036,7 @@ class mpopt_adaptive(mpopt):
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From 5f0ed98377fd0bff9f1ac6fa9f0109f254984031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 03/29] fix: do not write into the option dictionaries passed
 to the h-adaptive solve

---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 395a2da..63723e8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2378,13 +2378,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From 59cdc5a649703d34d6ef5c5ac0c2139e9cc86ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 04/29] fix: let equal-area segment widths cover the whole
 phase

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 63723e8..121951a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2662,6 +2662,8 @@ class mpopt_h_adaptive(mpopt):
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
 
+        # Last segment ends at the end of the phase, also if the residual is zero there
+        seg_widths_cumulative[-1] = 1.0
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
             seg_widths_cumulative[i + 1] - seg_widths_cumulative[i]
-- 
2.43.0


From e256057ac59fecc5d43e25bc03675af17ae966c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 05/29] fix: keep the terminal node when segment widths do not
 sum exactly to one

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 121951a..2266a1a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1228,6 +1228,8 @@ class mpopt:
         """
         cumulative_sw = np.append(0, np.cumsum(seg_widths))
         assert abs(cumulative_sw[-1] - 1) < 1e-6
+        # Terminal node must not be lost due to round-off in the sum of the widths
+        cumulative_sw[-1] = 1.0
         n_segments = len(seg_widths)
 
         # Scale nodes_req between 0 & 1
-- 
2.43.0


From 06790ca4012509e8fae9a141718fc5c2dbdfec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 06/29] fix: exclude the end node of the phase from the fixed
 residual grid

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2266a1a..da9d831 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1181,7 +1181,7 @@ class mpopt:
             # Equally spaced nodes per phase
             n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2)
 
-            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)
+            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)[1:-1]
             taus_on_original_grid = (
                 self.compute_interpolation_taus_corresponding_to_original_grid(
                     target_nodes,
@@ -1192,7 +1192,6 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From eb95a64160917882653e167d5f254adcfcf55d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 07/29] fix: use the grid type of each phase in the dynamics
 residuals

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index da9d831..4d8649f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1399,8 +1399,6 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From b501d207de08944eef968b07f36b0413dd3616a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 08/29] fix: honour the grid type argument of the second
 derivatives

---
 mpopt/mpopt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4d8649f..5cb785a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1322,9 +1322,7 @@ class mpopt:
         if nodes is None:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
-            target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
-            )
+            target_nodes = self.get_residual_grid_taus(phase=phase, grid_type=grid_type)
         else:
             target_nodes = nodes
         ti = self.get_interpolated_time_grid(
-- 
2.43.0


From b7df3cb923e2143926a6db660d638aaed088913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 09/29] fix: unscale parameters element by element

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5cb785a..a380cd7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1671,7 +1671,7 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
-            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
+            return (x_opt / scale_x, u_opt / scale_u, t_opt, (a_opt.T / scale_a).T)
 
         return (x_opt, u_opt, t_opt, a_opt)
 
-- 
2.43.0


From 42287ffecba0de7f8621c311f8499d11ac41197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 10/29] fix: return figure and axes from plot_phase

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a380cd7..4b2773d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1880,6 +1880,8 @@ class post_process:
         """
         fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
+        return fig, axs
+
     def plot_phases(
         self,
         phases: List = None,
-- 
2.43.0


From 99528bfcdc232ef247d9ab62c449971059cb9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 11/29] fix: keep the state residuals when dynamics residuals
 are not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4b2773d..0e06ea4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -933,7 +933,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
@@ -3328,7 +3328,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not (residual_x or residual_dx):
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From 66de063c32676b7789aab9fc7736c1e0721259c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 12/29] fix: sort residuals of the given phases with any number
 of nodes per segment

---
 mpopt/mpopt.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0e06ea4..55dabcd 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2226,16 +2226,17 @@ class post_process:
                 for err in residual
             ]
         )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        t = np.concatenate(
+            [
+                np.ravel(t_seg)
+                for phase in phases
+                for t_seg in time[phase]
+                if t_seg is not None
+            ]
+        )
+        r = np.concatenate(
+            [np.ravel(norm_residual(residuals[phase])) for phase in phases]
+        )
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
@@ -2552,7 +2553,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2561,7 +2562,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2735,7 +2736,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2744,7 +2745,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
-- 
2.43.0


From 2178fa954c8fb9e05f0927c9e5041a51e9207ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 13/29] fix: return empty times for segments without state
 residuals

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 55dabcd..a5128f2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1085,6 +1085,9 @@ class mpopt:
             residual_phase[seg] = residual_seg
             u_phase[seg] = np.array(u_seg)
 
+        for i, it in enumerate(ti_phase):
+            if it is None:
+                ti_phase[i] = []
         return xint_phase, u_phase, ti_phase, residual_phase
 
     def get_states_residuals(
-- 
2.43.0


From a2a625af3c752e9eafee503f03c0fee0a2ff4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 14/29] fix: relative residuals larger than the reference and
 zero references

---
 mpopt/mpopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a5128f2..fb0fcdd 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1152,6 +1152,8 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # Nothing to scale with, if the reference is zero everywhere
+                max_val[max_val == 0] = 1.0
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
@@ -1425,10 +1427,11 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # Nothing to scale with, if the reference is zero everywhere
+                max_val[max_val == 0] = 1.0
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From 679c1c00a37a0c6c423c938114614f9a6d84f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 15/29] fix: bound the time derivative of the control input
 with lbdu and ubdu

---
 mpopt/mpopt.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fb0fcdd..2460d86 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -330,7 +330,23 @@ class mpopt:
                 if self._ocp.nu > 1
                 else self._compD
             )
-            DU = ca.mtimes(_compDU, self.U[phase][:])
+            # Segment width (time per unit of tau) at each node of the phase
+            h_nodes = (
+                (self.tf[phase] - self.t0[phase])
+                / self._ocp.scale_t
+                / (self.tau1 - self.tau0)
+                * ca.vertcat(
+                    self.seg_widths[0, phase],
+                    *[
+                        ca.repmat(self.seg_widths[seg, phase], deg, 1)
+                        for seg, deg in enumerate(self.poly_orders)
+                    ],
+                )
+            )
+            # Slope of the unscaled control input with respect to time
+            DU = ca.mtimes(_compDU, self.U[phase][:]) / ca.kron(
+                ca.vertcat(self._ocp.scale_u), h_nodes
+            )
             nDu = DU.size1()
             DUmin = [self._ocp.lbdu[phase]] * (nDu)
             DUmax = [self._ocp.ubdu[phase]] * (nDu)
-- 
2.43.0


From 1fcca7bf0e0ad28bf2acc5220d95c03aabefe04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 16/29] fix: equate time derivatives of the control input at
 the segment boundaries

---
 mpopt/mpopt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2460d86..a4db76e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -428,7 +428,12 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
+        # Slopes at either side of the segment boundaries, with respect to time
+        # (upto a factor that is common for all the segments of the phase)
+        widths = self.n_segments * self.seg_widths[:, phase]
+        _compD = ca.mtimes(
+            ca.diag(1 / widths[:-1]), comp_interpolation_D[1:-1][::2]
+        ) - ca.mtimes(ca.diag(1 / widths[1:]), comp_interpolation_D[2:-1][::2])
 
         _compDU = (
             ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
-- 
2.43.0


From d3d0a9da3eed04a89739ceaea5abf9c05fec6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 17/29] fix: run the ph-adaptive refinement, passing the
 refined segment widths to the solver

---
 mpopt/mpopt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a4db76e..6159646 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4480,8 +4480,6 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
@@ -4489,7 +4487,8 @@ class mpopt_ph_adaptive(mpopt):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
+                solve_dict = dict(solve_dict)
+                solve_dict["mpopt_options"] = {"nlp_sw_params": self._nlp_sw_params}
                 self.poly_orders = np.hstack(poly_orders)
                 self.n_segments = self._nlp_sw_params.shape[0]
 
-- 
2.43.0


From b2e35eeb08dde1dbba6c229b0df48239a42d8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 18/29] fix: allow several phases without phase links

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6159646..8c0234c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -505,7 +505,7 @@ class mpopt:
                     phase linking constraints, discontinuities across
                     states, controls and time variables.
         """
-        if self._ocp.n_phases < 2:
+        if self._ocp.n_phases < 2 or len(self._ocp.phase_links) == 0:
             return ([], [], [])
         if not self._variables_created:
             self.create_variables()
-- 
2.43.0


From 7ef8b92d9a192c8a0e8844f5d87ef566a62aa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 19/29] fix: stack a single row of mid-point controls, states
 and residuals as a column

---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8c0234c..ac39c71 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -391,7 +391,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3108,7 +3108,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3117,7 +3117,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3159,7 +3159,7 @@ class mpopt_adaptive(mpopt):
                     continue
                 residual_phase[seg] = (
                     self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                    * ca.vec(Dxi[start:end, :] - ca.vertcat(*f))
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From 5d79235e9c99f52b770a23bd732b524e6e33ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 20/29] fix: return zero quadrature weights of an empty
 interval with symbolic polynomials

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ac39c71..c2d3245 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3907,6 +3907,8 @@ class Collocation:
         quad_weights = ca.DM.zeros(n)
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
+                if tau0 == tau1:
+                    continue  # Empty interval, the integrator needs tau0 < tau1
                 pint = ca.integrator(
                     "pint",
                     "idas",
-- 
2.43.0


From 58bac8e005f25bfba39a5cb099d349a240d004e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 21/29] fix: h-adaptive solve accepts an initial guess without
 the key x

---
 mpopt/mpopt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c2d3245..14df24d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2413,6 +2413,11 @@ class mpopt_h_adaptive(mpopt):
                 "sub_method": self._DEFAULT_SUB_METHOD,
             }
 
+        if initial_solution is not None and "x" not in initial_solution:
+            # The segment widths follow from the guess, which may be given as x0
+            x0 = self.get_solver_warm_start_input_parameters(initial_solution)["x0"]
+            initial_solution = {**initial_solution, "x": x0}
+
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
         new_nlp_sw_params, max_error = self.get_segment_width_parameters(
-- 
2.43.0


From bf319702beef87e3f6b621d0bcb11a09049b8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 22/29] fix: h-adaptive solve does not return an initial guess
 as the solution

---
 mpopt/mpopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 14df24d..b4d7f7d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2424,7 +2424,8 @@ class mpopt_h_adaptive(mpopt):
             initial_solution, options=mpopt_options
         )
         solved = False
-        if max_error is not None:
+        # Only a solution is returned as it is, an initial guess has to be solved
+        if max_error is not None and "f" in initial_solution:
             if max_error < min(self.tol_residual):
                 self.iter_info[self.iter_count] = max_error
                 print(
-- 
2.43.0


From 37ee9e073a95bb803e9abf0b59bef8e1db9d5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 23/29] fix: plot the residuals of the plotted phases, also
 with different numbers of nodes per segment

---
 mpopt/mpopt.py | 67 ++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b4d7f7d..333c411 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1957,30 +1957,13 @@ class post_process:
         if residuals:
             if self.residuals is not None:
                 if ("t_x" in self.residuals) and ("t_dx" in self.residuals):
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_x"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                    y_data = np.concatenate(y_data)
+                    x_data, y_data = self.get_residual_data("t_x", phases)
 
                     ax2 = plt.subplot(2, 2, 2)
-                    dims = y_data.shape[1]
                     self.plot_curve(ax2, y_data, x_data, "x", "States error", tics=tics)
 
                     ax3 = plt.subplot(2, 2, 4)
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_dx"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                    y_data = np.concatenate(y_data)
+                    x_data, y_data = self.get_residual_data("t_dx", phases)
 
                     self.plot_curve(
                         ax3, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -1990,29 +1973,13 @@ class post_process:
                 else:
                     ax2 = plt.subplot(1, 2, 2)
                     if "t_x" in self.residuals:
-                        y_data = [
-                            r_seg
-                            for r_p in self.residuals["t_x"][1]
-                            for r_seg in r_p
-                            if r_seg is not None
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                        y_data = np.concatenate(y_data)
+                        x_data, y_data = self.get_residual_data("t_x", phases)
 
                         self.plot_curve(
                             ax2, y_data, x_data, "x", "States error", tics=tics
                         )
                     else:
-                        y_data = [
-                            np.concatenate(
-                                [r_seg for r_seg in r_p if r_seg is not None]
-                            )
-                            for r_p in self.residuals["t_dx"][1]
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                        y_data = np.concatenate(y_data)
+                        x_data, y_data = self.get_residual_data("t_dx", phases)
 
                         self.plot_curve(
                             ax2, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2022,6 +1989,32 @@ class post_process:
 
         return fig, axs
 
+    def get_residual_data(self, key: str, phases: List):
+        """Times and residuals of the given phases, one row per residual node
+
+        args:
+            :key: 't_x' (states) or 't_dx' (dynamics)
+            :phases: List of phases
+
+        returns:
+            Tuple : (t, residuals)
+        """
+        times, residuals = self.residuals[key]
+        t = [
+            np.ravel(t_seg)
+            for phase in phases
+            for t_seg in times[phase]
+            if t_seg is not None
+        ]
+        r = [
+            r_seg
+            for phase in phases
+            for r_seg in residuals[phase]
+            if r_seg is not None
+        ]
+
+        return np.concatenate(t), np.concatenate(r)
+
     def plot_x(
         self,
         dims: List = None,
-- 
2.43.0


From 024c8c5755b359beba52b0921adfa332d1a01a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 24/29] fix: plot more than fifteen states or controls

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 333c411..63165c3 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2194,7 +2194,7 @@ class post_process:
             state_index = i + 1 if legend_index is None else legend_index[i]
             # state_index = ""  # if legend_index is None else legend_index[i]
             label = f"{name} {state_index}" if name is not None else name
-            ax.plot(t, x[:, i], tics[i], label=label)
+            ax.plot(t, x[:, i], tics[i % len(tics)], label=label)
         ax.set(ylabel=ylabel)
         if name is not None:
             ax.legend()
-- 
2.43.0


From 8f7599f88146116feaf65d3c38c7877ca669f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 25/29] fix: plot second derivatives when a segment has no
 points

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 63165c3..365bab8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2242,7 +2242,9 @@ class post_process:
         """Sort the given data corresponding to plases"""
         norm_residual = lambda residual: np.concatenate(
             [
-                np.linalg.norm(np.array(err), 2, axis=1) if err is not None else []
+                np.linalg.norm(np.array(err).reshape(len(err), -1), 2, axis=1)
+                if err is not None
+                else []
                 for err in residual
             ]
         )
-- 
2.43.0


From a3d030d412a4384ac215ec7d7f81c848be9a690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 26/29] fix: quadrature weights of an interval that is empty up
 to roundoff (symbolic engine)

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 365bab8..4b14e40 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3908,8 +3908,8 @@ class Collocation:
         quad_weights = ca.DM.zeros(n)
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
-                if tau0 == tau1:
-                    continue  # Empty interval, the integrator needs tau0 < tau1
+                if abs(tau1 - tau0) < 1e-14:
+                    continue  # Empty up to roundoff, the integrator needs tau0 < tau1
                 pint = ca.integrator(
                     "pint",
                     "idas",
-- 
2.43.0


From 9029d1ffb5336f3a2fd92cbeeaa560e35b8ea5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 27/29] fix: plot on given axes without their figure

---
 mpopt/mpopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4b14e40..0405d5f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2156,7 +2156,7 @@ class post_process:
         if tics is None:
             tics = self.__TICS
         n = len(dims) if isinstance(dims[0], list) else 1
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             if axis == 1:
                 fig, axs = plt.subplots(n, 1, sharex=True)
             else:
@@ -2228,7 +2228,7 @@ class post_process:
         """
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(2, 1, sharex=True)
         name_x, name_u = (name + "state", name + "control") if legend else (None, None)
         self.plot_curve(axs[0], x, t, name_x, "State variables", tics=tics)
@@ -2276,7 +2276,7 @@ class post_process:
         """Plot residual in dynamics"""
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(1, 1)
 
         r, t = self.sort_residual_data(time, residuals, phases=phases)
-- 
2.43.0


From b9d7becd5270fd3b024aecca949a06184e72d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 28/29] fix: keep fractional control slope bounds that are
 assigned to the default arrays

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0405d5f..f779ba3 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3519,8 +3519,8 @@ class OCP:
 
         # Slope has_constraints
         self.diff_u = np.array([0] * self.n_phases)
-        self.lbdu = np.array([-15 for _ in range(self.n_phases)])
-        self.ubdu = np.array([15 for _ in range(self.n_phases)])
+        self.lbdu = np.array([-15.0 for _ in range(self.n_phases)])
+        self.ubdu = np.array([15.0 for _ in range(self.n_phases)])
 
         # Constrains on control input at mid point of collocation nodes
         # Enabled by default
-- 
2.43.0


From 2bc84ac22e94e30e29bdc00ae883e9ef12bf3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 29/29] fix: relative second derivatives are scaled by their
 largest magnitude

The divisor was the largest signed value of the segment: negative second
derivatives changed their sign, zero ones gave nan.
---
 mpopt/mpopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f779ba3..c0856ff 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1388,8 +1388,9 @@ class mpopt:
             ddx_phase[seg] = R
             ddu_phase[seg] = U
             if residual_type == "relative":
-                ddx_phase[seg] = ddx_phase[seg] / (ddx_phase[seg].max())
-                ddu_phase[seg] = ddu_phase[seg] / (ddu_phase[seg].max())
+                # Nothing to scale with, if the derivatives are zero everywhere
+                ddx_phase[seg] = ddx_phase[seg] / (abs(ddx_phase[seg]).max() or 1.0)
+                ddu_phase[seg] = ddu_phase[seg] / (abs(ddu_phase[seg]).max() or 1.0)
             ti_phase[seg] = np.array(t)
 
         return ti_phase, ddx_phase, ddu_phase
-- 
2.43.0

