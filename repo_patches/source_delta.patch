From 08fda0b66211358c1b60e567e41a20df7c1248f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 01/41] fix: save and restore the submergence indicators with
 the model state

load_state left the end-submergence indicators of whatever step ran last, so a model
restored from a saved state followed a different trajectory than the saved one.
---
 pipedream_solver/superlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..18634a8 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3924,6 +3924,9 @@ class SuperLink():
         self.states['A_ik'] = np.copy(self.A_ik)
         self.states['A_uk'] = np.copy(self.A_uk)
         self.states['A_dk'] = np.copy(self.A_dk)
+        # NOTE: Submergence indicators are carried over from the previous step
+        self.states['_theta_uk'] = np.copy(self._theta_uk)
+        self.states['_theta_dk'] = np.copy(self._theta_dk)
         self.states['A_sj'] = np.copy(self.A_sj)
         self.states['V_j'] = np.copy(self.V_j)
 
-- 
2.43.0


From cfe20937e8a08d6568525440fc678fc8e091e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 02/41] fix: measure the movable junction's position from the
 start of its own superlink

numba_reposition_junctions indexed a per-superlink slice with a global junction index, reading
past the slice for every superlink but the first.
---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..4715ee8 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3170,7 +3170,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
+                _x0 = _x_I[0]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-- 
2.43.0


From 1d5fda1e87e444002edb79a70e445ee80f57e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 03/41] fix: restore mobile junction geometry together with
 junction positions

save_state kept only the horizontal positions of movable junctions; after load_state the invert
elevations, link lengths and the movable junction's index still belonged to the newer positions.
---
 pipedream_solver/superlink.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 18634a8..054e7a6 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3914,6 +3914,11 @@ class SuperLink():
         self.states['Q_uk'] = np.copy(self.Q_uk)
         self.states['Q_dk'] = np.copy(self.Q_dk)
         self.states['x_Ik'] = np.copy(self.x_Ik)
+        if self.mobile_elements:
+            # NOTE: Invert elevations and link lengths follow the junction positions
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
         if self.n_o:
             self.states['Q_o'] = np.copy(self.Q_o)
             # TODO: Need to add orifice area here
-- 
2.43.0


From e94a7c7ac83fa84a026b4f1f23f08c68ee99b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 04/41] fix: never move a junction onto a fixed junction of its
 superlink

A downstream head equal to a junction invert (an empty outfall, for instance) placed the movable
junction on a fixed one, giving a zero-length link and out-of-bounds reads in the next call.
---
 pipedream_solver/nsuperlink.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 4715ee8..af29b7c 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3175,6 +3175,14 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             else:
                 z_m = _zc[k]
                 x_m = _xc[k]
+            # Leave junction in place if it would coincide with a fixed junction
+            min_dx = 1e-6 * (_x_I[nlinks] - _x_I[0])
+            coincident = False
+            for I in range(njunctions):
+                if (I != pos_prev) and (np.abs(_x_I[I] - x_m) <= min_dx):
+                    coincident = True
+            if coincident:
+                continue
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From f68f3f4e492fbc8a6f2817a1d27b14d995642ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 05/41] fix: do not stop at the first empty diagonal when
 computing the matrix bandwidth

With superjunctions numbered so that some off-diagonal is empty, step(banded=True) dropped the
couplings beyond it and returned wrong heads.
---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 054e7a6..7ac1b56 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -952,8 +952,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From c21ca3e1775f5fd1194b0afef2125c79f3dab01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 06/41] fix: integrate tabular storage areas over depth

scipy.integrate.cumtrapz no longer exists, so any model with a tabular storage failed to build; its
arguments were also swapped (depth was integrated over area).
---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index af29b7c..62ff849 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..157e008 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From cf884f2e10181f9374024152f3f52a836d9f4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 07/41] fix: look up each tabular storage in its own table

Offsets were taken in the order of the caller's dictionary but applied to arrays concatenated in
name order, so superjunctions used other storages' tables; unreferenced tables raised KeyError, and
functional superjunctions that named a table were treated as tabular.
---
 pipedream_solver/nsuperlink.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 62ff849..c7d6545 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,13 +433,13 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_inds = []
             _storage_lens = []
             _storage_As = []
@@ -447,7 +447,9 @@ class nSuperLink(SuperLink):
             _storage_hs = []
             order = []
             ix = 0
-            for name, storage in storages.items():
+            # Storages are concatenated in order of their index
+            for name in unique_storage_names:
+                storage = storages[name]
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
-- 
2.43.0


From 5275edf66ce8335ca66e1e365e61361ce5ff6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 08/41] fix: hold the end areas of a storage table outside its
 depth range

For tables whose area is not increasing the surface area jumped to the table's overall minimum or
maximum at the ends instead of continuing with the first or last entry.
---
 pipedream_solver/nsuperlink.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c7d6545..ee7442d 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1984,17 +1984,15 @@ def numba_compute_tabular_storage_areas(h_j, A_sj, hs, As, sjs, sts, inds, lens)
         size = lens[st]
         h_range = hs[ind:ind+size]
         A_range = As[ind:ind+size]
-        Amin = A_range.min()
-        Amax = A_range.max()
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
         # A_result = np.interp(h_search, h_range, A_range)
         # A_out[i] = A_result
         if (ix == 0):
-            A_sj[sj] = Amin
+            A_sj[sj] = A_range[0]
         elif (ix >= size):
-            A_sj[sj] = Amax
+            A_sj[sj] = A_range[size - 1]
         else:
             dx_0 = h_search - h_range[ix - 1]
             dx_1 = h_range[ix] - h_search
@@ -2016,7 +2014,6 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
         hmax = h_range.max()
         Vmin = V_range.min()
         Vmax = V_range.max()
-        Amax = A_range.max()
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
@@ -2025,7 +2022,7 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
         if (ix == 0):
             V_sj[sj] = Vmin
         elif (ix >= size):
-            V_sj[sj] = Vmax + Amax * (h_search - hmax)
+            V_sj[sj] = Vmax + A_range[size - 1] * (h_search - hmax)
         else:
             dx_0 = h_search - h_range[ix - 1]
             dx_1 = h_range[ix] - h_search
-- 
2.43.0


From 400e98988dc9e0ddd7605000b92fcfea599d0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 09/41] fix: keep the requested tolerance and norm when a step
 is retried

---
 pipedream_solver/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..bf8fdc5 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -569,7 +569,9 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
+                return None
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From b28d06eb3a78bee55f4ac234318990325af45fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 10/41] fix: record the current model state as the initial
 state of a simulation

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index bf8fdc5..778f92e 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -229,7 +229,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0


From f8f0aac2071c393452b820f65a37fbdfdf8965ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 11/41] fix: start the simulation clock at the requested start
 time

---
 pipedream_solver/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 778f92e..4b15598 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -156,6 +156,7 @@ class Simulation():
                 self.t_start = model.t
         else:
             self.t_start = t_start
+            self.model.t = self.t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 000c1db29c5b2e7ca7131cde229b6c8171e65811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 12/41] fix: report progress when the simulation has no
 duration

---
 pipedream_solver/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 4b15598..df21143 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -313,7 +313,10 @@ class Simulation():
         if t > t_end:
             t = t_end
         bar_len = 50
-        progress_ratio = float(t - t_start) / float(t_end - t_start)
+        if t_end > t_start:
+            progress_ratio = float(t - t_start) / float(t_end - t_start)
+        else:
+            progress_ratio = 1.0
         progress_len = int(round(bar_len * progress_ratio))
         pct_finished = round(100.0 * progress_ratio, 1)
         bar = '=' * progress_len + '-' * (bar_len - progress_len)
-- 
2.43.0


From f92b93c3cc0c717ea68762f176b810d11c65b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 13/41] fix: do not modify the transects passed in by the
 caller

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index ee7442d..3455ced 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -347,7 +347,7 @@ class nSuperLink(SuperLink):
             for name, transect in transects.items():
                 x = transect['x']
                 y = transect['y']
-                sample_points = transect.setdefault('sample_points', 100)
+                sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
                 B = np.array([pipedream_solver.ngeometry.Transect_B_ik(w_i, x, y) for w_i in w])
-- 
2.43.0


From 60b888a341922409786a6ece467e404443dd1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 14/41] fix: compute the downstream end slope from the
 downstream end length

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 7ac1b56..09ed3b1 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From 9ffd71f934aeb5516c42036f4d47612747f26212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 15/41] fix: locate the least-squares rows of superlinks with
 different numbers of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 09ed3b1..2c3929e 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -653,7 +653,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From 64c497c6c7e1b47b99d07ab07654849f9f3fb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 16/41] fix: advance by the default timestep when none is given

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2c3929e..a3bc189 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4125,6 +4125,8 @@ class SuperLink():
         """
         if banded is None:
             banded = self.banded
+        if dt is None:
+            dt = self._dt
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                          first_time=first_time, implicit=implicit, banded=banded,
                          first_iter=first_iter)
-- 
2.43.0


From 6b3a5c9ea4869768ad4c7f8bbed55985182fcaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 17/41] fix: swap the end properties of a superlink together
 with its direction

---
 pipedream_solver/superlink.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index a3bc189..61180a0 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -306,8 +306,13 @@ class SuperLink():
                 z_inv_dk = superlinks.loc[k, 'out_offset']
                 cond = z_inv_0 + z_inv_uk < z_inv_1 + z_inv_dk
                 if cond:
-                    superlinks.loc[k, 'sj_0'] = sj_1
-                    superlinks.loc[k, 'sj_1'] = sj_0
+                    # Each end keeps its own junction, offset, coefficient and length
+                    for col_u, col_d in (('sj_0', 'sj_1'), ('in_offset', 'out_offset'),
+                                         ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
+                        if (col_u in superlinks) and (col_d in superlinks):
+                            end_u = superlinks.loc[k, col_u]
+                            superlinks.loc[k, col_u] = superlinks.loc[k, col_d]
+                            superlinks.loc[k, col_d] = end_u
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From eac05ab630644e4f548435774539706903c75eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 18/41] fix: make the square-root Kalman filter agree with the
 standard form

---
 pipedream_solver/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..fb9974f 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,10 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    # NOTE: Square root factors are upper-triangular (i.e. P = F.T @ F)
+    Rq = np.linalg.cholesky(Qcov).T @ C.T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -177,5 +178,6 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
     P_x_k1_k1 = Fhat.T@Fhat
+    P_zz = G.T@G
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From 8254ab16683eafaf0cfa2dd052e9252b8506195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 19/41] fix: allow Darcy-Weisbach friction with still water

---
 pipedream_solver/nsuperlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 3455ced..fc102d5 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2046,6 +2046,9 @@ def friction_slope(Q_ik_t, dx_ik, A_ik, R_ik, n_ik, Sf_method_ik, g=9.81):
             # kinematic viscosity(meter^2/sec), we can consider this is constant.
             nu = 0.0000010034
             Re = (np.abs(Q_ik_t) / A_ik) * 4 * R_ik / nu
+            # The friction term vanishes with the discharge
+            if Re == 0:
+                return 0.
             f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
             t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
                    / (A_ik * R_ik))
-- 
2.43.0


From 4676abace42b76adfb43738729694ccddf06f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 20/41] fix: keep ponded depth in meters and do not modify
 depths set by the caller

---
 pipedream_solver/infiltration.py  | 7 +++----
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..16f8d43 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -368,10 +368,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
-        self.d = np.maximum(self.d, 0.)
+        self.d = np.maximum(self.d + (i - f) * dt, 0.)
 
     def step(self, dt, i):
         """
@@ -402,7 +401,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From 90e9be0f695bb7941a53f2a6e6619ca3fee438cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 21/41] fix: cumulative infiltration does not recover below
 zero

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 16f8d43..16acbd5 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -141,7 +141,7 @@ class GreenAmpt():
         d_theta = kr * theta_dmax * dt
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
-        F -= d_theta * Lu
+        F[:] = np.maximum(F - d_theta * Lu, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From 50576e6c476dd87198a462b2d8058d148128d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 22/41] fix: start the infiltration iteration where its
 derivative is not zero

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 16acbd5..c5b435c 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -252,7 +252,7 @@ class GreenAmpt():
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             for i in range(n):
-                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, F[cond_2][i],
+                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, Fs[cond_2][i],
                                                self.derivative_green_ampt,
                                                args=(Fs[cond_2][i], sub_dt[i], Ks[cond_2][i],
                                                      theta_d[cond_2][i], psi_f[cond_2][i]))
-- 
2.43.0


From 7d7155e6117c971e59a9f9872579a92c4b5d0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 23/41] fix: let saturated soil dry out when the available
 water runs out

---
 pipedream_solver/ninfiltration.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 44c5b41..556fa84 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -154,7 +154,8 @@ class nGreenAmpt(GreenAmpt):
         dts = np.full(n, dt)
         F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia)
         dF = F_2 - F
-        cond = (dF > ia * dt)
+        # The iteration is bounded by the available rainfall
+        cond = (F_2 >= F + ia * dt)
         if cond.any():
             dF[cond] = ia[cond] * dt
             # Set current surface layer to unsaturated
@@ -249,11 +250,15 @@ def run_green_ampt_newton(F_2, x0, F_1, dt, Ks, theta_d, psi_f, ia, max_iter=50,
         if bounded:
             min_F = 0
             max_F = F_1_i + ia[i] * dt_i
-            F_est = bounded_newton_raphson(numba_integrated_green_ampt,
-                                        numba_derivative_green_ampt,
-                                        x_0_i, min_F, max_F,
-                                        nargs, max_iter=max_iter,
-                                        atol=atol, rtol=rtol)
+            if numba_integrated_green_ampt(max_F, nargs) >= 0:
+                # All of the available rainfall infiltrates
+                F_est = max_F
+            else:
+                F_est = bounded_newton_raphson(numba_integrated_green_ampt,
+                                            numba_derivative_green_ampt,
+                                            x_0_i, min_F, max_F,
+                                            nargs, max_iter=max_iter,
+                                            atol=atol, rtol=rtol)
         else:
             F_est = newton_raphson(numba_integrated_green_ampt,
                                    numba_derivative_green_ampt,
-- 
2.43.0


From b6e70a930214ac9c481506c4455a429a69e5f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 24/41] fix: a closed circular or elliptical orifice has no
 opening instead of dividing by zero

---
 pipedream_solver/nsuperlink.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index fc102d5..c1a8681 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1864,7 +1864,10 @@ def numba_orifice_geometry(_Ao, h_eo, u_o, _g1_o, _g2_o, _g3_o, _geom_codes_o, n
         u = u_o[i]
         h_e = h_eo[i]
         if geom_code:
-            if geom_code == 1:
+            if g1 * u <= 0.0:
+                # A closed orifice has no opening
+                _Ao[i] = 0.0
+            elif geom_code == 1:
                 _Ao[i] = pipedream_solver.ngeometry.Circular_A_ik(h_e, h_e, g1 * u)
             elif geom_code == 2:
                 _Ao[i] = pipedream_solver.ngeometry.Rect_Closed_A_ik(h_e, h_e, g1 * u, g2)
-- 
2.43.0


From 71041320fac7bec8face4c8ef7ca90d167e55394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 25/41] fix: volume of a tabular storage is the integral of its
 area between entries too

---
 pipedream_solver/nsuperlink.py | 4 +++-
 pipedream_solver/storage.py    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c1a8681..3171c4b 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2030,7 +2030,9 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
             dx_0 = h_search - h_range[ix - 1]
             dx_1 = h_range[ix] - h_search
             frac = dx_0 / (dx_0 + dx_1)
-            V_sj[sj] = (1 - frac) * V_range[ix - 1] + (frac) * V_range[ix]
+            # Area varies linearly between entries
+            A_sj = (1 - frac) * A_range[ix - 1] + (frac) * A_range[ix]
+            V_sj[sj] = V_range[ix - 1] + (A_range[ix - 1] + A_sj) / 2 * dx_0
     return V_sj
 
 @njit(float64(float64, float64, float64, float64, float64, float64, float64))
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 157e008..413fd8c 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -102,6 +102,9 @@ class Tabular():
         _h[_h < hmin] = hmin
         _h[_h > hmax] = hmax
         r = np.maximum(h - _h, 0)
-        V = self.V_interpolator(_h) + (r * Amax)
+        # Area varies linearly between entries
+        i = np.clip(np.searchsorted(self.h, _h) - 1, 0, self.h.size - 2)
+        V = (self.V[i] + (self.A[i] + self.A_interpolator(_h)) / 2 * (_h - self.h[i])
+             + (r * Amax))
         return V
 
-- 
2.43.0


From 48a5c241726507555109b8abcf4b9ebfdbdb5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 26/41] fix: movable junction's home position is measured from
 the start of the superlink

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 3171c4b..58065c5 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3181,7 +3181,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x_I[0]
             # Leave junction in place if it would coincide with a fixed junction
             min_dx = 1e-6 * (_x_I[nlinks] - _x_I[0])
             coincident = False
-- 
2.43.0


From 2dd6eb0167cdc724991118d456d8ca177ae114ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 27/41] fix: junction moved upstream splits the flow of the
 link it moves into

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 58065c5..71fae12 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3218,7 +3218,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                ix[pos_prev] = pos_next if (pos_next > pos_prev) else pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 97b5814ae71b8aac4ab4f169fd1909f5cb462aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 28/41] fix: water quality model does not need Kalman filter
 columns that are not documented as required

---
 pipedream_solver/nquality.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..713a7fa 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -219,9 +219,11 @@ class QualityBuilder():
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-        self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
-        self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
-        self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        # Kalman filter parameters are only required if filter is used
+        if 'KF_obs_point' in superlink_params.columns:
+            self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
+            self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
+            self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
         self.step(dt=1e-6)
         
     # TODO: It might be safer to have these as @properties
-- 
2.43.0


From d5c994c341e397f4704abf77915420b88408d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 29/41] fix: water quality step uses the step of the hydraulic
 model when none is given

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 713a7fa..95c9192 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -979,9 +979,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From 56221a1cd6c3b0c4d60ffa7197556ddbd609fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 30/41] fix: concentration filter starts from the initial
 concentrations instead of zero

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 95c9192..076d363 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -215,7 +215,7 @@ class QualityBuilder():
         self.A_k = np.zeros((self.M, self.M))
         self.B_k = np.zeros((self.M, self.M))
         self.H_k  = np.zeros((1,self.M))
-        self.x_hat = np.zeros(self.M)
+        self.x_hat = np.copy(self._c_j)
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-- 
2.43.0


From 16d66ca979c45272207eb739fdd41351bf33e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 31/41] fix: prescribed boundary concentrations carry no
 variance from the previous step in the filter

---
 pipedream_solver/nquality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 076d363..b625b25 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -1026,6 +1026,8 @@ class QualityBuilder():
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on previous concentrations
+        A1_k[self.bc, self.bc] = 0.
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1068,6 +1070,8 @@ class QualityBuilder():
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on previous concentrations
+        A1_k[self.bc, self.bc] = 0.
         self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, A_sj_k, H_j_k_next, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
         self._c_j = self.x_hat
         self._c_j_prev_kf = self.x_hat
@@ -1082,6 +1086,8 @@ class QualityBuilder():
         H_j_k_next = self._H_j_next - self._z_inv_j
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on previous concentrations
+        A1_k[self.bc, self.bc] = 0.
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
-- 
2.43.0


From 1d406814bdd2ae136c036b701a929b7ac0f7898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 32/41] fix: water quality model uses the shape and size of
 each conduit, not those of the first links

---
 pipedream_solver/nquality.py | 53 ++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index b625b25..43d78f7 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -274,7 +274,7 @@ class QualityBuilder():
         self._A_dk_prev = np.zeros(len(self.nk))
         _I_1k = self._I_1k
         _I_Np1k = self._I_Np1k
-        self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
+        self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(self._i_1k, self._i_nk, _I_1k,
                _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
                self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
@@ -1654,24 +1654,31 @@ def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
 
 @njit
 def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
-    if _geom_codes[0] ==1:
-        d = _g1_ik
-        y = 0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-        y[y < 0] = 0
-        y[y > d] = d[y > d]
-        r = d / 2
-        phi = y / r
-        phi[phi < 0] = 0
-        phi[phi > 2] = 2
-        theta = np.arccos(1 - phi)
-        _A_ik_next = r**2 * (theta - np.cos(theta) * np.sin(theta))
-    elif _geom_codes[0] ==3:
-        _A_ik_next = _B_ik[Ix_ik]*0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-    else:
-        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')    
+    n = len(Ix_ik)
+    _A_ik_next = np.zeros(n)
+    for i in range(n):
+        y = 0.5*(_h_Ik_next[_Ik[i]] + _h_Ik_next[_Ip1k[i]])
+        if _geom_codes[i] ==1:
+            d = _g1_ik[i]
+            if y < 0:
+                y = 0.0
+            elif y > d:
+                y = d
+            r = d / 2
+            phi = y / r
+            if phi < 0:
+                phi = 0
+            elif phi > 2:
+                phi = 2
+            theta = np.arccos(1 - phi)
+            _A_ik_next[i] = r**2 * (theta - np.cos(theta) * np.sin(theta))
+        elif _geom_codes[i] ==3:
+            _A_ik_next[i] = _B_ik[i]*y
+        else:
+            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
     return _A_ik_next
 @njit
-def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
+def geometry_WQ2(_i_1k, _i_nk, _I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
                  _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
                  _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
@@ -1683,8 +1690,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         _Q_uk_dn_next[k] = (_Q_uk_next[k] - (0.5*_B_uk[k]*_dx_uk[k])
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_1k[k]] ==1:
+            d = _g1_ik[_i_1k[k]]
             y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
@@ -1712,7 +1719,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_1k[k]] ==3:
             _A_uk_next[k] = (_B_uk[k]*0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]]))
             _A_uk_prev[k] = (_B_uk[k]*0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]]))
         else:
@@ -1724,8 +1731,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_H_j_next[_J_dk[k]] - _H_j_prev[_J_dk[k]])/_dt)
         
         # Calculate the cross-sectional area of downstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_nk[k]] ==1:
+            d = _g1_ik[_i_nk[k]]
             y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
@@ -1752,7 +1759,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_nk[k]] ==3:
             _A_dk_next[k] = (_B_dk[k]*0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]]))
             _A_dk_prev[k] = (_B_dk[k]*0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]]))
         else:
-- 
2.43.0


From 20c5fe2739b5df21f9e7e8e223a8f240d1f03407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 33/41] fix: concentrations inside a conduit do not amplify
 roundoff when flow is reversed

---
 pipedream_solver/nquality.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 43d78f7..ae1ff6d 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -875,7 +875,8 @@ class QualityBuilder():
         _c_max = self._c_max
         # Solve internals
         numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                              _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
+                              _X_Ik, _Y_Ik, _Z_Ik, self._kappa_Ik, self._lambda_Ik,
+                              self._mu_Ik, self._eta_Ik, _i_1k, _I_1k, nk, NK,
                               _c_min, _c_max, first_link_backwards=True)
         # TODO: Temporary
         assert np.isfinite(_c_Ik).all()
@@ -912,7 +913,8 @@ class QualityBuilder():
         _c_max = self._c_max
         # Solve internals
         numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                              _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
+                              _X_Ik, _Y_Ik, _Z_Ik, self._kappa_Ik, self._lambda_Ik,
+                              self._mu_Ik, self._eta_Ik, _i_1k, _I_1k, nk, NK,
                               _c_min, _c_max, first_link_backwards=False)
         # TODO: Temporary
         assert np.isfinite(_c_Ik).all()
@@ -1591,7 +1593,8 @@ def numba_create_banded(l, bandwidth, M):
 
 @njit
 def numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
-                          _X_Ik, _Y_Ik, _Z_Ik, _i_1k, _I_1k, nk, NK,
+                          _X_Ik, _Y_Ik, _Z_Ik, _kappa_Ik, _lambda_Ik,
+                          _mu_Ik, _eta_Ik, _i_1k, _I_1k, nk, NK,
                           min_c, max_c, first_link_backwards=True):
     for k in range(NK):
         n = nk[k]
@@ -1613,7 +1616,9 @@ def numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
             Ip1 = I + 1
             i = i_n - j
             _c_ik[i] = c_i_f(_c_Ik[Ip1], _c_1, _U_Ik[I], _V_Ik[I], _W_Ik[I])
-            _c_Ik[I] = c_I_b(_c_ik[i], _c_Np1, _X_Ik[I], _Y_Ik[I], _Z_Ik[I])
+            # Dividing by X_Ik amplifies roundoff at each junction if flow is reversed
+            _c_Ik[I] = c_I_f(_c_ik[i], _c_1, _U_Ik[I - 1], _V_Ik[I - 1], _W_Ik[I - 1],
+                             _kappa_Ik[I], _lambda_Ik[I], _mu_Ik[I], _eta_Ik[I])
             if _c_Ik[I] < min_c:
                 _c_Ik[I] = min_c
             if _c_Ik[I] > max_c:
@@ -1631,6 +1636,13 @@ def numba_solve_internals(_c_Ik, _c_ik, _c_1k, _c_Np1k, _U_Ik, _V_Ik, _W_Ik,
                             _W_Ik[I_1])
     return 1
 
+@njit
+def c_I_f(c_ik, c_1k, U_Im1k, V_Im1k, W_Im1k, kappa_Ik, lambda_Ik, mu_Ik, eta_Ik):
+    t_0 = eta_Ik - mu_Ik * c_ik
+    t_1 = kappa_Ik * (V_Im1k + W_Im1k * c_1k)
+    t_2 = lambda_Ik + kappa_Ik * U_Im1k
+    return (t_0 - t_1) / t_2
+
 @njit
 def c_i_f(c_Ip1k, c_1k, U_Ik, V_Ik, W_Ik):
     t_0 = U_Ik * c_Ip1k
-- 
2.43.0


From 79827bc0d8326a9666a86cdc3643c48b1d97a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 34/41] fix: head loss by friction in conduit end cells under
 bc_method 'b'

---
 pipedream_solver/nsuperlink.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 71fae12..eb1c997 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2328,8 +2328,9 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     t_0 = - dx_uk / g / A_uk / dt
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
-        t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
-                                n_uk[n], Sf_method_uk[n], g)
+        if A_uk[n] > 0:
+            t_1[n] = - friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
+                                      n_uk[n], Sf_method_uk[n], g) / g / A_uk[n]
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
     return t_0 + t_1 + t_2
 
@@ -2343,8 +2344,9 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     t_0 = dx_dk / g / A_dk / dt
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
-        t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
-                                n_dk[n], Sf_method_dk[n], g)
+        if A_dk[n] > 0:
+            t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
+                                    n_dk[n], Sf_method_dk[n], g) / g / A_dk[n]
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
     return t_0 + t_1 + t_2
 
-- 
2.43.0


From c3838bb728fdb0ee7a6914d80ee35e0834497020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 35/41] fix: bc_method 'b' with a dry conduit end divided by
 zero

---
 pipedream_solver/nsuperlink.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index eb1c997..1e61c23 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2325,13 +2325,13 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     Compute boundary coefficient 'kappa' for upstream end of superlink k.
     """
     k = Q_uk.size
-    t_0 = - dx_uk / g / A_uk / dt
+    t_0 = - safe_divide_vec(dx_uk, g * A_uk * dt)
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
         if A_uk[n] > 0:
             t_1[n] = - friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
                                       n_uk[n], Sf_method_uk[n], g) / g / A_uk[n]
-    t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
+    t_2 = - safe_divide_vec(C_uk * np.abs(Q_uk), 2 * g * A_uk**2)
     return t_0 + t_1 + t_2
 
 @njit(float64[:](float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
@@ -2341,13 +2341,13 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     Compute boundary coefficient 'kappa' for downstream end of superlink k.
     """
     k = Q_dk.size
-    t_0 = dx_dk / g / A_dk / dt
+    t_0 = safe_divide_vec(dx_dk, g * A_dk * dt)
     t_1 = np.zeros(k, dtype=np.float64)
     for n in range(k):
         if A_dk[n] > 0:
             t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
                                     n_dk[n], Sf_method_dk[n], g) / g / A_dk[n]
-    t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
+    t_2 = safe_divide_vec(C_dk * np.abs(Q_dk), 2 * g * A_dk**2)
     return t_0 + t_1 + t_2
 
 @njit(float64[:](float64[:], float64[:], float64[:], float64[:], float64[:],
@@ -2356,7 +2356,7 @@ def mu_uk(Q_uk_t, dx_uk, A_uk, theta_uk, z_inv_uk, S_o_uk, dt, g=9.81):
     """
     Compute boundary coefficient 'mu' for upstream end of superlink k.
     """
-    t_0 = Q_uk_t * dx_uk / g / A_uk / dt
+    t_0 = safe_divide_vec(Q_uk_t * dx_uk, g * A_uk * dt)
     t_1 = - theta_uk * z_inv_uk
     t_2 = dx_uk * S_o_uk
     return t_0 + t_1 + t_2
@@ -2367,7 +2367,7 @@ def mu_dk(Q_dk_t, dx_dk, A_dk, theta_dk, z_inv_dk, S_o_dk, dt, g=9.81):
     """
     Compute boundary coefficient 'mu' for downstream end of superlink k.
     """
-    t_0 = - Q_dk_t * dx_dk / g / A_dk / dt
+    t_0 = - safe_divide_vec(Q_dk_t * dx_dk, g * A_dk * dt)
     t_1 = - theta_dk * z_inv_dk
     t_2 = - dx_dk * S_o_dk
     return t_0 + t_1 + t_2
-- 
2.43.0


From a31c13012b44955ee1f6800528bcbf6081b73df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 36/41] fix: wetted perimeter at the ends of elliptical
 conduits was never computed

---
 pipedream_solver/nsuperlink.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 1e61c23..3a08f07 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -572,6 +572,9 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
+                                             _g1_ik, _g2_ik, _geom_codes, _i_1k, _I_1k, _J_uk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
@@ -624,6 +627,9 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
+                                             _g1_ik, _g2_ik, _geom_codes, _i_nk, _I_Np1k, _J_dk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
@@ -1697,6 +1703,18 @@ def handle_elliptical_perimeter(_Pe_ik, _ellipse_ix, _Ik, _Ip1k, _h_Ik, _g1_ik,
                                                             _g1_ik[_ik_g],
                                                             _g2_ik[_ik_g])
 
+def handle_elliptical_boundary_perimeter(_Pe_bk, _h_Ik, _H_j, _z_inv_bk, _theta_bk,
+                                         _g1_ik, _g2_ik, _geom_codes, _i_bk, _I_bk, _J_bk):
+    _k_g = np.flatnonzero(_geom_codes[_i_bk] ==
+                          pipedream_solver.geometry.geom_code['elliptical'])
+    if (_k_g.size > 0):
+        _h_bk_g = _theta_bk[_k_g] * (_H_j[_J_bk[_k_g]] - _z_inv_bk[_k_g])
+        _i_bk_g = _i_bk[_k_g]
+        _Pe_bk[_k_g] = pipedream_solver.geometry.Elliptical.Pe_ik(_h_Ik[_I_bk[_k_g]],
+                                                                  _h_bk_g,
+                                                                  _g1_ik[_i_bk_g],
+                                                                  _g2_ik[_i_bk_g])
+
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:],
             float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             int64[:], int64[:], int64[:]),
-- 
2.43.0


From 9dce23e3f8937534d398932242938b4831f61707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 37/41] fix: uphill conduits given with link and junction
 tables were connected to the wrong ends

---
 pipedream_solver/superlink.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 61180a0..e49a0dc 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -296,7 +296,9 @@ class SuperLink():
         # TODO: Ensure index is int
         # TODO: This needs to be done for orifices/weirs/pumps as well
         # Ensure nominal direction of superlinks is correct
-        if (superlinks is not None) and (superjunctions is not None):
+        # (junctions in user-supplied tables already run from sj_0 to sj_1)
+        generate_elems = (links is None) or (junctions is None)
+        if generate_elems and (superlinks is not None) and (superjunctions is not None):
             for k in superlinks.index.values:
                 sj_0 = superlinks.loc[k, 'sj_0']
                 sj_1 = superlinks.loc[k, 'sj_1']
-- 
2.43.0


From 81ec3a8a764413d12c2c69a5b0bb9ecd6c57201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 38/41] fix: rounding-level flows through orifices, weirs and
 pumps linearized into matrix entries that swamp the solution

---
 pipedream_solver/nsuperlink.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 3a08f07..3ac596e 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2677,6 +2677,8 @@ def gamma_o(Q_o_t, Ao, Co, g=9.81):
     """
     num = 2 * g * Co**2 * Ao**2
     den = np.abs(Q_o_t)
+    # A flow at rounding level linearizes no better than no flow
+    den[den < 1e-9] = 0.0
     result = safe_divide_vec(num, den)
     return result
 
@@ -2688,6 +2690,8 @@ def gamma_w(Q_w_t, H_w_t, L_w, s_w, Cwr, Cwt):
     """
     num = (Cwr * L_w * H_w_t + Cwt * s_w * H_w_t**2)**2
     den = np.abs(Q_w_t)
+    # A flow at rounding level linearizes no better than no flow
+    den[den < 1e-9] = 0.0
     result = safe_divide_vec(num, den)
     return result
 
@@ -2699,6 +2703,8 @@ def gamma_p(Q_p_t, b_p, c_p, u):
     """
     num = u
     den = b_p * np.abs(Q_p_t)**(c_p - 1)
+    # A flow at rounding level linearizes no better than no flow
+    den[den < 1e-9] = 0.0
     result = safe_divide_vec(num, den)
     return result
 
-- 
2.43.0


From 2d8c0d570b656710a423c4584b6c60e2c515ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 39/41] fix: models built with sparse=True could not be
 constructed

---
 pipedream_solver/nquality.py   |  2 +-
 pipedream_solver/nsuperlink.py |  4 +---
 pipedream_solver/superlink.py  | 24 +++++++-----------------
 3 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index ae1ff6d..4d9bec7 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -765,7 +765,7 @@ class QualityBuilder():
             l = A
             r = b
         if _sparse:
-            _c_j_next = scipy.sparse.linalg.spsolve(l, r)
+            _c_j_next = scipy.sparse.linalg.spsolve(scipy.sparse.csc_matrix(l), r)
         else:
             _c_j_next = scipy.linalg.solve(l, r)
         assert np.isfinite(_c_j_next).all()
diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 3ac596e..598c22e 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1299,8 +1299,6 @@ class nSuperLink(SuperLink):
         # self._alpha_ukm = _alpha_ukm
         # self._chi_ukl = _chi_ukl
         # self._chi_dkm = _chi_dkm
-        if first_time and _sparse:
-            self.A = self.A.tocsr()
 
     def solve_sparse_matrix(self, u=None, implicit=True):
         """
@@ -1336,7 +1334,7 @@ class nSuperLink(SuperLink):
             l = A
             r = b
         if _sparse:
-            H_j_next = scipy.sparse.linalg.spsolve(l, r)
+            H_j_next = scipy.sparse.linalg.spsolve(scipy.sparse.csc_matrix(l), r)
         else:
             H_j_next = scipy.linalg.solve(l, r)
         assert np.isfinite(H_j_next).all()
diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index e49a0dc..1a113be 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -687,23 +687,15 @@ class SuperLink():
         # self._J_dk = self.superlinks['sj_1'].values.astype(np.int64)
         # self._z_inv_dk = np.copy(self._z_inv_Ik[self._I_Np1k])
         # Sparse matrix coefficients
-        if sparse:
-            self.A = scipy.sparse.lil_matrix((self.M, self.M))
-        else:
-            self.A = np.zeros((self.M, self.M))
+        # NOTE: Assembled as dense arrays; converted by the solver if `sparse` is set
+        self.A = np.zeros((self.M, self.M))
         self.b = np.zeros(self.M)
         self.D = np.zeros(self.M)
         self.bc = self.superjunctions['bc'].values.astype(np.bool_)
-        if sparse:
-            self.B = scipy.sparse.lil_matrix((self.M, self.n_o))
-            self.O = scipy.sparse.lil_matrix((self.M, self.M))
-            self.W = scipy.sparse.lil_matrix((self.M, self.M))
-            self.P = scipy.sparse.lil_matrix((self.M, self.M))
-        else:
-            self.B = np.zeros((self.M, self.n_o))
-            self.O = np.zeros((self.M, self.M))
-            self.W = np.zeros((self.M, self.M))
-            self.P = np.zeros((self.M, self.M))
+        self.B = np.zeros((self.M, self.n_o))
+        self.O = np.zeros((self.M, self.M))
+        self.W = np.zeros((self.M, self.M))
+        self.P = np.zeros((self.M, self.M))
         # TODO: Should these be size NK?
         self._theta_uk = np.ones(self.NK)
         self._theta_dk = np.ones(self.NK)
@@ -2879,8 +2871,6 @@ class SuperLink():
         self._alpha_ukm = _alpha_ukm
         self._chi_ukl = _chi_ukl
         self._chi_dkm = _chi_dkm
-        if first_time and _sparse:
-            self.A = self.A.tocsr()
 
     def solve_sparse_matrix(self, u=None, implicit=True):
         """
@@ -2916,7 +2906,7 @@ class SuperLink():
             l = A
             r = b
         if _sparse:
-            H_j_next = scipy.sparse.linalg.spsolve(l, r)
+            H_j_next = scipy.sparse.linalg.spsolve(scipy.sparse.csc_matrix(l), r)
         else:
             H_j_next = scipy.linalg.solve(l, r)
         # Constrain heads based on allowed maximum/minimum depths
-- 
2.43.0


From a36c92e0141eb64ed2d886a5618a262baab124cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 40/41] fix: area and perimeter of partly filled parabolic
 sections used the full top width

---
 pipedream_solver/geometry.py  | 4 ++++
 pipedream_solver/ngeometry.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..0908885 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -533,6 +533,8 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
+        # Width of the water surface at the current depth
+        b = b * np.sqrt(y / y_max)
         A = 2 * b * y / 3
         return A
 
@@ -557,6 +559,8 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
+        # Width of the water surface at the current depth
+        b = b * np.sqrt(y / y_max)
         x = 4 * y / b
         Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..1e700b1 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -581,6 +581,8 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
+    # Width of the water surface at the current depth
+    b = b * np.sqrt(y / y_max)
     A = 2 * b * y / 3
     return A
 
@@ -608,6 +610,8 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
+    # Width of the water surface at the current depth
+    b = b * np.sqrt(y / y_max)
     x = 4 * y / b
     Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
-- 
2.43.0


From 355447e6102719d8a469dbc93ed889b4e161ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 41/41] fix: top width of elliptical sections was not the chord
 of the ellipse

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 0908885..5108184 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -706,8 +706,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 1e700b1..41645b2 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -738,8 +738,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0

