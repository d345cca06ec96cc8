From d0069634292937c93a2c45303052b3b47d7327f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 01/54] fix: decouple the last row of every layer from the next
 layer in 3D transmissibility matrices

---
 reservoirflow/grids/regular_cartesian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..3ff3ce2 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,13 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # last row of every layer is not connected with the next layer
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From 40dbb2063b5fce76ac30223aa425ea2337c31767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 02/54] fix: get_cell_icoords of boundary cells when unify is
 False

---
 reservoirflow/grids/regular_cartesian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 3ff3ce2..abec6a3 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,7 +741,8 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
+                fdir = self.get_fdir()
+                icoords = tuple(c for c, s in zip(coords[::-1], "zyx") if s in fdir)
                 assert len(icoords) == self.get_D(), "icoords is not compatible"
             else:
                 icoords = tuple(c for c in coords[::-1])
-- 
2.43.0


From ba7591c01b2f128212b8fea207690ed10ebae02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 03/54] fix: pressure constraints of zero in vectorized FDM
 matrices

---
 reservoirflow/solutions/numerical/fdm.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..f768234 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -544,7 +544,8 @@ class FDM(Solution):
                 ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
                 p = eval(f"sym.Symbol('p{id}')")
                 b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
+                coeffs = b_term.as_coefficients_dict()
+                v0, v1 = coeffs[1], coeffs[p]
                 self.bdict_v[id_b] = (v0, v1, id)
                 self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
                 # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
@@ -559,14 +560,8 @@ class FDM(Solution):
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
+                coeffs = w_term.as_coefficients_dict()
+                v0, v1 = coeffs[1], coeffs[p]
                 self.d_[self.model.cells_i_dict[id], 0] -= v0
                 if not self.resolve[id]:
                     self.A_[
-- 
2.43.0


From d47498b6d82eee1493b3795e8a607f37db6b629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 04/54] fix: apply pressure boundaries given by any documented
 alias

---
 reservoirflow/models/black_oil.py        | 4 +++-
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..7ff15be 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -592,7 +592,9 @@ class BlackOil(Model):
             self.set_boundary(cell_id, cond, v)
 
         self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
+            id_b
+            for id_b in self.bdict.keys()
+            if self.bdict[id_b][0].lower() in ["pressure", "press", "p"]
         ]
 
     def set_all_boundaries(self, cond, v):
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f768234..1ed1bd6 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -575,7 +575,7 @@ class FDM(Solution):
             id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
             if len(id) > 0:
                 id = id[0]
-                if self.model.bdict[id_b][0] == "pressure":
+                if id_b in self.bdict_v:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
                 else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-- 
2.43.0


From 77a194962e05ca351f9dea1ff139d8d2e17346ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 05/54] fix: use the equivalent rate of gradient boundaries in
 symbolic FDM equations

---
 reservoirflow/solutions/numerical/fdm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 1ed1bd6..3fa7a64 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -136,7 +136,10 @@ class FDM(Solution):
             if cond.lower() in ["pressure", "press", "p"]:
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
-            else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
+            elif cond.lower() in ["gradient", "grad", "g"]:
+                # set_boundary() stores the equivalent rate of a gradient
+                return self.rates[self.tstep, cell_b_id]
+            else:  # elif cond in ["rate", "q"]:
                 return v
         else:
             return 0.0
-- 
2.43.0


From 490489b83c506b9b0d1e225f742b5535cb753d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 06/54] fix: keep the selected solver when a time step is
 resolved

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 3fa7a64..aa0bb79 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -768,7 +768,7 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 11c418930882aff2a6c0a2601beb0282db1625c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 07/54] fix: wells return to their target rate once it is
 feasible again

---
 reservoirflow/solutions/numerical/fdm.py | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index aa0bb79..309a73b 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -52,6 +52,7 @@ class FDM(Solution):
         super().__init__(model, sparse)
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
+        self.n_resolve = 0
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
 
     # -------------------------------------------------------------------------
@@ -301,10 +302,7 @@ class FDM(Solution):
 
         else:
             terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
+            if cell_id in self.model.wells.keys():
                 w_term = self.__calc_w_term(cell_id, cell_p)
                 if self.model.verbose:
                     print(f"[info] Well terms (updated): {w_term}")
@@ -560,6 +558,10 @@ class FDM(Solution):
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
                 update_z = True
+                if self.resolve[id]:
+                    cell_i = self.model.cells_i_dict[id]
+                    self.A_[cell_i, cell_i] -= self.resolve[id]
+                    self.resolve[id] = False
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
@@ -570,7 +572,7 @@ class FDM(Solution):
                     self.A_[
                         self.model.cells_i_dict[id], self.model.cells_i_dict[id]
                     ] += v1
-                    self.resolve[id] = True
+                    self.resolve[id] = v1
             else:
                 pass  # no constrain
 
@@ -640,7 +642,14 @@ class FDM(Solution):
             else:
                 pwf_est = self.model.wells[id]["pwf"]
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
+            limited = self.model.wells[id]["constrain"] == "pwf"
+            if pwf_est > self.model.wells[id]["pwf_sp"] and not (
+                limited and self.n_resolve >= 10 * len(self.model.wells)
+            ):
+                if limited:
+                    # q_sp became possible again without violating pwf_sp
+                    self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
+                    resolve = True
                 self.model.wells[id]["constrain"] = "q"
             else:
                 if (
@@ -765,13 +774,18 @@ class FDM(Solution):
             self.__update_boundaries()
             resolve = self.__update_wells()
             if resolve:
+                self.n_resolve += 1
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[: self.tstep]
+                self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
+            self.n_resolve = 0
+
             if check_MB:
                 self.check_MB()
 
-- 
2.43.0


From 894864b12b130003c66ebfc6c898c202d1350bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 08/54] fix: gravity terms of all internal neighbors in
 vectorized FDM matrices

---
 reservoirflow/solutions/numerical/fdm.py | 30 +++++++++---------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 309a73b..8377546 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -501,23 +501,18 @@ class FDM(Solution):
         return self.d_
 
     def __update_z(self):
-        """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
+        """Add gravity terms of all internal neighbors to vector `d`.
 
-        # all 1D in x direction.
+        The flow between a cell and each one of its neighbors includes
+        the term `-T * g * (z_n - z)` which is moved to the right hand
+        side (`d`). Gravity terms at boundaries are included in boundary
+        terms.
+        """
         z = self.model.grid.z[self.model.grid.cells_id]
-        if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+        if self.model.fluid.g != 0 and not np.all(z == z[0]):
+            T = self.model.get_cells_trans(False, True, True)
+            v = self.model.fluid.g * (T @ z - z * np.asarray(T.sum(axis=1)).flatten())
+            self.d_[:] = self.d_ + v.reshape(-1, 1)
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -534,7 +529,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
@@ -557,7 +551,6 @@ class FDM(Solution):
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
                 if self.resolve[id]:
                     cell_i = self.model.cells_i_dict[id]
                     self.A_[cell_i, cell_i] -= self.resolve[id]
@@ -587,8 +580,7 @@ class FDM(Solution):
                         self.tstep, id_b
                     ]
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From b486ecb964328c533c3b841a8102618243dc3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 09/54] fix: register boundary conditions whichever method sets
 them

---
 reservoirflow/models/black_oil.py | 32 ++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 7ff15be..4b510e4 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -551,6 +551,9 @@ class BlackOil(Model):
         # ----
         # - d is taken at x direction for gradient.
         cond = cond.lower()
+        if cell_b_id in self.bdict:
+            self.__remove_boundary(cell_b_id)
+
         if cond in ["rate", "q"]:
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
@@ -571,9 +574,21 @@ class BlackOil(Model):
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
+        self.bdict[cell_b_id] = (cond, v)
+        if cond in ["pressure", "press", "p"]:
+            self.bdict_update.append(cell_b_id)
+
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __remove_boundary(self, cell_b_id):
+        """Remove the condition defined at a boundary cell (no flow)."""
+        cond, _ = self.bdict.pop(cell_b_id)
+        if cond in ["pressure", "press", "p"]:
+            self.bdict_update.remove(cell_b_id)
+            self.__set_pressure(self.__get_tstep(), cell_b_id, np.nan)
+        self.__set_rate(self.__get_tstep(), cell_b_id, 0)
+
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
 
@@ -584,19 +599,19 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
+        bdict = dict(bdict)
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
+
+        # conditions defined before are replaced:
+        for cell_id in list(self.bdict):
+            self.__remove_boundary(cell_id)
+
+        for cell_id in bdict:
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-        self.bdict_update = [
-            id_b
-            for id_b in self.bdict.keys()
-            if self.bdict[id_b][0].lower() in ["pressure", "press", "p"]
-        ]
-
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
 
@@ -612,8 +627,7 @@ class BlackOil(Model):
             constant value to specify the condition in cond argument.
         """
         boundaries = self.grid.get_boundaries("id", "tuple")
-        for cell_id in boundaries:
-            self.set_boundary(cell_id, cond, v)
+        self.set_boundaries({cell_id: (cond, v) for cell_id in boundaries})
 
     # -------------------------------------------------------------------------
     # Flow Equations:
-- 
2.43.0


From 10bfaac3c08ddace2b2a59ef0aa79afa458dbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 10/54] fix: boundary conditions at edges and corners of the
 grid

---
 reservoirflow/models/black_oil.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 4b510e4..525e2b5 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -554,28 +554,31 @@ class BlackOil(Model):
         if cell_b_id in self.bdict:
             self.__remove_boundary(cell_b_id)
 
+        # edges and corners do not share a face with an internal cell:
+        trans = self.get_cell_trans(cell_b_id, None, False)
+
         if cond in ["rate", "q"]:
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
+            self.__set_rate(self.__get_tstep(), cell_b_id, v if trans else 0)
         elif cond in ["pressure", "press", "p"]:
             # newtest
             # self.pressures[self.get_tstep(), cell_b_id] = v
             self.__set_pressure(self.__get_tstep(), cell_b_id, v)
         elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
-            cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
+            rate = 0
+            for cell_id, T in trans.items():
+                cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
+                dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
+                # newtest
+                # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
+                rate = T * self.grid.d[dir][cell_id] * v
+            self.__set_rate(self.__get_tstep(), cell_b_id, rate)
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
         self.bdict[cell_b_id] = (cond, v)
-        if cond in ["pressure", "press", "p"]:
+        if cond in ["pressure", "press", "p"] and trans:
             self.bdict_update.append(cell_b_id)
 
         if self.verbose:
@@ -585,7 +588,8 @@ class BlackOil(Model):
         """Remove the condition defined at a boundary cell (no flow)."""
         cond, _ = self.bdict.pop(cell_b_id)
         if cond in ["pressure", "press", "p"]:
-            self.bdict_update.remove(cell_b_id)
+            if cell_b_id in self.bdict_update:
+                self.bdict_update.remove(cell_b_id)
             self.__set_pressure(self.__get_tstep(), cell_b_id, np.nan)
         self.__set_rate(self.__get_tstep(), cell_b_id, 0)
 
-- 
2.43.0


From 2c892a923c29f448649a4c0af02332dfb76504de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 11/54] fix: boundary conditions set after compile apply to
 solutions not started yet

---
 reservoirflow/models/black_oil.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 525e2b5..cf403d9 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -228,6 +228,10 @@ class BlackOil(Model):
     def __set_pressure(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_pressures[tstep, cell_id] = value
+            # compiled solutions which are not started yet:
+            for solution in self.solutions.values():
+                if solution.tstep == 0:
+                    solution.pressures[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
@@ -248,6 +252,10 @@ class BlackOil(Model):
     def __set_rate(self, tstep, cell_id, value):
         if tstep == 0:
             self.init_rates[tstep, cell_id] = value
+            # compiled solutions which are not started yet:
+            for solution in self.solutions.values():
+                if solution.tstep == 0:
+                    solution.rates[tstep, cell_id] = value
         else:
             assert self.solution is not None, "Model was not compiled."
             if tstep is None:
-- 
2.43.0


From 98a595d2dce4273fd588d60fe566034da074f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 12/54] fix: wells and boundary conditions changed between time
 steps

---
 reservoirflow/models/black_oil.py        |  3 +++
 reservoirflow/solutions/numerical/fdm.py | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index cf403d9..70bc3b4 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -531,6 +531,9 @@ class BlackOil(Model):
                 self.__get_pressure(self.__get_tstep(), cell_id)
             )
 
+        # flow terms must be updated to include this well:
+        self.cells_terms.pop(cell_id, None)
+
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
 
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8377546..11f1701 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -92,7 +92,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -392,6 +391,10 @@ class FDM(Solution):
         # ToDo
         # ----
         # - Update only required cells.
+        if not hasattr(self, "bdict_symb") or self.bdict_symb != self.model.bdict:
+            # boundary conditions were changed.
+            self.bdict_symb = dict(self.model.bdict)
+            self.model.cells_terms = {}
         self.cells_eq = self.get_cells_eq(threading)
 
         if self.tstep == 0 or not hasattr(self, "A") or not hasattr(self, "d"):
@@ -529,9 +532,15 @@ class FDM(Solution):
         _type_
             _description_
         """
-        if self.tstep == 0 or not hasattr(self, "A_"):
+        if (
+            self.tstep == 0
+            or not hasattr(self, "A_")
+            or self.bdict_vect != self.model.bdict
+        ):
             # second condition allow switching vectorize True/False after
-            # timestep=0.
+            # timestep=0. third condition allow changing boundary
+            # conditions after timestep=0.
+            self.bdict_vect = dict(self.model.bdict)
             self.resolve = defaultdict(lambda: False)
             self.__init_A()
             self.bdict_v = {}
-- 
2.43.0


From 1f5d8689a33954af0f3b9e85080a1527641bd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 13/54] fix: well pressures belong to a solution and stay
 aligned with time steps

---
 reservoirflow/models/black_oil.py        | 31 +++++++++++++++---------
 reservoirflow/solutions/numerical/fdm.py |  2 +-
 reservoirflow/solutions/solution.py      |  4 +++
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 70bc3b4..3ba65d7 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -158,7 +158,7 @@ class BlackOil(Model):
             self.start_date = start_date
 
         self.wells = {}
-        self.w_pressures = defaultdict(list)
+        self.init_w_pressures = defaultdict(list)
         if well is not None:
             self.set_well(well)
 
@@ -458,6 +458,24 @@ class BlackOil(Model):
         else:
             raise ValueError(f"k for fdir='{fdir}' is not defined.")
 
+    @property
+    def w_pressures(self):
+        """Well pressures (per cell id) of the current solution."""
+        if self.solution is None:
+            return self.init_w_pressures
+        return self.solution.w_pressures
+
+    def __add_w_pressures(self, cell_id):
+        """Add a well to well pressures, starting at the current tstep."""
+        if cell_id not in self.init_w_pressures:
+            self.init_w_pressures[cell_id] = [self.init_pressures[0, cell_id]]
+        for solution in self.solutions.values():
+            if cell_id not in solution.w_pressures:
+                tstep = solution.tstep
+                solution.w_pressures[cell_id] = [np.nan] * tstep + [
+                    solution.pressures[tstep, cell_id]
+                ]
+
     def set_well(self, well=None, cell_id=None, q=None, pwf=None, r=None, s=None):
         """Set a well in a specific cell
 
@@ -508,11 +526,6 @@ class BlackOil(Model):
                 self.wells[cell_id]["pwf_sp"] = pwf
                 if "q" not in self.wells[cell_id].keys():
                     self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
             if "constrain" not in self.wells[cell_id].keys():
                 self.wells[cell_id]["constrain"] = None
             if r is not None:
@@ -525,11 +538,7 @@ class BlackOil(Model):
         if "pwf" not in self.wells[cell_id].keys():
             self.wells[cell_id]["pwf"] = 0
             self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+        self.__add_w_pressures(cell_id)
 
         # flow terms must be updated to include this well:
         self.cells_terms.pop(cell_id, None)
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 11f1701..916f09b 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -672,7 +672,7 @@ class FDM(Solution):
                 tstep_w_pressures[id] = pwf_est
 
         for id in self.model.wells.keys():
-            self.model.w_pressures[id].append(tstep_w_pressures[id])
+            self.w_pressures[id].append(tstep_w_pressures[id])
 
         return False
 
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index 7da4fa0..62933fa 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from collections import defaultdict
 import reservoirflow as rf
 
 class Solution(ABC):
@@ -33,6 +34,9 @@ class Solution(ABC):
         self.model = model
         self.sparse = sparse
         self.pressures, self.rates = self.model.get_init_arrays()
+        self.w_pressures = defaultdict(list)
+        for cell_id, pressures in self.model.init_w_pressures.items():
+            self.w_pressures[cell_id] = list(pressures)
         self.nsteps = 1
         self.tstep = 0
         self.ctime = 0
-- 
2.43.0


From 757e1d907705e8a52a1020ec4d9715e7e0b7eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 14/54] fix: wells given as well objects keep their target rate

---
 reservoirflow/models/black_oil.py  | 6 ++----
 reservoirflow/wells/single_cell.py | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 3ba65d7..5405752 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -506,10 +506,8 @@ class BlackOil(Model):
         if well is not None:
             if cell_id is None:
                 cell_id = well.cell_id
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            q, pwf, r, s = [getattr(well, k, None) for k in ("q", "pwf", "r", "s")]
+            return self.set_well(None, cell_id, q, pwf, r, s)
         else:
             assert cell_id is not None, "id must be defined"
             assert (
diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 031f16929ab788f16cfe0a7b74dd3548c0fd6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 15/54] fix: harmonic transmissibility when permeability
 differs in boundary cells only

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index abec6a3..a1578d3 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2714,7 +2714,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From 9a45e688563023a39917682da998422c5ff84d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 16/54] fix: set grid properties in selected cells

---
 reservoirflow/grids/regular_cartesian.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index a1578d3..f715f63 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2413,12 +2413,13 @@ class RegularCartesian(Grid):
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-                if id is not None:
-                    coords = self.get_cell_coords(id, True)
-                if coords is not None:
-                    icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
-                    s = "cell coords " + str(coords)
+                if id is None:
+                    id = self.get_cell_id(coords, True)
+                if self.__props__[name] is None:
+                    msg = f"Property {name} is not defined for all cells."
+                    raise ValueError(msg)
+                self.__props__[name][id] = value
+                s = "cell id " + str(id)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
-- 
2.43.0


From aa7505543ee531c4dc08851b75116f119e0549ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 17/54] fix: values which depend on grid properties, units, or
 fluid are not stale after changes

---
 reservoirflow/grids/regular_cartesian.py | 22 ++++++++++++++++++++++
 reservoirflow/models/black_oil.py        |  2 --
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index f715f63..fe581b1 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2420,6 +2420,7 @@ class RegularCartesian(Grid):
                     raise ValueError(msg)
                 self.__props__[name][id] = value
                 s = "cell id " + str(id)
+            self.__update_prop(name)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
@@ -2430,6 +2431,27 @@ class RegularCartesian(Grid):
         if self.verbose:
             print(f"[info] {name} is {value} for {s}.")
 
+    def __update_prop(self, name):
+        """Update everything that depends on a property (name)."""
+        if name in ["kx", "ky", "kz"]:
+            self.k[name[-1]] = self.__props__[name]
+        if name != "comp":
+            setattr(self, name, self.__props__[name])
+        self.__clear_cache()
+
+    def __clear_cache(self):
+        """Clear cached values which depend on properties or units."""
+        RegularCartesian.get_cell_k.cache_clear()
+        RegularCartesian.get_cell_G.cache_clear()
+        RegularCartesian.is_homogeneous.fget.cache_clear()
+        RegularCartesian.is_heterogeneous.fget.cache_clear()
+        RegularCartesian.is_isotropic.fget.cache_clear()
+        RegularCartesian.is_anisotropic.fget.cache_clear()
+
+    def set_units(self, unit: str = "field"):
+        super().set_units(unit)
+        self.__clear_cache()
+
     def get_prop(
         self,
         name,
diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 5405752..8382751 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -273,7 +273,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
@@ -669,7 +668,6 @@ class BlackOil(Model):
             raise ValueError("compressibility type is unknown.")
         return self.RHS
 
-    @_lru_cache(maxsize=1)
     def get_alpha(
         self,
     ):
-- 
2.43.0


From 455b11d1c13224d25fd4d40c249b471dde263160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 18/54] fix: time vector has one value for every time step

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 8382751..abfc772 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -812,7 +812,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 44833b9da0d4ea394f186fe04821c720b083d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:06 +0000
Subject: [PATCH 19/54] fix: number of steps of a solution follows solved time
 steps

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 916f09b..bb0776e 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -786,6 +786,7 @@ class FDM(Solution):
                     print(f"[info] Time step {self.tstep} was resolved.")
 
             self.n_resolve = 0
+            self.nsteps = self.tstep + 1
 
             if check_MB:
                 self.check_MB()
@@ -829,7 +830,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From a996ef73760cc45fb67f734c9aaf499158784976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 20/54] fix: a rejected compressibility does not replace the
 current one

---
 reservoirflow/fluids/fluid.py | 3 +--
 reservoirflow/grids/grid.py   | 3 +--
 reservoirflow/models/model.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..8fadb4c 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,13 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..b8a3565 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,13 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..873e350 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -65,14 +65,13 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     def compile(
         self,
-- 
2.43.0


From ad7554d0fe5d0ba2d6d4a1eecb38200a0d2b0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 21/54] fix: gravity of a fluid follows its unit system

---
 reservoirflow/fluids/single_phase.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..f3c42c6 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -89,6 +89,11 @@ class SinglePhase(Fluid):
         super().__init__(unit, dtype, verbose)
         self.set_props(mu, B, rho, comp)
 
+    def set_units(self, unit: str = "field"):
+        super().set_units(unit)
+        if hasattr(self, "rho"):
+            self.set_rho(self.rho)
+
     def set_mu(self, mu):
         """Set fluid viscosity.
 
-- 
2.43.0


From b728a06ddea07fcb572fc833b3f1246f0156d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 22/54] fix: boundary conditions set between steps do not
 rewrite solved time steps

---
 reservoirflow/models/black_oil.py        | 48 +++++++++---------------
 reservoirflow/solutions/numerical/fdm.py | 10 +++--
 2 files changed, 24 insertions(+), 34 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index abfc772..e4da85b 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -225,19 +225,12 @@ class BlackOil(Model):
             else:
                 return self.solution.pressures[tstep, cell_id]
 
-    def __set_pressure(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_pressures[tstep, cell_id] = value
-            # compiled solutions which are not started yet:
-            for solution in self.solutions.values():
-                if solution.tstep == 0:
-                    solution.pressures[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.pressures[:, cell_id] = value
-            else:
-                self.solution.pressures[tstep, cell_id] = value
+    def __set_pressure(self, cell_id, value):
+        self.init_pressures[0, cell_id] = value
+        # time steps which are already solved do not change:
+        for solution in self.solutions.values():
+            if solution.tstep == 0:
+                solution.pressures[0, cell_id] = value
 
     def __get_rate(self, tstep, cell_id):
         if tstep == 0:
@@ -249,19 +242,12 @@ class BlackOil(Model):
             else:
                 return self.solution.rates[tstep, cell_id]
 
-    def __set_rate(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_rates[tstep, cell_id] = value
-            # compiled solutions which are not started yet:
-            for solution in self.solutions.values():
-                if solution.tstep == 0:
-                    solution.rates[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.rates[:, cell_id] = value
-            else:
-                self.solution.rates[tstep, cell_id] = value
+    def __set_rate(self, cell_id, value):
+        self.init_rates[0, cell_id] = value
+        # time steps which are already solved do not change:
+        for solution in self.solutions.values():
+            if solution.tstep == 0:
+                solution.rates[0, cell_id] = value
 
     def __calc_comp(self):
         """Calculates total compressibility."""
@@ -577,11 +563,11 @@ class BlackOil(Model):
         if cond in ["rate", "q"]:
             # newtest
             # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v if trans else 0)
+            self.__set_rate(cell_b_id, v if trans else 0)
         elif cond in ["pressure", "press", "p"]:
             # newtest
             # self.pressures[self.get_tstep(), cell_b_id] = v
-            self.__set_pressure(self.__get_tstep(), cell_b_id, v)
+            self.__set_pressure(cell_b_id, v)
         elif cond in ["gradient", "grad", "g"]:
             rate = 0
             for cell_id, T in trans.items():
@@ -590,7 +576,7 @@ class BlackOil(Model):
                 # newtest
                 # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
                 rate = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(self.__get_tstep(), cell_b_id, rate)
+            self.__set_rate(cell_b_id, rate)
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
@@ -607,8 +593,8 @@ class BlackOil(Model):
         if cond in ["pressure", "press", "p"]:
             if cell_b_id in self.bdict_update:
                 self.bdict_update.remove(cell_b_id)
-            self.__set_pressure(self.__get_tstep(), cell_b_id, np.nan)
-        self.__set_rate(self.__get_tstep(), cell_b_id, 0)
+            self.__set_pressure(cell_b_id, np.nan)
+        self.__set_rate(cell_b_id, 0)
 
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index bb0776e..f7c42bf 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -138,7 +138,7 @@ class FDM(Solution):
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
             elif cond.lower() in ["gradient", "grad", "g"]:
                 # set_boundary() stores the equivalent rate of a gradient
-                return self.rates[self.tstep, cell_b_id]
+                return self.model.init_rates[0, cell_b_id]
             else:  # elif cond in ["rate", "q"]:
                 return v
         else:
@@ -585,8 +585,8 @@ class FDM(Solution):
                 if id_b in self.bdict_v:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
                 else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
+                    self.d_[self.model.cells_i_dict[id], 0] -= self.model.init_rates[
+                        0, id_b
                     ]
 
         self.__update_z()
@@ -767,6 +767,10 @@ class FDM(Solution):
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
+            # boundaries as they are specified now:
+            id_b = self.model.boundaries_id
+            self.pressures[self.tstep, id_b] = self.model.init_pressures[0, id_b]
+            self.rates[self.tstep, id_b] = self.model.init_rates[0, id_b]
             # newtest
             # self.model.As = np.vstack([self.model.As, A.reshape(1, -1)])
             # self.model.ds = np.vstack([self.model.ds, d.reshape(1, -1)])
-- 
2.43.0


From 21ef828f1c14d2ce6bdd79a575e21e46806d8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 23/54] fix: rejected boundary conditions leave the current
 ones

---
 reservoirflow/models/black_oil.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index e4da85b..d110526 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -553,6 +553,7 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
+        self.__check_boundary(cell_b_id, cond)
         cond = cond.lower()
         if cell_b_id in self.bdict:
             self.__remove_boundary(cell_b_id)
@@ -577,8 +578,6 @@ class BlackOil(Model):
                 # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
                 rate = T * self.grid.d[dir][cell_id] * v
             self.__set_rate(cell_b_id, rate)
-        else:
-            raise ValueError(f"cond argument {cond} is unknown.")
 
         self.bdict[cell_b_id] = (cond, v)
         if cond in ["pressure", "press", "p"] and trans:
@@ -587,6 +586,14 @@ class BlackOil(Model):
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __check_boundary(self, cell_b_id, cond):
+        """Reject a boundary condition before anything is changed."""
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+        conds = ["rate", "q", "pressure", "press", "p", "gradient", "grad", "g"]
+        if cond.lower() not in conds:
+            raise ValueError(f"cond argument {cond} is unknown.")
+
     def __remove_boundary(self, cell_b_id):
         """Remove the condition defined at a boundary cell (no flow)."""
         cond, _ = self.bdict.pop(cell_b_id)
@@ -607,9 +614,8 @@ class BlackOil(Model):
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
         bdict = dict(bdict)
-        boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
-            assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
+            self.__check_boundary(cell_id, bdict[cell_id][0])
 
         # conditions defined before are replaced:
         for cell_id in list(self.bdict):
-- 
2.43.0


From 0fd7f82e15b893b1ccebce40b8cd1ff3b2c9e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 24/54] fix: symbolic equation terms follow boundary conditions
 for every solution

---
 reservoirflow/solutions/numerical/fdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f7c42bf..1e4a8fc 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -391,9 +391,9 @@ class FDM(Solution):
         # ToDo
         # ----
         # - Update only required cells.
-        if not hasattr(self, "bdict_symb") or self.bdict_symb != self.model.bdict:
+        if getattr(self.model, "bdict_symb", None) != self.model.bdict:
             # boundary conditions were changed.
-            self.bdict_symb = dict(self.model.bdict)
+            self.model.bdict_symb = dict(self.model.bdict)
             self.model.cells_terms = {}
         self.cells_eq = self.get_cells_eq(threading)
 
-- 
2.43.0


From 9e4a25ed3dc86e5e0cb79ddc1089764733c3ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:19 +0000
Subject: [PATCH 25/54] fix: isolver minres accepts the arguments of the other
 solvers

---
 reservoirflow/solutions/numerical/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/solvers.py b/reservoirflow/solutions/numerical/solvers.py
index 23d31d4..8468440 100644
--- a/reservoirflow/solutions/numerical/solvers.py
+++ b/reservoirflow/solutions/numerical/solvers.py
@@ -77,7 +77,11 @@ def get_isolver(name):
     elif name == "lgmres":
         solver = ssl.lgmres
     elif name == "minres":
-        solver = ssl.minres
+
+        def solver(A, d, atol=0.0, **kwargs):
+            # minres does not have an absolute tolerance.
+            return ssl.minres(A, d, **kwargs)
+
         warnings.warn("option isolver='minres' is not recommended.")
     elif name == "qmr":
         solver = ssl.qmr
-- 
2.43.0


From 79188dec743298102fd632d4f4cc9025fc5dce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 26/54] fix: analytical 1D1P solution has one row for every
 time step

---
 reservoirflow/solutions/analytical/d1p1.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..6c01f87 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,11 +36,12 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        alpha = self.model.get_alpha()[self.model.cells_id[0]]
+        tD = alpha * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-        p = self.pressures
+        p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
         pDi = input_scaler.transform(self.model.pi)
@@ -145,11 +146,12 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        alpha = self.model.get_alpha()[self.model.cells_id[0]]
+        tD = alpha * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-        p = self.pressures
+        p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
         pDi = input_scaler.transform(self.model.pi)
-- 
2.43.0


From 184c17dcc9f62c677b7d5759b960d30bfc5c6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 27/54] fix: diffusivity uses permeability in the flow
 direction

---
 reservoirflow/models/black_oil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index d110526..6ff2048 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -663,7 +663,9 @@ class BlackOil(Model):
     def get_alpha(
         self,
     ):
-        lhs_f = (self.factors["transmissibility conversion"] * self.grid.kx) / (
+        fdir = self.grid.get_fdir()
+        k = self.grid.k[fdir] if fdir in ["x", "y", "z"] else self.grid.kx
+        lhs_f = (self.factors["transmissibility conversion"] * k) / (
             self.fluid.mu * self.fluid.B
         )
         rhs_f = (self.grid.phi * self.comp) / (
-- 
2.43.0


From e09435ee9dc4a8d6c519da275c3b38e12abc47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 28/54] fix: analytical 1D1P solution of a system at
 equilibrium

---
 reservoirflow/solutions/analytical/d1p1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 6c01f87..e658a19 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -43,7 +43,10 @@ class D1P1(Solution):
         # Dependent variable: p
         p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
-        input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
+        p_min, p_max = p.min(), p.max()
+        if p_min == p_max:  # equilibrium, a unit range keeps pD finite.
+            p_max = p_min + 1
+        input_scaler = scalers.MinMax(input_range, (p_min, p_max))
         pDi = input_scaler.transform(self.model.pi)
         pD0 = input_scaler.transform(p[0, 0])
         pDn = input_scaler.transform(p[0, -1])
@@ -153,7 +156,10 @@ class D1P1(Solution):
         # Dependent variable: p
         p, _ = self.model.get_init_arrays()
         input_range = [0, 1]
-        input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
+        p_min, p_max = p.min(), p.max()
+        if p_min == p_max:  # equilibrium, a unit range keeps pD finite.
+            p_max = p_min + 1
+        input_scaler = scalers.MinMax(input_range, (p_min, p_max))
         pDi = input_scaler.transform(self.model.pi)
         pD0 = input_scaler.transform(p[0, 0])
         pDn = input_scaler.transform(p[0, -1])
-- 
2.43.0


From 9edc88498cc79f53d62279a457391edb56761154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:33 +0000
Subject: [PATCH 29/54] fix: dates follow the time unit of the model

---
 reservoirflow/models/black_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 6ff2048..c19b32d 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -707,10 +707,11 @@ class BlackOil(Model):
             date_str = " [d.m.y]"
         else:
             date_str = ""
+        freq = "s" if self.units["time"] == "sec" else "D"
         date_series = pd.date_range(
             start=self.start_date,
             periods=self.__get_tstep() + 1,
-            freq=str(self.dt) + "D",
+            freq=str(self.dt) + freq,
         ).strftime("%d.%m.%Y")
         data = pd.Series(date_series, name="Date" + date_str)
         if melt:
-- 
2.43.0


From 31e5ec6be88516f25c2a6f58105b70098cd63d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 30/54] fix: scale every row individually with axis=1

---
 reservoirflow/scalers/minmax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..fcba1b6 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -61,8 +61,9 @@ class MinMax(Scaler):
                 + "Note that in this case overall min and max are used for scaling."
             )
             raise ValueError(msg)
-        self.vmin = v.min(axis=axis)  #: input minimum value.
-        self.vmax = v.max(axis=axis)  #: input maximum value.
+        keepdims = axis == 1  # one value for every row.
+        self.vmin = v.min(axis=axis, keepdims=keepdims)  #: input minimum value.
+        self.vmax = v.max(axis=axis, keepdims=keepdims)  #: input maximum value.
         return self
 
     def transform(self, v):
-- 
2.43.0


From 2bc00f33f3f54e2ee8537fda89be41c123482537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:50 +0000
Subject: [PATCH 31/54] fix: fit scalers on all values of the current solution

---
 reservoirflow/models/black_oil.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c19b32d..c18e82f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -820,7 +820,7 @@ class BlackOil(Model):
     def __update_pressures_scaler(self, boundary):
         config = self.__get_scalers_config(boundary)
         pressures = self.get_df(columns=["cells_pressure"], **config).values
-        self.pressures_scaler.fit(pressures, axis=None)
+        self.__fit_scaler(self.pressures_scaler, pressures)
 
     def __update_rates_scaler(self, boundary):
         """Flow rates scaler
@@ -829,20 +829,15 @@ class BlackOil(Model):
         ----------
         boundary : bool, optional
             include boundary cells.
-
-        Notes
-        -----
-        Disabled:
-            This scaler is disabled since the scaling argument for both
-            __add_cells_rate() and __add_wells_rate() is set to False.
-        Error:
-            When boundary argument is False but no wells, the scaler
-            will fail since rows with zeros and nans are removed, no
-            rates will remain for scaling (i.e. empty array).
         """
         config = self.__get_scalers_config(boundary)
-        rates = self.get_df(columns=["rates"], **config).values
-        self.rates_scaler.fit(rates, axis=None)
+        rates = self.get_df(columns=["cells_rate"], **config).values
+        self.__fit_scaler(self.rates_scaler, rates)
+
+    def __fit_scaler(self, scaler, values):
+        values = values[~np.isnan(values)]
+        if values.size > 0:
+            scaler.fit(values, axis=None)
 
     def __get_scalers_config(self, boundary):
         return {
@@ -851,8 +846,8 @@ class BlackOil(Model):
             "melt": False,
             "scale": False,
             "save": False,
-            "drop_nan": True,
-            "drop_zero": True,
+            "drop_nan": False,
+            "drop_zero": False,
         }
 
     def update_scalers(self, boundary):
-- 
2.43.0


From da277476901952d9a3dc2e4b84fa58d0f03e7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 32/54] fix: scalers of all columns and rejected scalers

---
 reservoirflow/models/black_oil.py | 34 +++++++++++++++----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c18e82f..d333193 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -936,28 +936,28 @@ class BlackOil(Model):
         }
         # col_vals = sum(col_dict.values(), [])
 
+        scalers = {}
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
             output_range = scalers_dict[column][1]
-            if column.lower() in col_dict["time"]:
-                self.time_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "time"
-            elif column.lower() in col_dict["space"]:
-                self.space_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "space"
-            elif column.lower() in col_dict["pressure"]:
-                self.pressures_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "pressure"
-            elif column.lower() in col_dict["rate"]:
-                self.rates_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "rate"
-            else:  # if column.lower() not in col_vals:
+            columns_str = [c for c, names in col_dict.items() if column.lower() in names]
+            if len(columns_str) == 0:  # if column.lower() not in col_vals:
                 raise ValueError(f"column {column} does not exist.")
-
-            if scaler_type is None or output_range is None:
-                self.scalers_dict[column_str] = [None, None]
+            for column_str in columns_str:
+                scaler, s_str = create_scaler(scaler_type, output_range)
+                config = [None, None] if s_str is None else [s_str, output_range]
+                scalers[column_str] = (scaler, config)
+
+        for column_str, (scaler, config) in scalers.items():
+            if column_str == "time":
+                self.time_scaler = scaler
+            elif column_str == "space":
+                self.space_scaler = scaler
+            elif column_str == "pressure":
+                self.pressures_scaler = scaler
             else:
-                self.scalers_dict[column_str] = [s_str, scalers_dict[column][1]]
+                self.rates_scaler = scaler
+            self.scalers_dict[column_str] = config
 
     def get_df(
         self,
-- 
2.43.0


From 6ff2bade6fa1ea3a0a53ad2c86bfef303fa2ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 33/54] fix: rejected wells leave the current wells

---
 reservoirflow/models/black_oil.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index d333193..540c4ce 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -498,6 +498,7 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
+            well_old = dict(self.wells.get(cell_id, {}))
             if cell_id not in self.wells:
                 self.wells[cell_id] = {}
             if q is not None:
@@ -516,8 +517,14 @@ class BlackOil(Model):
             if s is not None:
                 self.wells[cell_id]["s"] = s
 
-        self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
-        self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
+        try:
+            self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
+            self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
+        except Exception:  # a rejected well leaves the current one.
+            self.wells[cell_id] = well_old
+            if len(well_old) == 0:
+                self.wells.pop(cell_id)
+            raise
         if "pwf" not in self.wells[cell_id].keys():
             self.wells[cell_id]["pwf"] = 0
             self.wells[cell_id]["pwf_sp"] = 0
-- 
2.43.0


From f2c2735622e995c1e81855245b00b72656a917c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 34/54] fix: flow equations follow properties set after the
 model was created

---
 reservoirflow/models/black_oil.py        | 23 ++++++++++++-------
 reservoirflow/solutions/numerical/fdm.py | 29 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 540c4ce..a326df8 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -14,7 +14,6 @@ import scipy.sparse as ss
 
 import reservoirflow as rf
 from reservoirflow.models.model import Model
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class BlackOil(Model):
@@ -98,7 +97,7 @@ class BlackOil(Model):
 
         self.__initialize__(pi, start_date, well)
         self.__calc_comp()
-        self.__calc_RHS()
+        self.RHS  # properties required by a compressible system are checked.
         self.bdict = {}
         self.bdict_update = []
 
@@ -653,19 +652,27 @@ class BlackOil(Model):
     # Flow Equations:
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=1)
-    def __calc_RHS(self):
-        """Calculates flow equation for RHS."""
+    @property
+    def RHS(self):
+        """Accumulation coefficients of the flow equation (right hand side).
+
+        Values follow the current properties of the model, the grid, and
+        the fluid.
+
+        Returns
+        -------
+        ndarray
+            coefficients of all cells including boundary cells.
+        """
         if self.comp_type == "incompressible":
             n = self.grid.get_n(True)
-            self.RHS = np.zeros(n, dtype=self.dtype)
+            return np.zeros(n, dtype=self.dtype)
         elif self.comp_type == "compressible":
             RHS_n = self.grid.V * self.grid.phi * self.comp
             RHS_d = self.factors["volume conversion"] * self.fluid.B * self.dt
-            self.RHS = RHS_n / RHS_d
+            return RHS_n / RHS_d
         else:
             raise ValueError("compressibility type is unknown.")
-        return self.RHS
 
     def get_alpha(
         self,
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 1e4a8fc..f4e6d65 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -19,7 +19,6 @@ from tqdm import tqdm
 
 import reservoirflow as rf
 from reservoirflow.solutions.solution import Solution
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class FDM(Solution):
@@ -59,7 +58,18 @@ class FDM(Solution):
     # Flow Equations: symbolic
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=None)
+    def __get_props(self):
+        """Returns properties used in flow terms as one array."""
+        grid, fluid = self.model.grid, self.model.fluid
+        return np.concatenate(
+            [
+                self.model.RHS,
+                [fluid.mu, fluid.B, fluid.g],
+                grid.z,
+                *grid.k.values(),
+            ]
+        )
+
     def __calc_n_term(
         self,
         cell_id,
@@ -391,9 +401,13 @@ class FDM(Solution):
         # ToDo
         # ----
         # - Update only required cells.
-        if getattr(self.model, "bdict_symb", None) != self.model.bdict:
-            # boundary conditions were changed.
+        props = self.__get_props()
+        if getattr(
+            self.model, "bdict_symb", None
+        ) != self.model.bdict or not np.array_equal(self.model.props_symb, props):
+            # boundary conditions or properties were changed.
             self.model.bdict_symb = dict(self.model.bdict)
+            self.model.props_symb = props
             self.model.cells_terms = {}
         self.cells_eq = self.get_cells_eq(threading)
 
@@ -532,15 +546,18 @@ class FDM(Solution):
         _type_
             _description_
         """
+        props = self.__get_props()
         if (
             self.tstep == 0
             or not hasattr(self, "A_")
             or self.bdict_vect != self.model.bdict
+            or not np.array_equal(self.props_vect, props)
         ):
             # second condition allow switching vectorize True/False after
-            # timestep=0. third condition allow changing boundary
-            # conditions after timestep=0.
+            # timestep=0. third and fourth conditions allow changing
+            # boundary conditions and properties after timestep=0.
             self.bdict_vect = dict(self.model.bdict)
+            self.props_vect = props
             self.resolve = defaultdict(lambda: False)
             self.__init_A()
             self.bdict_v = {}
-- 
2.43.0


From e138ce9fd9182f7efd033ff04bb56e4b7fa1acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 35/54] fix: pressure controlled wells changed between time
 steps

---
 reservoirflow/solutions/numerical/fdm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f4e6d65..9a6b708 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -587,10 +587,11 @@ class FDM(Solution):
                 coeffs = w_term.as_coefficients_dict()
                 v0, v1 = coeffs[1], coeffs[p]
                 self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
+                if self.resolve[id] != v1:
+                    # the well may be changed after timestep=0.
                     self.A_[
                         self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
+                    ] += v1 - (self.resolve[id] or 0)
                     self.resolve[id] = v1
             else:
                 pass  # no constrain
-- 
2.43.0


From 8677299ddcccabb1c6ba091bb7517250168c48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 36/54] fix: formats of array helpers

---
 reservoirflow/utils/helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/utils/helpers.py b/reservoirflow/utils/helpers.py
index c98a457..5e606b1 100644
--- a/reservoirflow/utils/helpers.py
+++ b/reservoirflow/utils/helpers.py
@@ -90,7 +90,7 @@ def intersection(array_x: np.ndarray, array_y: np.ndarray, fmt="array"):
 
     Returns
     -------
-    np.ndarray, list
+    np.ndarray, list, tuple
         common tuples between two arrays.
     """
     argmin = np.argmin([np.max(array_x.shape), np.max(array_y.shape)])
@@ -99,8 +99,10 @@ def intersection(array_x: np.ndarray, array_y: np.ndarray, fmt="array"):
     else:
         xy = [tuple(a) for a in array_y if isin(a, array_x)]
 
-    if fmt in ("tuple", "list"):
+    if fmt == "list":
         return xy
+    elif fmt == "tuple":
+        return tuple(xy)
     elif fmt == "array":
         return np.array(xy)
     else:
@@ -120,7 +122,7 @@ def fshape_warn(class_unify, func_unify):
 def issametype(in_data, fmt):
     if isinstance(in_data, np.ndarray) and fmt == "array":
         return in_data
-    elif isinstance(in_data, [tuple, list]) and fmt in ["tuple", "list"]:
+    elif isinstance(in_data, (tuple, list)) and fmt in ["tuple", "list"]:
         return in_data
     elif isinstance(in_data, set) and fmt == "set":
         return in_data
@@ -195,6 +197,8 @@ def reformat(in_data, fmt="tuple"):
             return set(tuple(a) for a in in_data)
         return set(in_data)
     elif fmt == "array":
+        if isinstance(in_data, set):
+            in_data = list(in_data)
         return np.array(in_data)
     else:
         raise ValueError("fmt is unknown or can't reformat to dict.")
-- 
2.43.0


From a2511d42daa7acc8dcbf4fe2e17dea9ca5a6e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 37/54] fix: profilers in nested calls, after exceptions, and
 in line reports

---
 reservoirflow/utils/profme.py | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index bf0435c..47ddd3f 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -15,6 +15,7 @@ __all__ = [
 import os
 import sys
 import cProfile
+import csv
 import io
 import pstats
 import re
@@ -63,9 +64,16 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
         def wrapped_func(*args, **kwargs):
             pr = cProfile.Profile()
             s = io.StringIO()
-            pr.enable()
-            _func = func(*args, **kwargs)
-            pr.disable()
+            try:
+                pr.enable()
+            except ValueError:
+                # another profiler is active (e.g., nested or recursive
+                # calls) which includes this call.
+                return func(*args, **kwargs)
+            try:
+                _func = func(*args, **kwargs)
+            finally:
+                pr.disable()
             stats = pstats.Stats(pr, stream=s).sort_stats(sort_stats)
             stats.print_stats()
             result = s.getvalue()
@@ -115,21 +123,18 @@ def lProfiler(print_output=True, save_output=False):
             if print_output:
                 print(result)
             if save_output:
-                result = [l.strip() for l in re.split("\n+", result)]
-                head = re.findall(r"\S+ ?\S+", result[4])
-                iter = [
-                    [m.start(), m.end()] for m in re.finditer(r"\S+ ?\S+", result[4])
-                ]
-                iter[-1][1] = None
-                lines = [
-                    ",".join([l[h[0] : h[1]].strip() for h in iter]) for l in result[6:]
-                ]
-                lines[0] = re.sub(", ", "; ", lines[0])
+                result = [l for l in re.split("\n+", result) if len(l) > 0]
+                i = [l.startswith("Line #") for l in result].index(True)
+                heads = list(re.finditer(r"\S+ ?\S+", result[i]))
+                # columns are aligned to the right except the last one:
+                ends = [0] + [m.end() for m in heads[:-1]] + [None]
+                cols = list(zip(ends[:-1], ends[1:]))
+                head = [m.group() for m in heads]
+                lines = [[l[c[0] : c[1]].strip() for c in cols] for l in result[i + 2 :]]
                 file_name = f"lProfiler_{func.__qualname__}.csv"
                 path = os.path.join(get_path(), file_name)
-                with open(path, mode="w") as f:
-                    f.write(",".join(head) + "\n")
-                    f.write("\n".join(lines))
+                with open(path, mode="w", newline="") as f:
+                    csv.writer(f, lineterminator="\n").writerows([head] + lines)
 
             return _func
 
-- 
2.43.0


From 240f5b8c6d3dbc1998ec8ed9a71138fc3154bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 38/54] fix: dates of a time step that is no multiple of a
 nanosecond

---
 reservoirflow/models/black_oil.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index a326df8..3b09cbf 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -722,11 +722,8 @@ class BlackOil(Model):
         else:
             date_str = ""
         freq = "s" if self.units["time"] == "sec" else "D"
-        date_series = pd.date_range(
-            start=self.start_date,
-            periods=self.__get_tstep() + 1,
-            freq=str(self.dt) + freq,
-        ).strftime("%d.%m.%Y")
+        time = pd.to_timedelta(self.__get_time_vector(), unit=freq)
+        date_series = (pd.Timestamp(self.start_date) + time).strftime("%d.%m.%Y")
         data = pd.Series(date_series, name="Date" + date_str)
         if melt:
             n_cells = self.grid.get_n(boundary)
-- 
2.43.0


From 9caa424879566d9a5a745abcbcfa6864c72b17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 39/54] fix: zero constants in symbolic flow equations (e.g.
 zero initial pressure)

---
 reservoirflow/solutions/numerical/fdm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 9a6b708..9cc97b8 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -224,12 +224,11 @@ class FDM(Solution):
                 raise ValueError("Initial pressure (pi) must be specified")
 
     def __simplify_eq(self, cell_eq):
-        if (
-            cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
-        ):
-            cell_eq = cell_eq.simplify()
-        return cell_eq
+        # unknown pressures on lhs and constants on rhs (also when constants
+        # are zero, e.g. zero pressure at the previous time step).
+        terms = sym.expand(cell_eq.lhs - cell_eq.rhs)
+        constant = terms.as_coefficients_dict()[1]
+        return sym.Eq(terms - constant, -constant)
 
     def get_cell_eq(self, cell_id):
         """Return cell equation.
-- 
2.43.0


From be29b253c58c4e381d08d1c32e524f58f617c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 40/54] fix: endless recursion when a limited well delivers
 exactly its target rate

---
 reservoirflow/solutions/numerical/fdm.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 9cc97b8..5b8765c 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -670,10 +670,7 @@ class FDM(Solution):
                     resolve = True
                 self.model.wells[id]["constrain"] = "q"
             else:
-                if (
-                    pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
-                ):
+                if pwf_est < self.model.wells[id]["pwf_sp"] and not limited:
                     resolve = True
 
                 self.model.wells[id]["constrain"] = "pwf"
-- 
2.43.0


From f3531f58f99b5897f81d2c394a0ebf8d1e33b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 41/54] fix: check all wells before a time step is resolved

---
 reservoirflow/solutions/numerical/fdm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 5b8765c..59e2453 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -680,10 +680,10 @@ class FDM(Solution):
             q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
             self.model.wells[id]["q"] = self.rates[self.tstep, id] = q_est
 
-            if resolve:
-                return True
-            else:
-                tstep_w_pressures[id] = pwf_est
+            tstep_w_pressures[id] = pwf_est
+
+        if resolve:
+            return True
 
         for id in self.model.wells.keys():
             self.w_pressures[id].append(tstep_w_pressures[id])
-- 
2.43.0


From 6dd440b3465385116afc3a207b3167ea4eb700b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 42/54] fix: plot the results of the current solution

---
 reservoirflow/models/black_oil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 3b09cbf..0510c99 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1123,10 +1123,10 @@ class BlackOil(Model):
             tstep = self.__get_tstep()
 
         if id is not None:
-            exec(f"plt.plot(self.{prop}[:, id].flatten())")
+            plt.plot(getattr(self.solution, prop)[:, id].flatten())
             plt.xlabel("Days")
         elif tstep is not None:
-            exec(f"plt.plot(self.{prop}[tstep, :].flatten())")
+            plt.plot(getattr(self.solution, prop)[tstep, :].flatten())
             plt.xlabel("Grid (id)")
             boundary = True
             x_skip = 5
@@ -1141,7 +1141,7 @@ class BlackOil(Model):
         if tstep is None:
             tstep = self.__get_tstep()
         cells_id = self.grid.get_cells_id(False, False, "list")
-        exec(f"plt.imshow(self.{property}[tstep][cells_id][np.newaxis, :])")
+        plt.imshow(getattr(self.solution, property)[tstep][cells_id][np.newaxis, :])
         plt.colorbar(label=f"{property.capitalize()} ({self.units[property[:-1]]})")
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
-- 
2.43.0


From ff23eaed230444829ee4cb5795a634e0afdbb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 43/54] fix: plot cells over time and label all plotted cells

---
 reservoirflow/models/black_oil.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 0510c99..4f90e47 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1123,8 +1123,9 @@ class BlackOil(Model):
             tstep = self.__get_tstep()
 
         if id is not None:
-            plt.plot(getattr(self.solution, prop)[:, id].flatten())
-            plt.xlabel("Days")
+            values = getattr(self.solution, prop)[:, id].flatten()
+            plt.plot(self.__get_time_vector(), values)
+            plt.xlabel(self.units["time"].capitalize())
         elif tstep is not None:
             plt.plot(getattr(self.solution, prop)[tstep, :].flatten())
             plt.xlabel("Grid (id)")
@@ -1146,7 +1147,7 @@ class BlackOil(Model):
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
         plt.xlabel("Grid (i)")
-        plt.xticks(ticks=range(0, 4), labels=range(1, 5))
+        plt.xticks(ticks=range(len(cells_id)), labels=cells_id)
         plt.show()
 
     def copy(self):
-- 
2.43.0


From 7b8c5f75c975c1db0e2a275d70c2d05f4345daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 44/54] fix: name the statistics of shown rates as rates
 instead of pressures

---
 reservoirflow/utils/pyvista.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/utils/pyvista.py b/reservoirflow/utils/pyvista.py
index 6b038e1..cc0542f 100644
--- a/reservoirflow/utils/pyvista.py
+++ b/reservoirflow/utils/pyvista.py
@@ -1048,6 +1048,7 @@ def save_gif(
         date = pl.add_text("", position=locs[0], **font, **conf)
         time_step = pl.add_text("", position=locs[1], **font, **conf)
         value_init = f"initial pressure: {model.pi}"
+        name = "pressure" if prop.lower().startswith("p") else "rate"
         pl.add_text(value_init, position=locs[2], **font, **conf)
         value_avg = pl.add_text("", position=locs[3], **font, **conf)
         value_min = pl.add_text("", position=locs[4], **font, **conf)
@@ -1067,9 +1068,9 @@ def save_gif(
         if info:
             date.SetInput(f"    current date: {dates[tstep]}")
             time_step.SetInput(f"current timestep: {tstep:02d}")
-            value_avg.SetInput(f"    avg pressure: {np.nanmean(values[tstep]):.0f}")
-            value_min.SetInput(f"    min pressure: {np.nanmin(values[tstep]):.0f}")
-            value_max.SetInput(f"    max pressure: {np.nanmax(values[tstep]):.0f}")
+            value_avg.SetInput(f"    avg {name:>8}: {np.nanmean(values[tstep]):.0f}")
+            value_min.SetInput(f"    min {name:>8}: {np.nanmin(values[tstep]):.0f}")
+            value_max.SetInput(f"    max {name:>8}: {np.nanmax(values[tstep]):.0f}")
         # pl.update_scalars(values[tstep], grid_pv, render=False)  # Deprecated
         grid_pv["Data"] = values[tstep]
         pl.write_frame()
@@ -1209,6 +1210,7 @@ def show_model(
         date = pl.add_text("", position=locs[0], **font, **conf)
         time_step = pl.add_text("", position=locs[1], **font, **conf)
         value_init = f"initial pressure: {model.pi}"
+        name = "pressure" if prop.lower().startswith("p") else "rate"
         pl.add_text(value_init, position=locs[2], **font, **conf)
         value_avg = pl.add_text("", position=locs[3], **font, **conf)
         value_min = pl.add_text("", position=locs[4], **font, **conf)
@@ -1222,9 +1224,9 @@ def show_model(
         if info:
             date.SetInput(f"    current date: {dates[tstep]}")
             time_step.SetInput(f"current timestep: {tstep:02d}")
-            value_avg.SetInput(f"    avg pressure: {np.nanmean(values[tstep]):.0f}")
-            value_min.SetInput(f"    min pressure: {np.nanmin(values[tstep]):.0f}")
-            value_max.SetInput(f"    max pressure: {np.nanmax(values[tstep]):.0f}")
+            value_avg.SetInput(f"    avg {name:>8}: {np.nanmean(values[tstep]):.0f}")
+            value_min.SetInput(f"    min {name:>8}: {np.nanmin(values[tstep]):.0f}")
+            value_max.SetInput(f"    max {name:>8}: {np.nanmax(values[tstep]):.0f}")
         # pl.update_scalars(values[tstep], grid_pv, render=False) # Deprecated
         grid_pv["Data"] = values[tstep]
         return pl
-- 
2.43.0


From 0d1f02688ae1fe6fa27992170cc2cbe79cd18aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 45/54] fix: require an initial pressure for compressible flow
 instead of returning NaN

---
 reservoirflow/solutions/numerical/fdm.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 59e2453..e191bba 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -216,12 +216,10 @@ class FDM(Solution):
         if self.model.comp_type == "incompressible":
             return 0.0
         else:
-            try:
-                return self.model.RHS[cell_id] * (
-                    cell_p - self.pressures[self.tstep, cell_id]
-                )
-            except:
+            pressure = self.pressures[self.tstep, cell_id]
+            if np.isnan(pressure):
                 raise ValueError("Initial pressure (pi) must be specified")
+            return self.model.RHS[cell_id] * (cell_p - pressure)
 
     def __simplify_eq(self, cell_eq):
         # unknown pressures on lhs and constants on rhs (also when constants
@@ -506,13 +504,12 @@ class FDM(Solution):
             self.d_ = np.zeros((self.model.n, 1), dtype=self.model.dtype)
 
         if self.model.comp_type == "compressible":
-            try:
-                self.d_[:] = (
-                    -self.model.RHS[self.model.grid.cells_id]
-                    * self.pressures[self.tstep, self.model.grid.cells_id]
-                ).reshape(-1, 1)
-            except:
+            pressures = self.pressures[self.tstep, self.model.grid.cells_id]
+            if np.isnan(pressures).any():
                 raise Exception("Initial pressure (pi) must be specified")
+            self.d_[:] = (
+                -self.model.RHS[self.model.grid.cells_id] * pressures
+            ).reshape(-1, 1)
 
         return self.d_
 
-- 
2.43.0


From 7bc7f3d2546e6312c2a92aa830cab935db741c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 46/54] fix: fill sparse arrays of ones and zeros for all cells

---
 reservoirflow/grids/regular_cartesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index fe581b1..b6989ef 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -457,7 +457,7 @@ class RegularCartesian(Grid):
         if not sparse:
             self.ones = np.ones(shape, dtype=self.dtype)
         else:
-            self.ones = ss.lil_matrix(shape, dtype=self.dtype)
+            self.ones = ss.lil_matrix(np.ones(shape), dtype=self.dtype)
 
         if self.verbose:
             print(f"[info] ones array was computed.")
@@ -499,7 +499,7 @@ class RegularCartesian(Grid):
         if not sparse:
             self.zeros = np.zeros(shape, dtype=self.dtype)
         else:
-            self.zeros = ss.lil_matrix(shape, dtype=self.dtype) * 0
+            self.zeros = ss.lil_matrix(np.zeros(shape), dtype=self.dtype)
 
         if self.verbose:
             print(f"[info] zeros array was computed.")
-- 
2.43.0


From c125cfe4208d3c2b9cf1547201b0bacc765886e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 47/54] fix: cell equations asked for after a change of
 conditions or properties

---
 reservoirflow/solutions/numerical/fdm.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index e191bba..53beaff 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -228,6 +228,17 @@ class FDM(Solution):
         constant = terms.as_coefficients_dict()[1]
         return sym.Eq(terms - constant, -constant)
 
+    def __update_cells_terms(self):
+        """Forget the terms if boundary conditions or properties changed."""
+        props = self.__get_props()
+        if getattr(
+            self.model, "bdict_symb", None
+        ) != self.model.bdict or not np.array_equal(self.model.props_symb, props):
+            # boundary conditions or properties were changed.
+            self.model.bdict_symb = dict(self.model.bdict)
+            self.model.props_symb = props
+            self.model.cells_terms = {}
+
     def get_cell_eq(self, cell_id):
         """Return cell equation.
 
@@ -263,6 +274,7 @@ class FDM(Solution):
         #     - (self.model.fluid.g * (self.model.grid.z[neighbor] - self.model.grid.z[id])))"
         # )
         cell_p = eval(f"sym.Symbol('p{cell_id}')")
+        self.__update_cells_terms()
 
         if cell_id not in self.model.cells_terms:
             assert (
@@ -328,6 +340,7 @@ class FDM(Solution):
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
         cells_eq = {}
+        self.__update_cells_terms()
         n_threads = self.model.n // 2
         if threading:
             from concurrent.futures import ThreadPoolExecutor
@@ -398,14 +411,6 @@ class FDM(Solution):
         # ToDo
         # ----
         # - Update only required cells.
-        props = self.__get_props()
-        if getattr(
-            self.model, "bdict_symb", None
-        ) != self.model.bdict or not np.array_equal(self.model.props_symb, props):
-            # boundary conditions or properties were changed.
-            self.model.bdict_symb = dict(self.model.bdict)
-            self.model.props_symb = props
-            self.model.cells_terms = {}
         self.cells_eq = self.get_cells_eq(threading)
 
         if self.tstep == 0 or not hasattr(self, "A") or not hasattr(self, "d"):
-- 
2.43.0


From 596d824983de8466fa0160068f708b1ab29a5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 48/54] fix: symbolic matrix kept couplings of a cell after its
 permeability became zero

---
 reservoirflow/solutions/numerical/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 53beaff..551cb3c 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -384,6 +384,7 @@ class FDM(Solution):
         cell_lhs, cell_rhs = self.cells_eq[cell_id]
         ids = [self.model.cells_i_dict[int(str(s)[1:])] for s in cell_lhs.keys()]
         self.d[self.model.cells_i_dict[cell_id]] = cell_rhs
+        self.A[self.model.cells_i_dict[cell_id], :] = 0
         self.A[self.model.cells_i_dict[cell_id], ids] = list(cell_lhs.values())
         if self.model.verbose:
             print(f"[info] cell id: {cell_id}")
-- 
2.43.0


From 7f7f053976bbdc902eb83547aab23104e7d2b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 49/54] fix: a model stayed silent after a run that failed

---
 reservoirflow/solutions/numerical/fdm.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 551cb3c..d52b0e7 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -866,16 +866,20 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            if verbose_restore:
+                self.model.verbose = True
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -886,9 +890,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
-- 
2.43.0


From ca3a80602150fd24a15720d1c2220db20e1ca515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 50/54] fix: analytical run without an initial pressure changed
 the solution before failing

---
 reservoirflow/solutions/analytical/d1p1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index e658a19..bbfa6a6 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -100,6 +100,8 @@ class D1P1(Solution):
         print_arrays=False,
         isolver=None,
     ):
+        if self.model.pi is None:
+            raise ValueError("Initial pressure (pi) must be specified")
         start_time = time.time()
         # self.nsteps += nsteps
         self.tstep = nsteps
-- 
2.43.0


From 95423829b8482a4bbf496aaf07232e454d7e9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 51/54] fix: set_background_color and set_text_color had no
 effect

---
 reservoirflow/utils/pyvista.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/utils/pyvista.py b/reservoirflow/utils/pyvista.py
index cc0542f..d0b84e2 100644
--- a/reservoirflow/utils/pyvista.py
+++ b/reservoirflow/utils/pyvista.py
@@ -24,11 +24,13 @@ TEXT_COLOR = "white"
 
 
 def set_background_color(color):
-    global BACKGROUND_COLOR, TEXT_COLOR
+    global BACKGROUND_COLOR
+    BACKGROUND_COLOR = color
 
 
 def set_text_color(color):
-    global BACKGROUND_COLOR, TEXT_COLOR
+    global TEXT_COLOR
+    TEXT_COLOR = color
 
 
 def set_mode(mode="dark"):
-- 
2.43.0


From e3160fe8c808557afee6bf3f8cfd3a257e664741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 52/54] fix: extract_boundaries returned values sorted by value
 and points out of natural order

---
 reservoirflow/grids/regular_cartesian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index b6989ef..fa275d9 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1170,6 +1170,9 @@ class RegularCartesian(Grid):
                 except:
                     utils.helpers.shape_error(in_data.shape, fshape)
 
+            values = in_data.reshape((-1, 3)) if points else in_data.flatten()
+            in_data = np.arange(len(values)).reshape(self.get_fshape(True, False))
+
             if self.D == 3:
                 out_data = np.concatenate(
                     [
@@ -1227,10 +1230,7 @@ class RegularCartesian(Grid):
                     else:
                         raise ValueError("unknown shape.")
 
-            if not points:
-                out_data = np.sort(out_data.flatten())
-            else:
-                out_data = out_data.reshape((-1, 3))
+            out_data = values[np.sort(out_data.flatten())]
 
             return utils.helpers.reformat(out_data, fmt)
         else:
-- 
2.43.0


From b86736c4682d2a2a1337f7896ba13c224a318ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 53/54] fix: remove_boundaries edited the given dict and
 ignored its arguments

---
 reservoirflow/grids/regular_cartesian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index fa275d9..3191dad 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1108,9 +1108,10 @@ class RegularCartesian(Grid):
             return out_data
 
         elif isinstance(in_data, dict):
-            for k, v in in_data.items():
-                in_data[k] = self.remove_boundaries(v, remove="both")
-            return in_data
+            return {
+                k: self.remove_boundaries(v, points, remove)
+                for k, v in in_data.items()
+            }
         else:
             raise ValueError("dtype must be ndarray.")
 
-- 
2.43.0


From d4491cdbb0ef1daebf31c756c1db0e4c1542d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 54/54] fix: get_cells_d and get_cells_A ignored boundary and
 fshape for all directions

---
 reservoirflow/grids/regular_cartesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 3191dad..0017646 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1457,7 +1457,7 @@ class RegularCartesian(Grid):
         elif dir == "z":
             cells_d = self.dz
         elif dir in ["-", "all", "dict"]:
-            return {"x": self.dx, "y": self.dy, "z": self.dz}
+            return {s: self.get_cells_d(s, boundary, fshape) for s in "xyz"}
         else:
             raise ValueError("dir argument must be in ['x', 'y', 'z'].")
 
@@ -1715,7 +1715,7 @@ class RegularCartesian(Grid):
         elif dir == "z":
             cells_A = self.Az
         elif dir in ["-", "all", "dict"]:
-            return {"x": self.Ax, "y": self.Ay, "z": self.Az}
+            return {s: self.get_cells_A(s, boundary, fshape) for s in "xyz"}
         else:
             raise ValueError("dir argument must be in ['x', 'y', 'z'].")
 
-- 
2.43.0

