From 3b42193710c0c1f3510c5a58650ea774853fc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/46] fix: permute the conserved moments in front whatever
 their order

---
 pylbm/scheme.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 5b2cff4..1c91acf 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -224,8 +224,13 @@ class Scheme:
 
     def _permute_consm_in_front(self):
         self.permutations = []
+        # the successive swaps move the rows: position[i] is the original index
+        # of the moment which is currently in row i
+        position = list(range(self.EQ.shape[0]))
         for ic, c in enumerate(self.consm.values()):
-            self.permutations.append([ic, c])
+            current = position.index(c)
+            self.permutations.append([ic, current])
+            position[ic], position[current] = position[current], position[ic]
 
         for p in self.permutations:
             self.EQ.row_swap(p[0], p[1])
-- 
2.43.0


From d6224a0a34772b0df0ba54fccf22f5b5a36a061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 02/46] fix: bounds of the cylinders along their axis

The cylinder is made of the points center + base + t*w for |t| <= 1, its
bounds were computed for |t| <= 1/2 and the domain clipped the element.
---
 pylbm/elements/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index d458b59..b34a72c 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -59,7 +59,7 @@ class Cylinder(Element):
             minimal box where the cylinder is included
 
         """
-        lw = [0.5 * abs(self.w[k]) for k in range(len(self.w))]
+        lw = [abs(self.w[k]) for k in range(len(self.w))]
         bounds_base = self.base.get_bounds()
         return bounds_base[0] - lw, bounds_base[1] + lw
 
-- 
2.43.0


From c03225f5f01052ff71e1410a038baadec540c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 03/46] fix: distance to a cylinder without maximal distance

---
 pylbm/elements/cylinder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index b34a72c..c12aece 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -166,6 +166,7 @@ class Cylinder(Element):
         normal_cyl_z[ind] = 0
 
         # considering the two planes
+        alpha_max = np.inf if dmax is None else dmax
         dummyf = self.base.point_inside
         if v_cyl[2] == 0:  # to avoid vertical velocities
             decal = 1.0e-16
@@ -173,7 +174,7 @@ class Cylinder(Element):
             decal = 0.0
         alpha_top = (1.0 - z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_top < 0, alpha_top > dmax),
+            np.logical_or(alpha_top < 0, alpha_top > alpha_max),
             np.logical_not(
                 dummyf((x_cyl + alpha_top * v_cyl[0], y_cyl + alpha_top * v_cyl[1]))
             ),
@@ -181,7 +182,7 @@ class Cylinder(Element):
         alpha_top[ind] = 1.0e16
         alpha_bot = -(1.0 + z_cyl) / (v_cyl[2] + decal)
         ind = np.logical_or(
-            np.logical_or(alpha_bot < 0, alpha_bot > dmax),
+            np.logical_or(alpha_bot < 0, alpha_bot > alpha_max),
             np.logical_not(
                 dummyf((x_cyl + alpha_bot * v_cyl[0], y_cyl + alpha_bot * v_cyl[1]))
             ),
-- 
2.43.0


From df5a7a3f954c74e9fd2004c134996901f907e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/46] fix: unit normal vectors of the cylinders in the
 physical frame

---
 pylbm/elements/cylinder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index c12aece..0cf268c 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -206,13 +206,19 @@ class Cylinder(Element):
         # fix the distance
         alpha[alpha == 1.0e16] = -1.0
         # rewritte the normal vector in the initial frame
+        # (a normal is transformed by the transpose of the inverse matrix)
         normal_vect = np.zeros(normal_cyl.shape)
         for k in range(3):
             normal_vect[..., k] = (
-                self.A[k, 0] * normal_cyl_x
-                + self.A[k, 1] * normal_cyl_y
-                + self.A[k, 2] * normal_cyl_z
+                self.iA[0, k] * normal_cyl_x
+                + self.iA[1, k] * normal_cyl_y
+                + self.iA[2, k] * normal_cyl_z
             )
+        # unit normal vector opposite to the direction v as for the other elements
+        norm = np.linalg.norm(normal_vect, axis=-1)
+        norm[norm == 0] = 1.0
+        sign = np.where(np.dot(normal_vect, np.asarray(v)) > 0, -1.0, 1.0)
+        normal_vect *= (sign / norm)[..., np.newaxis]
 
         return alpha, border, normal_vect
 
-- 
2.43.0


From f495a0bcd21f33c6925c913e7620bd5322dd66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 05/46] fix: Bouzidi anti bounce-back reads the distributions
 of the previous step

As for the Bouzidi bounce-back, the loop must not read values already modified
by the boundary condition (the result depended on the backend).
---
 pylbm/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 52a67ec..69243a8 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -730,13 +730,13 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
             priority=sorder,
         )
         fload0 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[0][idx, k] for k in range(dim + 1)],
             priority=sorder,
         )
         fload1 = indexed(
-            "f",
+            "fcopy",
             [ns, nx, ny, nz],
             index=[iload[1][idx, k] for k in range(dim + 1)],
             priority=sorder,
-- 
2.43.0


From e2be4cd65f949b47d2114c3f7d517bb903593f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 06/46] fix: weight of the boundary values in the Bouzidi
 conditions

If the distance is greater than 1/2, the reflected part is multiplied by
1/(2s): the prescribed value must be multiplied too, otherwise the
equilibrium with the boundary values is not preserved.
---
 pylbm/boundary.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 69243a8..27de925 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -564,7 +564,12 @@ class BouzidiBounceBack(BoundaryMethod):
         """
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
-        self.rhs[:] = self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        # the interpolation is made after the reflexion if the distance is
+        # greater than 1/2: the value on the border is then also interpolated
+        weight = np.where(self.distance < 0.5, 1.0, 0.5 / self.distance)
+        self.rhs[:] = weight * (
+            self.feq[k, np.arange(k.size)] - self.feq[ksym, np.arange(k.size)]
+        )
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
@@ -701,7 +706,12 @@ class BouzidiAntiBounceBack(BouzidiBounceBack):
         """
         k = self.istore[:, 0]
         ksym = self.stencil.get_symmetric()[k]
-        self.rhs[:] = self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        # the interpolation is made after the reflexion if the distance is
+        # greater than 1/2: the value on the border is then also interpolated
+        weight = np.where(self.distance < 0.5, 1.0, 0.5 / self.distance)
+        self.rhs[:] = weight * (
+            self.feq[k, np.arange(k.size)] + self.feq[ksym, np.arange(k.size)]
+        )
 
     # pylint: disable=too-many-locals
     def generate(self, sorder):
-- 
2.43.0


From 96d8dba2bb550fe46a6ba4fdcc4517af407d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/46] fix: storage order with permuted space directions

---
 pylbm/algorithm/base.py | 48 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 559b090..5f98f77 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -63,6 +63,7 @@ Therefore, for our example we have
 
 """
 
+import numpy as np
 import sympy as sp
 from sympy import Eq
 
@@ -76,6 +77,7 @@ from ..symbolic import (
     nz,
     nv,
     indexed,
+    set_order,
     space_idx,
     alltogether,
     recursive_sub,
@@ -156,8 +158,7 @@ class BaseAlgorithm:
 
     def _get_space_idx_full(self):
         """
-        Return a list of SymPy Idx ordered with sorder
-        and with the dimensions.
+        Return a list of SymPy Idx for each dimension.
 
             ix -> [0, nx[
             iy -> [0, ny[
@@ -165,12 +166,11 @@ class BaseAlgorithm:
 
         The length of the list is the dimension of the problem.
         """
-        return space_idx([(0, nx), (0, ny), (0, nz)], priority=self.sorder[1:])
+        return space_idx([(0, nx), (0, ny), (0, nz)])[: self.dim]
 
     def _get_space_idx_inner(self):
         """
-        Return a list of SymPy Idx ordered with sorder
-        and with the dimensions.
+        Return a list of SymPy Idx for each dimension.
 
             ix -> [vmax_x, nx-vmax_x[
             iy -> [vmax_y, ny-vmax_y[
@@ -184,9 +184,14 @@ class BaseAlgorithm:
                 (self.vmax[0], nx - self.vmax[0]),
                 (self.vmax[1], ny - self.vmax[1]),
                 (self.vmax[2], nz - self.vmax[2]),
-            ],
-            priority=self.sorder[1:],
-        )
+            ]
+        )[: self.dim]
+
+    def _loop(self, space_index, code):
+        """
+        Return the loop over the space indices nested in the storage order.
+        """
+        return For(set_order(space_index, self.sorder[1:]), code)
 
     def _get_indexed_on_range(self, name, space_index):
         """
@@ -293,7 +298,7 @@ class BaseAlgorithm:
         space_index = self._get_space_idx_inner()
         f = self._get_indexed_on_velocities("f", space_index, -self.all_velocities)
         fnew = self._get_indexed_on_range("fnew", space_index)
-        return {"code": For(space_index, self.transport_local(f, fnew))}
+        return {"code": self._loop(space_index, self.transport_local(f, fnew))}
 
     def f2m_local(self, f, m, with_rel_velocity=False):
         """
@@ -341,7 +346,7 @@ class BaseAlgorithm:
         space_index = self._get_space_idx_full()
         f = self._get_indexed_on_range("f", space_index)
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.f2m_local(f, m))}
+        return {"code": self._loop(space_index, self.f2m_local(f, m))}
 
     def m2f_local(self, m, f, with_rel_velocity=False):
         """
@@ -376,7 +381,7 @@ class BaseAlgorithm:
         space_index = self._get_space_idx_full()
         f = self._get_indexed_on_range("f", space_index)
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.m2f_local(m, f))}
+        return {"code": self._loop(space_index, self.m2f_local(m, f))}
 
     def equilibrium_local(self, m):
         """
@@ -399,7 +404,7 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_full()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.equilibrium_local(m))}
+        return {"code": self._loop(space_index, self.equilibrium_local(m))}
 
     def relaxation_local(self, m, with_rel_velocity=False):
         """
@@ -434,7 +439,7 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_full()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.relaxation_local(m))}
+        return {"code": self._loop(space_index, self.relaxation_local(m))}
 
     def source_term_local(self, m):
         """
@@ -501,7 +506,7 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": For(space_index, self.source_term_local(m))}
+        return {"code": self._loop(space_index, self.source_term_local(m))}
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -582,9 +587,9 @@ class BaseAlgorithm:
             in_or_out = indexed(
                 "in_or_out", [nx, ny, nz], space_index, priority=self.sorder[1:]
             )
-            loop = lambda x: For(space_index, If((Eq(in_or_out, valin), x)))
+            loop = lambda x: self._loop(space_index, If((Eq(in_or_out, valin), x)))
         else:
-            loop = lambda x: For(space_index, x)
+            loop = lambda x: self._loop(space_index, x)
 
         if split:
             # code = [loop([*self.coords(), i]) for i in internal]
@@ -627,6 +632,15 @@ class BaseAlgorithm:
                 (name, code), local_vars=local_vars, settings=settings
             )
 
+    def _set_storage_order(self, array):
+        """
+        Return the array (one value for each point) in the storage order.
+        """
+        order = set_order(list(range(self.dim)), self.sorder[1:])
+        if order == list(range(self.dim)):
+            return array
+        return np.ascontiguousarray(np.transpose(array, order))
+
     def _get_args(self, simulation, m_user=None, f_user=None, **kwargs):
         """
         Define all the arguments needed to call the generated code.
@@ -656,7 +670,7 @@ class BaseAlgorithm:
         t = simulation.t
         dt = simulation.dt
 
-        in_or_out = simulation.domain.in_or_out
+        in_or_out = self._set_storage_order(simulation.domain.in_or_out)
         valin = simulation.domain.valin
 
         local = locals()
-- 
2.43.0


From 527159690fcb11bfe07253beabb4142907e853c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 08/46] fix: space coordinates in the equilibrium and the
 source terms

---
 pylbm/algorithm/base.py | 73 +++++++++++++++++++++++++++++++----------
 pylbm/boundary.py       | 11 +++++--
 2 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 5f98f77..e3a27a1 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -153,7 +153,15 @@ class BaseAlgorithm:
 
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
-        self.local_vars = self.symb_coord_local[: self.dim]
+        exprs = [self.eq, self.s] + [sp.sympify(rhs) for _, rhs in self.source_eq]
+        if self.rel_vel_symb:
+            exprs.append(self.rel_vel)
+        symbols = set().union(*[expr.free_symbols for expr in exprs])
+        # directions of the space coordinates used by the expressions
+        self.coords_dim = [
+            i for i in range(self.dim) if self.symb_coord_local[i] in symbols
+        ]
+        self.local_vars = [self.symb_coord_local[i] for i in self.coords_dim]
         self.settings = settings if settings else {}
 
     def _get_space_idx_full(self):
@@ -267,13 +275,30 @@ class BaseAlgorithm:
 
         return Eq(m_consm, sp.Matrix((self.Mu * f)[:nconsm]))
 
-    def coords(self):
-        coord = []
-        for x in self.symb_coord[: self.dim]:
-            coord.append(
-                indexed(x.name, [self.ns, nx, ny, nz], priority=self.sorder[1:])
+    def coords(self, space_index):
+        """
+        Return the symbolic expressions which set the space coordinates
+        used by the scheme.
+
+        Parameters
+        ----------
+
+        space_index : list
+            list of SymPy Idx corresponding to space variables
+
+        """
+        return [
+            Eq(
+                self.symb_coord_local[i],
+                indexed(
+                    self.symb_coord[i].name,
+                    [nx, ny, nz][: self.dim],
+                    space_index,
+                    priority=self.sorder[1:],
+                ),
             )
-        return [Eq(xx, x) for xx, x in zip(self.symb_coord_local[: self.dim], coord)]
+            for i in self.coords_dim
+        ]
 
     def transport_local(self, f, fnew):
         """
@@ -404,7 +429,12 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_full()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": self._loop(space_index, self.equilibrium_local(m))}
+        return {
+            "code": self._loop(
+                space_index, [*self.coords(space_index), self.equilibrium_local(m)]
+            ),
+            "local_vars": self.local_vars,
+        }
 
     def relaxation_local(self, m, with_rel_velocity=False):
         """
@@ -439,7 +469,12 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_full()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": self._loop(space_index, self.relaxation_local(m))}
+        return {
+            "code": self._loop(
+                space_index, [*self.coords(space_index), self.relaxation_local(m)]
+            ),
+            "local_vars": self.local_vars,
+        }
 
     def source_term_local(self, m):
         """
@@ -506,7 +541,12 @@ class BaseAlgorithm:
         """
         space_index = self._get_space_idx_inner()
         m = self._get_indexed_on_range("m", space_index)
-        return {"code": self._loop(space_index, self.source_term_local(m))}
+        return {
+            "code": self._loop(
+                space_index, [*self.coords(space_index), *self.source_term_local(m)]
+            ),
+            "local_vars": self.local_vars,
+        }
 
     def one_time_step_local(self, f, fnew, m):
         """
@@ -592,11 +632,9 @@ class BaseAlgorithm:
             loop = lambda x: self._loop(space_index, x)
 
         if split:
-            # code = [loop([*self.coords(), i]) for i in internal]
-            code = [loop([i]) for i in internal]
+            code = [loop([*self.coords(space_index), i]) for i in internal]
         else:
-            # code = loop([*self.coords(), *internal])
-            code = loop([*internal])
+            code = loop([*self.coords(space_index), *internal])
 
         return {
             "code": code,
@@ -653,13 +691,10 @@ class BaseAlgorithm:
 
         dim = len(mm.nspace)
         nx = mm.nspace[0]
-        X = simulation.domain.coords[0]
         if dim > 1:
             ny = mm.nspace[1]
-            Y = simulation.domain.coords[1]
         if dim > 2:
             nz = mm.nspace[2]
-            Z = simulation.domain.coords[1]
 
         if f_user:
             f = f_user.array
@@ -674,6 +709,10 @@ class BaseAlgorithm:
         valin = simulation.domain.valin
 
         local = locals()
+        if self.coords_dim and list(mm.nspace) == list(simulation.domain.shape_halo):
+            coords = np.meshgrid(*simulation.domain.coords_halo, indexing="ij")
+            for i in self.coords_dim:
+                local[self.symb_coord[i].name] = self._set_storage_order(coords[i])
         extra = {str(k): v for k, v in simulation.extra_parameters.items()}
         if extra.get("lambda", None):
             extra["lambda_"] = extra["lambda"]
diff --git a/pylbm/boundary.py b/pylbm/boundary.py
index 27de925..a9ec006 100644
--- a/pylbm/boundary.py
+++ b/pylbm/boundary.py
@@ -221,6 +221,7 @@ class BoundaryMethod:
         self.args = []
         self.f = []
         self.m = []
+        self.coords = []
         self.indices = []
 
     def fix_iload(self):
@@ -289,7 +290,12 @@ class BoundaryMethod:
                 else:
                     func(f, m, *args)
 
-                simulation.equilibrium(m)
+                order = np.argsort(sorder[1:])
+                coords = {
+                    x.name: np.ascontiguousarray(np.transpose(coord, order))
+                    for x, coord in zip(simulation.scheme.symb_coord, coords)
+                }
+                simulation.equilibrium(m, **coords)
                 simulation.m2f(m, f)
 
                 if self.generator.backend.upper() == "LOOPY":
@@ -302,6 +308,7 @@ class BoundaryMethod:
                     self.args.append(args)
                     self.f.append(f)
                     self.m.append(m)
+                    self.coords.append(coords)
                     self.indices.append(indices[0])
 
     def update_feq(self, simulation):
@@ -310,7 +317,7 @@ class BoundaryMethod:
 
         for i in range(len(self.func)):
             self.func[i](self.f[i], self.m[i], t, *self.args[i])
-            simulation.equilibrium(self.m[i])
+            simulation.equilibrium(self.m[i], **self.coords[i])
             simulation.m2f(self.m[i], self.f[i])
 
             if self.generator.backend.upper() == "LOOPY":
-- 
2.43.0


From be024d8ffe557a8b223736350d142ef18df9f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 09/46] fix: do not permute the matrix of moments given by the
 user in place

---
 pylbm/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index 1c91acf..d1f5978 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -159,7 +159,7 @@ class Scheme:
 
         # TODO: add the possibility to have vectorial schemes when M matrix is defined
         if len(scheme) == 1 and "M" in scheme[0]:
-            self.M = scheme[0]["M"]
+            self.M = scheme[0]["M"].copy()
             self.invM = self.M.inv()
             self.Tu = sp.eye(*self.M.shape)
             self.Tmu = sp.eye(*self.M.shape)
-- 
2.43.0


From c1cb767aa5a6869605ab72675f096ccebe73ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 10/46] fix: validation of a dictionary with an empty list

---
 pylbm/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index 4cf2b2e..de8f607 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -155,7 +155,7 @@ def rec_dict(dico, errors, indent=0):
         s += prompt(indent)
         s += "%s: " % key
         indent += 4
-        if isinstance(value, list) and isinstance(value[0], dict):
+        if isinstance(value, list) and value and isinstance(value[0], dict):
             s += "\n"
             s += rec_list(value, new_errors, indent)
         elif isinstance(value, dict):
-- 
2.43.0


From 2adbb1d5ed8f3908bd88ac0cbe0e9b42110d3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 11/46] fix: default and nested paths of the hdf5 files

---
 pylbm/hdf5.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 4570391..02dff01 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -40,10 +40,10 @@ class H5File:
         self.xdmf_file = None
 
         if mpi.COMM_WORLD.Get_rank() == 0:
-            if not os.path.exists(path):
-                os.mkdir(path)
+            if path:
+                os.makedirs(path, exist_ok=True)
 
-            self.h5file = h5py.File(path + "/" + self.h5filename, "w")
+            self.h5file = h5py.File(os.path.join(path, self.h5filename), "w")
 
         # All the processes wait for the creation of the output directory
         mpi.COMM_WORLD.Barrier()
@@ -254,7 +254,9 @@ class H5File:
         comm = self.mpi_topo.cartcomm
         if comm.Get_rank() == 0:
             self.h5file.close()
-            self.xdmf_file = open(self.path + "/" + self.filename + ".xdmf", "w")
+            self.xdmf_file = open(
+                os.path.join(self.path, self.filename + ".xdmf"), "w"
+            )
             self.xdmf_file.write(
                 """<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
-- 
2.43.0


From 68491c71023ae6c8a3287ff1df7779921679f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 12/46] fix: keep the moments and the distribution functions
 synchronised

The moments computed lazily could stay stale after setting one of them, after
calling the phases of the algorithm one by one, and the transport was lost
with the backends which use two arrays.
---
 pylbm/simulation.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 3cec720..0e400f8 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -197,19 +197,24 @@ class Simulation:
         else:
             return self.dt_
 
+    def _refresh_m(self):
+        """
+        compute the moments if the distribution functions were modified.
+        """
+        if self._update_m:
+            self.f2m()
+
     @utils.itemproperty
     def m_halo(self, i):
         """
         get the moment i on the whole domain with halo points.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
+        self._refresh_m()
         return self.container.m[i]
 
     @m_halo.setter
     def m_halo(self, i, value):
-        self._update_m = False
+        self._refresh_m()
         self.container.m[i] = value
 
     @utils.itemproperty
@@ -217,9 +222,7 @@ class Simulation:
         """
         get the moment i in the interior domain.
         """
-        if self._update_m:
-            self._update_m = False
-            self.f2m()
+        self._refresh_m()
 
         return self.container.m._in(i)  # pylint: disable=protected-access
 
@@ -312,6 +315,7 @@ class Simulation:
                 array_to_init[k] = v
 
         if self.init_type == "moments":
+            self._update_m = False
             self.equilibrium()
             self.m2f()
         elif self.init_type == "distributions":
@@ -325,12 +329,15 @@ class Simulation:
         (the array _F is modified)
         """
         self.algo.call_function("transport", self, **kwargs)
+        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
+        self._update_m = True
 
     def relaxation(self, **kwargs):
         """
         compute the relaxation phase on moments
         (the array _m is modified)
         """
+        self._refresh_m()
         self.algo.call_function("relaxation", self, **kwargs)
 
     def source_term(self, fraction_of_time_step=1.0, **kwargs):
@@ -338,6 +345,7 @@ class Simulation:
         compute the source term phase on moments
         (the array _m is modified)
         """
+        self._refresh_m()
         self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
@@ -347,6 +355,7 @@ class Simulation:
         (the array _m is modified)
         """
         self.algo.call_function("f2m", self, **kwargs)
+        self._update_m = False
 
     @monitor
     def m2f(self, m_user=None, f_user=None, **kwargs):
@@ -354,6 +363,8 @@ class Simulation:
         compute the distribution functions from the moments
         (the array _F is modified)
         """
+        if m_user is None:
+            self._refresh_m()
         self.algo.call_function("m2f", self, m_user, f_user, **kwargs)
 
     @monitor
@@ -368,6 +379,8 @@ class Simulation:
         Another moments vector can be set to equilibrium values:
         use directly the method of the class Scheme
         """
+        if m_user is None:
+            self._refresh_m()
         self.algo.call_function("equilibrium", self, m_user, **kwargs)
 
     @monitor
-- 
2.43.0


From 45a346f821d195df4146e52efd39bfb8b7e3ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 13/46] fix: explicit Euler for the coupled source terms

---
 pylbm/algorithm/base.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index e3a27a1..d9bffdb 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -151,6 +151,18 @@ class BaseAlgorithm:
                         rhs = recursive_sub(v, to_subs)
                     self.source_eq.append((lhs, rhs))
 
+        # the right hand sides of coupled source terms must be evaluated
+        # before the update of the moments
+        sources = [lhs.i for lhs, _ in self.source_eq]
+        self.source_symb = []
+        for lhs, rhs in self.source_eq:
+            names = [x.name for x in sp.sympify(rhs).atoms(sp.Symbol)]
+            moments = [self.consm[n] for n in names if n in self.consm]
+            if any(i in sources and i != lhs.i for i in moments):
+                self.source_symb = [
+                    sp.Symbol("source_{0:d}".format(i)) for i in range(len(sources))
+                ]
+
         self.vmax = [0] * 3
         self.vmax[: scheme.dim] = scheme.stencil.vmax
         exprs = [self.eq, self.s] + [sp.sympify(rhs) for _, rhs in self.source_eq]
@@ -521,7 +533,8 @@ class BaseAlgorithm:
             for i, ind in enumerate(indices):
                 local_dict[indices_str[i]] = ind
 
-        for lhs, rhs in self.source_eq:
+        code = []
+        for k, (lhs, rhs) in enumerate(self.source_eq):
             lhs_m = lhs.subs(list(zip(self.mv, m)))
             if isinstance(rhs, (float, int)):
                 rhs_m = rhs
@@ -532,7 +545,11 @@ class BaseAlgorithm:
                 rhs_eq[lhs.i] = dummy.rhs.subs(ind_to_subs)
             else:
                 rhs_eq[lhs.i] = dummy.rhs
-        return [Eq(m, sp.Matrix(rhs_eq))]
+            if self.source_symb:
+                code.append(Eq(self.source_symb[k], rhs_eq[lhs.i]))
+                rhs_eq[lhs.i] = self.source_symb[k]
+        code.append(Eq(m, sp.Matrix(rhs_eq)))
+        return code
 
     def source_term(self):
         """
@@ -545,7 +562,7 @@ class BaseAlgorithm:
             "code": self._loop(
                 space_index, [*self.coords(space_index), *self.source_term_local(m)]
             ),
-            "local_vars": self.local_vars,
+            "local_vars": self.local_vars + self.source_symb,
         }
 
     def one_time_step_local(self, f, fnew, m):
@@ -632,13 +649,18 @@ class BaseAlgorithm:
             loop = lambda x: self._loop(space_index, x)
 
         if split:
-            code = [loop([*self.coords(space_index), i]) for i in internal]
+            code, group = [], []
+            for i in internal:
+                group.append(i)
+                if i.lhs not in self.source_symb:
+                    code.append(loop([*self.coords(space_index), *group]))
+                    group = []
         else:
             code = loop([*self.coords(space_index), *internal])
 
         return {
             "code": code,
-            "local_vars": local_vars + self.local_vars,
+            "local_vars": local_vars + self.local_vars + self.source_symb,
             "settings": {"prefetch": [f[0]]},
         }
 
-- 
2.43.0


From 67931c96dc5f5bd6b947965bada46a3b0232933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 14/46] fix: dimensions of the topology and of the vectors in
 the xdmf files

---
 pylbm/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 02dff01..7efb40e 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -271,7 +271,7 @@ class H5File:
                     <Topology TopologyType="2DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVY">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             else:
@@ -281,7 +281,7 @@ class H5File:
                     <Topology TopologyType="3DRectMesh" NumberOfElements="{0}"/>
                     <Geometry GeometryType="VXVYVZ">
                 """.format(
-                        " ".join(map(str, self.global_size))
+                        " ".join(map(str, self.global_size[::-1]))
                     )
                 )
             for i in range(self.dim):
@@ -319,7 +319,7 @@ class H5File:
                 </DataItem>
                 </Attribute>
                 """.format(
-                        k, " ".join(map(str, self.global_size[::-1])), self.dim, v
+                        k, " ".join(map(str, self.global_size[::-1])), 3, v
                     )
                 )
 
-- 
2.43.0


From 829b6289b6d67d6df3b4e7633e614c733de99d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 15/46] fix: conserved moments of the basic algorithm with a
 relative velocity

---
 pylbm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index d9bffdb..e67b666 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -604,6 +604,9 @@ class BaseAlgorithm:
 
         code.append(self.relaxation_local(m, with_rel_velocity))
 
+        if with_rel_velocity:
+            code.append(self.restore_conserved_moments(m, fnew))
+
         if self.source_eq:
             code.extend(self.source_term_local(m))
 
-- 
2.43.0


From 14ebc99b95bc78eca9607a62e522f4c461c904b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 16/46] fix: split loops with a relative velocity

---
 pylbm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index e67b666..4da3d58 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -175,6 +175,9 @@ class BaseAlgorithm:
         ]
         self.local_vars = [self.symb_coord_local[i] for i in self.coords_dim]
         self.settings = settings if settings else {}
+        if self.rel_vel_symb:
+            # the relative velocity is local: the loops can't be split
+            self.settings = {**self.settings, "split": False}
 
     def _get_space_idx_full(self):
         """
-- 
2.43.0


From 1118086b6333977eed9c59691f4011d6d0a8a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 17/46] fix: source terms equal to zero

---
 pylbm/algorithm/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/algorithm/ode.py b/pylbm/algorithm/ode.py
index c7faad6..f878555 100644
--- a/pylbm/algorithm/ode.py
+++ b/pylbm/algorithm/ode.py
@@ -13,4 +13,4 @@ def euler(lhs, rhs):
     Explicit Euler in symbolic form.
     """
     dt = sp.Symbol("dt")
-    return Eq(lhs, lhs + dt / 2 * rhs)
+    return Eq(lhs, lhs + dt / 2 * rhs, evaluate=False)
-- 
2.43.0


From 9ca4436630755a33740c05e956b71daa70cdfc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 18/46] fix: maximal velocity in norm of a stencil which is not
 symmetric

---
 pylbm/stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index 38cb783..f5d7d79 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -716,7 +716,7 @@ class Stencil(list):
     def vmax(self):
         """the maximal velocity in norm for each spatial direction."""
         tmp = np.asarray([self.uvx, self.uvy, self.uvz])
-        return np.max(tmp[: self.dim], axis=1)
+        return np.max(np.abs(tmp[: self.dim]), axis=1)
 
     @property
     def vmin(self):
-- 
2.43.0


From 0ab63ccc5f0c9fdcd505ffc26854cfe0a81e2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:52 +0000
Subject: [PATCH 19/46] fix: relaxation of the conserved moments with a
 relative velocity

---
 pylbm/algorithm/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 4da3d58..a4128da 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -475,6 +475,11 @@ class BaseAlgorithm:
             eq = SymbolicVector(eq)
         relax = (1 - self.s) * m + self.s * eq
         alltogether(relax)
+        if with_rel_velocity:
+            # the conserved moments are needed by the other ones in the fixed
+            # frame: they are not modified, whatever their relaxation parameters
+            nconsm = len(self.consm)
+            m, relax = sp.Matrix(m[nconsm:]), sp.Matrix(relax[nconsm:])
         return Eq(m, relax)
 
     def relaxation(self):
-- 
2.43.0


From 04f43b0c6f36305104c74a8156a5332ecaade7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 20/46] fix: symmetry of a stencil with several schemes

---
 pylbm/stencil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/stencil.py b/pylbm/stencil.py
index f5d7d79..bdf53ae 100644
--- a/pylbm/stencil.py
+++ b/pylbm/stencil.py
@@ -850,6 +850,7 @@ class Stencil(list):
         """
         check if all the velocities have their symmetric.
         """
+        all_sym = True
         for n in range(self.nstencils):
             is_sym = True
             scheme_velocities = np.array(self.num[n])
@@ -868,7 +869,8 @@ class Stencil(list):
                 log.info("The stencil %d is symmetric", n)
             else:
                 log.warning("The stencil %d is not symmetric", n)
-        return is_sym
+            all_sym = all_sym and is_sym
+        return all_sym
 
     # pylint: disable=too-many-locals, too-many-branches, too-many-statements
     # pylint: disable=too-complex
-- 
2.43.0


From 80ae18841af1547d32fdcea157429d7699ac4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 21/46] fix: space directions without any velocity

---
 pylbm/domain.py  |  2 +-
 pylbm/storage.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index eae2ae4..69ce819 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -434,7 +434,7 @@ class Domain:
         # modification to avoid the case
         # with no velocity in one direction
         ind_beg = [k for k in halo_size]
-        ind_end = [-k if k > 0 else 1 for k in halo_size]
+        ind_end = [-k if k > 0 else None for k in halo_size]
         self.coords = [
             # self.coords_halo[k][halo_size[k]:-halo_size[k]]
             self.coords_halo[k][ind_beg[k] : ind_end[k]]
diff --git a/pylbm/storage.py b/pylbm/storage.py
index 2cf7e47..b59f25f 100644
--- a/pylbm/storage.py
+++ b/pylbm/storage.py
@@ -147,7 +147,7 @@ class Array:
     def _in(self, key):
         ind = []
         for vmax in self.vmax:
-            ind.append(slice(vmax, -vmax))
+            ind.append(slice(vmax, -vmax) if vmax > 0 else slice(None))
         ind = np.asarray(ind)
 
         if self.gpu_support:
@@ -246,6 +246,12 @@ class Array:
         self.recv_type = []
 
         for d in range(dim):  # pylint: disable=invalid-name
+            if vmax[d] == 0:
+                # no ghost point in this direction
+                self.send_type.extend([None, None])
+                self.recv_type.extend([None, None])
+                continue
+
             subsizes = [nv] + nspace
             subsizes[d + 1] = vmax[d]
             subsizes = swap(subsizes)
@@ -299,8 +305,9 @@ class Array:
             )
 
         for send, recv in zip(self.send_type, self.recv_type):
-            send.Commit()
-            recv.Commit()
+            if send is not None:
+                send.Commit()
+                recv.Commit()
 
     # pylint: disable=possibly-unused-variable
     @monitor
@@ -332,6 +339,9 @@ class Array:
 
         else:
             for d in range(self.dim):  # pylint: disable=invalid-name
+                if self.vmax[d] == 0:
+                    continue
+
                 req = []
 
                 req.append(
-- 
2.43.0


From 7ceaea21b90d84694a79317e0d00c742047ae2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 22/46] fix: distance to the cylinders with triangular or
 parallelogram bases on a single line of cells

---
 pylbm/elements/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylbm/elements/utils.py b/pylbm/elements/utils.py
index 69abdcb..640905d 100644
--- a/pylbm/elements/utils.py
+++ b/pylbm/elements/utils.py
@@ -47,10 +47,7 @@ def distance_lines(x, y, v, p, vt, dmax, label, normal):
     # Warning: the shape can be
     #   - (x.size, y.size) for the 2D geometries
     #   - x.shape = y.shape for the 3D geometries
-    if x.shape[1] == 1 and y.shape[0] == 1:
-        shape = (x.size, y.size)
-    else:
-        shape = x.shape
+    shape = np.broadcast(x, y).shape
     v2 = [x, y]
     alpha = tgv * np.ones(shape)
     border = -np.ones(shape)
-- 
2.43.0


From 938a8aa8870a1da8fc79b78a48184fef7947541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 23/46] fix: walls of the box for the fluid elements that cross
 its border

---
 pylbm/domain.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 69ce819..2730d94 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -294,9 +294,13 @@ class Domain:
 
         # compute the distance and the flag for the primary box
         self.__add_init(self.box_label)
+        # keep the borders of the box to add the fluid elements
+        box_borders = [self.distance.copy(), self.flag.copy()]
+        if self.compute_normal:
+            box_borders.append(self.normal.copy())
         for elem in self.geom.list_elem:
             # treat each element of the geometry
-            self.__add_elem(elem)
+            self.__add_elem(elem, box_borders)
 
         self.clean()
         log.info(self.__str__())
@@ -520,7 +524,7 @@ class Domain:
                             norm_view[tuple(nind + [iuvel])] = 1
 
     # pylint: disable=too-many-locals
-    def __add_elem(self, elem):
+    def __add_elem(self, elem, box_borders):
         """
         Add an element
 
@@ -547,8 +551,11 @@ class Domain:
         ioo_view = self.in_or_out[tuple(space_slice)]
         dist_view = self.distance[tuple(total_slice)]
         flag_view = self.flag[tuple(total_slice)]
+        box_dist_view = box_borders[0][tuple(total_slice)]
+        box_flag_view = box_borders[1][tuple(total_slice)]
         if self.compute_normal:
             norm_view = self.normal[tuple(total_slice_vect)]
+            box_norm_view = box_borders[2][tuple(total_slice_vect)]
 
         tcoords = (self.coords_halo[d][s] for d, s in enumerate(space_slice))
         grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
@@ -619,6 +626,17 @@ class Domain:
                     for i in range(self.dim):
                         norm_view[k][tuple(ind + [i])] = -normvect[tuple(ind + [i])]
 
+                if elem.isfluid:
+                    # the fluid part is limited by the borders of the box
+                    ind = np.logical_and(
+                        np.logical_and(ind_fluid, box_dist_view[k] < self.valin),
+                        np.logical_or(alpha < 0, box_dist_view[k] < dist_view[k]),
+                    )
+                    dist_view[k][ind] = box_dist_view[k][ind]
+                    flag_view[k][ind] = box_flag_view[k][ind]
+                    if self.compute_normal:
+                        norm_view[k][ind] = box_norm_view[k][ind]
+
     def clean(self):
         """
         clean the domain when multiple elements are added
-- 
2.43.0


From e0d64a3bf25479938a2cf9ffc9951f817bded4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 24/46] fix: no distance in the solid cells when a solid
 element is added

---
 pylbm/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 2730d94..b62d79f 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -562,8 +562,10 @@ class Domain:
 
         if not elem.isfluid:  # add a solid part
             ind_solid = elem.point_inside(grid)
-            ind_fluid = np.logical_not(ind_solid)
             ioo_view[ind_solid] = self.valout
+            # only the fluid cells see the element
+            # (not the cells which are already solid)
+            ind_fluid = ioo_view == self.valin
         else:  # add a fluid part
             ind_fluid = elem.point_inside(grid)
             ind_solid = np.logical_not(ind_fluid)
-- 
2.43.0


From 5b79f213071943842829aba72c99e5c16ca408dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 25/46] fix: fluid elements which do not meet the box

---
 pylbm/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index b62d79f..167c376 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -542,6 +542,9 @@ class Domain:
         nmin = np.maximum(vmax, tmp)
         tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
         nmax = np.minimum(vmax + self.shape_in, tmp)
+        if np.any(nmin >= nmax):
+            # the element is too far from the box
+            return
 
         # set the grid
         space_slice = [slice(imin, imax) for imin, imax in zip(nmin, nmax)]
-- 
2.43.0


From 949234e01e76d00533f476d17fd7af38d9fbed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:29 +0000
Subject: [PATCH 26/46] fix: walls of the box seen through the periodic borders

---
 pylbm/domain.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 167c376..0c8682f 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -9,6 +9,7 @@ Domain definitions for LBM
 import logging
 import sys
 import copy
+import itertools
 import numpy as np
 import mpi4py.MPI as mpi
 
@@ -483,9 +484,14 @@ class Domain:
         if self.compute_normal:
             norm_view = self.normal[tuple(phys_domain_vect)]
 
-        def new_indices(dvik, iuv, indices, dist_view):
+        def new_indices(dvik, iuv, indices, dist_view, periodic):
             new_ind = copy.deepcopy(indices)
-            ind = np.where(dist_view[tuple(indices)] > dvik)
+            mask = dist_view[tuple(indices)] > dvik
+            if periodic:
+                # the walls have to be seen through the periodic borders
+                flag = flag_view[tuple(indices)]
+                mask &= np.logical_or(flag == self.valin, flag == -1)
+            ind = np.where(mask)
             i = 1
             for j in range(self.dim):
                 if j != iuv:
@@ -493,30 +499,39 @@ class Domain:
                     i += 1
             return new_ind
 
+        def is_set(lab, periodic):
+            return lab != -2 and (lab == -1) == periodic
+
         s = self.stencil
         uvels = [s.uvx, s.uvy, s.uvz]
-        # loop over the dimension
-        for iuvel, uvel in enumerate(uvels[: self.dim]):
+        # loop over the dimension: the walls then the periodic borders
+        for periodic, (iuvel, uvel) in itertools.product(
+            [False, True], enumerate(uvels[: self.dim])
+        ):
             # uvel is the list of all the velocities
             # in the x-direction, then y-direction and z-direction
             # loop over the velocities
             for k, vk in np.ndenumerate(uvel):
                 indices = [k] + [slice(None)] * self.dim
-                if vk < 0 and label[2 * iuvel] != -2:
+                if vk < 0 and is_set(label[2 * iuvel], periodic):
                     for i in range(-vk):
                         indices[iuvel + 1] = i
                         dvik = -(i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik, iuvel, indices, dist_view, periodic
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel]
                         if self.compute_normal:
                             norm_view[tuple(nind + [slice(0, iuvel)])] = 0
                             norm_view[tuple(nind + [iuvel])] = -1
-                elif vk > 0 and label[2 * iuvel + 1] != -2:
+                elif vk > 0 and is_set(label[2 * iuvel + 1], periodic):
                     for i in range(vk):
                         indices[iuvel + 1] = -i - 1
                         dvik = (i + 0.5) / vk
-                        nind = new_indices(dvik, iuvel, indices, dist_view)
+                        nind = new_indices(
+                            dvik, iuvel, indices, dist_view, periodic
+                        )
                         dist_view[tuple(nind)] = dvik
                         flag_view[tuple(nind)] = label[2 * iuvel + 1]
                         if self.compute_normal:
-- 
2.43.0


From 1362da8e6b66719dce206b9a40b83b95c6b7d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 27/46] fix: split loops with local moments

---
 pylbm/algorithm/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index a4128da..07b3835 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -631,14 +631,11 @@ class BaseAlgorithm:
         split = self.settings.get("split", False)
 
         space_index = self._get_space_idx_inner()
-        if m_local:
-            if split:
-                m = self._get_indexed_on_range("m", space_index)
-                local_vars = [m[0]]
-            else:
-                m = sp.MatrixSymbol("m", self.ns, 1)
-                local_vars = [m]
+        if m_local and not split:
+            m = sp.MatrixSymbol("m", self.ns, 1)
+            local_vars = [m]
         else:
+            # the moments can't be local to a point if the loops are split
             m = self._get_indexed_on_range("m", space_index)
             local_vars = []
 
-- 
2.43.0


From 5449559e2781a4fe2ae3046fd396859299bb1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:02 +0000
Subject: [PATCH 28/46] fix: source terms equal to zero with the compiled code
 and the split loops

---
 pylbm/algorithm/base.py | 6 +++++-
 pylbm/simulation.py     | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylbm/algorithm/base.py b/pylbm/algorithm/base.py
index 07b3835..7d5709b 100644
--- a/pylbm/algorithm/base.py
+++ b/pylbm/algorithm/base.py
@@ -149,7 +149,8 @@ class BaseAlgorithm:
                         rhs = v
                     else:
                         rhs = recursive_sub(v, to_subs)
-                    self.source_eq.append((lhs, rhs))
+                    if rhs != 0:
+                        self.source_eq.append((lhs, rhs))
 
         # the right hand sides of coupled source terms must be evaluated
         # before the update of the moments
@@ -659,6 +660,9 @@ class BaseAlgorithm:
         if split:
             code, group = [], []
             for i in internal:
+                if i == sp.true:
+                    # nothing to compute
+                    continue
                 group.append(i)
                 if i.lhs not in self.source_symb:
                     code.append(loop([*self.coords(space_index), *group]))
diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 0e400f8..0a6ed47 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -346,7 +346,8 @@ class Simulation:
         (the array _m is modified)
         """
         self._refresh_m()
-        self.algo.call_function("source_term", self, **kwargs)
+        if self.algo.source_eq:
+            self.algo.call_function("source_term", self, **kwargs)
 
     @monitor
     def f2m(self, **kwargs):
-- 
2.43.0


From b41d91dfd063f63da447108af86b384697f910b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 29/46] fix: expressions defined piecewise in the generated
 code

The printers wrote C statements (if (..): ... else if ... }) and the C
ternary operator, which are neither Python nor Cython.
---
 pylbm/generator/printing/cython.py | 49 +++++++-----------------------
 pylbm/generator/printing/pycode.py | 14 +--------
 2 files changed, 12 insertions(+), 51 deletions(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index 984005e..d7845bd 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -74,6 +74,7 @@ class CythonCodePrinter(CodePrinter):
 
     printmethod = "_cythoncode"
     language = "Cython"
+    _operators = {"and": "and", "or": "or", "not": "not "}
 
     _default_settings = {
         "order": None,
@@ -244,7 +245,7 @@ class CythonCodePrinter(CodePrinter):
     #     return "\n".join(lines)
 
     def _print_Piecewise(self, expr):
-        if not expr.args[-1].cond:
+        if expr.args[-1].cond != True:  # noqa: E712
             # We need the last conditional to be a True, otherwise the resulting
             # function may not return a result.
             raise ValueError(
@@ -254,30 +255,14 @@ class CythonCodePrinter(CodePrinter):
                 "expression may not evaluate to anything under "
                 "some condition."
             )
-        lines = []
-        if expr.has(Assignment):
-            for i, (e, c) in enumerate(expr.args):
-                if i == 0:
-                    lines.append("if (%s):" % self._print(c))
-                elif i == len(expr.args) - 1 and c:
-                    lines.append("else:")
-                else:
-                    lines.append("else if (%s):" % self._print(c))
-                code0 = self._print(e)
-                lines.append(code0)
-                lines.append("}")
-            return "\n".join(lines)
-        else:
-            # The piecewise was used in an expression, need to do inline
-            # operators. This has the downside that inline operators will
-            # not work for statements that span multiple lines (Matrix or
-            # Indexed expressions).
-            ecpairs = [
-                "((%s) ? (\n%s\n)\n" % (self._print(c), self._print(e))
-                for e, c in expr.args[:-1]
-            ]
-            last_line = ": (\n%s\n)" % self._print(expr.args[-1].expr)
-            return ": ".join(ecpairs) + last_line + " ".join([")" * len(ecpairs)])
+        code = "(%s)" % self._print(expr.args[-1].expr)
+        for e, c in reversed(expr.args[:-1]):
+            code = "((%s) if (%s) else %s)" % (self._print(e), self._print(c), code)
+        return code
+
+    def _print_Relational(self, expr):
+        lhs, rhs = self._print(expr.lhs), self._print(expr.rhs)
+        return "(%s) %s (%s)" % (lhs, expr.rel_op, rhs)
 
     def _print_ITE(self, expr):
         from sympy.functions import Piecewise
@@ -314,25 +299,13 @@ class CythonCodePrinter(CodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
 
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index e3374c1..aa48db7 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -1095,7 +1095,6 @@ class NumPyPrinter(PythonCodePrinter):
         return "\n".join(lines)
 
     def _print_Assignment(self, expr):
-        from sympy.functions.elementary.piecewise import Piecewise
         from sympy.matrices.expressions.matexpr import MatrixSymbol
         from sympy.matrices import MatrixBase, MatrixSlice
         from sympy.codegen.ast import Assignment
@@ -1103,18 +1102,7 @@ class NumPyPrinter(PythonCodePrinter):
         lhs = expr.lhs
         rhs = expr.rhs
         # We special case assignments that take multiple lines
-        if isinstance(expr.rhs, Piecewise):
-            # Here we modify Piecewise so each expression is now
-            # an Assignment, and then continue on the print.
-            expressions = []
-            conditions = []
-            for e, c in rhs.args:
-                expressions.append(Assignment(lhs, e))
-                conditions.append(c)
-            temp = Piecewise(*zip(expressions, conditions))
-            return self._print(temp)
-        # elif isinstance(lhs, MatrixSymbol):
-        elif isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
+        if isinstance(lhs, (MatrixBase, MatrixSymbol, MatrixSlice)):
             # Here we form an Assignment for each element in the array,
             # printing each one.
             lines = []
-- 
2.43.0


From 4df3a423b5c06924f71d77fe6bc89ced9a049699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 30/46] fix: powers with symbolic exponents in the generated
 code

---
 pylbm/generator/printing/cython.py | 2 +-
 pylbm/generator/printing/pycode.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index d7845bd..ba113c0 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -199,7 +199,7 @@ class CythonCodePrinter(CodePrinter):
             return "1.0/%s" % (self.parenthesize(expr.base, PREC))
         elif expr.exp == 0.5:
             return "sqrt(%s)" % self._print(expr.base)
-        elif expr.exp > 0 and expr.exp.is_integer:
+        elif expr.exp.is_Integer and expr.exp > 0:
             line = "%s" % (self.parenthesize(expr.base, PREC))
             for i in range(1, expr.exp):
                 line += "*" + "%s" % (self.parenthesize(expr.base, PREC))
diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index aa48db7..d8a5692 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -930,7 +930,7 @@ class NumPyPrinter(PythonCodePrinter):
 
         if expr.exp.is_integer and expr.exp.is_negative:
             expr = Pow(expr.base, expr.exp.evalf(), evaluate=False)
-        if expr.exp.is_integer and not expr.exp.is_negative:
+        if expr.exp.is_Integer and not expr.exp.is_negative:
             # Ensure base is parenthesized to preserve operator precedence
             base_str = self.parenthesize(expr.base, precedence(expr))
             line = base_str
-- 
2.43.0


From 70fbe37c9ffbc06de05f987c51912990454cffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 31/46] fix: conditions combining operands of different shapes
 in the numpy code

---
 pylbm/generator/printing/pycode.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pylbm/generator/printing/pycode.py b/pylbm/generator/printing/pycode.py
index d8a5692..af77433 100644
--- a/pylbm/generator/printing/pycode.py
+++ b/pylbm/generator/printing/pycode.py
@@ -899,20 +899,24 @@ class NumPyPrinter(PythonCodePrinter):
         # We have to override LambdaPrinter because it uses Python 'and' keyword.
         # If LambdaPrinter didn't define it, we could use StrPrinter's
         # version of the function and add 'logical_and' to NUMPY_TRANSLATIONS.
-        return "{0}.reduce(({1}))".format(
-            self._module_format("numpy.logical_and"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        # (two by two: the operands have not always the same shape)
+        function = self._module_format("numpy.logical_and")
+        code = self._print(expr.args[0])
+        for arg in expr.args[1:]:
+            code = "{0}({1}, {2})".format(function, code, self._print(arg))
+        return code
 
     def _print_Or(self, expr):
         "Logical Or printer"
         # We have to override LambdaPrinter because it uses Python 'or' keyword.
         # If LambdaPrinter didn't define it, we could use StrPrinter's
         # version of the function and add 'logical_or' to NUMPY_TRANSLATIONS.
-        return "{0}.reduce(({1}))".format(
-            self._module_format("numpy.logical_or"),
-            ",".join(self._print(i) for i in expr.args),
-        )
+        # (two by two: the operands have not always the same shape)
+        function = self._module_format("numpy.logical_or")
+        code = self._print(expr.args[0])
+        for arg in expr.args[1:]:
+            code = "{0}({1}, {2})".format(function, code, self._print(arg))
+        return code
 
     def _print_Not(self, expr):
         "Logical Not printer"
-- 
2.43.0


From eb9f77758d302f76f77b216cf3a5a76253a319df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:37 +0000
Subject: [PATCH 32/46] fix: divisions of integers in the compiled code

---
 pylbm/generator/printing/cython.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pylbm/generator/printing/cython.py b/pylbm/generator/printing/cython.py
index ba113c0..179ea94 100644
--- a/pylbm/generator/printing/cython.py
+++ b/pylbm/generator/printing/cython.py
@@ -3,6 +3,8 @@ from sympy.printing.codeprinter import CodePrinter
 from sympy.core import sympify, Eq
 from sympy.core.basic import Basic
 from sympy.core.symbol import Symbol
+from sympy.functions import Piecewise, sign
+from sympy.simplify.radsimp import fraction
 from ..ast import Assignment
 
 from sympy.printing.precedence import precedence
@@ -69,6 +71,23 @@ reserved_words = [
 ]
 
 
+def is_c_integer(expr):
+    """
+    True if the generated code of this expression is of integer type.
+    """
+    if isinstance(expr, Piecewise):
+        return all(is_c_integer(arg.expr) for arg in expr.args)
+    if expr.is_Add or expr.is_Mul:
+        return all(is_c_integer(arg) for arg in expr.args)
+    if expr.is_Pow:
+        return bool(
+            expr.exp.is_Integer and expr.exp > 0 and is_c_integer(expr.base)
+        )
+    if expr.is_Symbol:
+        return bool(expr.is_integer)
+    return expr.is_Integer or isinstance(expr, sign)
+
+
 class CythonCodePrinter(CodePrinter):
     """A printer to convert python expressions to strings of cython code"""
 
@@ -191,6 +210,16 @@ class CythonCodePrinter(CodePrinter):
         rows, cols = mat.shape
         return ((i, j) for i in range(rows) for j in range(cols))
 
+    def _print_Mul(self, expr):
+        code = super(CythonCodePrinter, self)._print_Mul(expr)
+        # the C division of two integers is not the one of the real numbers
+        num, den = fraction(expr)
+        if den != 1 and is_c_integer(num):
+            if code.startswith("-"):
+                return "-1.0*" + code[1:]
+            return "1.0*" + code
+        return code
+
     def _print_Pow(self, expr):
         if "Pow" in self.known_functions:
             return self._print_Function(expr)
-- 
2.43.0


From 1babe121a9e896dc8b6ccbb9d72a8f25a7e52dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 33/46] fix: elements across the interfaces of the processes

---
 pylbm/domain.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/pylbm/domain.py b/pylbm/domain.py
index 0c8682f..c95368a 100644
--- a/pylbm/domain.py
+++ b/pylbm/domain.py
@@ -464,14 +464,29 @@ class Domain:
         upper_left = np.asarray([self.coords[k][-1] for k in range(self.dim)])
         return bottom_right, upper_left
 
+    def __cells_range(self):
+        """
+        Indices (begin and end in each direction) of the cells of the box known by
+        the process: its own cells and those of its neighbors in the halo.
+        """
+        halo_size = self.stencil.vmax
+        cells = []
+        for i in range(self.dim):
+            beg, end = halo_size[i], self.shape_halo[i] - halo_size[i]
+            if self.box_label[2 * i] == -2:
+                beg = 0
+            if self.box_label[2 * i + 1] == -2:
+                end = self.shape_halo[i]
+            cells.append([beg, end])
+        return cells
+
     # pylint: disable=too-many-locals
     def __add_init(self, label):
         halo_size = np.asarray(self.stencil.vmax)
         phys_domain = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         phys_domain_vect = [slice(h, -h) if h > 0 else slice(None) for h in halo_size]
         self.in_or_out[:] = self.valout
-        in_view = self.in_or_out[tuple(phys_domain)]
-        in_view[:] = self.valin
+        self.in_or_out[tuple(slice(*r) for r in self.__cells_range())] = self.valin
 
         # first index: the velocity index
         # following indices: the physical points
@@ -553,10 +568,24 @@ class Domain:
         vmax = self.stencil.vmax
         elem_bl, elem_ur = elem.get_bounds()
         phys_bl, _ = self.get_bounds_halo()
-        tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax
-        nmin = np.maximum(vmax, tmp)
-        tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1
-        nmax = np.minimum(vmax + self.shape_in, tmp)
+        elem_min = np.floor((elem_bl - phys_bl) / self.dx).astype(int) - vmax
+        elem_max = np.floor((elem_ur - phys_bl) / self.dx).astype(int) + vmax + 1
+
+        # the cells of the neighbors in the halo
+        cells_slice = [
+            slice(max(beg, emin), max(beg, emin, min(end, emax)))
+            for (beg, end), emin, emax in zip(self.__cells_range(), elem_min, elem_max)
+        ]
+        tcoords = (self.coords_halo[d][s] for d, s in enumerate(cells_slice))
+        grid = np.meshgrid(*tcoords, sparse=True, indexing="ij")
+        cells_view = self.in_or_out[tuple(cells_slice)]
+        if cells_view.size:
+            cells_view[elem.point_inside(grid)] = (
+                self.valin if elem.isfluid else self.valout
+            )
+
+        nmin = np.maximum(vmax, elem_min)
+        nmax = np.minimum(vmax + self.shape_in, elem_max)
         if np.any(nmin >= nmax):
             # the element is too far from the box
             return
-- 
2.43.0


From d7c5ec31983c53b9fdaff369750504512b474096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:42 +0000
Subject: [PATCH 34/46] fix: hdf5 files written by several processes

With several processes, the grid with subdomains of different sizes or
reduced to one cell in a direction raises, and the components of the vectors
which are not doubles are sent as if they were.
---
 pylbm/hdf5.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pylbm/hdf5.py b/pylbm/hdf5.py
index 7efb40e..fb0c3dd 100644
--- a/pylbm/hdf5.py
+++ b/pylbm/hdf5.py
@@ -77,15 +77,15 @@ class H5File:
             log.warning("h5 grid redefined.")
 
         self.origin = [x[0]]
-        self.dx = [x[1] - x[0]]
+        self.dx = [self._get_step(x)]
         coords = [x]
         if y is not None:
             self.origin.append(y[0])
-            self.dx.append(y[1] - y[0])
+            self.dx.append(self._get_step(y))
             coords.append(y)
         if z is not None:
             self.origin.append(z[0])
-            self.dx.append(z[1] - z[0])
+            self.dx.append(self._get_step(z))
             coords.append(z)
 
         self.dim = len(self.origin)
@@ -103,7 +103,7 @@ class H5File:
             self.n[i] = comm.allreduce(coords[i].size, op=mpi.SUM)
             self.region.append(comm.gather(coords[i].size, root=0))
             self.global_size.append(np.sum(np.asarray(self.region[i])))
-            coords[i] = np.asarray(comm.gather(coords[i], root=0))
+            coords[i] = comm.gather(coords[i], root=0)
             comm.Free()
 
         if mpi.COMM_WORLD.Get_rank() == 0:
@@ -120,6 +120,13 @@ class H5File:
                 )
                 dset[:] = np.concatenate(coords[i])
 
+    @staticmethod
+    def _get_step(x):
+        """
+        get the space step (None with only one point)
+        """
+        return x[1] - x[0] if len(x) > 1 else None
+
     def _get_slice(self, rank):
         """
         get the part own by the processor rank and
@@ -245,7 +252,11 @@ class H5File:
             self.vectors[name] = self.h5filename + ":/" + name
         else:
             for i, data in enumerate(datas):
-                comm.Send([np.ascontiguousarray(data.T), mpi.DOUBLE], dest=0, tag=i)
+                comm.Send(
+                    [np.ascontiguousarray(data.T, dtype=np.double), mpi.DOUBLE],
+                    dest=0,
+                    tag=i,
+                )
 
     def save(self):
         """
-- 
2.43.0


From f655ce2b1f03448944520556b97d5e716290a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:49 +0000
Subject: [PATCH 35/46] fix: equivalent equations of the schemes with a
 relative velocity

The relaxation is made in the frame of the relative velocity: the terms of
second order depend on it when the parameters are not the same.
---
 pylbm/analysis/equivalent_equation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylbm/analysis/equivalent_equation.py b/pylbm/analysis/equivalent_equation.py
index 21fce74..cee1ae0 100644
--- a/pylbm/analysis/equivalent_equation.py
+++ b/pylbm/analysis/equivalent_equation.py
@@ -10,7 +10,7 @@ Symbolic computation of equivalent equations
 
 # pylint: disable=invalid-name
 import sympy as sp
-from ..symbolic import alltogether
+from ..symbolic import alltogether, rel_ux, rel_uy, rel_uz
 
 
 class EquivalentEquation:
@@ -50,7 +50,13 @@ class EquivalentEquation:
 
         phi1 = sp.zeros(s.shape[0], 1)  # pylint: disable=unsubscriptable-object
         inv_s = [1 / v for v in s]
-        sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2
+        sigma = sp.diag(*inv_s)
+        if scheme.rel_vel is not None:
+            # the moments are relaxed in the frame of the relative velocity
+            sigma = scheme.Tmu[nconsm:, nconsm:] * sigma * scheme.Tu[nconsm:, nconsm:]
+            sigma = sigma.subs(list(zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)))
+            sigma = sigma.subs(sublist)
+        sigma -= sp.eye(len(s)) / 2
         gamma_1 = sp.zeros(nconsm, 1)
 
         self.coeff_order1 = []
-- 
2.43.0


From 3f5796252bd9e2c62673debfa9e1e401472b5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:26 +0000
Subject: [PATCH 36/46] fix: stability of the schemes with a relative velocity
 and several conserved moments

The equilibrium was linearised with respect to the conserved moments in the
frame of the relative velocity instead of those in the fixed frame.
---
 pylbm/analysis/stability.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pylbm/analysis/stability.py b/pylbm/analysis/stability.py
index 237d91a..2b680c8 100644
--- a/pylbm/analysis/stability.py
+++ b/pylbm/analysis/stability.py
@@ -47,18 +47,17 @@ class Stability:
         self.is_stable_l2 = True
         self.verbose = verbose
 
-        if scheme.rel_vel is None:
-            jacobian = scheme.EQ.jacobian(self.consm)
-        else:
-            jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)
-        relax_mat_m = sp.eye(self.nvtot) - sp.diag(*scheme.s)
-        relax_mat_m[:, : len(self.consm)] += sp.diag(*scheme.s) * jacobian
-
+        jacobian = scheme.EQ.jacobian(self.consm)
+        relax_mat_s = sp.diag(*scheme.s)
         if scheme.rel_vel is not None:
-            relax_mat_m = scheme.Tmu * relax_mat_m * scheme.Tu
-            relax_mat_m = relax_mat_m.subs(
+            # the relaxation is made in the frame of the relative velocity
+            relax_mat_s = scheme.Tmu * relax_mat_s * scheme.Tu
+            relax_mat_s = relax_mat_s.subs(
                 [(i, j) for i, j in zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)]
             )
+        relax_mat_m = sp.eye(self.nvtot) - relax_mat_s
+        relax_mat_m[:, : len(self.consm)] += relax_mat_s * jacobian
+
         self.relax_mat_f = scheme.invM * relax_mat_m * scheme.M
         # alltogether(self.relax_mat_f)
 
-- 
2.43.0


From 0b69302fc7676d490581f9c3a044ee11afa261b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 37/46] fix: validation of the boundary conditions and of
 codegen_option

A boundary condition which is not a dictionary was accepted, and generate
can be given without directory.
---
 pylbm/simulation.py | 3 ++-
 pylbm/validator.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index 0a6ed47..af3f514 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -112,7 +112,8 @@ class Simulation:
         codegen_dir, generate = None, True
         codegen_opt = dico.get("codegen_option", None)
         if codegen_opt:
-            codegen_dir = os.path.realpath(codegen_opt["directory"])
+            if "directory" in codegen_opt:
+                codegen_dir = os.path.realpath(codegen_opt["directory"])
             generate = codegen_opt.get("generate", True)
 
         self.generator = Generator(
diff --git a/pylbm/validator.py b/pylbm/validator.py
index de8f607..fe01445 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -319,7 +319,7 @@ def validate(dico, name):
                             },
                   'boundary_conditions': {'type': 'dict',
                                           'keysrules': {'type': 'integer'},
-                                          'valuesrules': {'schema': boundary},
+                                          'valuesrules': {'type': 'dict', 'schema': boundary},
                                          },
                   'relative_velocity': {'type': 'list',
                                         'schema': {'anyof_type': ['number', 'expr']}
-- 
2.43.0


From c21193bf82080759d50f4f6adae8e95ab1359db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:59 +0000
Subject: [PATCH 38/46] fix: code of another simulation generated in the same
 directory

The extension loaded before from the same path, or the outdated byte code of
a module of the same size written in the same second, was used.
---
 pylbm/generator/autowrap.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pylbm/generator/autowrap.py b/pylbm/generator/autowrap.py
index 3b7225d..04c20aa 100644
--- a/pylbm/generator/autowrap.py
+++ b/pylbm/generator/autowrap.py
@@ -7,6 +7,7 @@ import shutil
 import tempfile
 from subprocess import STDOUT, CalledProcessError, check_output
 import importlib
+import importlib.machinery
 
 from .codegen import get_code_generator
 
@@ -19,6 +20,7 @@ class CodeWrapper(object):
     """Base Class for code wrappers"""
 
     _module_name = "wrapped_module"
+    _suffixes = importlib.machinery.SOURCE_SUFFIXES
 
     @property
     def filename(self):
@@ -53,22 +55,29 @@ class CodeWrapper(object):
         if not os.access(self.workdir, os.F_OK):
             os.mkdir(self.workdir)
 
+        # the module is loaded from a new directory: otherwise, an extension already
+        # loaded from the same path or an outdated byte code could be used instead
+        importdir = tempfile.mkdtemp("_pylbm_import")
         try:
-            sys.path.append(self.workdir)
             if self.generate:
                 self._prepare_files(routines)
                 self._generate_code(routines)
                 self._process_files(routines)
+            for suffix in self._suffixes:
+                if os.path.exists(self.full_path + suffix):
+                    shutil.copy(self.full_path + suffix, importdir)
+            sys.path.insert(0, importdir)
             if self.module_name in sys.modules:
                 sys.modules.pop(self.module_name)
             importlib.invalidate_caches()
             mod = importlib.import_module(self.module_name)
         finally:
-            sys.path.remove(self.workdir)
+            if importdir in sys.path:
+                sys.path.remove(importdir)
             self._module_counter += 1
-            if not self.filepath:
+            for path in [importdir] if self.filepath else [importdir, self.workdir]:
                 try:
-                    shutil.rmtree(self.workdir)
+                    shutil.rmtree(path)
                 except OSError:
                     # Could be some issues on Windows
                     pass
@@ -91,6 +100,8 @@ class CodeWrapper(object):
 
 
 class CythonCodeWrapper(CodeWrapper):
+    _suffixes = importlib.machinery.EXTENSION_SUFFIXES
+
     setup_template = """\
 from setuptools import setup
 from setuptools import Extension
-- 
2.43.0


From f4a01de2ea91f97a51434a835c436dc6ace162a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 39/46] fix: STL elements on a grid of one cell in a direction
 raise an exception

---
 pylbm/elements/stl_element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index 9ecc0d2..e38dbf5 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -58,7 +58,8 @@ def intersection(grid, v, tri):
     # right member of the intersection problem
     # it depends on the grid and is a (xsize, ysize, zsize) vector
     x, y, z = grid
-    P = np.asarray([x - tri[0], y - tri[1], z - tri[2]], dtype=object)
+    P = np.empty(3, dtype=object)
+    P[:] = x - tri[0], y - tri[1], z - tri[2]
     # solve the problem
     sol = invA.dot(P)
     # test if the intersection point is
-- 
2.43.0


From 01cfb2f92147ba5e2b8036e991878db21d884b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 40/46] fix: normals of the STL elements neither of norm 1 nor
 opposite to the direction

---
 pylbm/elements/stl_element.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index e38dbf5..d3a1ae3 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -160,6 +160,12 @@ class STLElement(Element):
             normal_x = np.zeros(shape)
             normal_y = np.zeros(shape)
             normal_z = np.zeros(shape)
+            # the norm of the normals of the mesh depends on the area
+            unit_normals = self.mesh.get_unit_normals()
+            # as for the other elements, they are opposite to the direction
+            unit_normals = np.where(
+                unit_normals.dot(v)[:, np.newaxis] > 0, -unit_normals, unit_normals
+            )
         # loop over the triangles
         for ind_tri in range(self.nb_tri):
             tri = self.mesh.points[ind_tri, :]
@@ -172,9 +178,9 @@ class STLElement(Element):
                 alpha[indices] = s[indices]
                 border[indices] = self.label[0]
                 if normal:
-                    normal_x[indices] = self.mesh.normals[ind_tri][0]
-                    normal_y[indices] = self.mesh.normals[ind_tri][1]
-                    normal_z[indices] = self.mesh.normals[ind_tri][2]
+                    normal_x[indices] = unit_normals[ind_tri][0]
+                    normal_y[indices] = unit_normals[ind_tri][1]
+                    normal_z[indices] = unit_normals[ind_tri][2]
         if normal:
             normal = np.zeros(tuple(list(shape) + [3]))
             normal[..., 0] = normal_x
-- 
2.43.0


From 8463ef98f3ccfc958001f95d289e3705effeff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 41/46] fix: points outside of a STL element on a line through
 one of its edges are said inside

---
 pylbm/elements/stl_element.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pylbm/elements/stl_element.py b/pylbm/elements/stl_element.py
index d3a1ae3..316cd0f 100644
--- a/pylbm/elements/stl_element.py
+++ b/pylbm/elements/stl_element.py
@@ -65,9 +65,12 @@ def intersection(grid, v, tri):
     # test if the intersection point is
     # - inside the triangle: s is computed
     # - outside the triangle: s = np.inf
+    # (a tolerance is needed: a line that passes through an edge
+    #  must not be between the two triangles)
+    eps = 1.0e-12
     indin = np.logical_and(
-        np.logical_and(sol[0] >= 0, sol[1] >= 0),
-        np.logical_and(sol[0] + sol[1] <= 1, sol[2] >= 0),
+        np.logical_and(sol[0] >= -eps, sol[1] >= -eps),
+        np.logical_and(sol[0] + sol[1] <= 1 + eps, sol[2] >= 0),
     )
     s = np.full((x.size, y.size, z.size), np.inf)
     s[indin] = sol[2][indin]
@@ -129,14 +132,17 @@ class STLElement(Element):
 
     def point_inside(self, grid):
         shape = tuple([gk.size for gk in grid])
-        in_or_out = np.full(shape, False, dtype=bool)
+        votes = np.zeros(shape, dtype=int)
         smin = np.full(shape, np.inf)
+        eps = 1.0e-12 * np.max(self.mesh.max_ - self.mesh.min_)
 
         # for each spatial direction, we plot a line
         # and we compute the distance of the first intersection
         # with the element in that direction.
         # if the normal is in the opposite side, the point is outside
+        # the majority is kept as a line can be tangent to the element on an edge
         for direction in range(self.dim):
+            in_or_out = np.full(shape, False, dtype=bool)
             smin[:] = np.inf
             v = np.zeros((self.dim,))
             v[direction] = 1
@@ -144,13 +150,15 @@ class STLElement(Element):
                 tri = self.mesh.points[ind_tri, :]
                 s = intersection(grid, v, tri)
                 if s is not None:
-                    indices = np.asarray(s < smin).nonzero()
+                    outgoing = np.inner(v, self.mesh.normals[ind_tri]) >= 0
+                    # an edge between an incoming face and an outgoing one
+                    # is seen as a tangent point from the outside
+                    tol = -eps if outgoing else eps
+                    indices = np.logical_and(s < np.inf, s <= smin + tol).nonzero()
                     smin[indices] = s[indices]
-                    if np.inner(v, self.mesh.normals[ind_tri]) >= 0:
-                        in_or_out[indices] = True
-                    else:
-                        in_or_out[indices] = False
-        return in_or_out
+                    in_or_out[indices] = outgoing
+            votes += in_or_out
+        return 2 * votes > self.dim
 
     def distance(self, grid, v, dmax=None, normal=False):
         shape = tuple([gk.size for gk in grid])
-- 
2.43.0


From ab3d77cb585bc14a7452e888eaf07e3bee4068f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 42/46] fix: circular cylinders whose two vectors are not
 orthogonal are not circular

---
 pylbm/elements/base.py     | 3 +++
 pylbm/elements/cylinder.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pylbm/elements/base.py b/pylbm/elements/base.py
index 63dafc0..c7e1b34 100644
--- a/pylbm/elements/base.py
+++ b/pylbm/elements/base.py
@@ -165,6 +165,9 @@ class BaseCircle:
             err_msg = "Error in the definition of the cylinder: "
             err_msg += "the vectors are colinear"
             log.error(err_msg)
+        else:
+            # both vectors are radii of the circle
+            self.v2 = self.v2 * (radius / nv2)
         log.info(self.__str__())
 
     def get_bounds(self):
diff --git a/pylbm/elements/cylinder.py b/pylbm/elements/cylinder.py
index 0cf268c..331f277 100644
--- a/pylbm/elements/cylinder.py
+++ b/pylbm/elements/cylinder.py
@@ -341,11 +341,12 @@ class CylinderCircle(Cylinder):
     def __init__(self, center, v1, v2, w, label=0, isfluid=False):
         self.number_of_bounds = 3  # number of edges
         self.center = np.asarray(center)
-        self.v1 = np.asarray(v1)
-        self.v2 = np.asarray(v2)
+        self.base = BaseCircle(self.center, v1, v2)
+        # orthogonal radii of the base
+        self.v1 = self.base.v1
+        self.v2 = self.base.v2
         self.w = np.asarray(w)
         self.change_of_variables()
-        self.base = BaseCircle(self.center, self.v1, self.v2)
         Cylinder.__init__(self, label, isfluid)
 
 
-- 
2.43.0


From d4b8595d1143c5931080457fd2613af0655f63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 43/46] fix: moments read during a time step leave stale
 moments after it

---
 pylbm/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylbm/simulation.py b/pylbm/simulation.py
index af3f514..dec7944 100644
--- a/pylbm/simulation.py
+++ b/pylbm/simulation.py
@@ -430,6 +430,8 @@ class Simulation:
 
         self.algo.call_function("one_time_step", self, **kwargs)
         self.container.F, self.container.Fnew = self.container.Fnew, self.container.F
+        # the moments may have been read by the boundary conditions
+        self._update_m = True
 
         self.t += self.dt
         self.nt += 1
-- 
2.43.0


From 505f90a0ba027329c406c2b03964ecc048618177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 44/46] fix: entries of a wrong size are logged and accepted

---
 pylbm/geometry.py |  1 +
 pylbm/scheme.py   | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylbm/geometry.py b/pylbm/geometry.py
index 7069a08..aae44b1 100644
--- a/pylbm/geometry.py
+++ b/pylbm/geometry.py
@@ -125,6 +125,7 @@ class Geometry:
                 err_msg = "The list label of the box has the wrong size "
                 err_msg += "(must be 2*dim)"
                 log.error(err_msg)
+                raise ValueError(err_msg)
             self.box_label = dummylab
         else:
             log.error("The labels of the box must be an integer or a list")
diff --git a/pylbm/scheme.py b/pylbm/scheme.py
index d1f5978..63743bc 100644
--- a/pylbm/scheme.py
+++ b/pylbm/scheme.py
@@ -147,6 +147,10 @@ class Scheme:
 
         # set relative velocity
         self.rel_vel = dico.get("relative_velocity", None)
+        if self.rel_vel is not None and len(self.rel_vel) != self.dim:
+            err_msg = "the size of the relative velocity must be the dimension"
+            log.error(err_msg)
+            raise ValueError(err_msg)
 
         # fix the variables of time and space
         self.symb_t, self.symb_coord = self._get_space_and_time_symbolic()
@@ -250,15 +254,15 @@ class Scheme:
             ls = len(s[key])
             nv = self.stencil.nv[i]
             if ls != nv:
-                log.error(
-                    dedent(
-                        """\
-                                the size of the entry for the key {0} in the scheme {1}
-                                has not the same size of the stencil {1}: {2}, {3}""".format(
-                            key, i, ls, nv
-                        )
+                err_msg = dedent(
+                    """\
+                    the size of the entry for the key {0} in the scheme {1}
+                    has not the same size of the stencil {1}: {2}, {3}""".format(
+                        key, i, ls, nv
                     )
                 )
+                log.error(err_msg)
+                raise ValueError(err_msg)
 
     def __str__(self):
         from .utils import header_string
-- 
2.43.0


From 57f469010676d951575ed9a910844dfc508afc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:07 +0000
Subject: [PATCH 45/46] fix: a box with x and z only is accepted

---
 pylbm/validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylbm/validator.py b/pylbm/validator.py
index fe01445..07fe266 100644
--- a/pylbm/validator.py
+++ b/pylbm/validator.py
@@ -271,7 +271,8 @@ def validate(dico, name):
                                      'z': {'type': 'list',
                                            'items': [{'type': 'number'},
                                                      {'type': 'number'}
-                                                    ]
+                                                    ],
+                                           'dependencies': 'y'
                                           },
                                      'label': {'anyof': [{'type': 'integer'},
                                                          {'type' : 'list',
-- 
2.43.0


From 1fc41418e2c545245f47fe2baf47238870423ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:31 +0000
Subject: [PATCH 46/46] fix: equilibria with an exponential overflow

---
 pylbm/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylbm/symbolic.py b/pylbm/symbolic.py
index c542ea6..8b8f586 100644
--- a/pylbm/symbolic.py
+++ b/pylbm/symbolic.py
@@ -269,6 +269,9 @@ def alltogether(M, nsimplify=False):
     """
     for i in range(M.shape[0]):
         for j in range(M.shape[1]):
+            if sp.sympify(M[i, j]).has(sp.exp):
+                # exp(-x) + 1 would become (1 + exp(x))*exp(-x) which is nan for a large x
+                continue
             if nsimplify:
                 M[i, j] = M[i, j].expand().together().factor().nsimplify()
             else:
-- 
2.43.0

