From d886fd127889fefec4ccf12d36f4b7c1cb0d7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:07 +0000
Subject: [PATCH 01/35] fix: use nodal basis functions for serendipity elements
 (QUAD8, HEX20)

basix's serendipity elements use integral moments as edge degrees of freedom,
so the tabulated functions are not 1/0 at mid-edge nodes. Change to the nodal
basis, so that mid-edge node values are point values of the field.
---
 feax/basis.py                           | 33 ++++++++++++++++++++++---
 feax/gene/sdf.py                        |  4 +--
 feax/mechanics/layered_solid_element.py |  7 +++---
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/feax/basis.py b/feax/basis.py
index de13f9b..66ad36b 100644
--- a/feax/basis.py
+++ b/feax/basis.py
@@ -126,6 +126,33 @@ def get_elements(ele_type: str) -> Tuple[basix.ElementFamily, basix.CellType, ba
     return element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order
 
 
+class _NodalSerendipity:
+    """Serendipity element with nodal (Lagrange) basis functions.
+
+    The edge degrees of freedom of basix's serendipity elements are integral
+    moments, so its basis functions are not 1 / 0 at the mid-edge nodes. Mesh
+    nodes carry point values, hence the change of basis to the nodal one.
+    """
+
+    def __init__(self, element: basix.finite_element.FiniteElement, basix_ele: basix.CellType):
+        self._element = element
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.vstack([vertices, [vertices[edge].mean(axis=0) for edge in edges]])
+        self._to_nodal = onp.linalg.inv(element.tabulate(0, nodes)[0, :, :, 0])
+
+    def tabulate(self, n: int, points: Array) -> Array:
+        return onp.einsum('dpbv,bn->dpnv', self._element.tabulate(n, points), self._to_nodal)
+
+
+def create_nodal_element(element_family: basix.ElementFamily, basix_ele: basix.CellType, degree: int):
+    """Create the element whose basis functions are nodal (in basix node order)."""
+    element = basix.create_element(element_family, basix_ele, degree)
+    if element_family == basix.ElementFamily.serendipity:
+        return _NodalSerendipity(element, basix_ele)
+    return element
+
+
 def reorder_inds(inds: Array, re_order: List[int]) -> Array:
     """Apply node re-ordering transformation to match basix conventions.
     
@@ -189,7 +216,7 @@ def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -
         gauss_order = gauss_order_default
 
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     # Tabulate shape function values and gradients, shape: (derivative, point, basis fn index, value index)
     vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
@@ -219,7 +246,7 @@ def get_shape_hessians_ref(ele_type: str, gauss_order: Optional[int] = None) ->
         gauss_order = gauss_order_default
 
     quad_points, _ = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     tab = element.tabulate(2, quad_points)[:, :, re_order, 0]
     # tab shape: (num_derivs, num_quads, num_nodes)
 
@@ -317,7 +344,7 @@ def get_face_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = No
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
+    element = create_nodal_element(element_family, basix_ele, degree)
     vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..5de1488 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -29,7 +29,7 @@ import meshio
 import numpy as onp
 from scipy.spatial import cKDTree
 
-from feax.basis import get_elements
+from feax.basis import create_nodal_element, get_elements
 
 
 # ---------------------------------------------------------------------------
@@ -516,7 +516,7 @@ class DensityField(SDF):
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
         self._re_order = onp.array(re_order)
-        self._element = basix.create_element(family, basix_ele, degree)
+        self._element = create_nodal_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
         # Fast path flag: TET4 / TRI3 have linear maps → direct solve
diff --git a/feax/mechanics/layered_solid_element.py b/feax/mechanics/layered_solid_element.py
index 0ff1f16..1b09f54 100644
--- a/feax/mechanics/layered_solid_element.py
+++ b/feax/mechanics/layered_solid_element.py
@@ -40,11 +40,10 @@ from typing import Callable, Iterable, Optional, Sequence, Tuple, Union
 import jax
 import jax.numpy as np
 import numpy as onp
-import basix
 import jax.flatten_util
 
 import feax as fe
-from feax.basis import get_elements
+from feax.basis import create_nodal_element, get_elements
 from feax.traced_params import TracedParams
 
 
@@ -298,7 +297,7 @@ def _tabulate_reference(ele_type: str, ref_points: onp.ndarray) -> np.ndarray:
     given points (in feax node ordering). Returns ``(nq, num_nodes, dim)``.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
+    element = create_nodal_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
     tab = element.tabulate(1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
     dNdxi = onp.transpose(tab[1:, :, :, 0], axes=(1, 2, 0))  # (q, node, dim)
@@ -312,7 +311,7 @@ def _tabulate_reference_vals(ele_type: str, ref_points: onp.ndarray) -> np.ndarr
     ``(nq, num_nodes)`` in feax node ordering.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
+    element = create_nodal_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
     tab = element.tabulate(0, pts)[:, :, re_order, :]   # (1, q, node, val)
     return np.asarray(tab[0, :, :, 0])                  # (q, node)
-- 
2.43.0


From 4aa13f6f4041d7fb3d209e4bf51fddb469d78416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:40 +0000
Subject: [PATCH 02/35] fix: linear solver propagates overridden Dirichlet
 values to the interior

With symmetric elimination the boundary columns are dropped from the operator,
so values that are not already in the linearization point never reached the
free unknowns (solver(..., bc=other) or an arbitrary initial guess).
---
 feax/solvers/linear.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..e290afa 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -322,6 +323,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -373,10 +375,26 @@ def create_linear_solver(
         _dev_id = int(getattr(_cudss, "device_id", 0) or 0)
         _reuse_factor = _mtype_id in (1, 3)   # SYMMETRIC or SPD => J = Jᵀ
 
+    def _lift_bc(initial_guess, effective_bc):
+        # Symmetric elimination drops the BC columns (K_fb), so the prescribed
+        # values must already be in the linearization point: otherwise a
+        # ``bc=`` override (or an arbitrary guess) never reaches the interior.
+        return initial_guess.at[effective_bc.bc_rows].set(effective_bc.bc_vals)
+
+    def _correct_adjoint_bc(adjoint_vec, v, traced_params, sol, effective_bc, ts):
+        # λ_bc = v_bc - K_fb^T λ_free: the eliminated columns enter the bc_vals
+        # gradient through the lifted boundary values.
+        if not symmetric_elimination:
+            return adjoint_vec
+        rows = effective_bc.bc_rows
+        ktw = matfree_Kt_param(sol, traced_params, ts)(adjoint_vec.at[rows].set(0.0))
+        return adjoint_vec.at[rows].set(v[rows] - ktw[rows])
+
     if _reuse_factor:
         from spineax.cudss.factor_solve import factorize as _factorize, solve_with as _solve_with
 
         def _factor_and_solve(initial_guess, traced_params, effective_bc, ts):
+            initial_guess = _lift_bc(initial_guess, effective_bc)
             res = res_bc_parametric(initial_guess, traced_params, effective_bc, ts)
             op = J_bc_csr_parametric(initial_guess, traced_params, effective_bc, ts)
             token = _factorize(op.data, op.indptr, op.indices,
@@ -389,6 +407,7 @@ def create_linear_solver(
         if _reuse_factor:
             sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol
+        initial_guess = _lift_bc(initial_guess, effective_bc)
         # Operator follows the solve method: direct assembles a CSR matrix;
         # Krylov uses the matrix-free (residual JVP) matvec — no assembly.
         if _fwd_direct:
@@ -428,6 +447,8 @@ def create_linear_solver(
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            adjoint_vec = _correct_adjoint_bc(
+                adjoint_vec, v, traced_params, sol, effective_bc, ts)
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -465,6 +486,8 @@ def create_linear_solver(
             effective_bc,
             linear_solve_fn=adjoint_linear_solve_fn
         )
+        adjoint_vec = _correct_adjoint_bc(
+            adjoint_vec, v, traced_params, sol, effective_bc, ts)
 
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
-- 
2.43.0


From adbe1891cb63836f00afa838d30e8864895c5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:19 +0000
Subject: [PATCH 03/35] fix: Krylov adjoint transposes non-symmetric operators

Symmetric elimination only treats the Dirichlet rows/columns; with bicgstab or
gmres on a non-symmetric weak form the backward solve used J instead of its
transpose and returned wrong gradients.
---
 feax/solvers/linear.py | 10 ++++++++--
 feax/solvers/newton.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index e290afa..b384122 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -473,9 +473,15 @@ def create_linear_solver(
             J_adjoint = transpose_with_maps(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
-        elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
+        elif symmetric_elimination and adjoint_solver_options.solver == "cg":
+            # CG presumes a symmetric operator: Jᵀ = J (matrix-free matvec).
             _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+        elif symmetric_elimination:
+            # Eliminating BC rows and columns does not make a non-symmetric
+            # operator symmetric: apply Kᵀ with the BC rows/columns masked.
+            Kt = matfree_Kt_param(sol, traced_params, ts)
+            mask = effective_bc.bc_mask
+            J_adjoint = lambda w: np.where(mask, w, Kt(np.where(mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..b2a7b17 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1041,9 +1041,15 @@ def create_callback_newton_solver(
             J_adjoint = transpose_with_maps(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
-        elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
+        elif symmetric_elimination and adjoint_linear_options.solver == "cg":
+            # CG presumes a symmetric operator: Jᵀ = J (matrix-free matvec).
             _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+        elif symmetric_elimination:
+            # Eliminating BC rows and columns does not make a non-symmetric
+            # operator symmetric: apply Kᵀ with the BC rows/columns masked.
+            Kt = matfree_Kt_param(sol, traced_params, ts)
+            mask = effective_bc.bc_mask
+            J_adjoint = lambda w: np.where(mask, w, Kt(np.where(mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
-- 
2.43.0


From bd8fea7163bf1844e66b781acfd840e6391bbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:04 +0000
Subject: [PATCH 04/35] fix: zero-surface-Jacobian probe no longer trusts zero
 sample coefficients

---
 feax/assembler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 4391556..f16a0d9 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1343,14 +1343,21 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     try:
         n = problem.num_total_dofs_all_vars
         # Two asymmetric nonzero patterns: a genuinely u-dependent map is
-        # vanishingly unlikely to have an exactly-zero tangent at both.
-        for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
+        # vanishingly unlikely to have an exactly-zero tangent at both. The
+        # sample ``surface_vars`` are shifted for the second one, so that a
+        # coefficient that merely happens to be zero in the sample (e.g. a Robin
+        # coefficient) is not mistaken for a dead load.
+        shifted_vars = jax.tree_util.tree_map(
+            lambda a: a + 0.37, traced_params.surface_vars)
+        for sol_flat, surface_vars in (
+                (np.linspace(0.13, 1.0, n), traced_params.surface_vars),
+                (np.linspace(-0.9, 0.41, n), shifted_vars)):
             sol_list = problem.unflatten_fn_sol_list(sol_flat)
             cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
             cells_sol_flat = jax.vmap(
                 lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
             _, jacs = compute_face(problem, cells_sol_flat, True,
-                                   traced_params.surface_vars, ts)
+                                   surface_vars, ts)
             for j in jacs:
                 if float(np.max(np.abs(j))) != 0.0:
                     return False
-- 
2.43.0


From 0355d7aa0d76df31d5ad0a224bca048421a5c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 05/35] fix: Newton bc-value gradients for UPPER/LOWER matrix
 views

---
 feax/solvers/newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index b2a7b17..60e1578 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1063,10 +1063,11 @@ def create_callback_newton_solver(
 
         # Symmetric-elimination BC correction so bc_vals gradients are correct:
         #   λ_bc = v_bc - K_fb^T λ_free,  with K_bulk the un-eliminated Jacobian
-        #   (assembled transpose for direct, matrix-free VJP for Krylov).
+        #   (assembled transpose for direct, matrix-free VJP for Krylov and for
+        #   UPPER/LOWER views, whose CSR data holds only one triangle).
         if _needs_bc_correction:
             lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
+            if _adj_direct and use_transpose:
                 sol_list = problem.unflatten_fn_sol_list(sol)
                 kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                 K_bulk = CSRMatrix(kdata, kindptr, kindices,
-- 
2.43.0


From fab929de3d9d8dab4dcfbd5e1fe242033e4d1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:16 +0000
Subject: [PATCH 06/35] fix: start Newton from the prescribed boundary values
 (bc override or off-bc guess stalled the line search)

---
 feax/solvers/newton.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 60e1578..0d324fe 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -267,6 +267,9 @@ def _create_differentiable_newton_solver(
         """
         from ..DCboundary import DirichletBC
         effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
+        # Start from the prescribed values: with the BC columns eliminated, a
+        # guess off them makes the first Newton direction inexact.
+        initial_guess = np.asarray(initial_guess).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
         return differentiable_solve(traced_params, initial_guess, effective_bc, traced_structure)
 
     _default_bc = bc
@@ -1114,6 +1117,9 @@ def create_callback_newton_solver(
         from ..DCboundary import DirichletBC
         effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
         ig = default_initial_guess if initial_guess is None else initial_guess
+        # Start from the prescribed values: with the BC columns eliminated, a
+        # guess off them makes the first Newton direction inexact.
+        ig = np.asarray(ig).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
         return differentiable_solve(traced_params, ig, effective_bc, traced_structure)
 
     return solver
-- 
2.43.0


From e2e163bcc361918a92c6a5c7485de4d1421a52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:50 +0000
Subject: [PATCH 07/35] fix: periodic_bc_3D pairs faces and edges of unit cells
 that do not start at the origin

---
 feax/flat/pbc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 1235a67..53041be 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -337,12 +337,13 @@ def periodic_bc_3D(
         - Each geometric pairing is replicated for each DoF component
     """
 
-    L = unitcell.ub - unitcell.lb
+    lb, ub = unitcell.lb, unitcell.ub
+    L = ub - lb
 
     face_pairs = []
     for axis in range(dim):
-        master_fn = unitcell.face_function(axis, 0, excluding_edge=True)
-        slave_fn = unitcell.face_function(axis, L[axis], excluding_edge=True)
+        master_fn = unitcell.face_function(axis, lb[axis], excluding_edge=True)
+        slave_fn = unitcell.face_function(axis, ub[axis], excluding_edge=True)
         for i in range(vec):
             face_pairs.append(
                 PeriodicPairing(
@@ -352,8 +353,9 @@ def periodic_bc_3D(
 
     edge_pairs = []
     for axes in [[1, 2], [0, 2], [0, 1]]:
-        for values in [[L[axes[0]], 0], [L[axes[0]], L[axes[1]]], [0, L[axes[1]]]]:
-            master_fn = unitcell.edge_function(axes, [0, 0], excluding_corner=True)
+        lo, hi = [lb[a] for a in axes], [ub[a] for a in axes]
+        for values in [[hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]]:
+            master_fn = unitcell.edge_function(axes, lo, excluding_corner=True)
             slave_fn = unitcell.edge_function(axes, values, excluding_corner=True)
             for i in range(vec):
                 edge_pairs.append(
-- 
2.43.0


From d1f3083a6cade038b8bca64b58a0d0e58c2a5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:15 +0000
Subject: [PATCH 08/35] fix: reduced (periodic) solves honour overridden
 Dirichlet values in the solution and its gradient

---
 feax/solvers/reduced.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 501fe7b..05a70e4 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -23,6 +23,7 @@ import jax
 import jax.numpy as np
 
 from ..assembler import (
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
 )
@@ -150,6 +151,17 @@ def _make_reduced_side_solve(problem, bc, P, options, n_red, namespace):
     return (lambda matvec, b: fn(matvec, b, np.zeros_like(b))), False
 
 
+def _lift_bc(dofs, bc):
+    """Set the prescribed values: elimination drops their coupling to the free rows."""
+    return np.asarray(dofs).at[bc.bc_rows].set(bc.bc_vals)
+
+
+def _bc_adjoint(adjoint_full, v, Kt, bc):
+    """Dirichlet rows of the adjoint: ``λ_bc = v_bc - K_fbᵀ λ_free``."""
+    lam_free = adjoint_full.at[bc.bc_rows].set(0.0)
+    return lam_free.at[bc.bc_rows].set((v - Kt(lam_free))[bc.bc_rows])
+
+
 def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options):
     """Create the reduced solver for periodic boundary conditions.
 
@@ -186,6 +198,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     # symmetric Dirichlet elimination, so the same matvec serves the adjoint
     # (Jᵀ = J).
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
     _default_bc = bc
@@ -205,6 +218,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
         # One matfree pass returns the BC-applied residual and the tangent
         # matvec (J_bc @ w via JVP); the reduced operator is Pᵀ J_bc P.
+        initial_guess_full = _lift_bc(initial_guess_full, effective_bc)
         res_full, J_matvec = matfree_res_J(
             initial_guess_full, traced_params, effective_bc, ts
         )
@@ -240,7 +254,8 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
 
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _bc_adjoint(
+            P @ adjoint_reduced, v, matfree_Kt(sol, traced_params, ts), effective_bc)
 
         # VJP of residual w.r.t. traced_params and bc
         u_total_list = problem.unflatten_fn_sol_list(sol)
@@ -290,6 +305,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
     )
 
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
 
     n_red = int(P.shape[1])
@@ -310,6 +326,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         return res_full, matvec
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
+        initial_guess_full = _lift_bc(initial_guess_full, effective_bc)
         res_full, matvec = _operator(initial_guess_full, traced_params, effective_bc, ts)
         res_reduced = P.T @ res_full
         op = assemble(matvec) if fwd_assembled else matvec
@@ -333,7 +350,8 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
-        adjoint_full = P @ adjoint_reduced
+        adjoint_full = _bc_adjoint(
+            P @ adjoint_reduced, v, matfree_Kt(sol, traced_params, ts), effective_bc)
 
         u_total_list = problem.unflatten_fn_sol_list(sol)
         adjoint_list = problem.unflatten_fn_sol_list(adjoint_full)
-- 
2.43.0


From 62f19062275e211f81a2dbae03fde6d2575869eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:45 +0000
Subject: [PATCH 09/35] fix: reduced (periodic) adjoint transposes
 non-symmetric operators

---
 feax/solvers/reduced.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 05a70e4..286fc5f 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -162,6 +162,14 @@ def _bc_adjoint(adjoint_full, v, Kt, bc):
     return lam_free.at[bc.bc_rows].set((v - Kt(lam_free))[bc.bc_rows])
 
 
+def _bc_transpose(Kt, bc):
+    """``w ↦ J_bcᵀ w`` of the symmetrically eliminated operator."""
+    def matvec(w):
+        w_free = w.at[bc.bc_rows].set(0.0)
+        return Kt(w_free).at[bc.bc_rows].set(w[bc.bc_rows])
+    return matvec
+
+
 def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options):
     """Create the reduced solver for periodic boundary conditions.
 
@@ -170,8 +178,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     reduced operator ``PᵀJP``: its sparsity is the boolean triple product of
     the known patterns, its values come from colored probes of the matrix-free
     action (``num_colors`` matvecs, once per solve) — see :mod:`feax.asd`.
-    Periodic operators are symmetric after symmetric elimination, so the
-    adjoint reuses the same (assembled or matrix-free) operator.
+    The adjoint solves with the transposed operator, applied as a residual VJP.
     """
     if not isinstance(solver_options,
                       (KrylovSolverOptions, DirectSolverOptions, AMGSolverOptions)):
@@ -194,9 +201,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
 
     # The reduced problem is always Krylov and never extracts a preconditioner
     # from the operator, so the BC-applied tangent is supplied matrix-free (a
-    # residual JVP) — no Jacobian assembly. Periodic problems are SPD after
-    # symmetric Dirichlet elimination, so the same matvec serves the adjoint
-    # (Jᵀ = J).
+    # residual JVP) — no Jacobian assembly. The adjoint applies Jᵀ by a VJP.
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
     matfree_Kt = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
@@ -243,19 +248,18 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     def f_bwd(res, v):
         traced_params, sol, initial_guess, effective_bc, ts = res
 
-        # sol already includes initial_guess (total solution). Symmetric BC ⇒
-        # J_bc is symmetric ⇒ Jᵀ = J, so the forward matvec serves the adjoint.
-        _, J_matvec = matfree_res_J(sol, traced_params, effective_bc, ts)
+        # sol already includes initial_guess (total solution).
+        Kt = matfree_Kt(sol, traced_params, ts)
+        Jt_matvec = _bc_transpose(Kt, effective_bc)
         rhs_reduced = P.T @ v
 
         def adjoint_matvec(adjoint_reduced):
-            return P.T @ J_matvec(P @ adjoint_reduced)
+            return P.T @ Jt_matvec(P @ adjoint_reduced)
 
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
 
-        adjoint_full = _bc_adjoint(
-            P @ adjoint_reduced, v, matfree_Kt(sol, traced_params, ts), effective_bc)
+        adjoint_full = _bc_adjoint(P @ adjoint_reduced, v, Kt, effective_bc)
 
         # VJP of residual w.r.t. traced_params and bc
         u_total_list = problem.unflatten_fn_sol_list(sol)
@@ -344,14 +348,14 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
     def f_bwd(res, v):
         traced_params, sol, effective_bc, ts = res
 
-        # Symmetric BC elimination ⇒ PᵀJP symmetric ⇒ the adjoint reuses the
-        # forward operator (assembled at the converged state, never stale).
-        _, matvec = _operator(sol, traced_params, effective_bc, ts)
+        # Transposed operator, assembled at the converged state (never stale).
+        Kt = matfree_Kt(sol, traced_params, ts)
+        Jt_matvec = _bc_transpose(Kt, effective_bc)
+        matvec = lambda w: P.T @ Jt_matvec(P @ w)
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
-        adjoint_full = _bc_adjoint(
-            P @ adjoint_reduced, v, matfree_Kt(sol, traced_params, ts), effective_bc)
+        adjoint_full = _bc_adjoint(P @ adjoint_reduced, v, Kt, effective_bc)
 
         u_total_list = problem.unflatten_fn_sol_list(sol)
         adjoint_list = problem.unflatten_fn_sol_list(adjoint_full)
-- 
2.43.0


From 91a481ee9bf72c2177fba219c1ce9c304578aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:58 +0000
Subject: [PATCH 10/35] fix: classify volume variables consistently on meshes
 with as many cells as nodes

---
 feax/assembler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index f16a0d9..45c9890 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -85,14 +85,11 @@ def classify_volume_var(problem: 'Problem', var: np.ndarray):
     """
     if var.ndim == 0:
         return _VAR_CELL, 0
-    if var.ndim in (1, 2):
-        for i, fe in enumerate(problem.fes):
-            if var.shape[0] == fe.num_total_nodes:
-                return _VAR_NODE, i
+    # Cell-first, as in Operator.gather_internal_vars: the two must agree when
+    # the mesh has as many cells as nodes.
     if var.ndim == 1:
         if var.shape[0] == problem.num_cells:
             return _VAR_CELL, 0
-        return None, 0
     if var.ndim == 2:
         if var.shape[0] == problem.num_cells:
             # (num_cells, num_quads) is the legacy per-quad layout; anything
@@ -100,6 +97,10 @@ def classify_volume_var(problem: 'Problem', var: np.ndarray):
             if var.shape[1] == problem.fes[0].num_quads:
                 return _VAR_QUAD, 0
             return _VAR_CELL, 0
+    if var.ndim in (1, 2):
+        for i, fe in enumerate(problem.fes):
+            if var.shape[0] == fe.num_total_nodes:
+                return _VAR_NODE, i
     return None, 0
 
 
-- 
2.43.0


From 05360d25ad6810fcbb1722fdbe5e2b1a9c8ed804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:59 +0000
Subject: [PATCH 11/35] fix: per-cell vector parameters keep all their
 components

---
 feax/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 45c9890..9ba7d65 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -221,7 +221,10 @@ class Operator:
             # Per-cell scalar after slicing: either a 0-d scalar or a (1,) array.
             if var.ndim == 0:
                 return np.full(self._num_quads, var)
-            return np.full(self._num_quads, var.reshape(-1)[0])
+            if var.size == 1:
+                return np.full(self._num_quads, var.reshape(-1)[0])
+            # Per-cell vector: the same vector at every quadrature point.
+            return np.broadcast_to(var, (self._num_quads,) + var.shape)
         elif kind == _VAR_QUAD:
             return var
 
-- 
2.43.0


From d4fe763d7096db456829c75074fcbb58bea11b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:13 +0000
Subject: [PATCH 12/35] fix: reduced adjoint operator stays transposable for
 GMRES with Dirichlet rows

---
 feax/solvers/reduced.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 286fc5f..246b028 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -165,8 +165,8 @@ def _bc_adjoint(adjoint_full, v, Kt, bc):
 def _bc_transpose(Kt, bc):
     """``w ↦ J_bcᵀ w`` of the symmetrically eliminated operator."""
     def matvec(w):
-        w_free = w.at[bc.bc_rows].set(0.0)
-        return Kt(w_free).at[bc.bc_rows].set(w[bc.bc_rows])
+        # Masked selects (not scatters): Krylov backends transpose this matvec.
+        return np.where(bc.bc_mask, w, Kt(np.where(bc.bc_mask, 0.0, w)))
     return matvec
 
 
-- 
2.43.0


From fb901c779851e978ca407efe6ac2429034c4203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:46 +0000
Subject: [PATCH 13/35] fix: time stepping absorbs rounding in the last step
 instead of adding a vanishing one

---
 feax/solvers/time_solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/time_solver.py b/feax/solvers/time_solver.py
index d7f070b..c812394 100644
--- a/feax/solvers/time_solver.py
+++ b/feax/solvers/time_solver.py
@@ -539,12 +539,15 @@ def run(
     step = 0
 
     while t < time.t_end - 1e-14 * time.dt:
-        # Clamp dt so we land exactly on t_end
-        dt_eff = min(dt, time.t_end - t)
+        # Clamp dt so we land exactly on t_end.  Accumulated rounding in t must
+        # not leave a vanishingly small extra step, so the last step absorbs it.
+        remaining = time.t_end - t
+        last = remaining <= dt * (1.0 + 1e-6)
+        dt_eff = remaining if last else dt
 
         step += 1
         state = pipeline.step(state, t, dt_eff)
-        t += dt_eff
+        t = time.t_end if last else t + dt_eff
 
         # Monitor & log
         vals = _record(state, step, t)
-- 
2.43.0


From 4413ffb90a19411a8a160a4c849f1e97fa5b450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:46 +0000
Subject: [PATCH 14/35] fix: sparse design lookup does not wrap cell ids beyond
 32 bits

---
 feax/spgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 738680a..008fc1d 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -225,7 +225,7 @@ class SparseDesign:
 
     def gather(self, query_ids, default=0.0):
         """Values for ``query_ids``; ids not in the store get ``default``."""
-        q = onp.asarray(query_ids, onp.int64).ravel().astype(onp.int32)
+        q = onp.asarray(query_ids, onp.int64).ravel()
         if self.ids.size == 0:
             return onp.full(q.shape, default, float)
         pos = onp.searchsorted(self.ids, q)
-- 
2.43.0


From d1aed0854c15de00b02bc08d662c0a7e61efa42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:46 +0000
Subject: [PATCH 15/35] fix: band gather of cell fields works on one-cell
 domains

---
 feax/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/narrowband.py b/feax/narrowband.py
index 3d2094e..e049f14 100644
--- a/feax/narrowband.py
+++ b/feax/narrowband.py
@@ -141,8 +141,8 @@ class NarrowBand:
 
     def gather_cells(self, full_cell_field):
         """Full per-cell array -> band per-cell array (active cells only)."""
-        return onp.asarray(full_cell_field).reshape(self.num_full_cells, -1
-                                                    ).squeeze()[self.active_cells]
+        out = onp.asarray(full_cell_field).reshape(self.num_full_cells, -1)[self.active_cells]
+        return out[:, 0] if out.shape[1] == 1 else out
 
     def scatter_cells(self, band_cell_field, fill=0.0):
         """Band per-cell array -> full per-cell array (inactive filled)."""
-- 
2.43.0


From 9d82ee376d09478376c8af8a6811491ce46cb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:38 +0000
Subject: [PATCH 16/35] fix: Helmholtz filter accepts quadratic meshes

---
 feax/gene/filters.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 79dcf89..4a4f68f 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -79,14 +79,11 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
         )
 
     # Detect element type
-    if mesh.points.shape[1] == 2:
-        # 2D mesh
-        ele_type = 'QUAD4' if mesh.cells.shape[1] == 4 else 'TRI3'
-        dim = 2
-    else:
-        # 3D mesh
-        ele_type = 'HEX8' if mesh.cells.shape[1] == 8 else 'TET4'
-        dim = 3
+    dim = 2 if mesh.points.shape[1] == 2 else 3
+    ele_type = {
+        (2, 3): 'TRI3', (2, 6): 'TRI6', (2, 4): 'QUAD4', (2, 8): 'QUAD8', (2, 9): 'QUAD9',
+        (3, 4): 'TET4', (3, 10): 'TET10', (3, 8): 'HEX8', (3, 20): 'HEX20', (3, 27): 'HEX27',
+    }[(dim, mesh.cells.shape[1])]
 
     # Create problem (done once)
     problem = HelmholtzFilterProblem(
-- 
2.43.0


From 7b71d6d418eeb68335a561365e2754c4bfcdd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:03 +0000
Subject: [PATCH 17/35] fix: Helmholtz filter treats its input as nodal also
 when cells and nodes coincide in number

---
 feax/gene/filters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 4a4f68f..29fb423 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -117,6 +117,8 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
     r_squared = radius ** 2
     initial_guess = np.zeros(problem.num_total_dofs_all_vars)
     num_nodes = mesh.points.shape[0]
+    shape_vals = problem.fes[0].shape_vals
+    cells = problem.fes[0].cells
 
     def filter_fn(rho_source):
         """
@@ -128,7 +130,9 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
         Returns:
             (num_nodes,) array of filtered node-based density field
         """
-        # Create internal variables with rho_source as node-based variable
+        # Interpolate the nodal source to the quadrature points: a (num_nodes,)
+        # variable would be taken as per-cell when num_nodes == num_cells.
+        rho_source = np.einsum('qn,cn->cq', shape_vals, np.asarray(rho_source).reshape(-1)[cells])
         r_sq_array = np.full(num_nodes, r_squared)
         traced_params = fe.traced_params.TracedParams(
             volume_vars=(rho_source, r_sq_array),
-- 
2.43.0


From 4cec326b211e2d9922a254ff8d673db8fd2209ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:05 +0000
Subject: [PATCH 18/35] fix: retrace constraint functions when the optimizer
 pipeline is rebuilt on a new mesh

---
 feax/gene/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index ab79b5e..f6c433f 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -257,7 +257,9 @@ def _compile(pipeline, constraints, use_jit):
 
     compiled_constraints = []
     for name, method, target, ctype in constraints:
-        fn_jit = wrap(method)
+        # A fresh callable per compile: jit caches by function identity, and the
+        # same method may be recompiled for a pipeline rebuilt on a new mesh.
+        fn_jit = wrap(lambda rho, _method=method, **params: _method(rho, **params))
         grad_fn = wrap(jax.grad(method))
         compiled_constraints.append((name, fn_jit, grad_fn, target, ctype))
 
-- 
2.43.0


From 91253d3c6b6d577606e19db941fa3404b868eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:05 +0000
Subject: [PATCH 19/35] fix: keep the optimizer's default start inside
 rho_bounds

---
 feax/gene/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index f6c433f..8ccf2b0 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -350,6 +350,7 @@ def run(
     for _, _, target, ctype in constraints:
         if ctype == 'le':
             default_init = min(default_init, target)
+    default_init = min(max(default_init, rho_bounds[0]), rho_bounds[1])
     x = (onp.full(mesh.points.shape[0], default_init)
          if rho_init is None else onp.array(rho_init))
 
-- 
2.43.0


From cd8b76ac67f88190a8f74894db2bd9a47ac52b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:05 +0000
Subject: [PATCH 20/35] fix: run n_iter iterations on the finest level of a
 single-level narrow-band ladder

---
 feax/gene/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index f71815d..b37d751 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -235,12 +235,12 @@ def run_narrowband_multires(build_fn, dims, volfrac, *, n_levels=2,
         parts = build_fn(*d)
         grid, cmg, keep, load_fn = (parts["grid"], parts["cmg"],
                                     parts["keep"], parts["load_fn"])
+        niter = n_iter if finest else coarse_iter
         if lvl == 0:
-            x_init, gus, niter, tag = None, grid_update_start, coarse_iter, "explore"
+            x_init, gus, tag = None, grid_update_start, "explore"
         else:
             x_init = _upsample(rho_grid, d).reshape(-1)   # seed band from coarser design
             gus = 0                                        # no full-grid solve here
-            niter = n_iter if finest else coarse_iter
             tag = "refine"
         if verbose:
             ndof = 3 * (d[0] + 1) * (d[1] + 1) * (d[2] + 1)
-- 
2.43.0


From 440a52ac6b7915f0869ff021c0f3fa3df6856a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:46 +0000
Subject: [PATCH 21/35] fix: evaluate create_cell_var_from_fn on meshes with
 numpy arrays

---
 feax/traced_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/traced_params.py b/feax/traced_params.py
index e577696..f5ee858 100644
--- a/feax/traced_params.py
+++ b/feax/traced_params.py
@@ -298,7 +298,7 @@ class TracedParams:
         # Compute cell centroids
         cells = problem.fes[var_index].cells
         points = problem.fes[var_index].points
-        centroids = jax.vmap(lambda cell: np.mean(points[cell], axis=0))(cells)
+        centroids = np.mean(np.asarray(points)[np.asarray(cells)], axis=1)
         return jax.vmap(var_fn)(centroids)
 
     @staticmethod
-- 
2.43.0


From a2fea47ba665dd88522692371dffcd3bb6761561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:03 +0000
Subject: [PATCH 22/35] fix: write 2-D 8-node cells as quadrilaterals instead
 of hexahedra

---
 feax/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..a33fadc 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -58,7 +58,7 @@ def save_sol(
     elif n_nodes_per_element == 6:
         element_type = 'TRI6'
     elif n_nodes_per_element == 8:
-        element_type = 'HEX8'
+        element_type = 'QUAD8' if n_dim == 2 else 'HEX8'
     elif n_nodes_per_element == 10:
         element_type = 'TET10'
     elif n_nodes_per_element == 20:
@@ -171,6 +171,7 @@ _XDMF_TOPOLOGY_TYPE = {
     'TRI3': 'Triangle',
     'TRI6': 'Triangle_6',
     'QUAD4': 'Quadrilateral',
+    'QUAD8': 'Quadrilateral_8',
     'TET4': 'Tetrahedron',
     'TET10': 'Tetrahedron_10',
     'HEX8': 'Hexahedron',
@@ -251,7 +252,7 @@ class XDMFWriter:
         elif n_nodes_per_element == 6:
             element_type = 'TRI6'
         elif n_nodes_per_element == 8:
-            element_type = 'HEX8'
+            element_type = 'QUAD8' if n_dim == 2 else 'HEX8'
         elif n_nodes_per_element == 10:
             element_type = 'TET10'
         elif n_nodes_per_element == 20:
-- 
2.43.0


From 4e3609b8332a7a7f39df9b8f3fe12b0743807626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:03 +0000
Subject: [PATCH 23/35] fix: treat stored zeros of a scipy pattern as
 structural entries

---
 feax/asd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/asd.py b/feax/asd.py
index 16f5bad..f7b7318 100644
--- a/feax/asd.py
+++ b/feax/asd.py
@@ -66,7 +66,10 @@ def _to_scipy_pattern(pattern) -> sp.csr_matrix:
             (onp.ones(pattern.nse, bool), onp.asarray(pattern.indices),
              onp.asarray(pattern.indptr)), shape=pattern.shape)
     elif sp.issparse(pattern):
-        A = pattern.astype(bool)
+        # Keep explicitly stored zeros: they are structural entries.
+        A = pattern.tocsr(copy=True)
+        A = sp.csr_matrix((onp.ones(A.nnz, bool), A.indices, A.indptr),
+                          shape=A.shape)
     elif isinstance(pattern, BCOO):
         idx = onp.asarray(pattern.indices)
         A = sp.coo_matrix((onp.ones(idx.shape[0], bool), (idx[:, 0], idx[:, 1])),
-- 
2.43.0


From 9106f4dfa43e5c210e78119a41d2294164a95961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:03 +0000
Subject: [PATCH 24/35] fix: use the documented stiffness and damage-onset
 opening in bilinear_potential

---
 feax/mechanics/cohesive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/mechanics/cohesive.py b/feax/mechanics/cohesive.py
index dd4a77c..91a207c 100644
--- a/feax/mechanics/cohesive.py
+++ b/feax/mechanics/cohesive.py
@@ -130,9 +130,9 @@ def bilinear_potential(delta, delta_max, *, Gamma, sigma_c):
         Cohesive energy density per node, shape ``(n_nodes,)``.
     """
     delta_f = 2.0 * Gamma / sigma_c
-    delta_0 = 2.0 * Gamma / (sigma_c * delta_f)
+    k0 = sigma_c**2 / (2.0 * Gamma)
+    delta_0 = sigma_c / k0
 
-    k0 = sigma_c / delta_0
     phi_ascending = 0.5 * k0 * delta**2
     phi_descending = Gamma - 0.5 * sigma_c * (delta_f - delta)**2 / (delta_f - delta_0 + 1e-30)
     phi_full = Gamma * np.ones_like(delta)
-- 
2.43.0


From 970ae093f8158f430ff06d9872db3ad7ebe6faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:03 +0000
Subject: [PATCH 25/35] fix: let box_to_triangle and box_to_tetrahedron take
 arrays as documented

---
 feax/mechanics/orientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/feax/mechanics/orientation.py b/feax/mechanics/orientation.py
index f94460f..7212054 100644
--- a/feax/mechanics/orientation.py
+++ b/feax/mechanics/orientation.py
@@ -113,7 +113,7 @@ def box_to_triangle(x1: float, x2: float) -> Tuple[np.ndarray, np.ndarray]:
     a11, a22 : same shape as inputs
     """
     N = _serendipity_8(x1, x2)
-    return np.sum(_U * N), np.sum(_V * N)
+    return np.tensordot(_U, N, axes=1), np.tensordot(_V, N, axes=1)
 
 
 # ---------------------------------------------------------------------------
@@ -192,9 +192,9 @@ def box_to_tetrahedron(
     a11, a22, a33 : same shape as inputs
     """
     N = _trilinear_hex_8(x1, x2, x3)
-    a11 = np.sum(_TET_VERTICES[:, 0] * N)
-    a22 = np.sum(_TET_VERTICES[:, 1] * N)
-    a33 = np.sum(_TET_VERTICES[:, 2] * N)
+    a11 = np.tensordot(_TET_VERTICES[:, 0], N, axes=1)
+    a22 = np.tensordot(_TET_VERTICES[:, 1], N, axes=1)
+    a33 = np.tensordot(_TET_VERTICES[:, 2], N, axes=1)
     return a11, a22, a33
 
 
-- 
2.43.0


From 38554fe29d1c97a4f1669edaf6706f13e0530568 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:24:50 +0000
Subject: [PATCH 26/35] fix: Mesh.from_gmsh keeps all blocks of the selected
 cell type

---
 feax/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index f0f8fbb..fbf44e8 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -114,7 +114,13 @@ class Mesh():
             cell_type = cell_block.type
             if cell_type in meshio_to_feax:
                 feax_type = meshio_to_feax[cell_type]
-                available_types[feax_type] = cell_block.data
+                # A type may come in several blocks (one per physical group)
+                if feax_type in available_types:
+                    available_types[feax_type] = onp.concatenate(
+                        [available_types[feax_type], cell_block.data]
+                    )
+                else:
+                    available_types[feax_type] = cell_block.data
 
         if not available_types:
             raise ValueError(
-- 
2.43.0


From f8a3fd160d360d69e8b6fd90b106f64ca0939f8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:25:25 +0000
Subject: [PATCH 27/35] fix: cylinder_mesh honours an axis pointing along -z

---
 feax/mesh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index fbf44e8..5a4738e 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -775,8 +775,12 @@ def cylinder_mesh(
             if onp.linalg.norm(rotation_axis) > 1e-10:
                 rotation_axis = rotation_axis / onp.linalg.norm(rotation_axis)
                 angle = onp.arccos(onp.dot(z_axis, axis_norm))
-                gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
-                                     rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
+            else:
+                # axis points along -z: half a turn about x
+                rotation_axis = onp.array([1.0, 0.0, 0.0])
+                angle = onp.pi
+            gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
+                                 rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
 
         gmsh.model.occ.synchronize()
 
-- 
2.43.0


From 0d7ce37f7f0da0cab9494fcec7b84759dbe23bf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:25:25 +0000
Subject: [PATCH 28/35] fix: gradient_refinement no longer transposes the
 inverse element map

---
 feax/gene/adaptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index a0c80c9..55b54b7 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -177,8 +177,8 @@ def gradient_refinement(rho, mesh):
     rho_e = rho[cells]  # (E, 4)
     drho_ref = rho_e[:, 1:] - rho_e[:, 0:1]  # (E, 3)
 
-    # Physical gradient: grad(rho) = inv(J)^T @ drho_ref
-    grad_rho = onp.einsum('eij,ej->ei', inv_J.transpose(0, 2, 1), drho_ref)
+    # Physical gradient: J (edges as rows) @ grad(rho) = drho_ref
+    grad_rho = onp.einsum('eij,ej->ei', inv_J, drho_ref)
     grad_mag_elem = onp.linalg.norm(grad_rho, axis=1)  # (E,)
 
     # Scatter to nodes (average of surrounding elements)
-- 
2.43.0


From 73c02a1f6177a2b3d2f73ae49cd5ea5a0f5bd83b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:25:25 +0000
Subject: [PATCH 29/35] fix: interpolate_field finds the containing element on
 graded meshes

---
 feax/gene/adaptive.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index 55b54b7..02e8b5e 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -116,6 +116,25 @@ def interpolate_field(values_old, mesh, points_new, clip=None):
                            + hit_lam[:, 1] * node_vals[:, 2]
                            + hit_lam[:, 2] * node_vals[:, 3])
 
+    # On graded meshes the containing element need not be among the nearest
+    # centroids: search every element that can reach the remaining points.
+    idx = onp.where(onp.isnan(values_new))[0]
+    if len(idx) > 0:
+        reach = onp.linalg.norm(
+            points_old[cells] - centroids[:, None, :], axis=2).max()
+        in_reach = tree.query_ball_point(points_new[idx], reach)
+        for i, ei in zip(idx, in_reach):
+            ei = onp.array(ei, dtype=int)
+            if len(ei) == 0:
+                continue
+            lam = onp.einsum('nij,nj->ni', inv_T[ei], points_new[i] - v0[ei])
+            lam = onp.concatenate([1.0 - lam.sum(axis=1, keepdims=True), lam],
+                                  axis=1)
+            worst = lam.min(axis=1)
+            best = onp.argmax(worst)
+            if worst[best] >= -1e-8:
+                values_new[i] = lam[best] @ values_old[cells[ei[best]]]
+
     # Nearest-node fallback for remaining points
     remaining = onp.isnan(values_new)
     if remaining.any():
-- 
2.43.0


From 6e8d18fa3b4bcbcaad68728bd749fe1bd2ac7fd2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:25:25 +0000
Subject: [PATCH 30/35] fix: DensityField inverse mapping solves with dx/dxi,
 not its transpose

---
 feax/gene/sdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 5de1488..8c3f211 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -625,7 +625,7 @@ class DensityField(SDF):
                 return xi
 
             try:
-                delta = onp.linalg.solve(J, residual)
+                delta = onp.linalg.solve(J.T, residual)
             except onp.linalg.LinAlgError:
                 return None
             xi = xi - delta
@@ -805,7 +805,8 @@ class DensityField(SDF):
 
             try:
                 # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
-                delta = onp.linalg.solve(J, residual[..., None])[..., 0]
+                delta = onp.linalg.solve(
+                    onp.swapaxes(J, 1, 2), residual[..., None])[..., 0]
             except onp.linalg.LinAlgError:
                 return None
             xi = onp.ascontiguousarray(xi - delta)
-- 
2.43.0


From ee20e6d492e1901831181b539b878523aa05f8d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:25:25 +0000
Subject: [PATCH 31/35] fix: DensityField puts the nodes of quadratic elements
 in basix order

---
 feax/gene/sdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 8c3f211..0e4cb43 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -515,7 +515,9 @@ class DensityField(SDF):
         # --- basix element info ---
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
-        self._re_order = onp.array(re_order)
+        # re_order takes basix shape functions to mesh order; its inverse takes
+        # mesh nodes to basix order
+        self._re_order = onp.argsort(re_order)
         self._element = create_nodal_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
@@ -526,7 +528,7 @@ class DensityField(SDF):
 
         # --- Precompute per-element data ---
         # Node coordinates per element: (E, nodes_per_elem, dim)
-        self._elem_nodes = points[cells[:, re_order]]
+        self._elem_nodes = points[cells[:, self._re_order]]
 
         if self._linear_simplex:
             # Direct barycentric: x = v0 + T @ lam
-- 
2.43.0


From 771fa7e4061ef0b5cb8a6e6733badf8254b35793 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:26:11 +0000
Subject: [PATCH 32/35] fix: DensityField finds the containing element on
 graded meshes

---
 feax/gene/sdf.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 0e4cb43..af89ff3 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -548,6 +548,14 @@ class DensityField(SDF):
         self._centroid_tree = cKDTree(self._centroids)
         self._node_tree = cKDTree(points)
         self._n_candidates = min(16, len(cells))
+        # Boxes around the (possibly curved) elements and the largest distance
+        # between a centroid and its box
+        lo, hi = self._elem_nodes.min(axis=1), self._elem_nodes.max(axis=1)
+        pad = (hi - lo) * (1e-6 if degree == 1 else 0.25)
+        self._elem_lo, self._elem_hi = lo - pad, hi + pad
+        self._reach = onp.linalg.norm(onp.maximum(
+            self._elem_hi - self._centroids,
+            self._centroids - self._elem_lo), axis=1).max()
 
     # -- Single-point evaluation ---------------------------------------------
 
@@ -581,6 +589,11 @@ class DensityField(SDF):
                 best_xi = xi
                 best_ei = ei
 
+        # Not among the nearest centroids (graded mesh)?
+        density = self._interpolate_in_reach(p)
+        if density is not None:
+            return density
+
         # No exact hit — use the closest element if Newton converged nearby
         if best_xi is not None and best_dist < 0.5:
             xi_clamped = self._clamp_to_ref(best_xi)
@@ -596,6 +609,19 @@ class DensityField(SDF):
         _, ni = self._node_tree.query(p)
         return float(self._rho[ni])
 
+    def _interpolate_in_reach(self, p):
+        """Density at *p* from any element containing it, or ``None``."""
+        near = onp.array(
+            self._centroid_tree.query_ball_point(p, self._reach), dtype=int)
+        boxed = onp.all((p >= self._elem_lo[near]) & (p <= self._elem_hi[near]),
+                        axis=1)
+        for ei in near[boxed]:
+            xi = self._inverse_map_single(p, ei)
+            if xi is not None and _inside_ref_element(xi, self._basix_ele):
+                N = self._shape_vals_at(xi)
+                return N @ self._rho[self._cells[ei][self._re_order]]
+        return None
+
     def _inverse_map_single(self, p, ei):
         """Map physical point *p* to reference coords for element *ei*.
 
@@ -732,6 +758,13 @@ class DensityField(SDF):
                 best_xi[upd] = miss_xi[better]
                 best_ei[upd] = miss_ei[better]
 
+        # Points whose element is not among the nearest centroids (graded mesh)
+        if self._n_candidates < len(self._cells):
+            for i in onp.where(onp.isnan(densities))[0]:
+                density = self._interpolate_in_reach(points[i])
+                if density is not None:
+                    densities[i] = density
+
         # Fallback: use clamped shape-function interpolation for near-misses
         remaining = onp.isnan(densities)
         if remaining.any():
-- 
2.43.0


From da668ff78e02936ea4a0142419c6a54aa88527a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:28:14 +0000
Subject: [PATCH 33/35] fix: from_vtk reads plane meshes, whose points are
 padded to 3-D in the file

---
 feax/gene/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index af89ff3..037e319 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -980,6 +980,10 @@ def from_vtk(
             f"Supported: {list(_MESHIO_TO_FEAX.keys())}"
         )
 
+    # VTK files pad the points of plane meshes with a third coordinate
+    if ele_type in ('TRI3', 'TRI6', 'QUAD4', 'QUAD8'):
+        points = points[:, :2]
+
     from feax.mesh import Mesh
     mesh = Mesh(points, cells, ele_type=ele_type)
 
-- 
2.43.0


From 5899c121985a318291316d6ea9ac03770e936838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:01 +0000
Subject: [PATCH 34/35] fix: automatic Krylov selection keeps the GMRES restart
 length

---
 feax/solvers/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 74d7749..c3bb984 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -874,6 +874,7 @@ def resolve_iterative_solver(
         tol=options.tol,
         atol=options.atol,
         maxiter=options.maxiter,
+        restart=options.restart,
         preconditioner=options.preconditioner,
         use_jacobi_preconditioner=options.use_jacobi_preconditioner,
         jacobi_shift=options.jacobi_shift,
-- 
2.43.0


From 8073d2690a91cf54cd7111e8e3e9ad27f48a86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:43 +0000
Subject: [PATCH 35/35] fix: missing buckling modes no longer turn the
 sensitivities into NaN

---
 feax/solvers/eigen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 57f395e..c669de4 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -857,8 +857,11 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     def _bwd(res, cts):
         K, Kg, lam, phi = res
         lam_bar, _modes_bar = cts                     # mode-shape cotangent ignored
-        K_cot = _outer_cotangent(K, phi, lam_bar * lam, free)
-        Kg_cot = _outer_cotangent(Kg, phi, lam_bar * lam * lam, free)
+        # guard the inf-padded (missing) modes out of the sensitivity
+        w = jnp.where(jnp.isfinite(lam), lam_bar * lam, 0.0)
+        w2 = jnp.where(jnp.isfinite(lam), lam_bar * lam * lam, 0.0)
+        K_cot = _outer_cotangent(K, phi, w, free)
+        Kg_cot = _outer_cotangent(Kg, phi, w2, free)
         return (K_cot, Kg_cot)
 
     bf.defvjp(_fwd, _bwd)
-- 
2.43.0

