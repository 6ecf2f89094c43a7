"""P10: homogenized stiffness = volume-averaged stress of the equilibrated periodic response, in Voigt order."""
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from symx.interp import pmul
from feax import flat
import feax.flat.solver
import feax.flat.utils
from feax.flat import pbc
from .fem import *
from .p05 import R_of, quiet, K
from .p08 import cell_of, classes

V3 = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
V2 = [(0, 0), (1, 1), (0, 1)]


def strains(d):
    out = []
    for i, j in (V3 if d == 3 else V2):
        e = onp.zeros((d, d))
        e[i, j] += 0.5
        e[j, i] += 0.5
        out.append(e)
    return out


def aniso(d, k, r, g):
    """anisotropic linear stress, symmetric (major and minor)"""
    e = 0.5 * (g + g.T)
    A = onp.array([[1.3, 0.2, 0.1], [0.2, 0.9, -0.15], [0.1, -0.15, 1.1]])[:d, :d]
    return k * (e + 0.4 * jnp.trace(e) * jnp.eye(d)) + r * (A @ e @ A)


def make(et, n, lb=None, L=None):
    d = dim_of(et)
    lb = onp.array([-0.4, 0.7, 0.2][:d]) if lb is None else onp.asarray(lb)
    L = onp.array([1.5, 1.0, 0.8][:d]) if L is None else onp.asarray(L)
    uc, pts = cell_of(et, n, lb, L)

    class Q(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, r: aniso(d, k, r, g)
    p = Q(uc.mesh, vec=d, dim=d, ele_type=et)
    pairs = (pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=d, dim=d)
    P = pbc.prolongation_matrix(pairs, uc.mesh, d)
    ids, m = classes(pts, lb, L)
    W = onp.zeros((len(pts) * d, m * d))
    for i, c in enumerate(ids):
        for k in range(d):
            W[i * d + k, c * d + k] = 1
    return p, uc, pts, onp.asarray(uc.mesh.cells), P, W


def stress_avg(o, d, u, k, r):
    """own quadrature; k per cell, r nodal"""
    g, rq = o.grad(u.reshape(-1, d)), o.val(r[:, None])[..., 0]
    s = jax.vmap(jax.vmap(lambda k, r, g: aniso(d, k, r, g), (None, 0, 0)))(k, rq, g)
    a = jnp.einsum('cq,cqij->ij', o.JxW, s) / o.JxW.sum()
    return jnp.stack([a[i, j] for i, j in (V3 if d == 3 else V2)])


def chom(ck, name, et, n, nq=4, opts=None, rule=None, lb=None, L=None, cells_only=False):
    d = dim_of(et)
    p, uc, pts, cells, P, W = make(et, n, lb, L)
    o = Oracle(pts, cells, et, nq=nq, rule=rule)
    bc = fe.DirichletBCConfig([]).create_bc(p)
    opts = opts or K(solver="cg", tol=1e-13, atol=1e-13, maxiter=4000)
    hom = quiet(flat.solver.create_homogenization_solver, p, bc, P, uc.mesh, opts, dim=d)
    Wp = W @ onp.linalg.pinv(W)
    ctx, _ = new()
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    r = ctx.array("r", (), 0.1, 1.0)
    prof = onp.random.RandomState(1).uniform(0.5, 1.5, len(pts))
    ns = 6 if d == 3 else 3
    macros = [onp.asarray(pts @ e.T).reshape(-1) for e in strains(d)]

    def impl(k, r):
        t = TP((k, r * prof))
        res = hom(t)
        out = [jnp.asarray(res.u_macros).reshape(-1) - onp.concatenate(macros)]
        for c in range(ns):
            u = res.u_totals[c]
            w = u - macros[c]
            out += [w - Wp @ w, W.T @ R_of(p, u, t, None), res.C_hom[:, c] - stress_avg(o, d, u, k, r * prof)]
        return jnp.concatenate(out)
    N = len(pts) * d
    ck.forall(name, impl, lambda *a: jnp.zeros(ns * (N + N + W.shape[1] + ns)), (k, r), ctx, tol=1e-5)


def lsolve(A, b):
    return jax.lax.custom_linear_solve(lambda x: A @ x, b, lambda mv, b: jnp.linalg.lstsq(A, b)[0])


def chom_grad(ck, name, et, n, lb=None, L=None):
    """reverse-mode derivative of the homogenized stiffness w.r.t. the parameters"""
    d = dim_of(et)
    p, uc, pts, cells, P, _ = make(et, n, lb, L)
    bc = fe.DirichletBCConfig([]).create_bc(p)
    hom = quiet(flat.solver.create_homogenization_solver, p, bc, P, uc.mesh, K(solver="cg", tol=1e-13, atol=1e-13, maxiter=4000), dim=d)
    o = Oracle(pts, cells, et)
    Wd = onp.asarray(P.todense())
    prof = onp.random.RandomState(1).uniform(0.5, 1.5, len(pts))
    ns = 6 if d == 3 else 3
    ctx, _ = new()
    k, r = ctx.array("k", (len(cells),), 0.5, 2.0), ctx.array("r", (), 0.1, 1.0)
    dk, dr = ctx.array("dk", (len(cells),)), ctx.array("dr", ())
    V = ctx.array("V", (ns, ns))

    def impl(k, r, dk, dr, V):
        C, vjp, u = jax.vjp(lambda k, r: (lambda x: (x.C_hom, x.u_totals))(hom(TP((k, r * prof)))), k, r, has_aux=True)
        gk, gr = vjp(V)
        tot = jnp.vdot(gk, dk) + gr * dr
        for c in range(ns):
            R = lambda u, k, r: R_of(p, u, TP((k, r * prof)), None)
            Kb = jax.jacfwd(R)(u[c], k, r)
            dR = jax.jvp(lambda k, r: R(u[c], k, r), (k, r), (dk, dr))[1]
            du = Wd @ lsolve(Wd.T @ Kb @ Wd, -Wd.T @ dR)
            dS = jax.jvp(lambda u, k, r: stress_avg(o, d, u, k, r * prof), (u[c], k, r), (du, dk, dr))[1]
            tot = tot - jnp.vdot(V[:, c], dS)
        return jnp.stack([tot])

    def hints(ctx, I):
        eqs = getattr(ctx, "eqs", [])[-2 * ns:]
        out = []
        for a in eqs[:ns]:
            for b in eqs[ns:]:
                out += [pmul(q, b[2][i]) for q, i in zip(a[1], a[3])] + [pmul(q, a[2][i]) for q, i in zip(b[1], b[3])]
        return out
    ck.forall(name, impl, lambda *q: jnp.zeros(1), (k, r, dk, dr, V), ctx, tol=5e-4, hints=hints)


def average(ck, name, et, n, kinds, nq=4, order=5):
    """average_stress on arbitrary fields with per-cell, nodal and per-quadrature-point parameters"""
    d = dim_of(et)
    pts, cells = build(et, n, seed=4)

    class Q(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, r: k * g @ onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:d, :d] + r * onp.arange(d * d).reshape(d, d)
    p = Q(fe.Mesh(pts, cells, et), vec=d, dim=d, ele_type=et, gauss_order=order)
    o = Oracle(pts, cells, et, nq=nq)
    T = p.get_tensor_map()
    ctx, _ = new()
    u = ctx.array("u", (len(pts) * d,))
    sh = {"cell": (len(cells),), "node": (len(pts),)}
    k, r = ctx.array("k", sh[kinds[0]], 0.5, 2.0), ctx.array("r", sh[kinds[1]])

    def spec(u, k, r):
        q = lambda v, kind: o.val(v[:, None])[..., 0] if kind == "node" else v[:, None] * jnp.ones(o.JxW.shape)
        s = jax.vmap(jax.vmap(T))(o.grad(u.reshape(-1, d)), q(k, kinds[0]), q(r, kinds[1]))
        a = jnp.einsum('cq,cqij->ij', o.JxW, s) / o.JxW.sum()
        return jnp.stack([a[i, j] for i, j in (V3 if d == 3 else V2)])
    ck.forall(name, lambda u, k, r: flat.solver.average_stress(p, u, TP((k, r)), d), spec, (u, k, r), ctx, tol=1e-8)


def macro(ck, name, et, n):
    d = dim_of(et)
    pts, cells = build(et, n, seed=4)
    mesh = fe.Mesh(pts, cells, et)
    ctx, _ = new()
    E = ctx.array("E", (3, 3))
    ck.forall(name, lambda E: flat.solver.macro_displacement(mesh, E), lambda E: jnp.einsum('ij,nj->ni', E[:d, :d], jnp.asarray(pts)).reshape(-1), (E,), ctx, tol=1e-9)


def youngs(ck, name):
    """1 / E(n) = n_i n_j S_ijkl n_k n_l for every direction"""
    A = onp.random.RandomState(3).uniform(-0.2, 0.2, (6, 6))
    C = onp.diag([3., 2.5, 2., 0.8, 1.1, 0.9]) + A @ A.T
    S = onp.linalg.inv(C)
    full = onp.zeros((3, 3, 3, 3))
    for a, (i, j) in enumerate(V3):
        for b, (k, l) in enumerate(V3):
            v = S[a, b] * (0.5 if a > 2 else 1) * (0.5 if b > 2 else 1)
            for x, y in {(i, j), (j, i)}:
                for z, w in {(k, l), (l, k)}:
                    full[x, y, z, w] = v
    ctx, _ = new()
    n = ctx.array("n", (3,), 0.2, 1.0)
    ck.forall(name, lambda n: flat.utils.compute_directional_youngs_modulus(jnp.asarray(C), n) * jnp.einsum('ijkl,i,j,k,l->', jnp.asarray(full), n, n, n, n),
              lambda n: 1.0, (n,), ctx, tol=1e-7)


def run(ck):
    ck.fn("feax.flat.solver.create_homogenization_solver", "feax.flat.solver.average_stress", "feax.flat.solver.macro_displacement",
          "feax.flat.utils.compute_directional_youngs_modulus", "feax.solvers.reduced.create_reduced_solver", "feax.solver.create_solver (P given)")
    ck.bound("2x2 / 3x2 quadrilaterals, 2x2 triangles, 2x2x2 hexahedra (off-origin, anisotropic boxes); stiffness per cell in [0.5,2], nodal coefficient profile scaled by [0.1,1]; every state and parameter field in the box for average_stress; every strain tensor in [-1,1] and every direction in [0.2,1]^3")
    ck.assumption("the inner Krylov solve returns a solution of the (singular, consistent) reduced system it is given (contract stub); cuDSS direct path needs a GPU and is out of reach")
    full = ck.tier != "quick"
    ck.do(chom, "quads", "QUAD4", (2, 2), nq=2)
    ck.do(chom, "quads 3x2", "QUAD4", (3, 2), nq=2)
    ck.do(chom, "quads default options", "QUAD4", (2, 2), nq=2, opts=K(tol=1e-13, atol=1e-13))
    ck.do(chom, "triangles", "TRI3", (3, 3), nq=2)
    ck.do(chom, "hexahedra", "HEX8", (2, 2, 2), nq=2)
    ck.do(chom_grad, "gradient quads", "QUAD4", (2, 2))
    ck.do(average, "average quads, cell and node", "QUAD4", (2, 1), ("cell", "node"))
    ck.do(average, "average quads, node and cell", "QUAD4", (2, 2), ("node", "cell"))
    ck.do(average, "average triangles", "TRI6", (1, 1), ("node", "node"), order=4)
    ck.do(average, "average hexahedra", "HEX8", (2, 1, 1), ("cell", "node"))
    ck.do(average, "average tetrahedra", "TET4", (1, 1, 1), ("cell", "cell"), order=3)
    ck.do(macro, "affine field 2D", "QUAD4", (2, 1))
    ck.do(macro, "affine field 3D", "HEX8", (1, 1, 1))
    ck.do(youngs, "directional modulus")
    if full:
        ck.do(chom, "quads 4x3", "QUAD4", (4, 3), nq=2)
        ck.do(chom, "hexahedra 3x2x2", "HEX8", (3, 2, 2), nq=2)
        ck.do(chom_grad, "gradient triangles", "TRI3", (2, 2))
