"""P03: the assembled Jacobian is the exact derivative of the residual, in every storage and evaluation mode."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
import feax as fe
from .fem import *


def svk(g, k):
    """St. Venant-Kirchhoff first Piola stress (cubic polynomial), non-symmetric use of the parameter"""
    d = g.shape[0]
    F = jnp.eye(d) + g
    E = 0.5 * (F.T @ F - jnp.eye(d))
    return k * F @ (2.0 * E + 0.6 * jnp.trace(E) * jnp.eye(d))


def conv(g, k):
    """non-symmetric, quadratic"""
    return k * (g @ onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:g.shape[-1], :g.shape[-1]]) + 0.5 * g * g[0, 0]


def make(et, n, vec, view, law, surf=True, order=None, mass=True):
    pts, cells = build(et, n, seed=21)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k: law(g, k)

        def get_mass_map(self):
            if not mass:
                return None
            return lambda u, x, k: k * u + 0.3 * u * u

        def get_surface_maps(self):
            return [lambda u, x, a: a * u + 0.2 * u * u[0]] if surf else []
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, matrix_view=view, gauss_order=order,
          location_fns=[lambda q: on_face(0, 1.0)(q)] if surf else None)
    return p, pts, cells


def tri(A, view):
    return jnp.triu(A) if view == "UPPER" else jnp.tril(A) if view == "LOWER" else A


def jac_spec(p, u, tp, ts):
    f = lambda s: ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(s), tp, ts=ts))[0]
    return jax.jacfwd(f)(u)


def assembled(ck, et, n, vec, view, law, use_ts, surf=True, order=None, usub=None):
    """symmetric-storage views are only meaningful for symmetric tangents, so they use the symmetric forms"""
    p, pts, cells = make(et, n, vec, view, law, surf, order, mass=True)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    ctx, _ = new()
    N = p.num_total_dofs_all_vars
    if usub:
        B = jnp.asarray(onp.random.RandomState(0).uniform(-1, 1, (N, usub)))
        w = ctx.array("w", (usub,))
        mk = lambda w: B @ w
    else:
        w = ctx.array("u", (N,), -0.5, 0.5)
        mk = lambda w: w
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    a = ctx.array("a", ())
    nf = p.boundary_inds_list[0].shape[0] if surf else 0

    def tp(k, a):
        return TP((k,), [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape, a),)] if surf else [])

    def impl(w, k, a):
        return fe.get_jacobian(p, p.unflatten_fn_sol_list(mk(w)), tp(k, a), ts=ts).todense()

    def spec(w, k, a):
        return tri(jac_spec(p, mk(w), tp(k, a), ts), view)
    ck.forall(f"{et} vec={vec} {view} {law.__name__} ts={use_ts}", impl, spec, (w, k, a), ctx, tol=1e-7)


def multi(ck, view, use_ts):
    p1, c1 = build("TRI6", (1, 1), scramble=False)
    p2, c2 = build("TRI3", (1, 1), scramble=False)

    class P(fe.Problem):
        def get_weak_form(self):
            def wf(vals, grads, x, k):
                u, t = vals
                gu, gt = grads
                # symmetric coupling: derivative of k(|gu|^2/2 + |gt|^2/2 + t*div u)
                return [0.1 * u, t * k + jnp.trace(gu) * k + t * t], [k * gu + k * t[0] * jnp.eye(2), 0.5 * gt]
            return wf

        def get_surface_weak_forms(self):
            return [lambda vals, x: [vals[0] + vals[1][0], jnp.sum(vals[0]) * jnp.ones(1) + vals[1]]]
    p = P([fe.Mesh(p1, c1, "TRI6"), fe.Mesh(p2, c2, "TRI3")], vec=[2, 1], dim=2, ele_type=["TRI6", "TRI3"], gauss_order=[2, 2], matrix_view=view,
          location_fns=[lambda q: on_face(1, 0.0)(q)])
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    ctx, _ = new()
    u = ctx.array("u", (p.num_total_dofs_all_vars,))
    k = ctx.array("k", (len(c1),), 0.5, 2)
    ck.forall(f"two-field tangent {view} ts={use_ts}", lambda u, k: fe.get_jacobian(p, p.unflatten_fn_sol_list(u), TP((k,)), ts=ts).todense(),
              lambda u, k: tri(jac_spec(p, u, TP((k,)), ts), view), (u, k), ctx)


def batch(ck, et, n, view, use_ts):
    pts, cells = build(et, n, seed=22)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g + 0.5 * g * jnp.sum(g * g)

        def get_mass_map(self):
            return lambda u, x, k: k * u * u
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, matrix_view=view)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    ctx, _ = new()
    N = len(pts)
    uc = jnp.asarray(onp.random.RandomState(5).uniform(-1, 1, N))
    k = ctx.array("k", (len(cells),), 0.5, 2)
    probe = jnp.asarray(onp.random.RandomState(6).uniform(-1, 1, (N, 3)))

    def impl(k):
        A = fe.get_jacobian(p, p.unflatten_fn_sol_list(uc), TP((k,)), ts=ts).todense()
        if view == "UPPER":
            A = jnp.triu(A) + jnp.triu(A, 1).T
        return A @ probe

    def spec(k):
        f = lambda s: ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(s), TP((k,)), ts=ts))[0]
        return jnp.stack([jax.jvp(f, (uc,), (probe[:, j],))[1] for j in range(3)], 1)
    ck.forall(f"{et} {len(cells)} cells (several batches) {view} ts={use_ts}", impl, spec, (k,), ctx)


def internal_modes(ck):
    """fused residual+tangent and matrix-free tangent used inside the solvers"""
    import feax.assembler as asm
    p, pts, cells = make("QUAD4", (2, 1), 2, "FULL", conv, True)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: on_face(0, 0.0)(q), component="all", value=0.3)]).create_bc(p)
    N = p.num_total_dofs_all_vars
    ctx, _ = new()
    u = ctx.array("u", (N,), -0.5, 0.5)
    v = ctx.array("v", (N,))
    k = ctx.array("k", (len(cells),), 0.5, 2)
    shp = fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape
    tp = lambda k: TP((k,), [(jnp.full(shp, 0.7),)])
    m = onp.asarray(bc.bc_mask)

    def spec(u, v, k, symmetric):
        R = ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(u), tp(k), ts=ts))[0]
        J = jac_spec(p, u, tp(k), ts)
        r = jnp.where(m, u - 0.3, R)
        vin = jnp.where(m, 0.0, v) if symmetric else v
        return r, jnp.where(m, v, J @ vin)
    for symmetric in (True, False):
        for nm in ("create_res_J_bc_csr_parametric", "create_matfree_res_J_parametric"):
            f = getattr(asm, nm, None)
            if f is None:
                continue
            g = f(p, symmetric=symmetric)
            for t in (ts, None):
                def impl(u, v, k):
                    r, J = g(u, tp(k), bc, t)
                    return r, (J(v) if callable(J) else J @ v)
                ck.forall(f"{nm} symmetric={symmetric} ts={t is not None}", impl, lambda u, v, k: spec(u, v, k, symmetric), (u, v, k), ctx, tol=1e-7)
    f = getattr(asm, "create_matfree_Kt_parametric", None)
    if f is not None:
        g = f(p)
        ck.forall("transpose tangent action", lambda u, v, k: g(u, tp(k), ts)(v), lambda u, v, k: jac_spec(p, u, tp(k), ts).T @ v, (u, v, k), ctx, tol=1e-7)


def csr_ops(ck):
    """matrix-vector, transpose, diagonal and dense forms of the assembled matrix agree, for every set of entries"""
    p, pts, cells = make("QUAD4", (2, 1), 2, "FULL", conv, True)
    shp = fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape
    N = p.num_total_dofs_all_vars
    A0 = fe.get_jacobian(p, p.unflatten_fn_sol_list(jnp.zeros(N)), TP((jnp.ones(len(cells)),), [(jnp.full(shp, 0.7),)]))
    ctx, _ = new()
    dat = ctx.array("a", A0.data.shape)
    v = ctx.array("v", (N,))
    ip, ix = onp.asarray(A0.indptr), onp.asarray(A0.indices)
    rows = onp.repeat(onp.arange(N), onp.diff(ip))

    def impl(a, v):
        A = A0.with_data(a)
        return A @ v, A.T @ v, A.rmatvec(v), A.diagonal(), A.T.todense() @ v, A.todense() @ v, A.todense()

    def spec(a, v):
        D = jnp.zeros((N, N)).at[rows, ix].add(a)
        return D @ v, D.T @ v, D.T @ v, jnp.diag(D), D.T @ v, D @ v, D
    ck.forall("sparse matrix operations", impl, spec, (dat, v), ctx)
    # multi-column operand
    V = ctx.array("V", (N, 2))
    try:
        A0 @ jnp.ones((N, 2))
    except Exception:
        return
    ck.forall("sparse matrix times matrix", lambda V: A0 @ V, lambda V: A0.todense() @ V, (V,), ctx)


def batch_modes(ck, et, n, mode, use_ts):
    """fused, matrix-free and face tangents on meshes larger than one assembly batch"""
    import feax.assembler as asm
    pts, cells = build(et, n, seed=23)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * g @ mat3(d) + 0.5 * g * jnp.sum(g * g)

        def get_surface_maps(self):
            return [lambda u, x, a: a * u + 0.3 * u * u]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, matrix_view="FULL", location_fns=[lambda q: on_face(1, 0.0)(q)])
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: on_face(1, 1.0)(q), component="all", value=0.3)]).create_bc(p)
    N = len(pts)
    rng = onp.random.RandomState(5)
    uc = jnp.asarray(rng.uniform(-1, 1, N))
    V = jnp.asarray(rng.uniform(-1, 1, (N, 2)))
    m = onp.asarray(bc.bc_mask)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    ctx, _ = new()
    k = ctx.array("k", (len(cells),), 0.5, 2)
    shp = fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape
    a = ctx.array("a", shp)
    tp = lambda k, a: TP((k,), [(a,)])

    def spec(k, a):
        f = lambda s: ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(s), tp(k, a), ts=ts))[0]
        r = jnp.where(m, uc - 0.3, f(uc))
        return (r,) + tuple(jnp.where(m, V[:, j], jax.jvp(f, (uc,), (V[:, j],))[1]) for j in range(2))
    if mode:
        f = getattr(asm, mode, None)
        if f is None:
            return
        g = f(p, symmetric=False)

        def impl(k, a):
            r, J = g(uc, tp(k, a), bc, ts if use_ts else None)
            return (r,) + tuple((J(V[:, j]) if callable(J) else J @ V[:, j]) for j in range(2))
        ck.forall(f"{len(cells)} cells, {shp[0]} faces: {mode} ts={use_ts}", impl, spec, (k, a), ctx, tol=1e-7)
        return

    def impl2(k, a):
        A = fe.get_jacobian(p, p.unflatten_fn_sol_list(uc), tp(k, a), ts=ts).todense()
        return tuple(A @ V[:, j] for j in range(2))

    def spec2(k, a):
        f = lambda s: ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(s), tp(k, a), ts=ts))[0]
        return tuple(jax.jvp(f, (uc,), (V[:, j],))[1] for j in range(2))
    ck.forall(f"{len(cells)} cells, {shp[0]} faces: tangent", impl2, spec2, (k, a), ctx, tol=1e-7)


def mat3(d):
    return jnp.asarray(onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:d, :d])


def run(ck):
    ck.fn("feax.assembler.get_jacobian", "feax.assembler._get_J_csr", "feax.assembler._assemble_volume_csr_data", "feax.assembler.compute_face (tangent)",
          "feax.problem.Problem._build_csr_assembly_structure", "feax.traced_structure.TracedStructure", "feax.csr.CSRMatrix",
          "feax.assembler.create_res_J_bc_csr_parametric", "feax.assembler.create_matfree_res_J_parametric")
    ck.bound("meshes of 1-4 cells per element type plus meshes of 286+ cells; polynomial constitutive laws up to degree 3; state in [-0.5,0.5]^N (all degrees of freedom, or a random 3-dimensional subspace for cubic laws), parameters in [0.5,2]")
    full = ck.tier != "quick"
    for view in ("FULL", "UPPER", "LOWER"):
        for use_ts in (False, True):
            ck.do(assembled, "QUAD4", (1, 1), 2, view, svk, use_ts, False, None, 3)
    ck.do(assembled, "QUAD4", (2, 1), 2, "FULL", conv, True)
    ck.do(assembled, "QUAD4", (2, 1), 2, "FULL", conv, False)
    ck.do(assembled, "TRI3", (2, 1), 2, "FULL", conv, True)
    ck.do(assembled, "TRI6", (1, 1), 1, "FULL", conv, True)
    ck.do(assembled, "QUAD8", (1, 1), 1, "FULL", conv, True)
    ck.do(assembled, "TET4", (1, 1, 1), 1, "FULL", conv, True)
    ck.do(assembled, "HEX8", (2, 1, 1), 1, "FULL", conv, True)
    if full:
        ck.do(assembled, "QUAD9", (1, 1), 2, "FULL", conv, True)
        ck.do(assembled, "TET10", (1, 1, 1), 1, "FULL", conv, True)
        ck.do(assembled, "HEX20", (1, 1, 1), 1, "FULL", conv, True)
        ck.do(assembled, "HEX8", (1, 1, 1), 3, "UPPER", svk, True, False, None, 2)
        ck.do(assembled, "QUAD4", (2, 2), 2, "FULL", svk, True, True, None, 4)
    for view in ("FULL", "UPPER"):
        for use_ts in (False, True):
            ck.do(multi, view, use_ts)
    for use_ts in (False, True):
        ck.do(batch, "TRI3", (13, 11), "FULL", use_ts)
        ck.do(batch, "TRI3", (13, 11), "UPPER", use_ts)
        if full:
            ck.do(batch, "TET4", (4, 4, 3), "FULL", use_ts)
            ck.do(batch, "QUAD4", (23, 23), "FULL", use_ts)
    ck.do(internal_modes)
    ck.do(csr_ops)
    for use_ts in (True, False):
        for mode in ("create_res_J_bc_csr_parametric", "create_matfree_res_J_parametric"):
            if full or use_ts == (mode == "create_res_J_bc_csr_parametric"):
                ck.do(batch_modes, "QUAD4", (265, 1), mode, use_ts)
    ck.do(batch_modes, "QUAD4", (265, 1), None, True)
