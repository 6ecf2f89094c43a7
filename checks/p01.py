"""P01: the assembled residual is the weak form integrated over the mesh (volume terms)."""
import numpy as onp
import jax.numpy as jnp
import feax as fe
from .fem import *

M2 = onp.array([[1.3, 0.2], [-0.4, 0.8]])


def mat(d):
    return jnp.asarray(onp.array([[1.3, 0.2, 0.1], [-0.4, 0.8, 0.3], [0.25, -0.15, 1.1]])[:d, :d])


class Form(fe.Problem):
    """sigma = k_cell * grad(u) M + rho_node * S0 ; mass = c_node * u + q_quad * x-dependent source"""
    def custom_init(self, *a):
        self.opts = a[0] if a else {}

    def get_tensor_map(self):
        return lambda g, k, r, q: tensor(g, k, r)

    def get_mass_map(self):
        if not self.additional_info[0].get("mass", True):
            return None
        return lambda u, x, k, r, q: massf(u, x, k, r, q)


def tensor(g, k, r):
    d = g.shape[-1]
    return k * (g @ mat(d)) + r * jnp.ones(g.shape).at[0, 0].set(2.0)


def massf(u, x, k, r, q):
    return r * u + k * (x[0] + 2.0 * x[1]) * jnp.arange(1, u.shape[0] + 1) + q


def spec_vol(o, pts_o, u, k, r, q, mass=True):
    """same form on the oracle's quadrature: k per cell, r nodal, q per cell"""
    g, uv = o.grad(u), o.val(u)
    kk = k[:, None]
    rq = o.val(r[:, None])[..., 0]
    s = jax.vmap(jax.vmap(tensor, (0, None, 0)), (0, 0, 0))(g, k, rq)
    R = o.int_grad(s)
    if mass:
        f = jax.vmap(jax.vmap(massf, (0, 0, None, 0, None)), (0, 0, 0, 0, 0))(uv, jnp.asarray(o.x), k, rq, q)
        R = R + o.int_val(f)
    return R


import jax  # noqa: E402

# element types with (cells per direction, vec, gauss order that integrates the forms exactly)
CASES = [("TRI3", (2, 2), 2, 3), ("TRI6", (1, 2), 1, 6), ("QUAD4", (2, 2), 2, 5), ("QUAD8", (2, 1), 1, 8),
         ("QUAD9", (1, 1), 2, 8), ("TET4", (1, 1, 1), 3, 3), ("TET10", (1, 1, 1), 1, 6), ("HEX8", (2, 1, 1), 1, 5),
         ("HEX20", (1, 1, 1), 1, 8)]


def single(ck, et, n, vec, order, use_ts, distort=0.0, tag=""):
    pts, cells = build(et, n, seed=3, affine=True, distort=distort)
    d = dim_of(et)
    p = Form(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, gauss_order=order, additional_info=({},))
    ts = fe.TracedStructure.from_problem(p) if use_ts else None
    ctx, I = new()
    u = ctx.array("u", (len(pts), vec))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    r = ctx.array("r", (len(pts),), -1, 1)
    q = ctx.array("q", (len(cells),))
    o = Oracle(pts, cells, et, nq=5)

    def impl(u, k, r, q):
        return fe.get_res(p, [u], TP((k, r, q)), ts=ts)

    def spec(u, k, r, q):
        return [spec_vol(o, pts, u, k, r, q)]
    ck.forall(f"{et} residual = weak form (order {order}{', traced structure' if use_ts else ''}{tag})", impl, spec,
              (u, k, r, q), ctx)


def default_order(ck, et, n, vec):
    """default quadrature: exact for k_cell * grad u : grad v (except serendipity: for constant stress and N*const)"""
    pts, cells = build(et, n, seed=5, affine=True)
    d = dim_of(et)
    ser = et in ("QUAD8", "HEX20")

    class P(fe.Problem):
        def get_tensor_map(self):
            return (lambda g, k: k * jnp.arange(1., vec * d + 1).reshape(vec, d)) if ser else (lambda g, k: k * (g @ mat(d)))

        def get_mass_map(self):
            return lambda u, x, k: k * jnp.arange(1., vec + 1)
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et)
    ts = fe.TracedStructure.from_problem(p)
    ctx, I = new()
    u = ctx.array("u", (len(pts), vec))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    o = Oracle(pts, cells, et, nq=5)

    def impl(u, k):
        return fe.get_res(p, [u], TP((k,)), ts=ts)

    def spec(u, k):
        g = o.grad(u)
        s = jnp.broadcast_to(jnp.arange(1., vec * d + 1).reshape(vec, d), g.shape) if ser else g @ mat(d)
        f = k[:, None, None] * jnp.broadcast_to(jnp.arange(1., vec + 1), g.shape[:2] + (vec,))
        return [o.int_grad(k[:, None, None, None] * s) + o.int_val(f)]
    if et == "TET10" or et == "TRI6":
        pass
    ck.forall(f"{et} default quadrature is exact for stiffness and load forms", impl, spec, (u, k), ctx)


def distorted(ck, et, n):
    """non-affine cells: constant stress (patch test) and constant body force stay exact"""
    pts, cells = build(et, n, seed=8, affine=True, distort=0.12)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * jnp.arange(1., 2 * d + 1).reshape(2, d)

        def get_mass_map(self):
            return lambda u, x, k: k * (1.0 + x[0]) * jnp.arange(1., 3)
    p = P(fe.Mesh(pts, cells, et), vec=2, dim=d, ele_type=et, gauss_order=5)
    ts = fe.TracedStructure.from_problem(p)
    ctx, I = new()
    u = ctx.array("u", (len(pts), 2))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    o = Oracle(pts, cells, et, nq=5)

    def spec(u, k):
        s = k[:, None, None, None] * jnp.broadcast_to(jnp.arange(1., 2 * d + 1).reshape(2, d), o.grad(u).shape)
        f = k[:, None, None] * (1.0 + jnp.asarray(o.x)[..., :1]) * jnp.arange(1., 3)
        return [o.int_grad(s) + o.int_val(f)]
    ck.forall(f"{et} distorted cells: constant stress and body force", lambda u, k: fe.get_res(p, [u], TP((k,)), ts=ts), spec, (u, k), ctx)


def quad_var(ck, et, n):
    """(cells, quads) variables are used at their own quadrature point; 2-D per-node variables reach every component"""
    pts, cells = build(et, n, seed=4)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, qv, nv: (qv + nv[1]) * g * jnp.array([1.0, 3.0])[:d][None] + nv[0] * jnp.ones(g.shape)
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et)
    fe0 = p.fes[0]
    Q = fe0.num_quads
    ctx, I = new()
    u = ctx.array("u", (len(pts), 1))
    qv = ctx.array("qv", (len(cells), Q), 0.5, 2)
    nv = ctx.array("nv", (len(pts), 2))
    import basix
    cellt = {"QUAD4": basix.CellType.quadrilateral, "TRI6": basix.CellType.triangle}[et]
    rule = basix.make_quadrature(cellt, 2)
    if len(rule[1]) != Q:
        return
    o = Oracle(pts, cells, et, rule=rule)
    # Gauss points are the same set; match the repository's ordering by physical position
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None

        def spec(u, qv, nv):
            n_ = o.val(nv)
            g = o.grad(u)
            s = (qv + n_[..., 1])[..., None, None] * g * jnp.array([1.0, 3.0])[:d] + n_[..., :1, None] * jnp.ones(g.shape)
            return [o.int_grad(s)]
        ck.forall(f"{et} per-quadrature-point and nodal vector variables (ts={use_ts})",
                  lambda u, qv, nv: fe.get_res(p, [u], TP((qv, nv)), ts=ts), spec, (u, qv, nv), ctx)


def multi(ck, et1, et2, n, v1, v2, order):
    """two fields on different element orders, coupled weak form with nodal variables on either mesh"""
    p1, c1 = build(et1, n, seed=2, scramble=False)
    p2, c2 = build(et2, n, seed=2, scramble=False)
    d = dim_of(et1)

    class P(fe.Problem):
        def get_weak_form(self):
            def wf(vals, grads, x, k, r, s):
                return wform(vals, grads, x, k, r, s)
            return wf

    def wform(vals, grads, x, k, r, s):
        u, t = vals
        gu, gt = grads
        m = [r * u + t[0] * jnp.arange(1., v1 + 1) + s * x[0], s * t + jnp.sum(u) * jnp.ones(v2)]
        gg = [k * gu @ mat(d) + t[0] * jnp.eye(v1, d), r * gt + jnp.sum(gu) * jnp.ones((v2, d)) + k]
        return m, gg
    p = P([fe.Mesh(p1, c1, et1), fe.Mesh(p2, c2, et2)], vec=[v1, v2], dim=d, ele_type=[et1, et2], gauss_order=[order, order])
    ctx, I = new()
    u = ctx.array("u", (len(p1), v1))
    t = ctx.array("t", (len(p2), v2))
    k = ctx.array("k", (len(c1),), 0.5, 2)
    r = ctx.array("r", (len(p1),))
    s = ctx.array("s", (len(p2),))
    o1, o2 = Oracle(p1, c1, et1, nq=5), Oracle(p2, c2, et2, nq=5)

    def spec(u, t, k, r, s):
        rq, sq = o1.val(r[:, None])[..., 0], o2.val(s[:, None])[..., 0]
        m, gg = jax.vmap(jax.vmap(wform, (0, 0, 0, None, 0, 0)))([o1.val(u), o2.val(t)], [o1.grad(u), o2.grad(t)], jnp.asarray(o1.x), k, rq, sq)
        return [o1.int_val(m[0]) + o1.int_grad(gg[0]), o2.int_val(m[1]) + o2.int_grad(gg[1])]
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
        ck.forall(f"{et1}+{et2} two-field weak form (ts={use_ts})", lambda u, t, k, r, s: fe.get_res(p, [u, t], TP((k, r, s)), ts=ts), spec, (u, t, k, r, s), ctx)


def batch(ck, et, n):
    """meshes with more cells than one assembly batch (and a remainder)"""
    pts, cells = build(et, n, seed=6)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, r: k * g @ mat(d) + r

        def get_mass_map(self):
            return lambda u, x, k, r: k * jnp.ones(1)
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et)
    ctx, I = new()
    u = ctx.array("u", (len(pts), 1))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    B = onp.random.RandomState(0).uniform(0.5, 1.5, len(pts))
    o = Oracle(pts, cells, et, nq=2)
    kc = onp.random.RandomState(1).uniform(0.5, 1.5, len(cells))
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
        ck.forall(f"{et} {len(cells)} cells (several batches) state (ts={use_ts})", lambda u: fe.get_res(p, [u], TP((jnp.asarray(kc), jnp.asarray(B))), ts=ts),
                  lambda u: [o.int_grad(kc[:, None, None, None] * (o.grad(u) @ mat(d)) + o.val(jnp.asarray(B)[:, None])[..., None]) + o.int_val(kc[:, None, None] * jnp.ones(o.JxW.shape + (1,)))], (u,), ctx)
        uc = jnp.asarray(onp.random.RandomState(2).uniform(-1, 1, (len(pts), 1)))
        ck.forall(f"{et} {len(cells)} cells (several batches) cell parameters (ts={use_ts})", lambda k: fe.get_res(p, [uc], TP((k, jnp.asarray(B))), ts=ts),
                  lambda k: [o.int_grad(k[:, None, None, None] * (o.grad(uc) @ mat(d)) + o.val(jnp.asarray(B)[:, None])[..., None]) + o.int_val(k[:, None, None] * jnp.ones(o.JxW.shape + (1,)))], (k,), ctx)


def compose(ck):
    """base/extra kernels compose: universal replaces, extra adds; energy density = gradient of psi"""
    et = "QUAD4"
    pts, cells = build(et, (2, 1), seed=3)
    o = Oracle(pts, cells, et)
    ctx, I = new()
    u = ctx.array("u", (len(pts), 2))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)

    def psi(g, k):
        e = 0.5 * (g + g.T)
        return k * (jnp.sum(e * e) + 0.35 * jnp.trace(e) ** 2)

    class En(fe.Problem):
        def get_energy_density(self):
            return psi

    class Ex(En):
        def get_extra_kernel(self):
            def ker(sol, x, sg, JxW, vg, *iv):
                return 0.5 * sol * jnp.sum(JxW)
            return ker

    class Un(Ex):
        def get_universal_kernel(self):
            def ker(sol, x, sg, JxW, vg, *iv):
                return 2.0 * sol * jnp.sum(JxW)
            return ker

        def get_mass_map(self):
            return lambda u, x, k: 100.0 * u

    def base(u, k):
        g = o.grad(u)
        e = 0.5 * (g + jnp.swapaxes(g, -1, -2))
        tr = jnp.trace(e, axis1=-2, axis2=-1)
        return o.int_grad(k[:, None, None, None] * (2 * e + 0.7 * tr[..., None, None] * jnp.eye(2)))

    def lump(u, c):
        A = o.JxW.sum(1)
        e = c * u[o.cells] * A[:, None, None]
        return jnp.zeros_like(u).at[o.cells.reshape(-1)].add(e.reshape(-1, 2))
    for P, spec, nm in ((En, lambda u, k: [base(u, k)], "energy density"),
                        (Ex, lambda u, k: [base(u, k) + lump(u, 0.5)], "extra kernel adds to the standard terms"),
                        (Un, lambda u, k: [lump(u, 2.5)], "universal kernel replaces the standard terms")):
        p = P(fe.Mesh(pts, cells, et), vec=2, dim=2, ele_type=et)
        ck.forall(nm, lambda u, k: fe.get_res(p, [u], TP((k,))), spec, (u, k), ctx)


def ambiguous(ck, et="TRI3", n=(3, 2)):
    """as many cells as nodes: a per-cell parameter stays per-cell; per-cell vectors keep their components"""
    pts, cells = build(et, n, seed=8)
    assert len(pts) == len(cells)
    o = Oracle(pts, cells, et, nq=2)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, w: k * (g @ mat(2)) + jnp.outer(w, w[:2] + 1.0)[:1]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=2, ele_type=et)
    ctx, I = new()
    u = ctx.array("u", (len(pts), 1))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)
    w = ctx.array("w", (len(cells), 2))
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    for t in (None, ts):
        ck.forall(f"{len(cells)} cells, {len(pts)} nodes: per-cell scalar and vector (ts={t is not None})",
                  lambda u, k, w: fe.get_res(p, [u], TP((k, w)), ts=t),
                  lambda u, k, w: [o.int_grad(k[:, None, None, None] * (o.grad(u) @ mat(2)) + (w[:, :1] * (w + 1.0))[:, None, None, :] * jnp.ones(o.JxW.shape + (1, 1)))],
                  (u, k, w), ctx)


def energy(ck, et, n, vec):
    """create_energy_fn integrates the density whose derivative is the residual, for nodal and per-cell parameters"""
    if not hasattr(fe, "create_energy_fn"):
        return
    pts, cells = build(et, n, seed=8)
    d = dim_of(et)
    o = Oracle(pts, cells, et, nq=3)

    def psi(g, k, r):
        return k * jnp.sum((g @ mat(d)) ** 2) + r * g[0, 0] * g[-1, -1] + 0.2 * r

    class P(fe.Problem):
        def get_energy_density(self):
            return psi
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, gauss_order=4)
    E = fe.create_energy_fn(p)
    ctx, I = new()
    u = ctx.array("u", (len(pts) * vec,))
    k, r = ctx.array("k", (len(cells),), 0.5, 2.0), ctx.array("r", (len(pts),))

    def spec(u, k, r):
        g, rq = o.grad(u.reshape(-1, vec)), o.val(r[:, None])[..., 0]
        return jnp.sum(jax.vmap(jax.vmap(psi, (0, None, 0)))(g, k, rq) * o.JxW)
    ck.forall(f"{et} stored energy", lambda u, k, r: E(u, TP((k, r))), spec, (u, k, r), ctx, tol=1e-7)
    ck.forall(f"{et} energy derivative is the residual", lambda u, k, r: fe.get_res(p, [u.reshape(-1, vec)], TP((k, r)))[0].reshape(-1), jax.grad(spec), (u, k, r), ctx, tol=1e-7)


def hessian(ck, et, n, vec, order):
    """second derivatives handed to kernels (hess=True) are those of the interpolated field, on straight cells"""
    pts, cells = build(et, n, seed=3)
    d = dim_of(et)
    o = Oracle(pts, cells, et, nq=4)
    from feax.assembler import Operator

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, h: k * (g @ mat(d))

        def get_extra_kernel(self):
            op = Operator(self)

            def ker(flat, x, sg, JxW, vg, k, h):
                sol = self.unflatten_fn_dof(flat)[0]
                H = op.hess(sol, h)
                return jnp.einsum('qvKL,qaKL,q->av', H @ mat(d), h, JxW[0]).reshape(-1)
            return ker
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, gauss_order=order, hess=True)
    ctx, I = new()
    u = ctx.array("u", (len(pts), vec))
    k = ctx.array("k", (len(cells),), 0.5, 2.0)

    def spec(u, k):
        H = jnp.einsum('cav,cqaKL->cqvKL', u[o.cells], o.H)
        e = jnp.einsum('cqvKL,cqaKL,cq->cav', H @ mat(d), o.H, o.JxW).reshape(-1, vec)
        return [o.int_grad(k[:, None, None, None] * (o.grad(u) @ mat(d))) + jnp.zeros((len(pts), vec)).at[o.cells.reshape(-1)].add(e)]
    ck.forall(f"{et} kernels with second derivatives", lambda u, k: fe.get_res(p, [u], TP((k, p.fes[0].shape_hessians))), spec, (u, k), ctx)


def recovery(ck, et, n, vec):
    """values and gradients recovered at quadrature points belong to the points the weak form is evaluated at"""
    pts, cells = build(et, n, seed=9)
    d = dim_of(et)
    seen = []

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: g

        def get_surface_maps(self):
            return [lambda u, x: u]
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, location_fns=[lambda q: on_face(0, 1.0)(q)])
    f = p.fes[0]
    if not all(hasattr(f, a) for a in ("convert_from_dof_to_quad", "sol_to_grad", "convert_from_dof_to_face_quad")):
        return
    nc = CORNERS[et]
    X = onp.asarray(pts)[onp.asarray(cells)]
    ref = REF[et][0]
    # affine cells: reference coordinates of a physical point
    def inv(c, x):
        A = onp.linalg.lstsq(onp.hstack([ref, onp.ones((len(ref), 1))]), X[c], rcond=None)[0]
        return (x - A[-1]) @ onp.linalg.inv(A[:d]), onp.linalg.inv(A[:d])
    xq = onp.asarray(p.physical_quad_points if hasattr(p, "physical_quad_points") else f.get_physical_quad_points())
    bi = onp.asarray(p.boundary_inds_list[0])
    xf = onp.asarray(fe.TracedParams.create_spatially_varying_surface_var(p, lambda q: q, 0))
    N, G = [], []
    for c in range(len(cells)):
        xi, Ji = inv(c, xq[c])
        a, b, _ = tab(et, xi)
        N.append(a)
        G.append(onp.einsum('qak,ik->qai', b, Ji))
    N, G = onp.array(N), onp.array(G)
    NF = onp.array([tab(et, inv(c, xf[i])[0])[0] for i, c in enumerate(bi[:, 0])])
    ctx, I = new()
    u = ctx.array("u", (len(pts), vec))
    cc = onp.asarray(cells)
    ck.forall(f"{et} values and gradients at quadrature points", lambda u: (f.convert_from_dof_to_quad(u), f.sol_to_grad(u), f.convert_from_dof_to_face_quad(u, bi)),
              lambda u: (jnp.einsum('cqa,cav->cqv', N, u[cc]), jnp.einsum('cqai,cav->cqvi', G, u[cc]), jnp.einsum('fqa,fav->fqv', NF, u[cc[bi[:, 0]]])), (u,), ctx)


def plain_energy(ck):
    """an energy without parameters"""
    pts, cells = build("TRI6", (1, 2), seed=8)
    o = Oracle(pts, cells, "TRI6", nq=4)
    psi = lambda g: jnp.sum((g @ mat(2)) ** 2) + g[0, 0] * g[1, 1]

    class P(fe.Problem):
        def get_energy_density(self):
            return psi
    p = P(fe.Mesh(pts, cells, "TRI6"), vec=2, dim=2, ele_type="TRI6", gauss_order=4)
    E = fe.create_energy_fn(p)
    ctx, I = new()
    u = ctx.array("u", (len(pts) * 2,))
    spec = lambda u: jnp.sum(jax.vmap(jax.vmap(psi))(o.grad(u.reshape(-1, 2))) * o.JxW)
    ck.forall("stored energy without parameters", lambda u: (E(u), E(u, TP())), lambda u: (spec(u), spec(u)), (u,), ctx, tol=1e-7)


def run(ck):
    ck.fn("feax.assembler.get_res", "feax.assembler.split_and_compute_cell", "feax.assembler.create_volume_kernel",
          "feax.assembler.Operator", "feax.assembler.compute_residual_vars_helper", "feax.basis", "feax.fe", "feax.problem.Problem")
    ck.bound("meshes: 1-8 cells of each of the 9 element types (sheared, renumbered, permuted), one mesh above the batch size; "
             "all nodal/cell/quadrature inputs symbolic in [-1,1] or [0.5,2]; forms affine/bilinear in state and parameters")
    full = ck.tier != "quick"
    for et, n, vec, order in CASES:
        ck.do(single, et, n, vec, order, use_ts=True)
        if full or et in ("TRI3", "HEX8"):
            ck.do(single, et, n, vec, order, use_ts=False)
        ck.do(default_order, et, n, vec)
    ck.do(distorted, "QUAD4", (3, 2))
    ck.do(distorted, "HEX8", (2, 2, 2))
    ck.do(quad_var, "QUAD4", (2, 2))
    ck.do(quad_var, "TRI6", (1, 1))
    ck.do(multi, "TRI6", "TRI3", (1, 1), 2, 1, 6)
    ck.do(multi, "QUAD4", "QUAD4", (2, 1), 1, 2, 5)
    if full:
        ck.do(multi, "QUAD8", "QUAD4", (1, 1), 2, 1, 8)
        ck.do(multi, "TET10", "TET4", (1, 1, 1), 3, 1, 6)
    ck.do(batch, "TRI3", (13, 11))
    if full:
        ck.do(batch, "QUAD4", (17, 31))
        ck.do(batch, "TET4", (4, 4, 3))
    ck.do(compose)
    ck.do(ambiguous)
    ck.do(energy, "QUAD4", (2, 1), 2)
    ck.do(energy, "TET4", (1, 1, 1), 3)
    for et, n, vec, order in (("TRI6", (1, 2), 2, 4), ("QUAD9", (1, 1), 1, 8), ("QUAD8", (2, 1), 1, 8), ("TET10", (1, 1, 1), 1, 4)) if full else (("TRI6", (1, 2), 2, 4), ("QUAD9", (1, 1), 1, 8), ("TET10", (1, 1, 1), 1, 4)):
        ck.do(hessian, et, n, vec, order)
    for et, n, vec in (("TRI3", (2, 1), 2), ("QUAD8", (1, 2), 1), ("TET4", (1, 1, 1), 2), ("HEX8", (2, 1, 1), 1)):
        ck.do(recovery, et, n, vec)
    ck.do(plain_energy)
