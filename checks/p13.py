"""P13: design filters and response functions compute the averages / solves / integrals they document."""
import contextlib
import sys
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
import feax.gene.filters as GF
from feax import gene
from feax.gene.responses import create_compliance_fn, create_dynamic_compliance_fn, create_volume_fn
from feax.flat import pbc
from symx import pyx
from symx.pyx import eq, conj
from symx.npx import numpy_on_terms, NP
from .fem import *
from .p05 import quiet, D, K, R_of
from .p08 import cell_of, classes
from .p02 import preds


# ---- density filter -------------------------------------------------------------------------------
def weights(pts, r, kind):
    d = onp.sqrt(((pts[:, None] - pts[None]) ** 2).sum(-1))
    w = {"cone": onp.maximum(0.0, r - d), "gaussian": onp.exp(-(d / r) ** 2), "constant": onp.ones_like(d)}[kind]
    return onp.where(d <= r, w, 0.0)


def density(ck, et, n, r, kind, one_shot=False, scale=None):
    pts, cells = build(et, n, seed=41, affine=scale is None)
    if scale is not None:
        pts = pts * scale
    m = fe.Mesh(pts, cells, et)
    W = weights(pts, r, kind)
    W = W / W.sum(1, keepdims=True)
    ctx, _ = new()
    N = len(pts)
    rho = ctx.array("rho", (N,))
    f = None if one_shot else gene.create_density_filter(m, r, **({} if kind == "cone" else {"weight_type": kind}))

    def impl(rho):
        return gene.density_filter(rho, m, r, weight_type=kind) if one_shot else f(rho)
    ck.forall(f"density filter {et}{n} r={r} {kind} one_shot={one_shot}", impl, lambda rho: W @ rho, (rho,), ctx)
    if not one_shot and N < 60:
        c = ctx.array("c", (N,))
        ck.forall(f"density filter pullback {et}{n} r={r} {kind}", lambda rho, c: jax.vjp(f, rho)[1](c)[0], lambda rho, c: W.T @ c, (rho, c), ctx)
        b = ctx.array("b", (2, N))
        ck.forall(f"density filter vmap {et}{n} r={r} {kind}", lambda b: jax.vmap(f)(b), lambda b: b @ W.T, (b,), ctx)


def density_symmetry(ck, et, n, r):
    """every constant field is reproduced, and outputs stay within the range of the inputs"""
    pts, cells = build(et, n, seed=42)
    f = gene.create_density_filter(fe.Mesh(pts, cells, et), r)
    ctx, I = new()
    c = ctx.array("c", ())
    ck.forall(f"density filter reproduces constants {et}{n}", lambda c: f(c * jnp.ones(len(pts))), lambda c: c * jnp.ones(len(pts)), (c,), ctx)


# ---- Helmholtz filter -----------------------------------------------------------------------------
class Helm(fe.Problem):
    def get_tensor_map(self):
        return lambda g, s, r2: r2 * g

    def get_mass_map(self):
        return lambda u, x, s, r2: u - s


def helmholtz(ck, et, n, r, opts=None, one_shot=False, grad=False, ele=None):
    pts, cells = build(et, n, seed=43)
    m = fe.Mesh(pts, cells, et)
    d = dim_of(et)
    N = len(pts)
    p = Helm(m, vec=1, dim=d, ele_type=et)
    o = Oracle(pts, cells, et)
    ctx, _ = new()
    rho = ctx.array("rho", (N,))
    kw = {} if opts is None else {"solver_options": opts}
    f = None if one_shot else quiet(gene.create_helmholtz_filter, m, r, **kw)
    # the discrete operators of the declared equation, with the element's own quadrature (P01 decides those against an oracle)
    fe0 = p.fes[0]
    sv, sg, jw = onp.asarray(fe0.shape_vals), onp.asarray(fe0.shape_grads), onp.asarray(fe0.JxW)
    M, S = onp.zeros((N, N)), onp.zeros((N, N))
    for c, conn in enumerate(cells):
        for q in range(jw.shape[1]):
            M[onp.ix_(conn, conn)] += jw[c, q] * onp.outer(sv[q], sv[q])
            S[onp.ix_(conn, conn)] += jw[c, q] * sg[c, q] @ sg[c, q].T
    if abs(M.sum() - o.JxW.sum()) > 1e-9:
        ck.violate(f"Helmholtz filter {et}{n}", {"mass": M.sum(), "volume": o.JxW.sum()})
        return
    A = M + r * r * S

    def impl(rho):
        x = gene.helmholtz_filter(rho, m, r, **kw) if one_shot else f(rho)
        return A @ x

    ck.forall(f"Helmholtz filter {et}{n} r={r} {type(opts).__name__ if opts else 'default'} one_shot={one_shot}", impl, lambda rho: M @ rho, (rho,), ctx, tol=1e-6)
    if grad:
        c = ctx.array("c", (N,))
        B = onp.linalg.solve(A, M)
        # pullback: (A^-1 M)^T c
        ck.forall(f"Helmholtz filter pullback {et}{n} r={r}", lambda rho, c: jax.vjp(f, rho)[1](c)[0], lambda rho, c: B.T @ c, (rho, c), ctx, tol=1e-6)


def helmholtz_periodic(ck, et, n, r):
    d = dim_of(et)
    lb, L = onp.array([-0.4, 0.7, 0.2][:d]), onp.array([1.5, 1.0, 0.8][:d])
    uc, pts = cell_of(et, n, lb, L)
    P = pbc.prolongation_matrix((pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=1, dim=d), uc.mesh, 1)
    ids, k = classes(pts, lb, L)
    W = onp.zeros((len(pts), k))
    W[onp.arange(len(pts)), ids] = 1
    f = quiet(gene.create_helmholtz_filter, uc.mesh, r, P=P)
    N = len(pts)
    p = Helm(uc.mesh, vec=1, dim=d, ele_type=et)
    ctx, _ = new()
    rho = ctx.array("rho", (N,))
    Z = onp.eye(N) - W @ onp.linalg.pinv(W)

    def impl(rho):
        x = f(rho)
        R = R_of(p, x, TP((rho, jnp.full(N, r * r))), None)
        return W.T @ R, Z @ x
    ck.forall(f"periodic Helmholtz filter {et}{n}", impl, lambda rho: (jnp.zeros(k), jnp.zeros(N)), (rho,), ctx, tol=1e-6)


# ---- projection -----------------------------------------------------------------------------------
def heaviside(ck):
    ctx, _ = new()
    r, b, t = ctx.array("r", (3,), 0.0, 1.0), ctx.array("b", (), 0.1, 30.0), ctx.array("t", (), 0.0, 1.0)
    ck.forall("heaviside projection", lambda r, b, t: gene.heaviside_projection(r, beta=b, threshold=t), lambda r, b, t: 0.5 * jnp.tanh(b * (r - t)) + 0.5, (r, b, t), ctx)
    ck.forall("heaviside projection, defaults", lambda r: gene.heaviside_projection(r), lambda r: 0.5 * jnp.tanh(10.0 * (r - 0.5)) + 0.5, (r,), ctx)


# ---- sensitivity filter ---------------------------------------------------------------------------
@contextlib.contextmanager
def terms():
    """numpy on solver terms, also for functions importing numpy locally"""
    with numpy_on_terms(GF):
        if pyx.ENG is None:
            yield
            return
        real = sys.modules["numpy"]
        sys.modules["numpy"] = NP()
        try:
            yield
        finally:
            sys.modules["numpy"] = real


def sensitivity(ck, Dm, rmin, active, rho, spacing=(0.5, 2.0, 0.25)):
    na = len(active)
    V = {f"c{i}": "real" for i in range(na)}
    if rho is None:
        V.update({f"r{i}": "real" for i in range(na)})
    ijk = [(a // (Dm[1] * Dm[2]), (a // Dm[2]) % Dm[1], a % Dm[2]) for a in active]

    def assume(v):
        return [c for k, x in v.items() for c in ((x >= -3, x <= 3) if k[0] == "c" else (x >= 0.002, x <= 1))]

    def H(v):
        g = fe.StructuredGrid(Dm, spacing=spacing)
        c = [v[f"c{i}"] for i in range(na)]
        r = list(rho) if rho is not None else [v[f"r{i}"] for i in range(na)]
        with terms():
            out = gene.create_sensitivity_filter(g, rmin)(onp.array(active), r, c)
        out = [x.item() if isinstance(x, onp.generic) else x for x in onp.asarray(out, object).ravel()]
        cl = {}
        for e in range(na):
            Hs = 0.0
            for x in range(Dm[0]):
                for y in range(Dm[1]):
                    for z in range(Dm[2]):
                        Hs += max(0.0, rmin - float(onp.sqrt(sum((p - q) ** 2 for p, q in zip((x, y, z), ijk[e])))))
            num = 0.0
            for k in range(na):
                w = max(0.0, rmin - float(onp.sqrt(sum((p - q) ** 2 for p, q in zip(ijk[k], ijk[e])))))
                num = num + w * r[k] * c[k]
            if rho is not None:
                cl[f"cell {active[e]}"] = eq(out[e], num * (1.0 / (Hs * max(1e-3, r[e]))))
            else:
                cl[f"cell {active[e]}"] = eq(out[e] * (Hs * r[e]), num)
        cl["length"] = len(out) == na
        return cl
    pyx.check(ck, f"sensitivity filter {Dm} rmin={rmin} active={list(active)} {'symbolic' if rho is None else 'fixed'} densities", V, H, assume)


# ---- responses ------------------------------------------------------------------------------------
def tract(i, x, v, *q):
    v_ = jnp.arange(1., v + 1)
    return (1.0 + i) * q[0] * v_ + (x[0] - 0.4 * x[1]) * (v_ - 1.5 * i) * (q[1] if len(q) > 1 else 1.0)


def surf_problem(et, n, vec, dep=False, nsurf=3, nq=1, order=4):
    pts, cells = build(et, n, seed=44)
    d = dim_of(et)
    pr = preds(d)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, *k: g

        def get_surface_maps(self):
            if nq == 1:
                return [(lambda u, x, a, i=i: tract(i, x, vec, a) + (0.3 * u if dep else 0.0)) for i in range(nsurf)]
            return [(lambda u, x, a, b, i=i: tract(i, x, vec, a, b) + (0.3 * u if dep else 0.0)) for i in range(nsurf)]
    locs = [lambda q: pr[0](q), lambda q: pr[1](q), lambda q: pr[2](q)][:nsurf]
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, gauss_order=order, location_fns=locs)
    so = [SurfOracle(pts, cells, et, lambda q, i=i: bool(pr[i](q)), nq=5) for i in range(nsurf)]
    return p, so, pts, cells


def compliance(ck, et, n, vec, params, dep=False, order=4):
    p, so, pts, cells = surf_problem(et, n, vec, dep, order=order)
    f = create_compliance_fn(p) if params is None else create_compliance_fn(p, params)
    pv = [1.0] * 3 if params is None else ([params] * 3 if isinstance(params, float) else list(params))
    ctx, _ = new()
    u = ctx.array("u", (len(pts) * vec,))

    def spec(u):
        t = 0.0
        for i, s in enumerate(so):
            uq = s.val(u.reshape(-1, vec))
            fq = jax.vmap(jax.vmap(lambda uu, x: tract(i, x, vec, pv[i]) + (0.3 * uu if dep else 0.0)))(uq, jnp.asarray(s.x))
            t = t - jnp.einsum('fqv,fqv,fq->', fq, uq, s.dS)
        return t
    ck.forall(f"compliance {et}{n} vec={vec} params={params} state-dependent={dep}", lambda u: f(u), spec, (u,), ctx)


def dynamic(ck, et, n, vec, dep=False):
    p, so, pts, cells = surf_problem(et, n, vec, dep, nq=2, order=2)
    so = [SurfOracle(pts, cells, et, s, nq=2) for s in [lambda q, i=i: bool(preds(dim_of(et))[i](q)) for i in range(3)]]
    f = create_dynamic_compliance_fn(p)
    d = dim_of(et)
    maps, shapes = [], []
    for i in range(3):
        x = onp.asarray(fe.TracedParams.create_spatially_varying_surface_var(p, lambda q: q, i))
        ref = so[i].x.reshape(-1, d)
        Dm = onp.linalg.norm(x.reshape(-1, 1, d) - ref[None], axis=2)
        maps.append(onp.argsort(Dm.argmin(1)))
        shapes.append(x.shape[:2])
    ctx, _ = new()
    u = ctx.array("u", (len(pts) * vec,))
    a = [ctx.array(f"a{i}", shapes[i]) for i in range(3)]
    b = [ctx.array(f"b{i}", shapes[i]) for i in range(3)]

    def spec(u, a, b):
        t = 0.0
        for i, s in enumerate(so):
            uq = s.val(u.reshape(-1, vec))
            g = lambda v: v.reshape(-1)[maps[i]].reshape(s.dS.shape)
            fq = jax.vmap(jax.vmap(lambda uu, x, p_, q_: tract(i, x, vec, p_, q_) + (0.3 * uu if dep else 0.0)))(uq, jnp.asarray(s.x), g(a[i]), g(b[i]))
            t = t - jnp.einsum('fqv,fqv,fq->', fq, uq, s.dS)
        return t
    ck.forall(f"dynamic compliance {et}{n} vec={vec}", lambda u, a, b: f(u, [(x, y) for x, y in zip(a, b)]), spec, (u, a, b), ctx)


def multi_field_compliance(ck):
    """the displacement is the first field, whatever follows it"""
    p1, c1 = build("QUAD4", (2, 1), scramble=False)
    pr = preds(2)

    class P(fe.Problem):
        def get_weak_form(self):
            return lambda vals, grads, x: ([0. * v for v in vals], [0. * g for g in grads])

        def get_surface_maps(self):
            return [lambda u, x, a: -a * jnp.array([1.0, x[0]])]
    p = P([fe.Mesh(p1, c1, "QUAD4")] * 2, vec=[2, 1], dim=2, ele_type=["QUAD4"] * 2, gauss_order=[4, 4], location_fns=[lambda q: pr[0](q)])
    s = SurfOracle(p1, c1, "QUAD4", lambda q: bool(pr[0](q)), nq=5)
    f = create_compliance_fn(p, [2.0])
    ctx, _ = new()
    N = len(p1)
    u = ctx.array("u", (3 * N,))
    ck.forall("compliance of the first of two fields", lambda u: f(u), lambda u: 2.0 * jnp.einsum('fqv,fqv,fq->', s.val(u[:2 * N].reshape(-1, 2)), jnp.stack([jnp.ones(s.dS.shape), s.x[..., 0]], -1), s.dS), (u,), ctx)


def volume(ck, et, n, order=None):
    pts, cells = build(et, n, seed=45)
    d = dim_of(et)
    p = Helm(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, **({"gauss_order": order} if order is not None else {}))
    o = Oracle(pts, cells, et)
    f = create_volume_fn(p)
    V = o.JxW.sum()
    jw = onp.asarray(p.fes[0].JxW)
    nc, nq = jw.shape
    if len({len(pts), len(cells), nc * nq}) < (3 if nq > 1 else 2):
        return
    ctx, _ = new()
    a, b, c = ctx.array("a", (len(pts),)), ctx.array("b", (nc,)), ctx.array("c", (nc, nq))
    ck.forall(f"volume fraction, nodal density {et}{n}", lambda a: f(a), lambda a: jnp.einsum('cq,cq->', o.val(a[:, None])[..., 0], o.JxW) / V, (a,), ctx)
    ck.forall(f"volume fraction, cell density {et}{n}", lambda b: f(b), lambda b: b @ o.JxW.sum(1) / V, (b,), ctx)
    ck.forall(f"volume fraction, point density {et}{n}", lambda c: f(c), lambda c: jnp.sum(c * jw) / V, (c,), ctx)
    ck.forall(f"volume fraction pullback, nodal {et}{n}", lambda a: jax.grad(f)(a), lambda a: jnp.zeros(len(pts)).at[cells.reshape(-1)].add(jnp.einsum('qa,cq->ca', o.N, o.JxW).reshape(-1)) / V, (a,), ctx)


def run(ck):
    ck.fn("feax.gene.filters.create_density_filter", "feax.gene.filters.density_filter", "feax.gene.filters.create_helmholtz_filter", "feax.gene.filters.helmholtz_filter",
          "feax.gene.filters.heaviside_projection", "feax.gene.filters.create_sensitivity_filter", "feax.gene.responses.create_compliance_fn",
          "feax.gene.responses.create_dynamic_compliance_fn", "feax.gene.responses.create_volume_fn")
    ck.bound("meshes up to 27 cells (plus one of 560 nodes spanning two weight batches); all density fields / states / loads / cotangents in [-3, 3]; radii, weight kinds and active sets from a gallery; the inner linear solve of the Helmholtz filter is a contract stub; tanh is an uninterpreted function")
    full = ck.tier != "quick"
    for a in (("TRI3", (3, 2), 0.6, "cone"), ("QUAD4", (3, 2), 0.45, "gaussian"), ("HEX8", (2, 1, 2), 0.8, "constant"), ("TET4", (1, 2, 1), 0.7, "cone"), ("QUAD8", (2, 1), 0.5, "cone")):
        ck.do(density, *a)
    ck.do(density, "QUAD4", (3, 2), 0.45, "cone", True)
    ck.do(density, "QUAD4", (2, 3), 1.0, "constant", False, onp.array([2.0, 3.0]))
    ck.do(density, "QUAD4", (27, 19), 0.06, "cone")
    ck.do(density_symmetry, "TRI6", (2, 1), 0.4)
    ck.do(helmholtz, "QUAD4", (3, 2), 0.3, None, False, True)
    ck.do(helmholtz, "TRI3", (3, 1), 0.2, K(solver="bicgstab", tol=1e-10))
    ck.do(helmholtz, "TRI3", (2, 3), 0.4)
    ck.do(helmholtz, "HEX8", (2, 1, 1), 0.5, None, True)
    ck.do(helmholtz, "TET4", (1, 1, 1), 0.3)
    ck.do(helmholtz, "QUAD8", (2, 1), 0.3)
    ck.do(helmholtz, "TRI6", (1, 1), 0.3)
    ck.do(helmholtz, "TET10", (1, 1, 1), 0.3)
    ck.do(helmholtz, "HEX20", (1, 1, 1), 0.3)
    ck.do(helmholtz_periodic, "QUAD4", (3, 2), 0.4)
    ck.do(heaviside)
    ck.do(sensitivity, (3, 2, 2), 1.5, [0, 3, 4, 7, 10], [0.5, 1.0, 0.0005, 0.2, 0.7])
    ck.do(sensitivity, (2, 3, 1), 2.3, [0, 1, 2, 3, 4, 5], [0.5, 1.0, 0.3, 0.2, 0.0, 0.9])
    ck.do(sensitivity, (4, 1, 1), 1.7, [1, 2], None)
    ck.do(sensitivity, (3, 3, 3), 2.0, [2, 9, 13, 14, 20], None)
    ck.do(sensitivity, (2, 2, 2), 1.0, [1, 6], [0.4, 0.6])
    ck.do(compliance, "QUAD4", (2, 2), 2, None)
    ck.do(compliance, "TRI3", (2, 1), 2, (0.5, -1.0, 2.0), True)
    ck.do(compliance, "HEX8", (1, 1, 2), 3, 1.7)
    ck.do(compliance, "TET4", (1, 1, 1), 3, [0.5, -1.0, 2.0])
    ck.do(compliance, "QUAD8", (1, 1), 2, [0.5, 3.0, 2.0], False, 6)
    ck.do(dynamic, "QUAD4", (2, 2), 2)
    ck.do(dynamic, "HEX8", (1, 1, 2), 3, True)
    ck.do(multi_field_compliance)
    for a in (("TRI3", (3, 2)), ("QUAD4", (3, 2)), ("TRI6", (2, 1), 4), ("QUAD8", (2, 2)), ("TET4", (1, 1, 2)), ("HEX8", (2, 1, 2)), ("HEX20", (1, 1, 1))):
        ck.do(volume, *a)
    if full:
        ck.do(helmholtz, "HEX8", (2, 2, 1), 0.4, None, False, True)
        ck.do(helmholtz_periodic, "HEX8", (2, 2, 2), 0.4)
        ck.do(density, "HEX8", (3, 3, 3), 0.5, "gaussian")
        ck.do(sensitivity, (3, 4, 3), 2.6, list(range(0, 36, 4)), None)
        ck.do(dynamic, "TET4", (1, 1, 1), 3)
