"""P02: boundary loads are integrated exactly once over exactly the selected faces."""
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from .fem import *

CASES = [("TRI3", (2, 2), 2, 4), ("TRI6", (1, 2), 1, 6), ("QUAD4", (2, 2), 2, 4), ("QUAD8", (2, 1), 1, 6),
         ("QUAD9", (1, 2), 1, 6), ("TET4", (1, 1, 1), 3, 4), ("TET10", (1, 1, 1), 1, 6), ("HEX8", (2, 1, 2), 1, 4),
         ("HEX20", (1, 1, 1), 2, 6)]


def tract(i, u, x, a, b):
    """affine in (u, a, b), different per surface i"""
    v = jnp.arange(1., u.shape[0] + 1)
    return a * v * (1.0 + i) + b * u + (x[0] - 0.5 * x[1]) * v * (2.0 - i)


def preds(d):
    return [on_face(0, 1.0), on_face(1, 0.0)] + ([on_face(2, 1.0)] if d == 3 else [lambda p: on_face(0, 1.0)(p) | on_face(1, 1.0)(p)])


def single(ck, et, n, vec, order, use_ts):
    pts, cells = build(et, n, seed=11)
    d = dim_of(et)
    pr = preds(d)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [(lambda u, x, a, b, i=i: tract(i, u, x, a, b)) for i in range(3)]
    locs = [(lambda p, i=i: pr[i](p)) for i in range(3)]
    locs = [lambda p: pr[0](p), lambda p: pr[1](p), lambda p: pr[2](p)]
    p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, gauss_order=order, location_fns=locs)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    so = [SurfOracle(pts, cells, et, lambda q, i=i: bool(pr[i](q)), nq=5) for i in range(3)]
    nf = [len(b) for b in p.boundary_inds_list]
    ctx, _ = new()
    if nf != [len(s.faces) for s in so]:
        ck.violate(f"{et}: selected faces", {"selected": nf, "expected": [len(s.faces) for s in so]})
        return
    u = ctx.array("u", (len(pts), vec))
    ab = ctx.array("ab", (3, 2))

    def impl(u, ab):
        sv = [tuple(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, i).shape, ab[i, k]) for k in range(2)) for i in range(3)]
        return fe.get_res(p, [u], TP((), sv), ts=ts)

    def spec(u, ab):
        R = jnp.zeros((len(pts), vec))
        for i in range(3):
            f = jax.vmap(jax.vmap(lambda uu, xx: tract(i, uu, xx, ab[i, 0], ab[i, 1])))(so[i].val(u), jnp.asarray(so[i].x))
            R = R + so[i].int_val(f)
        return [R]
    ck.forall(f"{et} three boundaries, affine loads (ts={use_ts})", impl, spec, (u, ab), ctx)


def default_order(ck, et, n):
    """default quadrature: uniform tractions integrate exactly on every element type"""
    pts, cells = build(et, n, seed=12)
    d = dim_of(et)
    pr = preds(d)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [lambda u, x, a: a * jnp.arange(1., 3)] * 2
    p = P(fe.Mesh(pts, cells, et), vec=2, dim=d, ele_type=et, location_fns=[lambda q: pr[0](q), lambda q: pr[1](q)])
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    so = [SurfOracle(pts, cells, et, lambda q, i=i: bool(pr[i](q)), nq=5) for i in range(2)]
    ctx, _ = new()
    a = ctx.array("a", (2,))

    def impl(a):
        sv = [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, i).shape, a[i]),) for i in range(2)]
        return fe.get_res(p, [jnp.zeros((len(pts), 2))], TP((), sv), ts=ts)

    def spec(a):
        return [sum(s.int_val(a[i] * jnp.broadcast_to(jnp.arange(1., 3), s.dS.shape + (2,))) for i, s in enumerate(so))]
    ck.forall(f"{et} uniform traction, default quadrature", impl, spec, (a,), ctx)


def per_point(ck, et, n):
    """every (face, point) value of a surface variable acts at its own place with its own weight"""
    pts, cells = build(et, n, seed=13)
    d = dim_of(et)
    pr = preds(d)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [lambda u, x, a, b: a * jnp.array([1.0, -2.0]) + b, lambda u, x, a: a * jnp.array([0.5, 3.0])]
    p = P(fe.Mesh(pts, cells, et), vec=2, dim=d, ele_type=et, gauss_order=2, location_fns=[lambda q: pr[0](q), lambda q: pr[1](q)])
    so = [SurfOracle(pts, cells, et, lambda q, i=i: bool(pr[i](q)), nq=2) for i in range(2)]
    ctx, _ = new()
    maps = []
    for i in range(2):
        x = onp.asarray(fe.TracedParams.create_spatially_varying_surface_var(p, lambda q: q, i))
        ref = so[i].x.reshape(-1, d)
        D = onp.linalg.norm(x.reshape(-1, 1, d) - ref[None], axis=2)
        j = D.argmin(1)
        if x.reshape(-1, d).shape != ref.shape or D.min(1).max() > 1e-9 or len(set(j)) != len(ref):
            ck.violate(f"{et}: physical positions of surface points", {"points": x.reshape(-1, d).tolist(), "expected": ref.tolist()})
            return
        maps.append((x.shape[:2], onp.argsort(j)))
    a = ctx.array("a", maps[0][0])
    b = ctx.array("b", maps[0][0])
    c = ctx.array("c", maps[1][0])
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None

        def impl(a, b, c):
            return fe.get_res(p, [jnp.zeros((len(pts), 2))], TP((), [(a, b), (c,)]), ts=ts)

        def spec(a, b, c):
            s = lambda v, i: v.reshape(-1)[maps[i][1]].reshape(so[i].dS.shape)
            return [so[0].int_val(s(a, 0)[..., None] * jnp.array([1.0, -2.0]) + s(b, 0)[..., None])
                    + so[1].int_val(s(c, 1)[..., None] * jnp.array([0.5, 3.0]))]
        ck.forall(f"{et} per-point surface variables (ts={use_ts})", impl, spec, (a, b, c), ctx)


def two_field(ck, et1, et2, n, v1, v2):
    p1, c1 = build(et1, n, scramble=False)
    p2, c2 = build(et2, n, scramble=False)
    d = dim_of(et1)
    pr = preds(d)

    def swf(vals, x, a):
        u, t = vals
        return [a * u + t[0] * jnp.ones(v1), a * jnp.ones(v2) + jnp.sum(u) * jnp.ones(v2) + t]

    class P(fe.Problem):
        def get_weak_form(self):
            return lambda vals, grads, x: ([0. * v for v in vals], [0. * g for g in grads])

        def get_surface_weak_forms(self):
            return [lambda vals, x, a: swf(vals, x, a)]
    p = P([fe.Mesh(p1, c1, et1), fe.Mesh(p2, c2, et2)], vec=[v1, v2], dim=d, ele_type=[et1, et2], gauss_order=[6, 6], location_fns=[lambda q: pr[0](q)])
    s1, s2 = (SurfOracle(P_, C_, e_, lambda q: bool(pr[0](q)), nq=5) for P_, C_, e_ in ((p1, c1, et1), (p2, c2, et2)))
    ctx, _ = new()
    u, t, a = ctx.array("u", (len(p1), v1)), ctx.array("t", (len(p2), v2)), ctx.array("a", ())

    def spec(u, t, a):
        f1, f2 = jax.vmap(jax.vmap(lambda x_, y_: swf([x_, y_], None, a)))(s1.val(u), s2.val(t))
        return [s1.int_val(f1), s2.int_val(f2)]
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
        ck.forall(f"{et1}+{et2} two-field surface weak form (ts={use_ts})",
                  lambda u, t, a: fe.get_res(p, [u, t], TP((), [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape, a),)]), ts=ts), spec, (u, t, a), ctx)


def missing(ck):
    """a boundary without a load contributes nothing"""
    et = "QUAD4"
    pts, cells = build(et, (2, 1))
    ctx, _ = new()
    o = Oracle(pts, cells, et)
    u = ctx.array("u", (len(pts), 1))

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 2.0 * g
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=2, ele_type=et, location_fns=[lambda q: on_face(0, 1.0)(q)])
    ck.forall("boundary without a load (single field)", lambda u: fe.get_res(p, [u], TP()), lambda u: [o.int_grad(2.0 * o.grad(u))], (u,), ctx)

    class P2(fe.Problem):
        def get_weak_form(self):
            return lambda vals, grads, x: ([0. * v for v in vals], [2. * g for g in grads])
    p2 = P2([fe.Mesh(pts, cells, et)] * 2, vec=[1, 1], dim=2, ele_type=[et, et], location_fns=[lambda q: on_face(0, 1.0)(q)])
    ck.forall("boundary without a load (two fields)", lambda u: fe.get_res(p2, [u, 3 * u], TP()), lambda u: [o.int_grad(2.0 * o.grad(u)), o.int_grad(6.0 * o.grad(u))], (u,), ctx)


def indexed(ck):
    """two-argument location functions select by node number as well"""
    et = "QUAD4"
    pts, cells = build(et, (3, 3))
    onb = [k for k in range(len(pts)) if bool(on_face(0, 1.0)(pts[k]))]
    onb.sort(key=lambda k: pts[k][1])
    keep = jnp.asarray(onb[:3])

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [lambda u, x, a: a * jnp.ones(1)]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=2, ele_type=et, location_fns=[lambda q, ind: on_face(0, 1.0)(q) & jnp.isin(ind, keep)])
    ids = set(onb[:3])
    so = SurfOracle(pts, cells, et, lambda q: any(onp.allclose(q, pts[k]) for k in ids))
    ctx, _ = new()
    a = ctx.array("a", ())
    ck.forall("location by node number", lambda a: fe.get_res(p, [jnp.zeros((len(pts), 1))], TP((), [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape, a),)])),
              lambda a: [so.int_val(a * jnp.ones(so.dS.shape + (1,)))], (a,), ctx)


def many_faces(ck):
    """more loaded faces than one assembly batch"""
    et = "HEX8"
    pts, cells = build(et, (1, 17, 16), seed=5)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [lambda u, x, a: a * jnp.ones(1) + 0.5 * u]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=3, ele_type=et, location_fns=[lambda q: on_face(0, 1.0)(q)])
    so = SurfOracle(pts, cells, et, lambda q: abs(onp.linalg.inv(A3)[0] @ (q - 0.37) - 1) < 1e-6)
    ctx, _ = new()
    u = ctx.array("u", (len(pts), 1))
    a = ctx.array("a", ())
    for use_ts in (False, True):
        ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
        ck.forall(f"{len(so.faces)} loaded faces (several batches, ts={use_ts})", lambda u, a: fe.get_res(p, [u], TP((), [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape, a),)]), ts=ts),
                  lambda u, a: [so.int_val(a * jnp.ones(so.dS.shape + (1,)) + 0.5 * so.val(u))], (u, a), ctx)


def partial(ck, et, n):
    """faces only partly inside the selection carry no load"""
    pts, cells = build(et, n, seed=13)
    d = dim_of(et)
    A = A2 if d == 2 else A3
    c = jnp.asarray(A @ onp.array([1., 0., 0.][:d]) + 0.37)

    def pred(q):
        return on_face(0, 1.0)(q) & (jnp.sum((q - c) ** 2) > 1e-8)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g: 0.0 * g

        def get_surface_maps(self):
            return [lambda u, x, a: a * (u + 0.3)]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, location_fns=[lambda q: pred(q)])
    so = SurfOracle(pts, cells, et, lambda q: bool(pred(q)), nq=5)
    ctx, _ = new()
    u = ctx.array("u", (len(pts), 1))
    a = ctx.array("a", ())
    ck.forall(f"{et} partial selection", lambda u, a: fe.get_res(p, [u * 0], TP((), [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, 0).shape, a),)])),
              lambda u, a: [so.int_val(a * 0.3 * jnp.ones(so.dS.shape + (1,)))], (u, a), ctx)


def universal(ck):
    """user-written face kernels: alone, next to a surface map, and for coupled fields"""
    et = "QUAD4"
    pts, cells = build(et, (2, 2), seed=11)
    o = [SurfOracle(pts, cells, et, lambda q, pr=pr: bool(pr(q)), nq=4) for pr in preds(2)[:2]]
    ctx, _ = new()
    u, a = ctx.array("u", (len(pts), 2)), ctx.array("a", ())
    base = fe.Problem

    def make(problem_ref, c):
        def ker(flat, x, sv, sg, ns, *iv):
            sol = problem_ref[0].unflatten_fn_dof(flat)[0]
            val = sv @ sol
            return (c * jnp.einsum('qv,qa,q->av', val * iv[0][:, None] + x[:, :1], sv, ns[0] if ns.ndim == 2 else ns)).reshape(-1)
        return ker

    class P(base):
        def get_tensor_map(self):
            return lambda g, *z: 0.0 * g

        def get_universal_kernels_surface(self):
            return [make([self], 1.0), make([self], -0.5)]

    class Q(P):
        def get_surface_maps(self):
            return [lambda u, x, a: 3.0 * u + a, lambda u, x, a: jnp.ones(2)]
    locs = [lambda q: preds(2)[0](q), lambda q: preds(2)[1](q)]
    for cls in (P, Q):
        p = cls(fe.Mesh(pts, cells, et), vec=2, dim=2, ele_type=et, gauss_order=4, location_fns=locs)
        sv = lambda a: [(jnp.full(fe.TracedParams.create_uniform_surface_var(p, 1.0, i).shape, a),) for i in range(2)]

        def spec(u, a):
            R = 0
            for i, c in enumerate((1.0, -0.5)):
                R = R + c * o[i].int_val(a * o[i].val(u) + jnp.asarray(o[i].x)[..., :1])
            if cls is Q:
                R = R + o[0].int_val(3.0 * o[0].val(u) + a) + o[1].int_val(jnp.ones(o[1].dS.shape + (2,)))
            return [R]
        ck.forall(f"face kernels{' next to surface maps' if cls is Q else ''}", lambda u, a: fe.get_res(p, [u], TP((), sv(a))), spec, (u, a), ctx)

    class M(base):
        def get_weak_form(self):
            return lambda vals, grads, x, *z: ([0. * v for v in vals], [0. * g for g in grads])

        def get_universal_kernels_surface(self):
            def ker(flat, x, sv, sg, ns, *iv):
                s = self.unflatten_fn_dof(flat)
                n1 = s[0].shape[0]
                N1, N2 = sv[:, :n1], sv[:, n1:]
                w1, w2 = ns[0], ns[1]
                v1, v2 = N1 @ s[0], N2 @ s[1]
                r1 = jnp.einsum('qv,qa,q->av', v1 + v2, N1, w1)
                r2 = jnp.einsum('qv,qa,q->av', 2.0 * v2 + v1[:, :1], N2, w2)
                return jnp.concatenate([r1.reshape(-1), r2.reshape(-1)])
            return [ker]
    m = M([fe.Mesh(pts, cells, et)] * 2, vec=[2, 1], dim=2, ele_type=[et] * 2, gauss_order=[4, 4], location_fns=locs[:1])
    t = ctx.array("t", (len(pts), 1))
    ck.forall("face kernel of two fields", lambda u, t: fe.get_res(m, [u, t], TP()),
              lambda u, t: [o[0].int_val(o[0].val(u) + o[0].val(t)), o[0].int_val(2.0 * o[0].val(t) + o[0].val(u)[..., :1])], (u, t), ctx)


def run(ck):
    ck.fn("feax.assembler.get_res", "feax.assembler.compute_face", "feax.assembler.create_surface_kernel", "feax.fe.FiniteElement (face tabulation, Nanson scaling, face selection)",
          "feax.basis.get_face_shape_vals_and_grads", "feax.traced_params.TracedParams")
    ck.bound("meshes of 1-8 cells of each element type (sheared, renumbered) plus one with 272 loaded faces; state, load parameters and per-point values symbolic in [-1,1]; loads affine in state and parameters")
    full = ck.tier != "quick"
    for et, n, vec, order in CASES:
        ck.do(single, et, n, vec, order, True)
        if full or et in ("QUAD4", "TET4"):
            ck.do(single, et, n, vec, order, False)
        ck.do(default_order, et, n)
    ck.do(per_point, "QUAD4", (2, 2))
    ck.do(per_point, "HEX8", (2, 1, 2))
    ck.do(per_point, "TRI3", (2, 2))
    ck.do(two_field, "TRI6", "TRI3", (1, 1), 2, 1)
    ck.do(two_field, "HEX8", "HEX8", (1, 1, 1), 1, 2)
    for et in ("TRI3", "TRI6", "QUAD4", "QUAD8"):
        ck.do(partial, et, (2, 2))
    for et in ("TET4", "HEX8", "HEX20") if full else ("TET4", "HEX8"):
        ck.do(partial, et, (1, 2, 2))
    ck.do(missing)
    ck.do(indexed)
    ck.do(many_faces)
    ck.do(universal)
