"""P15: solutions, parameters and exported files keep every value in its place."""
import os
import shutil
import sys
import tempfile
import types
import xml.etree.ElementTree as ET
import numpy as onp
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
import feax as fe
import feax.utils as U
from symx import pyx
from symx.pyx import eq, conj, Num
from symx.npx import numpy_on_terms, NP, has_sym, OArr
from .fem import *
from .p05 import make, bc_of, quiet, D, K


def same(ck, name, impl, spec, args, ctx, tol=1e-9):
    """equal values in equal shapes"""
    z = jax.tree_util.tree_map(lambda s: jax.ShapeDtypeStruct(s.shape, float), args, is_leaf=lambda s: isinstance(s, SA))
    sh = lambda f: [tuple(l.shape) for l in jax.tree_util.tree_leaves(jax.eval_shape(f, *z))]
    a, b = sh(impl), sh(spec)
    if a != b:
        return ck.violate(name + " shapes", {"shapes": [list(x) for x in a], "expected": [list(x) for x in b]})
    ck.forall(name, impl, spec, args, ctx, tol=tol)


def two(v1=2, v2=1, et1="QUAD8", et2="QUAD4", n=(2, 1)):
    """problem with two fields of different node counts"""
    p1, c1 = build(et1, n, seed=2, scramble=False)
    p2, c2 = build(et2, n, seed=2, scramble=False)

    class P(fe.Problem):
        def get_weak_form(self):
            return lambda vals, grads, x, *a: ([vals[0], vals[1]], [grads[0], grads[1]])
    return P([fe.Mesh(p1, c1, et1), fe.Mesh(p2, c2, et2)], vec=[v1, v2], dim=2, ele_type=[et1, et2], gauss_order=[6, 6]), (p1, c1), (p2, c2)


# ---- Solution -----------------------------------------------------------------------------------------------------
def solution(ck, v1, v2):
    p, (p1, _), (p2, _) = two(v1, v2)
    n1, n2 = len(p1), len(p2)
    N = n1 * v1 + n2 * v2
    ctx, _ = new()
    u, t = ctx.array("u", (n1, v1)), ctx.array("t", (n2, v2))
    w = ctx.array("w", (N,))
    tag = f"fields of {v1} and {v2} components"

    def sol(u, t):
        return fe.Solution.from_problem(p, ravel_pytree([u, t])[0])
    same(ck, f"{tag}: fields", lambda u, t: (sol(u, t).field(0), sol(u, t).field(1), sol(u, t).flat, jnp.asarray(sol(u, t))),
         lambda u, t: (u, t, ravel_pytree([u, t])[0], ravel_pytree([u, t])[0]), (u, t), ctx)
    comps = [(c, 0) for c in range(v1)] + [(c, 1) for c in range(v2)]
    same(ck, f"{tag}: node variables", lambda u, t: [sol(u, t).node_var(component=c, var_index=i) for c, i in comps] + ([sol(u, t).node_var(var_index=1)] if v2 == 1 else []),
         lambda u, t: [(u, t)[i][:, c] for c, i in comps] + ([t[:, 0]] if v2 == 1 else []), (u, t), ctx)
    nv = fe.TracedParams.node_var_from_solution
    same(ck, f"{tag}: node variables of a flat vector", lambda u, t: [nv(p, ravel_pytree([u, t])[0], component=c, var_index=i) for c, i in comps] + [nv(p, sol(u, t), component=c, var_index=i) for c, i in comps],
         lambda u, t: [(u, t)[i][:, c] for c, i in comps] * 2, (u, t), ctx)
    same(ck, f"{tag}: unflattened fields", lambda w: p.unflatten_fn_sol_list(w), lambda w: [w[:n1 * v1].reshape(n1, v1), w[n1 * v1:].reshape(n2, v2)], (w,), ctx)

    def arith(u, t, w):
        s = sol(u, t)
        return s + w, w + s, s - w, w - s, s * w, w * s, s / (w * w + 1.0), w / (s * s + 1.0), s ** 2, -s, s @ w, w @ s, s + s, s * s, s[3], s[2:5], jnp.dot(w, s), 2.0 - s, 2.0 + s, 3.0 * s, 2.0 / fe.Solution(s * s + 1.0, s.layout), s - 2.0, s / 4.0

    def arith_spec(u, t, w):
        s = ravel_pytree([u, t])[0]
        return s + w, w + s, s - w, w - s, s * w, w * s, s / (w * w + 1.0), w / (s * s + 1.0), s ** 2, -s, s @ w, w @ s, s + s, s * s, s[3], s[2:5], w @ s, 2.0 - s, 2.0 + s, 3.0 * s, 2.0 / (s * s + 1.0), s - 2.0, s / 4.0
    same(ck, f"{tag}: arithmetic", arith, arith_spec, (u, t, w), ctx)

    def through(u, t, w):
        s = sol(u, t)
        j = jax.jit(lambda q: q)(s)
        g = jax.grad(lambda q: jnp.sum(w[:n2 * v2] * q.field(1).reshape(-1)) + jnp.sum(q.field(0)[:, 0] ** 2))(s)
        m = jax.tree_util.tree_map(lambda x: 2 * x, s)
        return j.field(0), j.field(1), g.field(0), g.field(1), m.field(1), m.node_var(component=0)
    same(ck, f"{tag}: transformations", through, lambda u, t, w: (u, t, jnp.zeros((n1, v1)).at[:, 0].set(2 * u[:, 0]), w[:n2 * v2].reshape(n2, v2), 2 * t, 2 * u[:, 0]), (u, t, w), ctx)
    ub, tb = ctx.array("ub", (3, n1, v1)), ctx.array("tb", (3, n2, v2))

    def lanes(ub, tb):
        s = jax.vmap(sol)(ub, tb)
        return s.field(0), s.field(1), s.node_var(component=0), s.node_var(component=0, var_index=1), s[1]
    same(ck, f"{tag}: batched", lanes, lambda ub, tb: (ub, tb, ub[:, :, 0], tb[:, :, 0], ravel_pytree([ub[1], tb[1]])[0]), (ub, tb), ctx)
    if p is not None and len(fe.Solution.from_problem(p, jnp.zeros(N)).layout) != 2:
        ck.violate(f"{tag}: layout", {"layout": [list(x) for x in fe.Solution.from_problem(p, jnp.zeros(N)).layout]})


def solver_wrap(ck, kind, opts, linear):
    """a solver returning solutions returns the fields of the flat answer; also under jit and vmap"""
    p, tp, nk = make(kind)
    bc = bc_of(p, kind)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    kw = dict(linear=linear, traced_params=tp(jnp.ones(nk), 0.4, 0.3), traced_structure=ts)
    a = quiet(fe.create_solver, p, bc, opts, **kw)
    ctx, _ = new()
    k, t = ctx.array("k", (nk,), 0.5, 2.0), ctx.array("t", ())
    kb = ctx.array("kb", (2, nk), 0.5, 2.0)
    g = fe.zero_like_initial_guess(p, bc)
    sh = [(f.num_total_nodes, v) for f, v in zip(p.fes, p.vec)]
    offs = onp.cumsum([0] + [x * y for x, y in sh])
    call = lambda k, t: a(tp(k, 0.4, t), g, traced_structure=ts)

    def diff(s, lead=()):
        w = jnp.asarray(s.flat)
        return [s.field(i) - w[..., offs[i]:offs[i + 1]].reshape(lead + sh[i]) for i in range(len(sh))]
    tag = f"{kind} {type(opts).__name__}"
    same(ck, f"{tag}: returned solution", lambda k, t: diff(call(k, t)) + diff(jax.jit(call)(k, t)), lambda k, t: [jnp.zeros(x) for x in sh] * 2, (k, t), ctx, tol=1e-7)
    same(ck, f"{tag}: batched solutions", lambda kb, t: diff(jax.vmap(lambda k: call(k, t))(kb), (2,)), lambda kb, t: [jnp.zeros((2,) + x) for x in sh], (kb, t), ctx, tol=1e-7)


# ---- parameters ---------------------------------------------------------------------------------------------------
def chain(ck, et, n, vec):
    """a solution handed over as a coefficient acts as the nodal field it contains"""
    pts, cells = build(et, n, seed=5)
    d = dim_of(et)

    class P(fe.Problem):
        def get_mass_map(self):
            return lambda u, x, k, c: k * jnp.sum(c) * u + jnp.atleast_1d(c)[-1] * x[:1]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, gauss_order=4)
    o = Oracle(pts, cells, et)
    ctx, _ = new()
    u, k = ctx.array("u", (len(pts), 1)), ctx.array("k", (len(cells),), 0.5, 2.0)
    T = ctx.array("T", (len(pts), vec))

    def impl(u, k, T):
        s = fe.Solution(T.reshape(-1), ((len(pts), vec),))
        return fe.get_res(p, [u], fe.TracedParams(volume_vars=(k, s)))[0], fe.get_res(p, [u], TP((k, T[:, 0] if vec == 1 else T)).replace_volume_var(1, s))[0]

    def spec(u, k, T):
        c = o.val(T)
        r = o.int_val(k[:, None, None] * jnp.sum(c, -1, keepdims=True) * o.val(u) + c[..., -1:] * o.x[..., :1])
        return r, r
    same(ck, f"{et} coefficient of {vec} components from a solution", impl, spec, (u, k, T), ctx, tol=1e-7)


def creators(ck, et, n):
    pts, cells = build(et, n, seed=6)
    d = dim_of(et)
    loc = [lambda q: on_face(0, 1.0)(q), lambda q: on_face(1, 0.0)(q) | on_face(0, 0.0)(q)]
    pr = [(lambda q, f=f: bool(f(q))) for f in loc]
    so = [SurfOracle(pts, cells, et, q) for q in pr]
    o = Oracle(pts, cells, et)

    class P(fe.Problem):
        def get_mass_map(self):
            return lambda u, x, c: c * jnp.ones(1)

        def get_surface_maps(self):
            return [lambda u, x, c: c * jnp.ones(1), lambda u, x, c: 2.0 * c * jnp.ones(1)]
    p = P(fe.Mesh(pts, cells, et), vec=1, dim=d, ele_type=et, gauss_order=6, location_fns=loc)
    ctx, _ = new()
    a = ctx.array("a", (d + 2,))
    f = lambda a: (lambda x: a[0] + jnp.dot(a[1:d + 1], x) + a[d + 1] * x[0] * x[-1])
    C = fe.TracedParams
    one = [C.create_uniform_surface_var(p, 1.0, i) for i in range(2)]
    z = jnp.zeros((len(pts), 1))
    ev = lambda a, X: jax.vmap(f(a))(jnp.asarray(X.reshape(-1, d))).reshape(X.shape[:-1])
    same(ck, f"{et}: uniform parameters", lambda a: (C.create_node_var(p, a[0]), C.create_cell_var(p, a[1])), lambda a: (jnp.full(len(pts), a[0]), jnp.full(len(cells), a[1])), (a,), ctx)
    same(ck, f"{et}: parameters from functions", lambda a: (C.create_node_var_from_fn(p, f(a)), C.create_cell_var_from_fn(p, f(a))), lambda a: (ev(a, pts), ev(a, pts[cells].mean(1))), (a,), ctx)
    res = lambda tp: fe.get_res(p, [z], tp)[0]
    same(ck, f"{et}: point parameters from functions", lambda a: res(TP((C.create_spatially_varying_volume_var(p, f(a)),), [(0 * one[0],), (0 * one[1],)])), lambda a: o.int_val(ev(a, o.x)[..., None]), (a,), ctx, tol=1e-7)
    same(ck, f"{et}: surface parameters from functions", lambda a: res(TP((C.create_uniform_volume_var(p, a[0]),), [(C.create_spatially_varying_surface_var(p, f(a), 0),), (C.create_spatially_varying_surface_var(p, f(a), 1),)])),
         lambda a: o.int_val(a[0] * jnp.ones(o.x.shape[:2] + (1,))) + so[0].int_val(ev(a, so[0].x)[..., None]) + 2.0 * so[1].int_val(ev(a, so[1].x)[..., None]), (a,), ctx, tol=1e-7)
    same(ck, f"{et}: uniform surface parameters", lambda a: res(TP((C.create_cell_var(p, 0.0),), [(C.create_uniform_surface_var(p, a[0], 0),), (C.create_uniform_surface_var(p, a[1], 1),)])),
         lambda a: so[0].int_val(a[0] * jnp.ones(so[0].x.shape[:2] + (1,))) + 2.0 * so[1].int_val(a[1] * jnp.ones(so[1].x.shape[:2] + (1,))), (a,), ctx, tol=1e-7)


def creators_two(ck):
    p, (p1, c1), (p2, c2) = two()
    ctx, _ = new()
    a = ctx.array("a", (3,))
    C = fe.TracedParams
    f = lambda a: (lambda x: a[0] + a[1] * x[0] + a[2] * x[1] * x[0])
    ev = lambda a, X: jax.vmap(f(a))(jnp.asarray(X))
    same(ck, "two meshes: parameters per field", lambda a: [C.create_node_var(p, a[0], i) for i in (0, 1)] + [C.create_node_var_from_fn(p, f(a), i) for i in (0, 1)] + [C.create_cell_var_from_fn(p, f(a), i) for i in (0, 1)],
         lambda a: [jnp.full(len(p1), a[0]), jnp.full(len(p2), a[0]), ev(a, p1), ev(a, p2), ev(a, p1[c1].mean(1)), ev(a, p2[c2].mean(1))], (a,), ctx)


def params(ck):
    """structure survives transformations; replacing a variable touches that one only"""
    ctx, _ = new()
    x = [ctx.array(f"x{i}", s) for i, s in enumerate([(3,), (2, 2), (4,), (2, 3), (5,), (1, 2), (3, 2)])]

    def tp(x):
        return TP((x[0], x[1], x[2]), [(x[3],), (), (x[4], x[5])])
    ex = lambda q: [list(q.volume_vars), [list(s) for s in q.surface_vars]]
    want = lambda x: [[x[0], x[1], x[2]], [[x[3]], [], [x[4], x[5]]]]
    L = jax.tree_util.tree_leaves
    lens = lambda q: [len(q.volume_vars)] + [len(s) for s in q.surface_vars]

    def impl(*x):
        q = tp(x)
        t = [jax.jit(lambda q: q)(q), jax.tree_util.tree_map(lambda v: 2 * v, q), jax.grad(lambda q: sum(jnp.sum(v ** 2) / 2 for v in L(ex(q))))(q)]
        for r in t:
            if lens(r) != [3, 1, 0, 2]:
                ck.violate("parameter trees: structure", {"volume and surface variable counts": lens(r), "expected": [3, 1, 0, 2]})
                return want(x), want(x), want(x)
        return [L(ex(r)) for r in t]
    same(ck, "parameter trees", impl, lambda *x: [L(want(x)), [2 * v for v in L(want(x))], L(want(x))], tuple(x), ctx)

    def rep(*x):
        q = tp(x)
        r = [q.replace_volume_var(1, x[6]), q.replace_volume_var(-1, x[6]), q.replace_surface_var(2, 1, x[6]), q.replace_surface_var(0, 0, x[6]), q]
        return [L(ex(v)) for v in r]
    same(ck, "replacing one variable", rep, lambda *x: [L([x[0], x[6], x[2], x[3], x[4], x[5]]), L([x[0], x[1], x[6], x[3], x[4], x[5]]), L([x[0], x[1], x[2], x[3], x[4], x[6]]),
                                                        L([x[0], x[1], x[2], x[6], x[4], x[5]]), L(list(x[:6]))], tuple(x), ctx)
    xb = [ctx.array(f"b{i}", (2,) + s) for i, s in enumerate([(3,), (2, 2), (4,), (2, 3), (5,), (1, 2)])]

    def lanes(*x):
        return jax.vmap(lambda q: L(ex(q)))(tp(x))
    same(ck, "batched parameters", lanes, lambda *x: L(want(x)), tuple(xb), ctx)


# ---- files --------------------------------------------------------------------------------------------------------
class Mio:
    """meshio stand-in: records the mesh written"""

    def __init__(self):
        self.written = []
        w = self.written

        class Mesh:
            def __init__(self, points=None, cells=None, point_data=None, cell_data=None, **k):
                self.points, self.cells = points, cells
                self.point_data, self.cell_data = point_data or {}, cell_data or {}

            def write(self, f, *a, **k):
                w.append((self, f))
        self.Mesh = Mesh

    def write(self, f, m, *a, **k):
        self.written.append((m, f))

    def write_points_cells(self, f, points, cells, point_data=None, cell_data=None, **k):
        self.written.append((self.Mesh(points, cells, point_data, cell_data), f))

    def __getattr__(self, n):
        import meshio
        return getattr(meshio, n)


VTK = {"TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20"}
XDMF = {"TRI3": "Triangle", "TRI6": "Triangle_6", "QUAD4": "Quadrilateral", "QUAD8": "Quadrilateral_8", "TET4": "Tetrahedron", "TET10": "Tetrahedron_10", "HEX8": "Hexahedron", "HEX20": "Hexahedron_20"}


def _vars(pre, shape):
    return {f"{pre}{i}": "real" for i in range(int(onp.prod(shape)))}


def _arr(v, pre, shape):
    o = onp.empty(int(onp.prod(shape)), object)
    for i in range(o.size):
        o[i] = v[f"{pre}{i}"]
    return NP().asarray(o.reshape(shape)) if any(isinstance(x, Num) for x in o) else o.reshape(shape).astype(float)


def _eq(a, b):
    a, b = onp.asarray(a, object).reshape(-1), onp.asarray(b, object).reshape(-1)
    if a.size != b.size:
        return False
    return conj(*[eq(x, y, 1e-4) for x, y in zip(a, b)])


def _box(x):
    return [x >= -10, x <= 10]


def vtk(ck, et, n):
    pts, cells = build(et, n, seed=8)
    mesh = fe.Mesh(pts, cells, et)
    N, E = len(pts), len(cells)
    sh = {"p": (N,), "q": (N, 3), "c": (E,), "d": (E, 3), "e": (E, 3, 3)}
    var = {}
    for k, s in sh.items():
        if k in ("e",) and E > 4:
            continue
        var.update(_vars(k, s))

    def h(v):
        m = Mio()
        real = U.meshio
        dirn = tempfile.mkdtemp()
        try:
            U.meshio = m
            with numpy_on_terms(U):
                ci = [("cs", _arr(v, "c", sh["c"])), ("cv", _arr(v, "d", sh["d"]))] + ([("ct", _arr(v, "e", sh["e"]))] if "e0" in v else [])
                U.save_sol(mesh, os.path.join(dirn, "o.vtu"), cell_infos=ci, point_infos=[("ps", _arr(v, "p", sh["p"])), ("pv", _arr(v, "q", sh["q"]))])
                U.save_sol(mesh, os.path.join(dirn, "o2.vtu"), point_infos=[("ps", _arr(v, "p", sh["p"]))])
        finally:
            U.meshio = real
            shutil.rmtree(dirn, ignore_errors=True)
        c = {"two files": len(m.written) == 2}
        if not c["two files"]:
            return c
        w, f = m.written[0]
        blocks = w.cells.items() if isinstance(w.cells, dict) else [(b.type, b.data) if hasattr(b, "type") else b for b in w.cells]
        blocks = list(blocks)
        c["file name"] = str(f).endswith("o.vtu") and str(m.written[1][1]).endswith("o2.vtu")
        P = onp.asarray(onp.asarray(w.points, object), float)
        c["points"] = P.shape[0] == N and onp.allclose(P[:, :pts.shape[1]], pts)
        c["one block of the element's own type"] = len(blocks) == 1 and blocks[0][0] == VTK[et]
        c["cells"] = len(blocks) == 1 and onp.array_equal(onp.asarray(onp.asarray(blocks[0][1], object), int), cells)
        c["fields"] = set(w.point_data) == {"ps", "pv"} and set(w.cell_data) == {"cs", "cv"} | ({"ct"} if "e0" in v else set()) and set(m.written[1][0].point_data) == {"ps"}
        if not c["fields"]:
            return c
        one = lambda x: x[0] if isinstance(x, (list, tuple)) else x
        c["point scalars"] = _eq(w.point_data["ps"], _arr(v, "p", sh["p"])) and onp.shape(w.point_data["ps"])[0] == N
        c["point vectors"] = onp.shape(w.point_data["pv"]) == (N, 3) and _eq(w.point_data["pv"], _arr(v, "q", sh["q"]))
        c["cell scalars"] = onp.shape(one(w.cell_data["cs"]))[0] == E and _eq(one(w.cell_data["cs"]), _arr(v, "c", sh["c"]))
        c["cell vectors"] = onp.shape(one(w.cell_data["cv"])) == (E, 3) and _eq(one(w.cell_data["cv"]), _arr(v, "d", sh["d"]))
        if "e0" in v:
            c["cell tensors"] = onp.shape(one(w.cell_data["ct"]))[0] == E and _eq(one(w.cell_data["ct"]), _arr(v, "e", sh["e"]))
        c["second file"] = _eq(m.written[1][0].point_data["ps"], _arr(v, "p", sh["p"]))
        return c
    pyx.check(ck, f"VTK output of {et}", var, h, lambda v: [b for x in v.values() for b in _box(x)])


class H5:
    """h5py stand-in: datasets by path"""
    files = {}

    class File:
        def __init__(self, name, mode="r", **k):
            self.d = H5.files.setdefault(os.path.basename(str(name)), {}) if mode != "w" else {}
            H5.files[os.path.basename(str(name))] = self.d

        def create_dataset(self, path, shape=None, dtype=None, data=None, **k):
            self.d[path.strip("/")] = data

        def __setitem__(self, path, data):
            self.d[path.strip("/")] = data

        def create_group(self, g, **k):
            me = self

            class G:
                def create_dataset(s, path, shape=None, dtype=None, data=None, **k):
                    me.create_dataset(g.strip("/") + "/" + path, data=data)

                def create_group(s, h, **k):
                    return me.create_group(g.strip("/") + "/" + h)
            return G()
        require_group = create_group

        def close(self): pass
        def flush(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass


def xdmf(ck, et, n, frames=2):
    pts, cells = build(et, n, seed=8)
    mesh = fe.Mesh(pts, cells, et)
    d = pts.shape[1]
    N, E = len(pts), len(cells)
    sh = {"s": (N,), "w": (N, d), "c": (E,), "t": (E, 2, 2), "f": (E, 6)}
    var = {}
    for k, s in sh.items():
        for j in range(frames):
            if k != "w" or j == 0:
                var.update(_vars(f"{k}{j}_", s))
    kinds = {"s": ("point", "Scalar"), "w": ("point", "Vector"), "c": ("cell", "Scalar"), "t": ("cell", "Tensor"), "f": ("cell", "Tensor6")}
    times = [0.0, 0.37]

    def h(v):
        dirn = tempfile.mkdtemp()
        fn = os.path.join(dirn, "sub", "hist.xdmf")
        old = sys.modules.get("h5py")
        H5.files = {}
        data = [{k: _arr(v, f"{k}{0 if k == 'w' else j}_", s) for k, s in sh.items()} for j in range(frames)]
        try:
            sys.modules["h5py"] = H5
            with numpy_on_terms(U):
                with U.XDMFWriter(mesh, fn) as w:
                    for j in range(frames):
                        w.write_iteration(times[j], cell_infos=[(k, data[j][k]) for k in ("c", "t", "f")], point_infos=[(k, data[j][k]) for k in ("s", "w")])
            root = ET.parse(fn).getroot()
        finally:
            if old is None:
                sys.modules.pop("h5py", None)
            else:
                sys.modules["h5py"] = old
            shutil.rmtree(dirn, ignore_errors=True)

        def ref(item):
            name, path = item.text.strip().split(":")
            a = H5.files[name][path.strip("/")]
            return a, [int(q) for q in item.get("Dimensions").split()]
        grids = [g for g in root.iter("Grid") if g.get("GridType", "Uniform") == "Uniform"]
        c = {"one frame per call": len(grids) == frames}
        if not c["one frame per call"]:
            return c
        for j, g in enumerate(grids):
            c[f"frame {j} time"] = float(g.find("Time").get("Value")) == times[j]
            top, geo = g.find("Topology"), g.find("Geometry")
            C, dc = ref(top.find("DataItem"))
            X, dx = ref(geo.find("DataItem"))
            num = lambda a, t: onp.asarray(onp.asarray(a, object), t)
            c[f"frame {j} topology"] = top.get("TopologyType") == XDMF[et] and dc == list(cells.shape) and onp.array_equal(num(C, int), cells) and int(top.get("NumberOfElements", E)) == E
            c[f"frame {j} geometry"] = geo.get("GeometryType") == ("XY" if d == 2 else "XYZ") and dx == [N, d] and onp.allclose(num(X, float), pts)
            at = {a.get("Name"): a for a in g.findall("Attribute")}
            c[f"frame {j} fields"] = set(at) == set(sh)
            if set(at) != set(sh):
                continue
            for k, (centre, typ) in kinds.items():
                a = at[k]
                A, dims = ref(a.find("DataItem"))
                want = data[j][k]
                if k == "t":
                    pad = onp.zeros((E, 3, 3), object)
                    pad[:, :2, :2] = onp.asarray(want, object)
                    want = pad
                c[f"frame {j} {k} declared"] = a.get("Center") == ("Node" if centre == "point" else "Cell") and a.get("AttributeType") == typ and int(onp.prod(dims)) == onp.size(onp.asarray(A, object)) and dims[0] == onp.shape(A)[0]
                c[f"frame {j} {k} values"] = _eq(A, want)
        return c
    pyx.check(ck, f"XDMF output of {et}", var, h, lambda v: [b for x in v.values() for b in _box(x)])


def guess(ck):
    p, tp, nk = make("two")
    bc = bc_of(p, "two")
    ctx, _ = new()
    g = ctx.array("g", (len(bc.bc_rows),))
    rows = onp.asarray(bc.bc_rows)
    same(ck, "starting field", lambda g: fe.zero_like_initial_guess(p, bc.replace_vals(g)), lambda g: jnp.zeros(p.num_total_dofs_all_vars).at[rows].set(g), (g,), ctx)


def run(ck):
    ck.fn("feax.solution.Solution", "feax.traced_params.TracedParams", "feax.traced_params.TracedParams.create_*", "feax.traced_params.TracedParams.node_var_from_solution", "feax.solver.create_solver (return_solution)",
          "feax.utils.save_sol", "feax.utils.XDMFWriter", "feax.utils.zero_like_initial_guess")
    ck.bound("two-field layouts up to 2x(13+6) nodes, 3 lanes; parameter trees with 3 volume and 3 surface entries; files: two frames, meshes up to 20 nodes; all values real")
    ck.assumption("meshio and h5py store the arrays they are handed (stand-ins record them); single-precision rounding in files is ignored (tolerance 1e-4)")
    full = ck.tier != "quick"
    ck.do(solution, 2, 1)
    ck.do(solution, 1, 2)
    ck.do(solver_wrap, "two", D(), True)
    ck.do(solver_wrap, "elastic", K(solver="cg"), True)
    ck.do(chain, "QUAD4", (2, 1), 1)
    ck.do(chain, "TRI3", (2, 1), 2)
    ck.do(chain, "TET4", (1, 1, 1), 3)
    for et, n in [("QUAD4", (2, 2)), ("TRI6", (1, 1)), ("HEX8", (1, 2, 1)), ("TET4", (1, 1, 1))] + ([("QUAD8", (2, 1)), ("TET10", (1, 1, 1))] if full else []):
        ck.do(creators, et, n)
    ck.do(creators_two)
    ck.do(params)
    ck.do(guess)
    for et, n in [("TRI3", (1, 1)), ("TRI6", (1, 1)), ("QUAD4", (2, 1)), ("QUAD8", (2, 1)), ("TET4", (1, 1, 1)), ("TET10", (1, 1, 1)), ("HEX8", (1, 1, 2)), ("HEX20", (1, 1, 1))]:
        ck.do(vtk, et, n)
        ck.do(xdmf, et, n)
