"""P19: implicit fields: density fields as level sets, CSG, surface grids, lattices."""
import contextlib
import types
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from symx import pyx
from symx.poly import Ctx
from symx.pyx import Num, eq, conj
from symx.npx import SymFloat, has_sym
from .fem import build, dim_of, tab, REF, CORNERS, new
from .p15 import same


def S():
    import feax.gene.sdf as s
    return s


# ---- terms inside the module: plain object arrays, only float-typed creation is redirected ---------------------------
def _sym(x):
    return isinstance(x, (Num, pyx.Flag)) or (isinstance(x, onp.ndarray) and x.dtype == object) or (isinstance(x, (list, tuple)) and any(_sym(y) for y in x))


class Mixed:
    def __getattr__(self, n):
        return getattr(onp, n)

    def full(self, shape, v, dtype=None, **k):
        return onp.full(shape, v, dtype=object) if _sym(v) or (isinstance(v, float) and onp.isnan(v)) else onp.full(shape, v, dtype=dtype, **k)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(onp.shape(a), v, dtype)

    def isnan(self, x):
        if not _sym(x):
            return onp.isnan(x)
        return onp.frompyfunc(lambda a: isinstance(a, float) and onp.isnan(a), 1, 1)(onp.asarray(x)).astype(bool)

    def isfinite(self, x):
        if not _sym(x):
            return onp.isfinite(x)
        return onp.frompyfunc(lambda a: not isinstance(a, float) or onp.isfinite(a), 1, 1)(onp.asarray(x)).astype(bool)

    def _any(self, f, x, dtype=None, **k):
        return f(x, dtype=object) if _sym(x) else f(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        return self._any(onp.asarray, x, dtype, **k)

    def array(self, x, dtype=None, **k):
        return self._any(onp.array, x, dtype, **k)

    def where(self, c, *ab):
        return onp.where(c, *ab)


@contextlib.contextmanager
def on_module(m):
    if pyx.ENG is None:
        yield
        return
    names = [k for k, v in vars(m).items() if v is onp]
    for k in names:
        setattr(m, k, Mixed())
    m.float = SymFloat
    try:
        yield
    finally:
        for k in names:
            setattr(m, k, onp)
        del m.float


def sheared(et, n, seed, shear=0.6):
    pts, cells = build(et, n, seed=seed)
    d = dim_of(et)
    A = onp.eye(d)
    A[0, 1], A[1, 0] = shear, -0.5 * shear
    if d == 3:
        A[2, 0] = 0.3
    return pts @ A, cells


def inside(et, cells, q, seed):
    """reference points: random interior ones, the centre and the nodes"""
    rng = onp.random.RandomState(seed)
    d = dim_of(et)
    X = rng.uniform(0.04, 0.96, (q, d))
    if REF[et][2] == "s":
        X = X / (X.sum(1, keepdims=True) + rng.uniform(0.05, 1, (q, 1)))
    X = onp.vstack([X, REF[et][0].mean(0), REF[et][0]])
    return X


def flat_list(x):
    return [y for y in onp.asarray(x, dtype=object).ravel()]


def field_claims(s, f, P, W, v, rho, single):
    want = [v["t"] - sum(float(w) * rho[i] for i, w in enumerate(row) if abs(w) > 1e-13) for row in W]
    c = {}
    r = flat_list(f.evaluate(P))
    c["batch"] = len(r) == len(P) and conj(*[eq(a, b, 1e-6) for a, b in zip(r, want)])
    if single:
        c["single"] = conj(*[eq(f(P[i]), want[i], 1e-6) for i in range(len(P))])
    return c


def density(ck, et, n, seed, q, shear=0.6, close=True):
    """every nodal density: inside the mesh, threshold minus the finite-element interpolant"""
    s = S()
    pts, cells = sheared(et, n, seed, shear)
    X = inside(et, cells, q, seed)
    N = tab(et, X)[0]
    P = onp.einsum("qa,cad->cqd", N, pts[cells]).reshape(-1, pts.shape[1])
    W = onp.zeros((len(cells), len(X), len(pts)))
    for c, e in enumerate(cells):
        W[c][:, e] = N
    W = W.reshape(-1, len(pts))
    m = fe.Mesh(pts, cells, et)
    vs = {f"r{i}": "real" for i in range(len(pts))}
    vs["t"] = "real"

    def h(v):
        rho = [v[f"r{i}"] for i in range(len(pts))]
        with on_module(s):
            f = s.DensityField(onp.array(rho, dtype=object if pyx.ENG else float), m, threshold=v["t"], close_boundary=close)
            return field_claims(s, f, P, W, v, rho, True)
    pyx.check(ck, f"density field {et} {n} shear {shear} seed {seed}", vs, h, lambda v: [v[k] >= -3 for k in vs] + [v[k] <= 3 for k in vs])


def outside(ck, et, n, close):
    """far outside the bounding box: void, or the nearest node's density"""
    s = S()
    pts, cells = sheared(et, n, 2)
    d = pts.shape[1]
    lo, hi = pts.min(0), pts.max(0)
    rng = onp.random.RandomState(5)
    P = []
    for ax in range(d):
        for sg in (-1, 1):
            p = rng.uniform(lo, hi)
            p[ax] = (hi if sg > 0 else lo)[ax] + sg * 2.5 * (hi - lo).max()
            P.append(p)
    P = onp.array(P)
    W = onp.zeros((len(P), len(pts)))
    if not close:
        W[onp.arange(len(P)), [int(onp.argmin(((pts - p) ** 2).sum(1))) for p in P]] = 1
    m = fe.Mesh(pts, cells, et)
    vs = {f"r{i}": "real" for i in range(len(pts))}
    vs["t"] = "real"

    def h(v):
        rho = [v[f"r{i}"] for i in range(len(pts))]
        with on_module(s):
            f = s.DensityField(onp.array(rho, dtype=object if pyx.ENG else float), m, threshold=v["t"], close_boundary=close)
            return field_claims(s, f, P, W, v, rho, True)
    pyx.check(ck, f"points far outside {et} {n} close_boundary={close}", vs, h, lambda v: [v[k] >= -3 for k in vs] + [v[k] <= 3 for k in vs])


def graded_quads():
    """one long cell under a row of many tiny ones; the long cell's far end is nearer to the tiny cells' centres"""
    n = 40
    x = onp.linspace(0.0, 2.0, n + 1)
    pts = [[a, 0.0] for a in x] + [[a, 0.05] for a in x]
    cells = [[i, i + 1, n + 2 + i, n + 1 + i] for i in range(n)]
    k = len(pts)
    pts += [[0.0, -2.0], [2.0, -2.0]]
    cells.append([k, k + 1, n, 0])
    return onp.array(pts), onp.array(cells)


def graded(ck):
    s = S()
    pts, cells = graded_quads()
    X = onp.array([[0.5, 0.97], [0.1, 0.95], [0.9, 0.99], [0.5, 0.5], [0.2, 0.1], [0.3, 0.999]])
    N = tab("QUAD4", X)[0]
    e = cells[-1]
    P = N @ pts[e]
    W = onp.zeros((len(X), len(pts)))
    W[:, e] = N
    m = fe.Mesh(pts, cells, "QUAD4")
    vs = {f"r{i}": "real" for i in range(len(pts))}
    vs["t"] = "real"

    def h(v):
        rho = [v[f"r{i}"] for i in range(len(pts))]
        with on_module(s):
            f = s.DensityField(onp.array(rho, dtype=object if pyx.ENG else float), m, threshold=v["t"])
            return field_claims(s, f, P, W, v, rho, True)
    pyx.check(ck, "density field on a graded mesh", vs, h, lambda v: [v[k] >= -3 for k in vs] + [v[k] <= 3 for k in vs])


def loaded(ck, et, n):
    """a field read from a file or taken from an optimization result is the field on that mesh"""
    s = S()
    pts, cells = sheared(et, n, 4)
    d = dim_of(et)
    file_pts = onp.hstack([pts, onp.zeros((len(pts), 3 - d))])
    name = {"TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20"}[et]
    X = inside(et, cells, 1, 1)[:2]
    N = tab(et, X)[0]
    P = onp.einsum("qa,cad->cqd", N, pts[cells]).reshape(-1, d)
    W = onp.zeros((len(cells), len(X), len(pts)))
    for c, e in enumerate(cells):
        W[c][:, e] = N
    W = W.reshape(-1, len(pts))
    vs = {f"r{i}": "real" for i in range(len(pts))}
    vs["t"] = "real"
    from .p18 import Block

    def h(v):
        rho = onp.array([v[f"r{i}"] for i in range(len(pts))], dtype=object if pyx.ENG else float)
        data = types.SimpleNamespace(points=file_pts, cells=[Block("vertex", onp.array([[0]])), Block("line", onp.array([[0, 1]])), Block(name, cells)],
                                     point_data={"other": onp.arange(len(pts)) * 1.0, "dens": rho.reshape(-1, 1)}, cell_data={})
        sv, opened = s.meshio, []
        s.meshio = types.SimpleNamespace(read=lambda p, *a, **k: opened.append(p) or data, Mesh=sv.Mesh)
        try:
            with on_module(s):
                f = s.from_vtk("a file.vtu", field_name="dens", threshold=v["t"])
                c = {"file: " + k: x for k, x in field_claims(s, f, P, W, v, rho, False).items()}
                g = s.from_opt_result(types.SimpleNamespace(rho_filtered=rho, rho=rho * 0, mesh=fe.Mesh(pts, cells, et)), threshold=v["t"])
                c.update({"result: " + k: x for k, x in field_claims(s, g, P, W, v, rho, False).items()})
                try:
                    s.from_vtk("a file.vtu", field_name="absent")
                    c["unknown field is refused"] = False
                except KeyError:
                    c["unknown field is refused"] = True
        finally:
            s.meshio = sv
        c["the named file"] = set(opened) == {"a file.vtu"}
        return c
    pyx.check(ck, f"field from file and result {et}", vs, h, lambda v: [v[k] >= -3 for k in vs] + [v[k] <= 3 for k in vs])


# ---- CSG and surface grids --------------------------------------------------------------------------------------------
def leaf(s, vals, bounds):
    """an SDF with the given value at each known point"""
    class L(s.SDF):
        def __call__(self, p):
            return vals[tuple(float(x) for x in p)]

        def _default_bounds(self):
            return onp.array(bounds[0]), onp.array(bounds[1])
    return L()


PTS = onp.array([[0.0, 0.0, 0.0], [1.0, 2.0, 3.0]])


def csg(ck):
    s = S()
    vs = {f"{k}{i}": "real" for k in "abc" for i in range(2)}
    mn = lambda x, y: x if bool(x <= y) else y
    mx = lambda x, y: x if bool(x >= y) else y
    forms = {"a | b": (lambda a, b, c: a | b, lambda a, b, c: mn(a, b)), "a & b": (lambda a, b, c: a & b, lambda a, b, c: mx(a, b)),
             "a - b": (lambda a, b, c: a - b, lambda a, b, c: mx(a, -b)), "b - a": (lambda a, b, c: b - a, lambda a, b, c: mx(b, -a)),
             "(a | b) - c": (lambda a, b, c: (a | b) - c, lambda a, b, c: mx(mn(a, b), -c)),
             "a & (b - c)": (lambda a, b, c: a & (b - c), lambda a, b, c: mx(a, mx(b, -c)))}
    for name, (op, want) in forms.items():
        def h(v):
            L = [leaf(s, {tuple(p): v[f"{k}{i}"] for i, p in enumerate(PTS)}, ([0.0] * 3, [1.0] * 3)) for k in "abc"]
            with on_module(s):
                f = op(*L)
                r = flat_list(f.evaluate(PTS))
                one = [f(p) for p in PTS]
            w = [want(*[v[f"{k}{i}"] for k in "abc"]) for i in range(2)]
            return {"batch": len(r) == 2 and conj(*[eq(x, y) for x, y in zip(r, w)]), "single": conj(*[eq(x, y) for x, y in zip(one, w)])}
        pyx.check(ck, f"boolean combination {name}", vs, h, lambda v: [v[k] >= -5 for k in vs] + [v[k] <= 5 for k in vs], max_paths=2000)


class _Grid(Exception):
    pass


def grid(ck, what, res, bounds, padding, level):
    """the sampled grid and the extracted vertices refer to the same world coordinates"""
    s = S()
    import skimage.measure as sm
    vs = {"a0": "real", "a1": "real", "a2": "real", "b": "real"}
    B1, B2 = ([-1.0, 0.5, 2.0], [1.0, 3.0, 2.5]), ([0.0, 0.0, 1.0], [4.0, 1.0, 3.0])

    def affine(v, B):
        class L(s.SDF):
            def __call__(self, p):
                return v["a0"] * float(p[0]) + v["a1"] * float(p[1]) + v["a2"] * float(p[2]) + v["b"]

            def _default_bounds(self):
                return onp.array(B[0]), onp.array(B[1])
        return L()
    box = {"plain": B1, "given": bounds, "union": ([-1.0, 0.0, 1.0], [4.0, 3.0, 3.0]), "intersection": ([0.0, 0.5, 2.0], [1.0, 1.0, 2.5]), "difference": B1}[what]
    lo, hi = onp.array(box[0]) - padding, onp.array(box[1]) + padding
    V0 = onp.array([[0.0, 0.0, 0.0], [0.25, 0.5, 0.125], [1.0, 0.0, 2.0]])
    F0 = onp.array([[0, 1, 2]])

    def h(v):
        A, Bf = affine(v, B1), affine(v, B2)
        f = {"plain": lambda: A, "given": lambda: A, "union": lambda: A | Bf, "intersection": lambda: A & Bf, "difference": lambda: A - Bf}[what]()
        seen = []

        def mc(vol, level=None, spacing=(1.0, 1.0, 1.0), **k):
            seen.append((vol, level, spacing))
            return V0.copy(), F0.copy(), None, None
        sv = sm.marching_cubes
        sm.marching_cubes = mc
        try:
            with on_module(s):
                kw = dict(bounds=tuple(onp.array(x) for x in bounds)) if what == "given" else {}
                V, F = f.to_mesh(resolution=res, level=level, padding=padding, **kw)
        finally:
            sm.marching_cubes = sv
        vol, lev, sp = seen[0]
        vol = onp.asarray(vol, dtype=object)
        st = (hi - lo) / (res - 1)
        c = {"level": float(lev) == level, "shape": vol.shape == (res,) * 3, "spacing": onp.allclose([float(x) for x in sp], st),
             "vertices": onp.allclose(onp.asarray(V, float), V0 + lo), "faces": onp.array_equal(F, F0)}
        if c["shape"] and what in ("plain", "given"):
            cl = []
            for i, j, k in [(0, 0, 0), (res - 1, 0, 0), (0, res - 1, 0), (0, 0, res - 1), (1, 2, 3), (res - 1,) * 3, (2, 1, 0), (0, 1, 2)]:
                p = lo + st * [i, j, k]
                cl.append(eq(vol[i, j, k], v["a0"] * float(p[0]) + v["a1"] * float(p[1]) + v["a2"] * float(p[2]) + v["b"], 1e-7))
            c["samples"] = conj(*cl)
        return c
    few = what not in ("plain", "given")      # boxes of combinations: one sample field is enough, the combination rule is claimed above
    pyx.check(ck, f"surface grid {what} padding {padding} resolution {res}", vs, h,
              lambda v: [v[k] >= -2 for k in vs] + [v[k] <= 2 for k in vs] + ([v["a0"] == 0, v["a1"] == 0, v["a2"] == 0, v["b"] >= 0.5] if few else []))


# ---- lattices ---------------------------------------------------------------------------------------------------------
GRAPHS = {
    "plane": ([[0.0, 0.0], [1.0, 0.5], [0.25, 1.0], [1.5, 1.5]], [[0, 1], [2, 0], [3, 1]]),
    "strut": ([[0.5, -0.5], [-0.5, 1.0]], [[1, 0]]),
    "degenerate": ([[0.5, 0.25], [0.5, 0.25], [-1.0, 0.0]], [[0, 1]]),
    "space": ([[0.0, 0.0, 0.0], [1.0, 0.0, 0.5], [0.0, 1.0, 1.0]], [[0, 1], [1, 2]]),
}


def member(x, p0, p1, r):
    """within r of the segment p0-p1: nearest to an end, or between the ends (squared distances only)"""
    u = p1 - p0
    L2 = float(u @ u)
    w = x - p0
    a = jnp.sum(w * u)
    d0, d1 = jnp.sum(w * w), jnp.sum((x - p1) ** 2)
    if L2 == 0:
        return d0 <= r * r
    return jnp.where(a <= 0, d0 <= r * r, jnp.where(a >= L2, d1 <= r * r, d0 * L2 - a * a <= r * r * L2))


def membership(x, nodes, edges, r):
    hit = jnp.zeros((), bool)
    for i, j in edges:
        hit = hit | member(x, nodes[i], nodes[j], r)
    return hit


SKIN = 1e-6        # points closer than this to the surface of a strut are not claimed (rounding)


LINES = {2: [([-1.0, 0.25], [1.0, 0.25]), ([0.5, -1.0], [0.0, 1.0]), ([1.25, 2.0], [-0.5, -1.0])],
         3: [([-1.0, 0.125, 0.25], [1.0, 0.0, 0.25]), ([0.5, 0.5, -1.0], [0.0, 0.0, 1.0]), ([0.25, 2.0, 1.0], [0.25, -1.0, -0.125])]}


def lattice(ck, name, r, adj, line=None):
    import feax.flat.graph as g
    nodes, edges = GRAPHS[name]
    nodes, edges = onp.array(nodes), onp.array(edges)
    ctx = Ctx()
    if line is None:
        x, at, tag = ctx.array("x", (nodes.shape[1],), -2.0, 2.0), (lambda x: x), ""
    else:
        a, b = (jnp.array(q) for q in LINES[nodes.shape[1]][line])
        x, at, tag = ctx.array("s", (), -3.0, 3.0), (lambda s: a + s * b), f" line {line}"
    if adj:
        A = onp.zeros((len(nodes),) * 2)
        for i, j in edges:
            A[i, j] = A[j, i] = 1.0
        f = g.create_lattice_function_from_adjmat(jnp.array(nodes), jnp.array(A), r)
    else:
        f = g.create_lattice_function(jnp.array(nodes), jnp.array(edges), r)
    ck.forall(f"lattice {name} r={r}{' adjacency' if adj else ''}{tag}", lambda x: jnp.stack([jnp.where(membership(at(x), nodes, edges, r - SKIN), f(at(x)), 1.0), jnp.where(membership(at(x), nodes, edges, r + SKIN), 0.0, f(at(x)))]),
              lambda x: jnp.array([1.0, 0.0]), (x,), ctx)


def adjacency(ck):
    """symbolic symmetric adjacency: an edge exists iff its entry is nonzero"""
    import feax.flat.graph as g
    nodes = onp.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]])
    P = onp.array([[0.5, 0.02], [0.97, 0.5], [0.5, 0.5], [0.48, 1.03], [0.02, 0.4], [2.0, 2.0]])
    ctx = Ctx()
    up = ctx.array("a", (6,), -1.0, 1.0)
    pairs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
    near = onp.array([[float(member(jnp.array(p), nodes[i], nodes[j], 0.1)) for i, j in pairs] for p in P])

    def impl(a):
        A = jnp.zeros((4, 4))
        for k, (i, j) in enumerate(pairs):
            A = A.at[i, j].set(a[k]).at[j, i].set(a[k])
        f = g.create_lattice_function_from_adjmat(jnp.array(nodes), A, 0.1)
        return jnp.stack([f(jnp.array(p)) for p in P])

    def spec(a):
        on = a != 0
        return jnp.stack([jnp.where(jnp.any(jnp.stack([on[k] & bool(near[q, k]) for k in range(6)])), 1.0, 0.0) for q in range(len(P))])
    ck.forall("lattice from a symbolic adjacency matrix", impl, spec, (up,), ctx)


def conversions(ck):
    import itertools
    import feax.flat.graph as g
    allp = list(itertools.combinations(range(4), 2))
    bad = []
    rng = onp.random.RandomState(3)
    for k in range(0, len(allp) + 1):
        for E in itertools.islice(itertools.combinations(allp, k), 8):
            e = onp.array([p if rng.rand() < 0.5 else p[::-1] for p in E]).reshape(-1, 2).astype(int)
            A = onp.zeros((4, 4))
            for i, j in e:
                A[i, j] = A[j, i] = 1.0
            got = onp.asarray(g.edges2adjcentMat(jnp.array(e), num_nodes=4))
            if got.shape != (4, 4) or not onp.array_equal(got, A):
                bad.append(["edges to matrix", e.tolist()])
            back = onp.asarray(g.adjcentMat2edges(jnp.array(A * 0.5)))
            if back.shape != (k, 2) or {tuple(x) for x in back.tolist()} != set(E):
                bad.append(["matrix to edges", e.tolist(), back.tolist()])
            if k and onp.asarray(g.edges2adjcentMat(jnp.array(e))).shape != (e.max() + 1,) * 2:
                bad.append(["inferred size", e.tolist()])
    for f, q in ((g.create_lattice_function, jnp.zeros((0, 2), int)), (g.create_lattice_function_from_adjmat, jnp.zeros((3, 3)))):
        if float(f(jnp.array(onp.eye(3)), q, 10.0)(jnp.zeros(3))) != 0.0:
            bad.append("a graph without edges contains a point")
        try:
            f(jnp.array(onp.eye(3)), q, -0.1)(jnp.zeros(3))
            bad.append("negative radius accepted")
        except ValueError:
            pass
    if bad:
        ck.violate("graph conversions", {"wrong": bad[:5]})


def fields(ck, et, n, multi):
    """densities: solid exactly where the lattice contains the centroid (or node)"""
    import feax.flat.graph as g
    pts, cells = sheared(et, n, 1)
    m = fe.Mesh(pts, cells, et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda u, *a: u
    if multi:
        P.get_weak_form = lambda self: (lambda u, g, x, *iv: ([u[0], u[1]], [g[0], g[1]]))
    p = P([m, m], vec=[1, 1], dim=dim_of(et), ele_type=[et, et]) if multi else P(m, vec=1, dim=dim_of(et), ele_type=et)
    c = pts[cells].mean(1)
    k = dim_of(et)
    r = 0.3 * float((pts.max(0) - pts.min(0)).max())
    nodes, edges = onp.vstack([c[0], c[-1] + 0.4 * r]), onp.array([[0, 1]])
    f = g.create_lattice_function(jnp.array(nodes), jnp.array(edges), r)
    inc = onp.array([float(member(jnp.array(x), nodes[0], nodes[1], r)) for x in c])
    inn = onp.array([float(member(jnp.array(x), nodes[0], nodes[1], r)) for x in pts])
    assert 0 < inn.sum() < len(inn)
    ctx = Ctx()
    s, v = ctx.array("s", (), -2, 2), ctx.array("v", (), -2, 2)
    tag = f"{et} {n}{' two fields' if multi else ''}"
    same(ck, f"cell densities {tag}", lambda s, v: g.create_lattice_density_field(p, f, density_solid=s, density_void=v), lambda s, v: s * inc + v * (1 - inc), (s, v), ctx)
    same(ck, f"nodal densities {tag}", lambda s, v: g.create_lattice_density_field_nodal(p, f, density_solid=s, density_void=v, **(dict(var_index=1) if multi else {})),
         lambda s, v: s * inn + v * (1 - inn), (s, v), ctx)
    # an arbitrary lattice function: its value decides at 1/2
    w = ctx.array("w", (k,), -1, 1)
    lat = lambda w: (lambda x: jnp.where(jnp.sum(w * (x - jnp.array(c[0]))) > 0, 1.0, 0.0))
    same(ck, f"cell densities of any half space {tag}", lambda s, v, w: g.create_lattice_density_field(p, lat(w), density_solid=s, density_void=v),
         lambda s, v, w: jnp.where((jnp.array(c) - jnp.array(c[0])) @ w > 0, s, v), (s, v, w), ctx)


def run(ck):
    full = ck.tier != "quick"
    ck.bound("density fields: every nodal density in [-3,3] and every threshold, on sheared, distorted meshes of all eight element types, at sampled points of every cell (interior, centre, nodes); points at least 2.5 box sizes outside; one graded mesh")
    ck.bound("CSG, surface grids: every value of up to three combined fields; affine fields sampled on a 5^3-point grid, marching cubes itself (scikit-image) replaced by a recorder")
    ck.bound("lattices: every point of the plane box for single struts and of given lines through graphs with several struts, for given radii; every symmetric 4-node adjacency matrix at given points; every solid/void density")
    ck.fn("feax.gene.sdf.DensityField", "feax.gene.sdf.SDF.to_mesh", "feax.gene.sdf.Union/Intersection/Difference", "feax.gene.sdf.from_vtk", "feax.gene.sdf.from_opt_result", "feax.flat.graph")
    for et, n in (("TRI3", (3, 2)), ("TRI6", (2, 2)), ("QUAD4", (3, 2)), ("QUAD8", (2, 2)), ("TET4", (2, 1, 1)), ("TET10", (1, 1, 1)), ("HEX8", (2, 1, 2)), ("HEX20", (1, 1, 1))):
        for seed in ((3, 5, 8) if full else (3,)):
            ck.do(density, et, n, seed, 12 if full else 3)
    for et, n in (("QUAD4", (1, 1)), ("TET4", (1, 1, 1)), ("HEX8", (1, 1, 1)), ("TRI6", (1, 1)), ("TET10", (1, 1, 1)) ):
        ck.do(density, et, n, 1, 3, 0.9, False)
    for et, n in (("TRI3", (2, 2)), ("QUAD4", (2, 2)), ("TET4", (1, 1, 1)), ("HEX8", (2, 1, 1)), ("QUAD8", (2, 1)), ("TET10", (1, 1, 1))):
        for close in (True, False):
            ck.do(outside, et, n, close)
    ck.do(graded)
    for et, n in (("TRI3", (2, 1)), ("QUAD4", (2, 1)), ("QUAD8", (1, 1)), ("TRI6", (1, 1)), ("TET4", (1, 1, 1)), ("TET10", (1, 1, 1)), ("HEX8", (1, 1, 1)), ("HEX20", (1, 1, 1))):
        ck.do(loaded, et, n)
    ck.do(csg)
    for what, bounds, pad, lev in (("plain", None, 0.0, 0.0), ("plain", None, 0.25, 0.125), ("given", ([0.0, -1.0, 1.0], [1.0, 2.0, 1.5]), 0.5, 0.0), ("union", None, 0.0, 0.0),
                                   ("intersection", None, 0.1, 0.0), ("difference", None, 0.0, 0.0)):
        ck.do(grid, what, 5, bounds, pad, lev)
    for name in GRAPHS:
        for adj in (False, True):
            if name in ("strut", "degenerate"):
                ck.do(lattice, name, 0.25, adj)
            else:
                for l in range(3):
                    ck.do(lattice, name, 0.25, adj, l)
    ck.do(adjacency)
    ck.do(conversions)
    for a in (("QUAD4", (3, 2), False), ("TET4", (1, 1, 1), False), ("QUAD4", (2, 2), True), ("TRI6", (2, 1), False)):
        ck.do(fields, *a)
