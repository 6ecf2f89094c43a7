"""P18: generated meshes tile the requested domain; transfers between meshes are exact."""
import itertools
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
import feax.mesh as M
from symx import pyx
from symx.pyx import Num, eq, le, conj
from symx.npx import numpy_on_terms, NP, OArr, wrapa, SymFloat, ite
from .fem import build, new, dim_of


def on_terms(x):
    return NP().asarray(x) if pyx.ENG is not None else onp.asarray(x, float)


# ---- structured rectangles ----------------------------------------------------------------------------------------
CORN = [(0, 0), (2, 0), (2, 2), (0, 2)]
MID = [(1, 0), (2, 1), (1, 2), (0, 1)]


def rectangle(ck, et, Nx, Ny):
    """nodes sit on the requested grid, one per position; cells are the grid's cells, counter-clockwise"""
    m0 = M.rectangle_mesh(Nx, Ny, 1.0, 1.0, (0.0, 0.0), et)
    p0 = onp.asarray(m0.points)
    g = onp.rint(p0 * [2 * Nx, 2 * Ny]).astype(int)
    cells = onp.asarray(m0.cells)
    tag = f"{et} {Nx}x{Ny}"
    k = {"QUAD4": 4, "QUAD8": 8, "QUAD9": 9}[et]
    want = set()
    for i, j in itertools.product(range(Nx), range(Ny)):
        loc = CORN + ([] if k == 4 else MID) + ([(1, 1)] if k == 9 else [])
        want.add(frozenset((2 * i + a, 2 * j + b) for a, b in loc))
    bad = []
    if m0.ele_type != et or cells.shape != (Nx * Ny, k):
        bad.append(f"type {m0.ele_type}, cells {cells.shape}")
    elif cells.min() < 0 or cells.max() >= len(p0) or len(onp.unique(cells)) != len(p0):
        bad.append("unused or missing nodes")
    else:
        if len({tuple(x) for x in g}) != len(g):
            bad.append("two nodes at one position")
        got = [frozenset(tuple(g[n]) for n in c) for c in cells]
        if len(set(got)) != len(got) or set(got) != want:
            bad.append("cells are not the grid's cells")
        for c in cells:
            q = g[c] - g[c].min(0)
            s = [tuple(x) for x in q]
            r = CORN.index(s[0]) if s[0] in CORN else -1
            if r < 0 or s[:4] != CORN[r:] + CORN[:r] or (k > 4 and s[4:8] != MID[r:] + MID[:r]) or (k == 9 and s[8] != (1, 1)):
                bad.append(f"node order of cell {c.tolist()}")
                break
    if bad:
        ck.violate(f"{tag}: connectivity", {"problems": bad})
        return

    def h(v):
        with numpy_on_terms(M):
            m = M.rectangle_mesh(Nx, Ny, v["lx"], v["ly"], (v["x0"], v["y0"]), et)
        P = on_terms(m.points)
        cl = []
        for n, (a, b) in enumerate(g):
            cl += [eq(P[n, 0], v["x0"] + v["lx"] * pyx.Fraction(int(a), 2 * Nx) if pyx.ENG else v["x0"] + v["lx"] * a / (2 * Nx)),
                   eq(P[n, 1], v["y0"] + v["ly"] * pyx.Fraction(int(b), 2 * Ny) if pyx.ENG else v["y0"] + v["ly"] * b / (2 * Ny))]
        return {"nodes": conj(*cl), "count": tuple(P.shape) == p0.shape, "cells": onp.array_equal(onp.asarray(m.cells).astype(int), cells)}
    pyx.check(ck, f"{tag}: node positions", {x: "real" for x in ("x0", "y0", "lx", "ly")}, h,
              lambda v: [v["lx"] >= 0.01, v["lx"] <= 100, v["ly"] >= 0.01, v["ly"] <= 100, v["x0"] >= -50, v["x0"] <= 50, v["y0"] >= -50, v["y0"] <= 50])


# ---- imported meshes ----------------------------------------------------------------------------------------------
class Block:
    def __init__(self, type, data):
        self.type, self.data = type, data

    def __iter__(self):                       # meshio blocks unpack as (type, data)
        return iter((self.type, self.data))

    def __len__(self):
        return len(self.data)


class Raw:
    def __init__(self, points, cells):
        self.points, self.cells = points, cells

    @property
    def cells_dict(self):
        d = {}
        for b in self.cells:
            d.setdefault(b.type, []).append(b.data)
        return {k: onp.concatenate(v) for k, v in d.items()}

    def get_cells_type(self, t):
        return self.cells_dict.get(t, onp.zeros((0, 0), int))


MIO = {"tetra": ("TET4", 4, 3), "tetra10": ("TET10", 10, 3), "hexahedron": ("HEX8", 8, 3), "hexahedron20": ("HEX20", 20, 3), "hexahedron27": ("HEX27", 27, 3),
       "triangle": ("TRI3", 3, 2), "triangle6": ("TRI6", 6, 2), "quad": ("QUAD4", 4, 2), "quad8": ("QUAD8", 8, 2), "quad9": ("QUAD9", 9, 2)}
NPE = {"line": 2, "vertex": 1, "line3": 3, **{k: v[1] for k, v in MIO.items()}}


def imported(ck, blocks, pick):
    """every cell of the chosen type is kept, whatever block it is stored in; points and numbering are untouched"""
    sizes = [(t, n, NPE[t]) for t, n in blocks]
    vs = {f"c{b}_{i}_{j}": "int" for b, (_, n, k) in enumerate(sizes) for i in range(n) for j in range(k)}
    vs.update({f"p{i}_{j}": "real" for i in range(3) for j in range(3)})
    tag = "imported " + "+".join(f"{n} {t}" for t, n in blocks) + (f" as {pick}" if pick else "")

    def h(v):
        data = []
        for b, (t, n, k) in enumerate(sizes):
            a = onp.empty((n, k), object if pyx.ENG else int)
            for i, j in itertools.product(range(n), range(k)):
                a[i, j] = v[f"c{b}_{i}_{j}"]
            data.append(Block(t, a))
        pts = onp.empty((3, 3), object if pyx.ENG else float)
        for i, j in itertools.product(range(3), range(3)):
            pts[i, j] = v[f"p{i}_{j}"]
        m = fe.Mesh.from_gmsh(Raw(pts, data), element_type=pick)
        ts = [b.type for b in data if b.type in MIO]
        if pick:
            t = [x for x in MIO if MIO[x][0] == pick][0]
        else:
            t = next((x for x in ts if MIO[x][0] == m.ele_type), None)
            if t is None or MIO[t][2] != max(MIO[x][2] for x in ts):
                return {"type": False}
        want = [list(r) for b in data if b.type == t for r in b.data]
        got = [list(r) for r in onp.asarray(m.cells)]
        ok = len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want))
        return {"type": m.ele_type == MIO[t][0], "cells": conj(True, *[x == y for a, b in zip(got, want) for x, y in zip(a, b)]) if ok else False,
                "points": conj(True, *[x == y for x, y in zip(onp.asarray(m.points).ravel(), pts.ravel())])}
    pyx.check(ck, tag, vs, h, lambda v: [v[x] >= 0 for x in vs if x[0] == "c"] + [v[x] <= 2 for x in vs if x[0] == "c"])


def names(ck):
    bad = []
    for t, (f, k, d) in MIO.items():
        if M.get_meshio_cell_type(f) != t:
            bad.append([f, M.get_meshio_cell_type(f)])
    for raw, pick in ((Raw(onp.zeros((3, 2)), [Block("line", onp.zeros((1, 2), int))]), None), (Raw(onp.zeros((3, 2)), [Block("triangle", onp.zeros((1, 3), int))]), "QUAD4")):
        try:
            fe.Mesh.from_gmsh(raw, element_type=pick)
            bad.append(["accepted", pick])
        except ValueError:
            pass
    if bad:
        ck.violate("cell type names", {"wrong": bad})
    ck.note_ok = True


# ---- orientation check --------------------------------------------------------------------------------------------
def tet_check(ck):
    ctx, _ = new()
    P = ctx.array("P", (6, 3))
    cells = jnp.asarray([[0, 1, 2, 3], [5, 2, 1, 4], [1, 0, 2, 3]])

    def spec(P):
        out = []
        for c in onp.asarray(cells):
            a, b, d = P[c[1]] - P[c[0]], P[c[2]] - P[c[0]], P[c[3]] - P[c[0]]
            out.append(a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]))
        return jnp.stack(out)
    ck.forall("signed volumes", lambda P: M.check_mesh_TET4(P, cells), spec, (P,), ctx, tol=1e-9)


# ---- meshes from the external generator: tiling -------------------------------------------------------------------
FACES = {"TET4": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)], "HEX8": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
         "TRI3": [(0, 1), (1, 2), (2, 0)], "QUAD4": [(0, 1), (1, 2), (2, 3), (3, 0)]}


def faces(cells, et):
    c = {}
    for e in cells:
        for f in FACES[et]:
            k = tuple(sorted(int(e[i]) for i in f))
            c[k] = c.get(k, 0) + 1
    return c


def rules(et):
    g = [0.5 - onp.sqrt(3) / 6, 0.5 + onp.sqrt(3) / 6]
    if et == "TET4":
        a, b = (5 - onp.sqrt(5)) / 20, (5 + 3 * onp.sqrt(5)) / 20
        return [(onp.array([b if i == j else a for i in range(3)]), 1 / 24) for j in range(4)]
    if et == "TRI3":
        return [(onp.array(x), 1 / 6) for x in ((1 / 6, 1 / 6), (2 / 3, 1 / 6), (1 / 6, 2 / 3))]
    return [(onp.array(x), 0.5 ** dim_of(et)) for x in itertools.product(g, repeat=dim_of(et))]


def shape(et, x):
    if et in ("TET4", "TRI3"):
        return [1 - sum(x)] + list(x)
    if et == "QUAD4":
        s, t = x
        return [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
    s, t, r = x
    q = [(1 - s) * (1 - t), s * (1 - t), s * t, (1 - s) * t]
    return [a * (1 - r) for a in q] + [a * r for a in q]


def dshape(et, x, h=1e-6):
    d = dim_of(et)
    I = onp.eye(d)
    # multilinear: differences are exact
    return onp.array([(onp.array(shape(et, x + 0.5 * I[i])) - onp.array(shape(et, x - 0.5 * I[i]))) for i in range(d)]).T


MONO = {2: [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)],
        3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (1, 1, 0), (1, 0, 1), (0, 2, 0), (0, 1, 1), (0, 0, 2)]}


def integrals(pts, cells, et):
    """integral of every monomial of degree <= 2 over the mesh; smallest Jacobian"""
    d = dim_of(et)
    tot, mn = onp.zeros(len(MONO[d])), onp.inf
    X = pts[cells]
    for x, w in rules(et):
        J = onp.linalg.det(onp.einsum("cnk,nj->ckj", X, dshape(et, x)))
        mn = min(mn, J.min())
        y = onp.einsum("n,cnk->ck", onp.array(shape(et, x)), X)
        tot += [onp.sum(w * J * onp.prod(y ** onp.array(m), 1)) for m in MONO[d]]
    return tot, mn


def same_body(ck, name, a, b):
    """for every quadratic field the two integrals agree"""
    vs = {f"a{i}": "real" for i in range(len(a))}

    def h(v):
        return {"integral": eq(sum(float(x) * v[f"a{i}"] for i, x in enumerate(a)), sum(float(x) * v[f"a{i}"] for i, x in enumerate(b)), 1e-7)}
    pyx.check(ck, name, vs, h, lambda v: [v[k] >= -1 for k in vs] + [v[k] <= 1 for k in vs])


def structure(ck, tag, m, et, on_boundary):
    """positively oriented cells, conforming, boundary faces on the body's surface, no stray nodes"""
    pts, cells = onp.asarray(m.points, float), onp.asarray(m.cells).astype(int)
    bad = []
    if m.ele_type != et:
        bad.append(f"type {m.ele_type}")
    if cells.min() < 0 or cells.max() >= len(pts) or len(onp.unique(cells)) != len(pts):
        bad.append("stray or missing nodes")
    else:
        if len(onp.unique(onp.round(pts, 8), axis=0)) != len(pts):
            bad.append("two nodes at one position")
        I, mn = integrals(pts, cells, et)
        if mn <= 0:
            bad.append(f"inverted cell (Jacobian {mn})")
        fc = faces(cells, et)
        if max(fc.values()) > 2:
            bad.append("a face with three cells")
        off = [f for f, k in fc.items() if k == 1 and not on_boundary(pts[list(f)])]
        if off:
            bad.append(f"boundary face {off[0]} inside the body: {pts[list(off[0])].tolist()}")
    if bad:
        ck.violate(f"{tag}: structure", {"problems": bad})
        return None
    return integrals(pts, cells, et)[0]


def box_integrals(o, s):
    d = len(s)
    one = lambda a, l, k: ((a + l) ** (k + 1) - a ** (k + 1)) / (k + 1)
    return onp.array([onp.prod([one(o[i], s[i], m[i]) for i in range(d)]) for m in MONO[d]])


def box_face(o, s, tol=1e-7):
    return lambda X: any(onp.all(abs(X[:, i] - o[i]) < tol) or onp.all(abs(X[:, i] - o[i] - s[i]) < tol) for i in range(len(s)))


def box(ck, et, size, origin, h):
    s = (float(size),) * 3 if onp.isscalar(size) else size
    m = M.box_mesh(size, origin=origin, mesh_size=h, element_type=et)
    tag = f"box {s} at {origin}, {et}"
    I = structure(ck, tag, m, et, box_face(origin, s))
    if I is None:
        return
    same_body(ck, f"{tag}: tiling", I, box_integrals(origin, s))
    if et == "HEX8":
        pts = onp.asarray(m.points)
        n = [len(onp.unique(onp.round(pts[:, i], 8))) - 1 for i in range(3)]
        want = [max(1, int(onp.floor(s[i] / h + 1e-9))) for i in range(3)]
        if n != want or len(m.cells) != onp.prod(n):
            ck.violate(f"{tag}: divisions", {"divisions": n, "expected": want, "cells": len(m.cells)})


def sphere(ck, r, c, h):
    m = M.sphere_mesh(r, center=c, mesh_size=h)
    tag = f"sphere {r} at {c}"
    I = structure(ck, tag, m, "TET4", lambda X: onp.all(abs(onp.linalg.norm(X - onp.array(c), axis=1) - r) < 1e-6 * r))
    if I is None:
        return
    if not 0.75 * 4 / 3 * onp.pi * r ** 3 < I[0] <= 4 / 3 * onp.pi * r ** 3:
        ck.violate(f"{tag}: volume", {"volume": I[0]})


def cylinder(ck, r, L, c, axis, h):
    m = M.cylinder_mesh(r, L, center=c, axis=axis, mesh_size=h)
    a = onp.array(axis, float) / onp.linalg.norm(axis)

    def on(X):
        z = (X - onp.array(c)) @ a
        rr = onp.linalg.norm(X - onp.array(c) - z[:, None] * a, axis=1)
        return onp.all(abs(z) < 1e-6) or onp.all(abs(z - L) < 1e-6) or (onp.all(abs(rr - r) < 1e-6 * r) and z.min() > -1e-6 and z.max() < L + 1e-6)
    tag = f"cylinder {r}x{L} at {c} along {axis}"
    I = structure(ck, tag, m, "TET4", on)
    if I is None:
        return
    V = onp.pi * r * r * L
    # first moment about the base plane: the centroid of the inscribed prism lies at half height
    i1 = sum(a[k] * (I[1 + k] - c[k] * I[0]) for k in range(3))
    if not (0.75 * V < I[0] <= V) or abs(i1 / I[0] - L / 2) > 0.03 * L:
        ck.violate(f"{tag}: body", {"volume": I[0], "height of the centroid": i1 / I[0]})


def refined(ck, et, n, levels, seed):
    pts, cells = build(et, n, seed=seed)
    m = M.refine_mesh(fe.Mesh(pts, cells, et), levels)
    d = dim_of(et)
    tag = f"{et} refined {levels}x"
    f0 = faces(cells, et)
    I0, _ = integrals(pts, cells, et)
    F = [pts[list(f)] for f, k in f0.items() if k == 1]

    def on(X):                    # on the hull of an original boundary face
        for Y in F:
            A = (Y[1:] - Y[0]).T
            q = onp.linalg.lstsq(A, (X - Y[0]).T, rcond=None)[0]
            if onp.abs(A @ q - (X - Y[0]).T).max() < 1e-8:
                return True
        return False
    I = structure(ck, tag, m, et, on)
    if I is None:
        return
    same_body(ck, f"{tag}: covers the same body", I, I0)
    P, C = onp.asarray(m.points, float), onp.asarray(m.cells).astype(int)
    bad = []
    if len(C) != len(cells) * 2 ** (d * levels):
        bad.append(f"{len(C)} cells")
    key = lambda x: tuple(onp.round(x, 7) + 0.0)
    have = {key(x) for x in P}
    if not all(key(x) in have for x in pts[onp.unique(cells)]):
        bad.append("an original node is missing")
    if levels == 1:
        E = {tuple(sorted((int(c[i]), int(c[j])))) for c in cells for f in (FACES[et] if d == 2 else [g for q in FACES[et] for g in zip(q, q[1:] + q[:1])]) for i, j in [f]}
        if not all(key((pts[i] + pts[j]) / 2) in have for i, j in E):
            bad.append("an edge midpoint is missing")
    if bad:
        ck.violate(f"{tag}: subdivision", {"problems": bad})
    z = M.refine_mesh(fe.Mesh(pts, cells, et), 0)
    if not (onp.array_equal(z.points, pts) and onp.array_equal(z.cells, cells)):
        ck.violate(f"{tag}: no levels", {"points": onp.asarray(z.points).tolist()})


# ---- transfer -----------------------------------------------------------------------------------------------------
def A():
    import feax.gene.adaptive as a
    return a


class Tree:
    """stand-in for the spatial index on symbolic points: neighbours in an arbitrary fixed order; k=1 by comparison"""
    order = 1

    def __init__(self, data, *a, **k):
        self.d = on_terms(data)
        self.n = len(self.d)

    def query(self, X, k=1, **kw):
        X = on_terms(X)
        one = X.ndim == 1
        X = X.reshape(1, -1) if one else X
        if k == 1:
            out = []
            for x in X:
                best, bi = None, 0
                for i in range(self.n):
                    q = sum((x[j] - self.d[i, j]) ** 2 for j in range(X.shape[1]))
                    if best is None or bool(q < best):
                        best, bi = q, i
                out.append(bi)
            r = onp.array(out)
            return (None, int(r[0])) if one else (None, wrapa(r))
        if k < self.n:
            raise pyx.Unsupported("proper subset of neighbours for symbolic points")
        r = onp.tile(onp.arange(self.n)[::self.order], (len(X), 1))
        return onp.zeros(r.shape), wrapa(r)

    def query_ball_point(self, X, r=None, **kw):
        return [list(range(self.n))[::self.order] for _ in range(len(X))]


class RealTree:
    """the real spatial index; its answers can be indexed by terms"""

    def __init__(self, data, *a, **k):
        import scipy.spatial
        self.t = scipy.spatial.cKDTree(onp.array(onp.asarray(data).tolist(), float), *a, **k)

    def query(self, X, k=1, **kw):
        d, i = self.t.query(onp.array(onp.asarray(X).tolist(), float), k=k, **kw)
        return (wrapa(d), wrapa(i)) if isinstance(i, onp.ndarray) else (d, int(i))

    def __getattr__(self, n):
        return getattr(self.t, n)


import contextlib


@contextlib.contextmanager
def on_module(a, tree=RealTree):
    """the module's numpy, float and spatial index act on terms"""
    if pyx.ENG is None:
        yield
        return
    sv = getattr(a, "cKDTree", None)
    if sv is not None:
        a.cKDTree = tree
    a.float = SymFloat
    try:
        with numpy_on_terms(a):
            yield
    finally:
        if sv is not None:
            a.cKDTree = sv
        del a.float


def bary(pts, c, x):
    T = (pts[c[1:]] - pts[c[0]]).T
    Ti = onp.linalg.inv(T)
    dx = [x[j] - float(pts[c[0], j]) for j in range(3)]
    l = [sum(float(Ti[i, j]) * dx[j] for j in range(3)) for i in range(3)]
    return [1 - l[0] - l[1] - l[2]] + l


def transfer_values(ck, pts, cells, X, tag, clip=None):
    """arbitrary nodal values, given points: inside, the linear interpolant; outside, the nearest node"""
    a = A()
    m = fe.Mesh(pts, cells, "TET4")
    vs = {f"v{i}": "real" for i in range(len(pts))}
    W = onp.zeros((len(X), len(pts)))
    for q, x in enumerate(X):
        hit = [(min(b), c, b) for c in cells for b in [bary(pts, c, x)] if min(b) >= -1e-9]
        if hit:
            _, c, b = max(hit, key=lambda t: t[0])
            for i, w in zip(c, b):
                W[q, i] += w
        else:
            W[q, onp.argmin(((pts - x) ** 2).sum(1))] = 1

    def h(v):
        val = on_terms([v[k] for k in vs])
        with on_module(a):
            r = a.interpolate_field(val, m, X, clip=clip)
        r = on_terms(r)
        cl = []
        for q in range(len(X)):
            s = sum(float(w) * v[f"v{i}"] for i, w in enumerate(W[q]) if abs(w) > 1e-12)
            if clip is not None:
                s = onp.minimum(onp.maximum(on_terms([s]), clip[0]), clip[1])[0]
            cl.append(eq(r[q], s, 1e-6))
        return {"values": conj(*cl), "count": r.shape == (len(X),)}
    pyx.check(ck, tag, vs, h, lambda v: [v[k] >= -10 for k in vs] + [v[k] <= 10 for k in vs])


def transfer_points(ck, pts, cells, order):
    """arbitrary point of a small mesh, given values: the interpolant at that point, whichever cell is looked at first"""
    a = A()
    m = fe.Mesh(pts, cells, "TET4")
    val = onp.round(onp.random.RandomState(7).uniform(-3, 3, len(pts)), 2)
    for ci, c in enumerate(cells):
        def h(v):
            l = [v["l0"], v["l1"], v["l2"]]
            w = [1 - l[0] - l[1] - l[2]] + l
            x = [sum(w[k] * float(pts[c[k], j]) for k in range(4)) for j in range(3)]
            Tree.order = order
            with on_module(a, Tree):
                r = on_terms(a.interpolate_field(val, m, on_terms([x])))
            return {"value": eq(r[0], sum(w[k] * float(val[c[k]]) for k in range(4)), 1e-6)}
        pyx.check(ck, f"point anywhere in tetrahedron {ci}, neighbours in order {order}", {"l0": "real", "l1": "real", "l2": "real"}, h,
                  lambda v: [v["l0"] >= 0, v["l1"] >= 0, v["l2"] >= 0, v["l0"] + v["l1"] + v["l2"] <= 1], max_paths=2000)


def graded(seed=0):
    """one large tetrahedron beside many small ones"""
    import scipy.spatial as ss
    rng = onp.random.RandomState(seed)
    P = onp.vstack([[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [4, 4, 4], 0.35 * rng.rand(14, 3) + [1.15, 1.15, 1.15]])
    T = ss.Delaunay(P)
    C = T.simplices.copy()
    v = onp.linalg.det(P[C[:, 1:]] - P[C[:, :1]])
    keep = abs(v) > 1e-9
    C, v = C[keep], v[keep]
    C[v < 0] = C[v < 0][:, [0, 2, 1, 3]]
    return P, C.astype(int)


def gradient(ck, ntet, seed):
    """nodal average of the element gradient magnitudes over their maximum"""
    a = A()
    pts, cells = build("TET4", (1, 1, 1), seed=0)
    pts = onp.rint((pts - pts.min(0)) / (pts.max(0) - pts.min(0)))
    pts = pts @ onp.array([[1.0, 0.5, 0.0], [0.0, 1.0, -0.25], [1.0, 0.5, 1.0]])      # unimodular: all inverses are exact
    cells = cells[:ntet]
    used = onp.unique(cells)
    mp = -onp.ones(len(pts), int)
    mp[used] = onp.arange(len(used))
    pts, cells = pts[used], mp[cells]
    m = fe.Mesh(pts, cells, "TET4")
    G = []
    for c in cells:
        Ti = onp.linalg.inv(pts[c[1:]] - pts[c[0]])
        g = onp.zeros((3, len(pts)))
        g[:, c[1:]] = Ti
        g[:, c[0]] = -Ti.sum(1)
        G.append(g)

    def h(v):
        f = [v[f"f{i}"] for i in range(len(pts))]
        if pyx.ENG:
            pyx.ENG.free_roots = True
        with on_module(a):
            r = on_terms(a.gradient_refinement(on_terms(f), m))
        sq = [sum(sum(float(w) * f[i] for i, w in enumerate(row) if w) ** 2 for row in g) for g in G]
        mag = [pyx.ENG.sqrt(pyx.term(s)) if pyx.ENG else onp.sqrt(s) for s in sq]
        node = [sum(mag[e] for e in range(len(cells)) if n in cells[e]) / int(sum(n in c for c in cells)) for n in range(len(pts))]
        big = node[0]
        for x in node[1:]:
            big = x if bool(x > big) else big
        return {"ratio": conj(*[eq(r[n] * big, node[n], 1e-6) for n in range(len(pts))]), "count": r.shape == (len(pts),)}
    pyx.check(ck, f"gradient refinement, {ntet} tetrahedra {seed}", {f"f{i}": "real" for i in range(len(pts))}, h,
              lambda v: [v[f"f{i}"] >= -2 for i in range(len(pts))] + [v[f"f{i}"] <= 2 for i in range(len(pts))], max_paths=600)


class _Stop(Exception):
    pass


def sizes(ck, boxed):
    """element size at a point: h_max less the clipped field at the nearest old node times the range"""
    a = A()
    pts, cells = build("TET4", (1, 1, 1), seed=1)
    m = fe.Mesh(pts, cells, "TET4")
    lo, hi = pts.min(0), pts.max(0)
    X = onp.vstack([pts[[0, 3, 7]] + 0.03, [(lo + hi) / 2 + [0.11, 0.07, 0.05]]])
    near = [int(onp.argmin(((pts - x) ** 2).sum(1))) for x in X]
    vs = {f"f{i}": "real" for i in range(len(pts))}
    import gmsh

    def h(v):
        f = on_terms([v[k] for k in vs])
        seen = []

        def catch(cb):
            seen.append(cb)
            raise _Stop()
        sv = gmsh.model.mesh.setSizeCallback
        gmsh.model.mesh.setSizeCallback = catch
        try:
            with on_module(a):
                try:
                    if boxed:
                        a.adaptive_box_mesh((1.0, 1.0, 1.0), f, m, h_min=0.1, h_max=0.7)
                    else:
                        a.adaptive_mesh(lambda: (gmsh.model.occ.addBox(0, 0, 0, 1, 1, 1), gmsh.model.occ.synchronize()), f, m, h_min=0.1, h_max=0.7)
                except _Stop:
                    pass
                got = [seen[0](3, 1, float(x[0]), float(x[1]), float(x[2]), 0.5) for x in X]
        finally:
            gmsh.model.mesh.setSizeCallback = sv
        cl = []
        for g, n in zip(got, near):
            q = v[f"f{n}"]
            q = 0 if bool(q <= 0) else (1 if bool(q >= 1) else q)
            cl.append(eq(g, 0.7 - q * 0.6, 1e-7))
        return {"size": conj(*cl)}
    pyx.check(ck, f"element size callback{' (box)' if boxed else ''}", vs, h, lambda v: [v["f0"] >= -1, v["f0"] <= 0.2, v["f1"] >= 0.8, v["f1"] <= 2] + [v[k] >= -1 for k in vs] + [v[k] <= 2 for k in vs], max_paths=600)


def periodic_box(ck, size, origin, h):
    a = A()
    pts0, cells0 = build("TET4", (1, 1, 1), seed=0)
    f = onp.linspace(0, 1, len(pts0))
    m = a.adaptive_box_mesh(size, f, fe.Mesh(onp.asarray(pts0), cells0, "TET4"), h_min=h / 2, h_max=h, origin=origin, periodic=True)
    tag = f"adaptive periodic box {size} at {origin}"
    I = structure(ck, tag, m, "TET4", box_face(origin, size))
    if I is None:
        return
    same_body(ck, f"{tag}: tiling", I, box_integrals(origin, size))
    P = onp.asarray(m.points)
    for ax in range(3):
        l, r = P[abs(P[:, ax] - origin[ax]) < 1e-7], P[abs(P[:, ax] - origin[ax] - size[ax]) < 1e-7]
        l, r = onp.delete(l, ax, 1), onp.delete(r, ax, 1)
        key = lambda x: {tuple(onp.round(y, 5) + 0.0) for y in x}
        dist = onp.sqrt(((l[:, None] - r[None]) ** 2).sum(-1)) if len(l) == len(r) else onp.array([[9.0]])
        if dist.min(1).max() > 1e-6:
            ck.violate(f"{tag}: opposite faces", {"axis": ax, "nodes": [len(l), len(r)], "mismatch": float(dist.min(1).max())})


def run(ck):
    ck.fn("feax.mesh", "feax.gene.adaptive.interpolate_field", "feax.gene.adaptive.gradient_refinement", "feax.gene.adaptive.adaptive_mesh", "feax.gene.adaptive.adaptive_box_mesh")
    ck.bound("rectangles of up to 4x3 cells with symbolic origin and size; imports of up to 4 blocks with symbolic connectivity; transfers on meshes of up to ~60 tetrahedra with symbolic values, or of 6 with symbolic points; "
             "meshes from the external generator (gmsh) are taken as data: a gallery of sizes, with all quadratic fields symbolic")
    full = ck.tier != "quick"
    for et in ("QUAD4", "QUAD8", "QUAD9"):
        for n in ((1, 1), (3, 2), (2, 4), (1, 3)) + (((5, 4), (4, 1)) if full else ()):
            ck.do(rectangle, et, *n)
    ck.do(names)
    for b, pick in (((("tetra", 2), ("tetra", 1)), None), ((("triangle", 2), ("tetra", 1), ("triangle", 1), ("tetra", 2)), None), ((("triangle", 2), ("tetra", 1), ("triangle", 1)), "TRI3"),
                    ((("line", 2), ("quad", 2), ("vertex", 1)), None), ((("quad", 1), ("triangle", 2), ("quad", 2)), "QUAD4"), ((("hexahedron", 1), ("quad", 2), ("hexahedron", 1)), None),
                    ((("quad9", 1), ("line3", 2)), None), ((("tetra10", 1), ("triangle6", 2)), None), ((("tetra10", 1), ("triangle6", 2), ("triangle6", 1)), "TRI6"), ((("hexahedron20", 1), ("quad8", 1)), None),
                    ((("quad8", 1), ("line3", 1), ("quad8", 1)), None), ((("hexahedron27", 1),), None), ((("hexahedron", 1), ("tetra", 2), ("tetra", 1)), "TET4")):
        ck.do(imported, b, pick)
    ck.do(tet_check)
    for a in (("HEX8", (1.0, 0.5, 0.3), (1.0, -2.0, 0.5), 0.25), ("HEX8", 1.0, (0.0, 0.0, 0.0), 0.5), ("HEX8", (0.4, 1.0, 0.7), (0.0, 1.0, 0.0), 0.3), ("TET4", (1.0, 0.5, 0.8), (1.0, -2.0, 0.5), 0.4), ("TET4", 2.0, (-1.0, 0.0, 0.0), 0.9)):
        ck.do(box, *a)
    ck.do(sphere, 0.5, (1.0, 2.0, 3.0), 0.25)
    for ax in ((0.0, 0.0, 1.0), (0.0, 0.0, -2.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (1.0, 2.0, -0.5)):
        ck.do(cylinder, 0.5, 1.2, (1.0, 2.0, 3.0), ax, 0.25)
    for et, n, l in (("TRI3", (2, 1), 1), ("QUAD4", (2, 2), 1), ("TET4", (1, 1, 1), 1), ("HEX8", (2, 1, 1), 1), ("QUAD4", (1, 1), 2), ("TRI3", (1, 1), 2)) + ((("HEX8", (1, 1, 1), 2), ("TET4", (1, 1, 1), 2)) if full else ()):
        ck.do(refined, et, n, l, 3)
    rng = onp.random.RandomState(5)
    p6, c6 = build("TET4", (1, 1, 1), seed=4)
    p6 = onp.round(p6, 2)
    inside = lambda P, C, k: onp.array([rng.dirichlet(onp.ones(4)) @ P[C[e]] for e in range(len(C)) for _ in range(k)])
    X = onp.vstack([inside(p6, c6, 1), p6[:3], (p6[c6[:3, 0]] + p6[c6[:3, 1]]) / 2, [p6.max(0) + 0.4], [p6.min(0) - [0.3, 0.1, 0.2]]])
    ck.do(transfer_values, p6, c6, X, "values on 6 tetrahedra")
    ck.do(transfer_values, p6, c6, X[[0, 4, 7, -1]], "clipped values on 6 tetrahedra", (-1.0, 2.0))
    ck.do(transfer_values, p6[c6[0]], onp.array([[0, 1, 2, 3]]), onp.vstack([[onp.ones(4) / 4 @ p6[c6[0]]], [p6.max(0) + 1.0]]), "values on one tetrahedron")
    P, C = graded()
    big = onp.argsort(-abs(onp.linalg.det(P[C[:, 1:]] - P[C[:, :1]])))
    Xg = onp.vstack([inside(P, C[big[:12]], 6), inside(P, C[big[12:]], 1)[:20]])
    for i in range(0, len(Xg), 24):
        ck.do(transfer_values, P, C, Xg[i:i + 24], f"values on a graded mesh, points {i}-")
    for o in (1, -1):
        ck.do(transfer_points, p6, c6, o)
    for n, q in ((1, 0), (2, 0), (3, 2)) if ck.tier == "quick" else ((1, 0), (2, 0), (3, 2), (5, 3)):
        ck.do(gradient, n, q)
    ck.do(sizes, False)
    ck.do(sizes, True)
    ck.do(periodic_box, (1.0, 0.6, 0.8), (0.0, 0.0, 0.0), 0.5)
    ck.do(periodic_box, (0.5, 0.5, 0.5), (-1.0, 2.0, 0.25), 0.3)
