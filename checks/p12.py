"""P12: implicit grids, sparse designs and narrow bands address exactly the cells and nodes they claim."""
import itertools
import numpy as onp
import z3
import jax
import jax.numpy as jnp
import feax as fe
import feax.spgrid as SG
import feax.narrowband as NB
from symx import pyx
from symx.npx import numpy_on_terms, OArr, wrapa
from symx.pyx import eq, le, conj, Num, Flag, term, wrap
from .fem import *
from .p05 import quiet
from .p01 import mat

OFF = None


def offsets():
    """local corner order of feax's own HEX8 box mesh"""
    global OFF
    if OFF is None:
        m = quiet(fe.mesh.box_mesh, (1.0, 1.0, 1.0), mesh_size=1.0, element_type="HEX8") if True else None
        OFF = onp.rint(onp.asarray(m.points)[onp.asarray(m.cells)[0]]).astype(int)
    return OFF


def items(a):
    return [x for x in onp.asarray(a, object).ravel()]


def one(a):
    l = items(a)
    assert len(l) == 1
    return l[0].item() if isinstance(l[0], onp.generic) else l[0]


def member(q, l):
    if isinstance(q, Num) or any(isinstance(x, Num) for x in l):
        return wrap(z3.Or(*[term(int(x) if not isinstance(x, Num) else x) == term(q) for x in l])) if l else False
    return int(q) in [int(x) for x in l]


def iff(a, b):
    if isinstance(a, (bool, onp.bool_)) and isinstance(b, (bool, onp.bool_)):
        return bool(a) == bool(b)
    return wrap(term(bool(a) if not isinstance(a, Flag) else a) == term(bool(b) if not isinstance(b, Flag) else b))


def chebyshev(D, e, f, m):
    def ijk(x):
        return [x // (D[1] * D[2]), (x // D[2]) % D[1], x % D[2]]
    c = []
    for a, b in zip(ijk(e), ijk(f)):
        c += [a - b <= m, b - a <= m]
    return conj(*c)


def grid_ids(ck, D, h):
    off = offsets()
    V = {"e": "int", "f": "int", "i": "int", "j": "int", "k": "int", "ox": "real", "oy": "real", "oz": "real"}
    NC = D[0] * D[1] * D[2]

    def assume(v):
        return [v["e"] >= 0, v["e"] < NC, v["f"] >= 0, v["f"] < NC, v["i"] >= 0, v["i"] <= D[0], v["j"] >= 0, v["j"] <= D[1], v["k"] >= 0, v["k"] <= D[2]] + [x for o in ("ox", "oy", "oz") for x in (v[o] >= -5, v[o] <= 5)]

    def h_(v):
        g = fe.StructuredGrid(D, spacing=h)
        o = [v["ox"], v["oy"], v["oz"]]
        with numpy_on_terms(SG):
            g.origin, g.spacing = SG.onp.asarray(o), SG.onp.asarray(list(h))
            c = {"sizes": (g.num_cells, g.num_nodes) == (NC, (D[0] + 1) * (D[1] + 1) * (D[2] + 1))}
            x = [one(a) for a in g.cell_ijk([v["e"]])]
            c["cell index in range"] = conj(*[conj(0 <= a, a < d) for a, d in zip(x, D)])
            c["cell id of cell index"] = eq(one(g.cell_id(*x)), v["e"])
            inside = conj(v["i"] < D[0], v["j"] < D[1], v["k"] < D[2])
            cid = one(g.cell_id(v["i"], v["j"], v["k"]))
            y = [one(a) for a in g.cell_ijk([cid])]
            c["cell index of cell id"] = (~inside if isinstance(inside, Flag) else not inside) | conj(*[eq(a, b) for a, b in zip(y, (v["i"], v["j"], v["k"]))], cid >= 0, cid < NC)
            nid = one(g.node_id(v["i"], v["j"], v["k"]))
            c["node id in range"] = conj(nid >= 0, nid < g.num_nodes)
            p = items(g.node_coords([nid]))
            c["node coordinates"] = conj(*[eq(a, b + s * q) for a, b, s, q in zip(p, o, h, (v["i"], v["j"], v["k"]))])
            nodes = items(g.cell_to_nodes([v["e"]]))
            c["eight corners"] = len(nodes) == 8
            for a in range(8):
                q = items(g.node_coords([nodes[a]]))
                c[f"corner {a}"] = conj(nodes[a] >= 0, nodes[a] < g.num_nodes, *[eq(q[d], o[d] + (x[d] + int(off[a, d])) * h[d]) for d in range(3)])
            ce = items(g.cell_centroids([v["e"]]))
            c["centroid"] = conj(*[eq(ce[d], o[d] + (x[d] + 0.5) * h[d]) for d in range(3)])
        return c
    pyx.check(ck, f"grid addressing {D}", V, h_, assume)


def dilation(ck, D, m, seeds=1, only=None):
    NC = D[0] * D[1] * D[2]
    V = {"f": "int", **{f"e{i}": "int" for i in range(seeds)}}

    def h(v):
        g = fe.StructuredGrid(D)
        es = [v[f"e{i}"] for i in range(seeds)]
        with numpy_on_terms(SG):
            r = items(g.dilate_cells(es, m))
        c = {"membership": iff(member(v["f"], r), functools_or([chebyshev(D, e, v["f"], m) for e in es]))}
        if not any(isinstance(x, Num) for x in r):
            c["each cell once"] = len(set(map(int, r))) == len(r)
        else:
            c["each cell once"] = wrap(z3.Distinct(*[term(x) for x in r])) if len(r) > 1 else True
        return c
    pyx.check(ck, f"dilation {D} margin {m} seeds {seeds}", V, h, lambda v: [c for x in v.values() for c in (x >= 0, x < NC)] + ([wrap(z3.Or(*[term(v["e0"]) == q for q in only]))] if only else []), max_paths=4000, max_decisions=4000)


def functools_or(l):
    r = l[0]
    for x in l[1:]:
        r = r | x
    return r


def points(ck, D, h):
    V = {"x": "real", "y": "real", "z": "real", "ox": "real", "oy": "real", "oz": "real"}

    def H(v):
        g = fe.StructuredGrid(D, spacing=h)
        p, o = [v["x"], v["y"], v["z"]], [v["ox"], v["oy"], v["oz"]]
        with numpy_on_terms(SG):
            g.origin, g.spacing = SG.onp.asarray(o), SG.onp.asarray(list(h))
            r = one(g.point_cells([p]))
            vox = items(g.voxelize([p]))
        m = 1e-7
        inn = conj(*[conj(p[d] - o[d] >= m, p[d] - o[d] <= D[d] * h[d] - m) for d in range(3)])
        out = functools_or([(p[d] - o[d] <= -m) | (p[d] - o[d] >= D[d] * h[d] + m) for d in range(3)])
        neg = lambda b: ~b if isinstance(b, Flag) else not b
        c = {"outside is -1": neg(out) | (r == -1), "inside has a cell": neg(inn) | ((r >= 0) & (r < D[0] * D[1] * D[2]))}
        q = [r // (D[1] * D[2]), (r // D[2]) % D[1], r % D[2]]
        c["the cell contains the point"] = (r == -1) | conj(*[conj(p[d] - o[d] >= q[d] * h[d] - m, p[d] - o[d] <= (q[d] + 1) * h[d] + m) for d in range(3)])
        c["voxelize marks it"] = iff(len(vox) == 1, neg(r == -1)) if len(vox) < 2 else False
        if vox:
            c["voxelized cell"] = eq(vox[0], r)
        return c
    pyx.check(ck, f"points to cells {D}", V, H, lambda v: [c for x in v.values() for c in (x >= -6, x <= 6)])


def where(ck, D):
    def N(v):
        g = fe.StructuredGrid(D, spacing=(0.5, 1.0, 2.0), origin=(-0.2, 0.1, 0.0))
        with numpy_on_terms(SG):
            n = g.nodes_where(lambda i, j, k: (i + 4 * j + 16 * k) == v["n"])
        nod = [int(x) for x in items(n)]
        r = {}
        nid = 0
        for i in range(D[0] + 1):
            for j in range(D[1] + 1):
                for k in range(D[2] + 1):
                    r[f"node {i, j, k}"] = iff(nod.count(nid) == 1, v["n"] == i + 4 * j + 16 * k) if nod.count(nid) < 2 else False
                    nid += 1
        return r
    pyx.check(ck, f"selection of nodes {D}", {"n": "int"}, N, lambda v: [v["n"] >= -1, v["n"] <= 70])

    def H(v):
        g = fe.StructuredGrid(D, spacing=(0.5, 1.0, 2.0), origin=(-0.2, 0.1, 0.0))
        with numpy_on_terms(SG):
            c = g.cells_where(lambda q: q[:, 0] + 0.3 * q[:, 1] < v["a"])
        got = [int(x) for x in items(c)]
        r = {}
        cid = 0
        for i in range(D[0]):
            for j in range(D[1]):
                for k in range(D[2]):
                    s = (-0.2 + 0.5 * (i + 0.5)) + 0.3 * (0.1 + j + 0.5)
                    if cid in got:
                        r[f"cell {cid} selected"] = v["a"] >= s - 1e-9
                    else:
                        r[f"cell {cid} not selected"] = v["a"] <= s + 1e-9
                    cid += 1
        r["once"] = len(set(got)) == len(got)
        return r
    pyx.check(ck, f"selection of cells {D}", {"a": "real"}, H, lambda v: [v["a"] >= -3, v["a"] <= 3])


def fit_more(ck):
    """fit with an origin of the caller's: the grid starts there and covers the points with the padding; fit with dims: exactly the bounding box (more with align)"""
    V = {"lo": "real", "hi": "real", "h": "real", "o": "real"}
    P = lambda v: [[v["lo"], 0.0, 0.0], [v["hi"], 1.0, 0.5]] if pyx.ENG is not None else onp.array([[v["lo"], 0.0, 0.0], [v["hi"], 1.0, 0.5]])
    for pad in (0, 1):
        def H(v):
            with numpy_on_terms(SG):
                g = fe.StructuredGrid.fit(P(v), h=[v["h"], 0.5, 0.25], pad_cells=pad, origin=[v["o"], -0.5, 0.0])
                o, s = items(g.origin), items(g.spacing)
            c = {"spacing kept": eq(s[0], v["h"]), "origin kept": conj(eq(o[0], v["o"]), eq(o[1], -0.5), eq(o[2], 0.0))}
            c["padding above"] = le(v["hi"] + pad * v["h"], v["o"] + g.nx * v["h"])
            c["not more than needed"] = le(v["o"] + (g.nx - 1) * v["h"], v["hi"] + pad * v["h"]) if g.nx > 1 else True
            c["other axes"] = (g.ny, g.nz) == (3 + pad, 2 + pad)
            return c
        pyx.check(ck, f"fit with origin, pad={pad}", V, H, lambda v: [v["lo"] >= -1, v["lo"] <= 1, v["hi"] >= v["lo"], v["o"] <= v["lo"], v["hi"] - v["o"] <= 4 * v["h"], v["h"] >= 0.01, v["h"] <= 3])
    for dims, align in (((3, 2, 4), None), ((3, 2, 1), 4)):
        def H(v):
            with numpy_on_terms(SG):
                g = fe.StructuredGrid.fit(P(v), dims=dims, align=align)
                o, s = items(g.origin), items(g.spacing)
            want = [d if not align else -(-d // align) * align for d in dims]
            c = {"cells": (g.nx, g.ny, g.nz) == tuple(want)}
            for i, (l, u) in enumerate(((v["lo"], v["hi"]), (0.0, 1.0), (0.0, 0.5))):
                c[f"starts at the points, axis {i}"] = eq(o[i], l)
                c[f"covers the points in dims cells, axis {i}"] = eq(o[i] + dims[i] * s[i], u)
            return c
        pyx.check(ck, f"fit dims={dims} align={align}", V, H, lambda v: [v["lo"] >= -1, v["lo"] <= 1, v["hi"] >= v["lo"] + 0.01, v["hi"] <= 3, v["o"] == 0, v["h"] == 1])


def grid_mesh(ck, D):
    """explicit mesh of a grid: same cells at the same places, no unused or duplicated nodes"""
    g = fe.StructuredGrid(D, spacing=(0.5, 1.0, 2.0), origin=(-0.2, 0.1, 0.0))
    C = D[0] * D[1] * D[2]
    V = {f"a{i}": "int" for i in range(C)}

    def H(v):
        sel = [i for i in range(C) if v[f"a{i}"] > 0]
        m = g.to_mesh(onp.array(sel, int))
        p, c = onp.asarray(m.points), onp.asarray(m.cells)
        full = explicit(g)
        return {"cells": c.shape == (len(sel), 8) and bool(onp.allclose(p[c], full[0][full[1][sel]])), "nodes": len(p) == len(set(full[1][sel].ravel().tolist())),
                "type": m.ele_type == "HEX8", "all": len(sel) < C or onp.array_equal(onp.asarray(g.to_mesh().cells), c)}
    pyx.check(ck, f"grid mesh {D}", V, H, lambda v: [c for x in v.values() for c in (x >= 0, x <= 1)], max_paths=600)


def design_band(ck, D, margin, keep):
    """cells of the band of a design: all within `margin` of a cell above the threshold, and the kept ones; values handed over in that order"""
    ids = [0, 3, 5]
    C = D[0] * D[1] * D[2]
    V = {**{f"v{i}": "real" for i in range(3)}, "t": "real", "d": "real"}

    def H(v):
        g = fe.StructuredGrid(D)
        with numpy_on_terms(SG):
            s = fe.SparseDesign(ids, [v["v0"], v["v1"], v["v2"]])
            band = [int(x) for x in items(s.band_cells(g, v["t"], margin=margin, keep_ids=keep))]
            u = fe.SparseDesign.uniform([4, 1], 0.25)
            gu = [one(u.gather([q], v["d"])) for q in (1, 4, 2)]
            e = one(fe.SparseDesign([], []).gather([2], v["d"]))
        c = {"once": len(set(band)) == len(band)}
        for q in range(C):
            near = [i for i, k in enumerate(ids) if chebyshev(D, q, k, margin)]
            want = functools_or([v[f"v{i}"] > v["t"] for i in near]) if near else False
            c[f"cell {q}"] = iff(q in band, True if keep is not None and q in keep else want)
        c["uniform"] = conj(eq(gu[0], 0.25), eq(gu[1], 0.25), eq(gu[2], v["d"]))
        c["empty"] = eq(e, v["d"])
        return c
    pyx.check(ck, f"band of a design {D} margin {margin} keep {keep}", V, H, lambda v: [v["t"] >= 0] + [c for x in v.values() for c in (x >= -5, x <= 5)])


def band_params(ck, kind, active):
    """volume parameters (per cell and per node, scalar and vector) restricted to a band and put back"""
    dom = domain(kind)
    pts, cells = explicit(dom)
    N, C = len(pts), len(cells)
    b = fe.NarrowBand(dom, active)
    nm = onp.asarray(b.node_map)
    ctx, _ = new()
    a = [ctx.array("c", (C,)), ctx.array("cv", (C, 2)), ctx.array("n", (N,)), ctx.array("nv", (N, 2))]
    w = [ctx.array("bc", (len(active),)), ctx.array("bv", (len(active), 2)), ctx.array("bn", (len(nm),)), ctx.array("f", ())]
    flat = lambda l: jnp.concatenate([jnp.ravel(x) for x in l])

    def impl(*v):
        t = b.gather_params(fe.TracedParams(volume_vars=tuple(v)))
        return flat(t.volume_vars)
    ck.forall(f"gathered parameters, {kind} {list(active)}", impl, lambda c, cv, n, nv: flat([c[active], cv[active], n[nm], nv[nm]]), tuple(a), ctx)

    def back(c, cv, n, f):
        return flat(b.scatter_params(fe.TracedParams(volume_vars=(c, cv, n)), fill=f).volume_vars)
    ck.forall(f"scattered parameters, {kind} {list(active)}", back, lambda c, cv, n, f: flat([jnp.full((C,), f).at[active].set(c), jnp.full((C, 2), f).at[active].set(cv), jnp.full((N,), f).at[nm].set(n)]), tuple(w), ctx)


def fit(ck):
    """a fitted grid with a cell size contains every point with the padding; alignment only adds cells"""
    V = {"lo": "real", "hi": "real", "h": "real"}
    for pad, align in ((0, None), (1, None), (2, 4)):
        def H(v):
            x = [v["lo"], v["hi"]]
            with numpy_on_terms(SG):
                NPo = SG.onp
                if pyx.ENG is not None:
                    g = fe.StructuredGrid.fit([[x[0], 0.0, 0.0], [x[1], 1.0, 0.5]], h=[v["h"], 0.5, 0.25], pad_cells=pad, align=align)
                else:
                    g = fe.StructuredGrid.fit(onp.array([[x[0], 0.0, 0.0], [x[1], 1.0, 0.5]]), h=[v["h"], 0.5, 0.25], pad_cells=pad, align=align)
                o, s = items(g.origin), items(g.spacing)
            n = g.nx
            c = {"spacing kept": eq(s[0], v["h"]) & eq(s[1], 0.5) & eq(s[2], 0.25)}
            c["padding below"] = eq(o[0], x[0] - pad * v["h"])
            c["padding above"] = le(x[1] + pad * v["h"], o[0] + n * v["h"])
            if align:
                c["aligned"] = n % align == 0 and g.ny % align == 0 and g.nz % align == 0
                c["not more than needed"] = le(o[0] + (n - align) * v["h"], x[1] + pad * v["h"] + v["h"])
            else:
                c["not more than needed"] = le(o[0] + (n - 1) * v["h"], x[1] + pad * v["h"]) if n > 1 else True
            return c
        pyx.check(ck, f"fit pad={pad} align={align}", V, H, lambda v: [v["lo"] >= -1, v["lo"] <= 1, v["hi"] >= v["lo"], v["hi"] - v["lo"] <= 4 * v["h"], v["h"] >= 0.01, v["h"] <= 3])


def sparse(ck, big):
    """gather returns the stored value exactly for stored ids, the default otherwise; update: new overwrites old"""
    ids = [7, 2, 5] if not big else [2 ** 31 - 1, 3, 0]
    V = {"q": "int", "d": "real", "t": "real", **{f"v{i}": "real" for i in range(3)}}

    def H(v):
        with numpy_on_terms(SG):
            s = fe.SparseDesign(ids, [v["v0"], v["v1"], v["v2"]])
            g = one(s.gather([v["q"]], v["d"]))
            act = [int(x) for x in items(s.active_ids(v["t"]))]
        c = {}
        for i, k in enumerate(ids):
            c[f"stored {k}"] = (v["q"] != k) | eq(g, v[f"v{i}"])
            c[f"active {k}"] = iff(act.count(k) == 1, v[f"v{i}"] > v["t"])
        c["not stored"] = functools_or([v["q"] == k for k in ids]) | eq(g, v["d"])
        c["only stored"] = set(act) <= set(ids)
        return c
    pyx.check(ck, f"sparse design lookup {'(large ids)' if big else ''}", V, H, lambda v: [v["q"] >= -(2 ** 33), v["q"] <= 2 ** 33] + [c for k in ("d", "t", "v0", "v1", "v2") for c in (v[k] >= -5, v[k] <= 5)])


def update(ck):
    V = {"a": "int", "b": "int", "c": "int", "d": "int", "q": "int", **{f"v{i}": "real" for i in range(4)}, "z": "real"}

    def H(v):
        with numpy_on_terms(SG):
            s = fe.SparseDesign([v["a"], v["b"]], [v["v0"], v["v1"]])
            s2 = s.update([v["c"], v["d"]], [v["v2"], v["v3"]])
            s3 = s.updated([v["c"], v["d"]], [v["v2"], v["v3"]])
            g = [one(x.gather([v["q"]], v["z"])) for x in (s2, s3, s)]
        q = v["q"]
        hit = {k: q == v[k] for k in "abcd"}
        no = lambda k: ~hit[k] if isinstance(hit[k], Flag) else not hit[k]
        r = {}
        for nm, got in (("update", g[0]), ("updated", g[1])):
            r[f"{nm}: new value c"] = no("c") | eq(got, v["v2"])
            r[f"{nm}: new value d"] = no("d") | eq(got, v["v3"])
            r[f"{nm}: old value a"] = hit["c"] | hit["d"] | no("a") | eq(got, v["v0"])
            r[f"{nm}: old value b"] = hit["c"] | hit["d"] | no("b") | eq(got, v["v1"])
            r[f"{nm}: default"] = hit["a"] | hit["b"] | hit["c"] | hit["d"] | eq(got, v["z"])
        r["original unchanged"] = no("a") | eq(g[2], v["v0"])
        return r
    pyx.check(ck, "sparse design update", V, H, lambda v: [c for k in "abcdq" for c in (v[k] >= 0, v[k] <= 9)] + [v["a"] != v["b"], v["c"] != v["d"]] + [c for k in ("v0", "v1", "v2", "v3", "z") for c in (v[k] >= -5, v[k] <= 5)], max_paths=4000)


def domain(kind):
    if kind == "grid":
        return fe.StructuredGrid((3, 2, 2), spacing=(0.5, 1.0, 0.7), origin=(0.1, -0.2, 0.3))
    et, n = {"quad": ("QUAD4", (3, 2)), "tet": ("TET4", (1, 1, 1)), "hex": ("HEX8", (2, 2, 1)), "strip": ("QUAD4", (4, 1)), "tri": ("TRI3", (3, 1)), "one": ("QUAD4", (1, 1))}[kind]
    pts, cells = build(et, n, seed=5)
    return fe.Mesh(pts, cells, et)


def explicit(dom):
    if isinstance(dom, fe.StructuredGrid):
        NC = dom.num_cells
        return dom.node_coords(onp.arange(dom.num_nodes)), dom.cell_to_nodes(onp.arange(NC))
    return onp.asarray(dom.points), onp.asarray(dom.cells)


def band_maps(ck, kind, active, vec):
    dom = domain(kind)
    pts, cells = explicit(dom)
    N, C = len(pts), len(cells)
    b = fe.NarrowBand(dom, active)
    sub_p, sub_c = onp.asarray(b.mesh.points), onp.asarray(b.mesh.cells)
    used = sorted(set(cells[active].ravel().tolist()))
    ok = (onp.array_equal(onp.asarray(b.active_cells), active) and sorted(onp.asarray(b.node_map).tolist()) == used
          and len(sub_p) == len(used) and onp.allclose(sub_p[sub_c], pts[cells[active]]) and onp.allclose(sub_p, pts[onp.asarray(b.node_map)])
          and (b.num_full_cells, b.num_full_nodes, b.num_active_cells, b.num_band_nodes) == (C, N, len(active), len(used)))
    if not ok:
        return ck.violate(f"band mesh {kind} {active}", {"active": list(active), "node_map": onp.asarray(b.node_map).tolist()})
    V = {**{f"c{i}": "real" for i in range(C)}, **{f"b{i}": "real" for i in range(len(active))}, "fill": "real",
         **{f"u{i}": "real" for i in range(N * vec)}, **{f"s{i}": "real" for i in range(len(used) * vec)}}

    def H(v):
        arr = (lambda l: wrapa(onp.array(l + [None], object)[:-1])) if pyx.ENG is not None else onp.array
        f, w = arr([v[f"c{i}"] for i in range(C)]), arr([v[f"b{i}"] for i in range(len(active))])
        u, s = arr([v[f"u{i}"] for i in range(N * vec)]), arr([v[f"s{i}"] for i in range(len(used) * vec)])
        with numpy_on_terms(NB):
            gc, sc, gs, ss = items(b.gather_cells(f)), items(b.scatter_cells(w, fill=v["fill"])), items(b.gather_sol(u, vec)), items(b.scatter_sol(s, vec))
        nm = onp.asarray(b.node_map)
        c = {"sizes": (len(gc), len(sc), len(gs), len(ss)) == (len(active), C, len(used) * vec, N * vec)}
        c["gather cells"] = conj(*[eq(gc[i], f[int(a)]) for i, a in enumerate(active)])
        c["scatter cells"] = conj(*[eq(sc[i], w[list(active).index(i)] if i in active else v["fill"]) for i in range(C)])
        c["gather solution"] = conj(*[eq(gs[i * vec + k], u[int(n) * vec + k]) for i, n in enumerate(nm) for k in range(vec)])
        c["scatter solution"] = conj(*[eq(ss[n * vec + k], s[nm.tolist().index(n) * vec + k] if n in nm else 0.0) for n in range(N) for k in range(vec)])
        return c
    pyx.check(ck, f"band maps {kind} {list(active)}", V, H, lambda v: [c for x in v.values() for c in (x >= -5, x <= 5)])


def band_residual(ck, kind, active):
    """residual on the band with gathered parameters = residual of the full domain with the other cells switched off"""
    dom = domain(kind)
    pts, cells = explicit(dom)
    et = dom.ele_type
    d = dim_of(et)
    b = fe.NarrowBand(dom, active)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k, r: k * (g @ mat(d)) * (1 + r)

        def get_mass_map(self):
            return lambda u, x, k, r: k * (u * u - r * x[0])
    full = P(fe.Mesh(pts, cells, et), vec=2, dim=d, ele_type=et)
    sub = P(b.mesh, vec=2, dim=d, ele_type=et)
    ctx, _ = new()
    on = onp.zeros(len(cells))
    on[active] = 1.0
    u, k, r = ctx.array("u", (len(pts), 2)), ctx.array("k", (len(cells),), 0.5, 2.0), ctx.array("r", (len(pts),))
    nm = onp.asarray(b.node_map)

    def impl(u, k, r):
        tp = b.gather_params(TP((k, r)))
        R = fe.get_res(sub, [u[nm]], tp)[0]
        back = b.scatter_params(tp, fill=7.0)
        return [jnp.zeros((len(pts), 2)).at[nm].set(R), back.volume_vars[0], back.volume_vars[1]]

    def spec(u, k, r):
        m = onp.isin(onp.arange(len(pts)), nm)
        return [fe.get_res(full, [u], TP((k * on, r)))[0], jnp.where(on > 0, k, 7.0), jnp.where(m, r, 7.0)]
    ck.forall(f"band residual and parameters {kind} {list(active)}", impl, spec, (u, k, r), ctx)


def adjacency(cells):
    s = [set(c) for c in cells.tolist()]
    return [[j for j in range(len(s)) if s[i] & s[j]] for i in range(len(s))]


def from_field(ck, kind, margin, cell_field, keep=None):
    dom = domain(kind)
    pts, cells = explicit(dom)
    n = len(cells) if cell_field else len(pts)
    adj = adjacency(cells)
    free = list(range(n)) if n <= 8 else list(range(0, n, 2))
    V = {"t": "real", **{f"f{i}": "real" for i in free}}

    def H(v):
        f = [v.get(f"f{i}", -9.0) for i in range(n)]
        got = NB_from(dom, f, v["t"], margin, keep, cell_field)
        c = {}
        for j in range(len(cells)):
            ring = {j}
            for _ in range(margin):
                ring = {b for a in ring for b in adj[a]}
            seeds = [f[a] > v["t"] for a in ring] if cell_field else [f[q] > v["t"] for a in ring for q in cells[a]]
            w = functools_or(seeds)
            if keep is not None and j in keep:
                w = True
            c[f"cell {j}"] = iff(j in got, w)
        c["each once, ascending"] = got == sorted(set(got))
        return c
    pyx.check(ck, f"band from field {kind} margin={margin} {'cells' if cell_field else 'nodes'} keep={keep}", V, H, lambda v: [c for x in v.values() for c in (x >= -5, x <= 5)], max_paths=4000)


def NB_from(dom, f, t, margin, keep, cell_field):
    if pyx.ENG is None:
        return [int(x) for x in fe.NarrowBand.from_field(dom, onp.array(f), t, margin=margin, keep_cells=keep, cell_field=cell_field).active_cells]
    arr = wrapa(onp.array(f + [None], object)[:-1])
    M = NB.Mesh
    with numpy_on_terms(NB):
        NB.Mesh = lambda p, c, ele_type: None
        try:
            b = fe.NarrowBand.from_field(dom, arr, t, margin=margin, keep_cells=keep, cell_field=cell_field)
        finally:
            NB.Mesh = M
        return [int(x) for x in items(b.active_cells)]


def superset(ck, kind, margin, guard):
    """reuse is allowed exactly when the guarded active set lies in the superset, whatever the history"""
    dom = domain(kind)
    _, cells = explicit(dom)
    C, adj = len(cells), adjacency(cells)
    V = {f"{s}{i}": "int" for s in "abc" for i in range(C)}

    def dil(S, m):
        for _ in range(m):
            S = {b for a in S for b in adj[a]}
        return S

    def H(v):
        mgr = fe.SupersetBand(dom, margin=margin, guard=guard)
        c = {"nothing extracted yet": bool(mgr.needs_reextract(onp.array([0])))}
        A, B, E = ([i for i in range(C) if v[f"{s}{i}"] > 0] for s in "abc")
        band = mgr.reextract(onp.array(A, int))
        c["superset"] = sorted(int(x) for x in band.active_cells) == sorted(dil(set(A), margin))
        c["needs"] = bool(mgr.needs_reextract(onp.array(B, int))) == (not dil(set(B), guard) <= dil(set(A), margin))
        if mgr.needs_reextract(onp.array(B, int)):
            mgr.reextract(onp.array(B, int))
            A = B
        c["needs, later"] = bool(mgr.needs_reextract(onp.array(E, int))) == (not dil(set(E), guard) <= dil(set(A), margin))
        if not c["needs, later"] or True:
            f = onp.arange(C) + 0.5
            r = onp.asarray(mgr.map_cells(f))
            c["map"] = r.tolist() == (onp.asarray(mgr.band.active_cells) + 0.5).tolist()
            c["scatter"] = onp.asarray(mgr.scatter_cells(r, fill=-1.0)).tolist() == [i + 0.5 if i in dil(set(A), margin) else -1.0 for i in range(C)]
        return c

    def assume(v):
        r = [c for x in v.values() for c in (x >= 0, x <= 1)]
        for s in "abc":
            r.append(functools_or([v[f"{s}{i}"] > 0 for i in range(C)]))
            if s == "c":      # the third active set is an interval start: keeps the path count moderate
                r += [v[f"c{i}"] == 0 for i in range(2, C)]
        return r
    pyx.check(ck, f"superset band {kind} margin={margin} guard={guard}", V, H, assume, max_paths=6000)


def run(ck):
    ck.fn("feax.spgrid.StructuredGrid", "feax.spgrid.SparseDesign", "feax.narrowband.NarrowBand", "feax.narrowband.SupersetBand")
    ck.bound("grids up to 7 cells per axis (plus one of 2^20-cell axes) with symbolic cell/node ids, points, origins and seeds; sparse designs of 2-4 entries with symbolic ids, values and queries in [-2^33, 2^33]; bands on meshes of up to 12 cells with symbolic cell/node fields and thresholds; three-step superset histories on strips of 4 cells")
    full = ck.tier != "quick"
    for D in ((3, 2, 4), (2, 5, 3), (1, 1, 7), (900, 1300, 1100)):
        ck.do(grid_ids, D, (0.5, 2.0, 0.25))
    ck.do(dilation, (3, 2, 4), 1)
    ck.do(dilation, (1, 4, 3), 2)
    ck.do(dilation, (3, 3, 3), 2, 1, (0, 13, 20, 26))
    ck.do(dilation, (2, 2, 2), 0, 2)
    ck.do(dilation, (3, 1, 2), 1, 2)
    ck.do(points, (3, 2, 4), (0.5, 2.0, 0.25))
    ck.do(points, (1, 5, 2), (1.0, 0.5, 1.5))
    ck.do(where, (2, 1, 2))
    ck.do(where, (1, 2, 3))
    ck.do(where, (2, 2, 1))
    ck.do(fit)
    ck.do(fit_more)
    ck.do(grid_mesh, (2, 1, 3))
    ck.do(grid_mesh, (1, 2, 2))
    ck.do(design_band, (2, 1, 3), 1, None)
    ck.do(design_band, (1, 3, 2), 0, [1, 5])
    ck.do(design_band, (1, 2, 4), 1, [7])
    ck.do(band_params, "quad", onp.array([4, 1]))
    ck.do(band_params, "grid", onp.array([2, 3, 7]))
    ck.do(sparse, False)
    ck.do(sparse, True)
    ck.do(update)
    for kind, act, vec in (("quad", [1, 4, 2], 1), ("quad", [3], 2), ("tet", [5, 0, 2], 3), ("grid", [1, 10, 4], 3), ("hex", [0, 1, 2, 3], 1), ("one", [0], 2)):
        ck.do(band_maps, kind, onp.array(act), vec)
    for kind, act in (("quad", [1, 4, 2]), ("tet", [5, 0]), ("grid", [1, 10, 4]), ("tri", [0, 4])):
        ck.do(band_residual, kind, onp.array(act))
    ck.do(from_field, "quad", 0, True)
    ck.do(from_field, "quad", 1, True, [5])
    ck.do(from_field, "strip", 1, False)
    ck.do(from_field, "strip", 2, True, [0])
    ck.do(superset, "strip", 1, 1)
    ck.do(superset, "strip", 2, 1)
    ck.do(superset, "strip", 2, 2)
    if full:
        ck.do(dilation, (3, 1, 3), 1, 2)
        ck.do(dilation, (2, 3, 4), 2)
        ck.do(from_field, "hex", 1, True)
        ck.do(superset, "strip", 1, 0)
