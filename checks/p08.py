"""P08: periodic and cyclic constraint matrices span exactly the constrained fields."""
import itertools
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from feax.flat import pbc, unitcell
from .fem import *


def cell_of(et, n, lb, L, seed=5, distort=0.1):
    pts, cells = build(et, n, seed=seed, affine=False, distort=distort)
    pts = onp.asarray(lb) + pts * onp.asarray(L)

    class U(unitcell.UnitCell):
        def mesh_build(self, **kw):
            return fe.Mesh(pts, cells, et)
    return U(), pts


def classes(pts, lb, L):
    """class id of every node: nodes whose coordinates agree modulo the lattice"""
    f = (pts - lb) / L
    f = onp.where(onp.abs(f - 1) < 1e-7, 0.0, f)
    key, ids = {}, []
    for r in onp.round(f, 6) + 0.0:
        ids.append(key.setdefault(tuple(r), len(key)))
    return onp.array(ids), len(key)


def span(ck, name, P, cls, ncls, images):
    """range(P) is exactly {u : u = sum_c W[:, c] a_c}: images are relations, cls the dimension; W columns from oracle"""
    W = images
    N = W.shape[0]
    if tuple(P.shape) != (N, ncls):
        return ck.violate(name, {"shape": list(P.shape), "expected": [N, ncls]})
    D = onp.asarray(P.todense())
    G = onp.linalg.pinv(D)
    Wp = W @ onp.linalg.pinv(W)
    ctx, _ = new()
    r = ctx.array("r", (ncls,), lo=-1, hi=1)
    ck.forall(name + ": every reduced vector gives an admissible field", lambda r: P @ r, lambda r: Wp @ (P @ r), (r,), ctx, tol=1e-8)
    ctx, _ = new()
    a = ctx.array("a", (ncls,), lo=-1, hi=1)
    ck.forall(name + ": every admissible field is representable", lambda a: P @ (G @ (W @ a)), lambda a: W @ a, (a,), ctx, tol=1e-8)
    ctx, _ = new()
    v = ctx.array("v", (N,), lo=-1, hi=1)
    ck.forall(name + ": the transpose is the adjoint", lambda v, r: jnp.vdot(P.T @ v, r), lambda v, r: jnp.vdot(v, P @ r), (v, onp.linspace(-1, 1, ncls)), ctx, tol=1e-8)


def box(ck, name, et, n, vec, lb, L, order=0):
    d = dim_of(et)
    uc, pts = cell_of(et, n, lb, L)
    pairs = (pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=vec, dim=d)
    if order:
        pairs = [pairs[i] for i in onp.random.RandomState(order).permutation(len(pairs))]
    P = pbc.prolongation_matrix(pairs, uc.mesh, vec)
    ids, m = classes(pts, lb, L)
    W = onp.zeros((len(pts) * vec, m * vec))
    for i, c in enumerate(ids):
        for k in range(vec):
            W[i * vec + k, c * vec + k] = 1
    span(ck, name, P, None, m * vec, W)
    # unit entries: a constant reduced field is the same constant
    ctx, _ = new()
    s = ctx.array("s", (), lo=-1, hi=1)
    ck.forall(name + ": constants are preserved", lambda s: P @ (s * jnp.ones(P.shape[1])), lambda s: s * jnp.ones(P.shape[0]), (s,), ctx, tol=1e-9)


def onedir(ck, name, et, n, vec, lb, L, axis, comps):
    """user-defined pairing: one direction, some components only"""
    d = dim_of(et)
    uc, pts = cell_of(et, n, lb, L)
    mas, sla = uc.face_function(axis, lb[axis]), uc.face_function(axis, lb[axis] + L[axis])
    T = onp.zeros(d)
    T[axis] = L[axis]
    mp = {0: uc.mapping(mas, sla), 1: lambda p: p + T}
    pairs = [pbc.PeriodicPairing(mas, sla, mp[j % 2], c) for j, c in enumerate(comps)]
    P = pbc.prolongation_matrix(pairs, uc.mesh, vec)
    L2 = onp.full(d, 1e9)
    L2[axis] = L[axis]
    ids, m = classes_one(pts, lb, L, axis)
    cols, W = {}, []
    for i in range(len(pts)):
        for k in range(vec):
            W.append(cols.setdefault((ids[i] if k in comps else -1 - i, k), len(cols)))
    M = onp.zeros((len(W), len(cols)))
    M[onp.arange(len(W)), W] = 1
    span(ck, name, P, None, len(cols), M)


def classes_one(pts, lb, L, axis):
    f = onp.array(pts, float)
    f[:, axis] = onp.where(onp.abs(f[:, axis] - lb[axis] - L[axis]) < 1e-7, lb[axis], f[:, axis])
    key, ids = {}, []
    for r in onp.round(f, 7) + 0.0:
        ids.append(key.setdefault(tuple(r), len(key)))
    return onp.array(ids), len(key)


def strata(ck, name, et, n, lb, L):
    """for every point of every stratum of the box: the predicates classify it, and the pairings relate it to its image"""
    d = dim_of(et)
    lb, L = onp.asarray(lb, float), onp.asarray(L, float)
    uc, _ = cell_of(et, n, lb, L)
    pairs = (pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=1, dim=d)
    S = list(itertools.product((0, 1, 2), repeat=d))     # lower / upper / inside per axis

    def point(s, t):
        return jnp.stack([lb[i] + 0.0 * t[i] if s[i] == 0 else lb[i] + L[i] + 0.0 * t[i] if s[i] == 1 else lb[i] + L[i] * t[i] for i in range(d)])
    b2 = lambda xs: jnp.stack([jnp.asarray(x).astype(float) for x in xs])

    def cls(t):
        out = []
        for s in S:
            p = point(s, t)
            out += [uc.is_corner(p), uc.is_edge(p)] + ([uc.is_face(p)] if d == 3 else [])
            out += [uc.face_function(a, lb[a] + v * L[a])(p) for a in range(d) for v in (0, 1)]
        return b2(out)

    def cls_spec(t):
        out = []
        for s in S:
            h = sum(x != 2 for x in s)
            out += [h == d, h == d - 1] + ([h == d - 2] if d == 3 else [])
            out += [s[a] == v for a in range(d) for v in (0, 1)]
        return jnp.asarray(onp.array(out, float))
    ctx, _ = new()
    t = ctx.array("t", (d,), lo=0.02, hi=0.98)
    ck.forall(name + ": predicates", cls, cls_spec, (t,), ctx, tol=1e-9)

    side = lambda a, v: lb[a] + v * L[a]
    EX = ((False, False), (True, False), (False, True), (True, True))
    axs = list(itertools.combinations(range(d), d - 1))

    fns = [(uc.face_function(a, side(a, v), excluding_edge=e, excluding_corner=c), lambda s, a=a, v=v, e=e, c=c: s[a] == v and not (e and nh(s) >= d - 1) and not (c and nh(s) == d)) for a in range(d) for v in (0, 1) for e, c in EX]
    fns += [(uc.edge_function(ax, [side(a, v) for a, v in zip(ax, vs)], excluding_corner=c), lambda s, ax=ax, vs=vs, c=c: all(s[a] == v for a, v in zip(ax, vs)) and not (c and nh(s) == d)) for ax in axs for vs in itertools.product((0, 1), repeat=d - 1) for c in (False, True)]
    fns += [(uc.corner_function([side(a, v) for a, v in enumerate(vs)]), lambda s, vs=vs: s == vs) for vs in itertools.product((0, 1), repeat=d)]
    nh = lambda s: sum(x != 2 for x in s)
    sel = lambda t: b2([jax.vmap(g)(jnp.stack([point(s, t) for s in S])) for g, _ in fns])
    sel_spec = lambda t: jnp.asarray(onp.array([[w(s) for s in S] for _, w in fns], float))
    ctx, _ = new()
    t = ctx.array("t", (d,), lo=0.02, hi=0.98)
    ck.forall(name + ": face, edge and corner selectors", sel, sel_spec, (t,), ctx, tol=1e-9)
    onb = lambda q: sum((abs(q[a] - lb[a]) < 1e-7) or (abs(q[a] - lb[a] - L[a]) < 1e-7) for a in range(d))
    hits_ = onp.array([onb(q) for q in onp.asarray(uc.points)])
    masks = {"corner_mask": hits_ == d, "edge_mask": hits_ == d - 1, **({"face_mask": hits_ == 1} if d == 3 else {})}
    for k, w in masks.items():
        if hasattr(uc, k) and not onp.array_equal(onp.asarray(getattr(uc, k)), w):
            return ck.violate(name + ": " + k, {"points": onp.asarray(uc.points).tolist(), "mask": onp.asarray(getattr(uc, k)).tolist(), "expected": w.tolist()})
    cs = onp.asarray(uc.corners)
    if sorted(map(tuple, onp.round(cs, 9))) != sorted(map(tuple, onp.round(onp.array(list(itertools.product(*[(lb[a], lb[a] + L[a]) for a in range(d)]))), 9))):
        return ck.violate(name + ": corners", {"corners": cs.tolist()})

    f = lambda t: b2([jax.vmap(g)(jnp.stack([point(s, t) for s in S])) for k in pairs for g in (k.location_master, k.location_slave)]).T
    B = onp.asarray(f(jnp.full(d, 0.4321))).reshape(len(S), len(pairs), 2) > 0.5
    ctx, _ = new()
    t = ctx.array("t", (d,), lo=0.02, hi=0.98)
    ck.forall(name + ": pairing predicates", f, lambda t: jnp.asarray(B.astype(float).reshape(len(S), -1)), (t,), ctx, tol=1e-9)

    hits = [(i, k) for i in range(len(S)) for k in range(len(pairs)) if B[i, k, 0]]
    tr = lambda t: jnp.stack([pairs[k].mapping(point(S[i], t)) - point(S[i], t) for i, k in hits])
    V = onp.asarray(tr(jnp.full(d, 0.4321)))
    ctx, _ = new()
    t = ctx.array("t", (d,), lo=0.02, hi=0.98)
    want = onp.round(V / L) * L
    ck.forall(name + ": pairings translate by lattice vectors", tr, lambda t: jnp.asarray(want), (t,), ctx, tol=1e-7)
    # finite relation between strata
    master = {}
    for (i, k), v in zip(hits, V):
        s = list(S[i])
        for a in range(d):
            m = int(round(v[a] / L[a]))
            if m:
                if s[a] == 2 or s[a] + m not in (0, 1):
                    return ck.violate(name, {"pairing": k, "stratum": list(S[i]), "translation": v.tolist(), "why": "image is not a boundary point of the cell"})
                s[a] += m
        j = S.index(tuple(s))
        if not B[j, k, 1] or j == i or j in master:
            return ck.violate(name, {"pairing": k, "master stratum": list(S[i]), "slave stratum": s, "why": "image not selected as slave, or constrained twice"})
        master[j] = i
    for i, s in enumerate(S):
        group = [j for j, q in enumerate(S) if all((a == 2) == (b == 2) for a, b in zip(s, q))]
        free = [j for j in group if j not in master]
        if len(free) != 1 or any(master[j] != free[0] for j in group if j in master) or sum(B[i, :, 1]) != (i in master):
            return ck.violate(name, {"stratum": list(s), "unconstrained representatives": [list(S[j]) for j in free]})
    ck.harnesses.append({"name": name + ": strata relation", "verdict": "checked"})


def sector(n, ang, seed, r=(1.0, 2.0), z=0.5, flip=False):
    """quarter-ring style sector of HEX8 cells"""
    P, C = corner_cells("HEX8", n)
    rng = onp.random.RandomState(seed)
    perm = rng.permutation(len(P))
    P, C = P[perm], onp.argsort(perm)[C]
    rr, th = r[0] + P[:, 0] * (r[1] - r[0]), P[:, 1] * ang + 0.3
    return onp.stack([rr * onp.cos(th), rr * onp.sin(th), z * P[:, 2]], 1), C, P


def cyclic(ck, name, n, ang, vec, seed=3, R=None):
    pts, cells, ref = sector(n, ang, seed)
    mesh = fe.Mesh(pts, cells, "HEX8")
    c, s = onp.cos(ang), onp.sin(ang)
    Q = onp.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
    R = Q[:vec, :vec] if R is None else R
    nrm = lambda a: onp.array([-onp.sin(a), onp.cos(a), 0.0])
    pl = lambda a: (lambda p: jnp.abs(jnp.dot(jnp.asarray(nrm(a)), p)) < 1e-6)
    P = pbc.cyclic_prolongation_matrix(mesh, vec, pl(0.3), pl(0.3 + ang), R, lambda p: Q @ onp.asarray(p))
    key = {}
    N = len(pts)
    is_slave = onp.abs(ref[:, 1] - 1) < 1e-9
    free = onp.nonzero(~is_slave)[0]
    W = onp.zeros((N * vec, len(free) * vec))
    for j, i in enumerate(free):
        W[i * vec:(i + 1) * vec, j * vec:(j + 1) * vec] = onp.eye(vec)
        if abs(ref[i, 1]) < 1e-9:
            o = [k for k in range(N) if is_slave[k] and abs(ref[k, 0] - ref[i, 0]) + abs(ref[k, 2] - ref[i, 2]) < 1e-9][0]
            W[o * vec:(o + 1) * vec, j * vec:(j + 1) * vec] = R
    span(ck, name, P, None, len(free) * vec, W)


def run(ck):
    ck.fn("feax.flat.pbc.prolongation_matrix", "feax.flat.pbc.cyclic_prolongation_matrix", "feax.flat.pbc.periodic_bc_2D", "feax.flat.pbc.periodic_bc_3D",
          "feax.flat.unitcell.UnitCell.{is_corner,is_edge,is_face,face_function,edge_function,corner_function,mapping}")
    ck.bound("boxes up to 3x2 (2D) / 2x2x2 (3D) cells, anisotropic, off-origin, randomly renumbered, TRI3/QUAD4/QUAD8/HEX8/TET4, 1-3 components; every reduced vector / admissible field in [-1,1]; every point of each of the 9/27 strata of the box at fractional distance >= 0.02 from the other strata")
    ck.assumption("node pairing runs on the host with concrete coordinates (gallery); predicates, P and P^T are traced and decided for all values")
    Z2, Z3 = (0., 0.), (0., 0., 0.)
    ck.do(box, "2D unit square scalar", "QUAD4", (2, 2), 1, Z2, (1., 1.))
    ck.do(box, "2D anisotropic off-origin vector", "QUAD4", (3, 2), 2, (-0.7, 2.1), (1.5, 0.4))
    ck.do(box, "2D triangles", "TRI3", (2, 3), 2, (3., -1.), (0.5, 2.))
    ck.do(box, "2D quadratic", "QUAD8", (2, 1), 2, (0.5, 0.), (2., 1.))
    ck.do(box, "2D pairings in another order", "QUAD4", (2, 2), 2, (-1., -1.), (2., 2.), order=3)
    ck.do(box, "2D small fine cell", "QUAD4", (4, 3), 2, (0.01, -0.02), (0.02, 0.01))
    ck.do(box, "3D small fine cell", "HEX8", (3, 3, 3), 1, (-0.01, 0.02, 0.), (0.01, 0.02, 0.03))
    ck.do(box, "2D large cell", "QUAD4", (3, 3), 1, (-300., 20.), (400., 900.))
    ck.do(box, "3D unit cube scalar", "HEX8", (2, 2, 2), 1, Z3, (1., 1., 1.))
    ck.do(box, "3D anisotropic", "HEX8", (2, 2, 2), 3, Z3, (1., 2., 0.5))
    ck.do(box, "3D off-origin", "HEX8", (2, 2, 2), 2, (0.3, -1.2, 5.0), (1., 2., 0.5))
    ck.do(box, "3D tetrahedra centred", "TET4", (2, 2, 2), 3, (-0.5, -0.5, -0.5), (1., 1., 1.))
    ck.do(onedir, "one direction, all components", "QUAD4", (2, 3), 2, (-1., 0.5), (2., 1.), 0, (0, 1))
    ck.do(onedir, "one direction, one component", "QUAD4", (3, 2), 2, (0., 0.), (1., 1.), 1, (0,))
    ck.do(onedir, "one direction, last component", "HEX8", (2, 1, 2), 3, (0.4, 0., 0.), (1., 1., 2.), 2, (2, 0))
    ck.do(strata, "2D box", "QUAD4", (2, 2), (-0.7, 2.1), (1.5, 0.4))
    ck.do(strata, "3D box", "HEX8", (2, 2, 2), (0.3, -1.2, 5.0), (1., 2., 0.5))
    ck.do(strata, "3D unit box", "HEX8", (2, 2, 2), Z3, (1., 1., 1.))
    ck.do(cyclic, "sector 60 deg", (1, 2, 1), onp.pi / 3, 3)
    ck.do(cyclic, "sector 90 deg", (2, 2, 2), onp.pi / 2, 3, seed=8)
    ck.do(cyclic, "sector planar vector", (2, 1, 1), 0.7, 2, seed=9)
    ck.do(cyclic, "antisymmetric scalar", (1, 2, 2), 1.1, 1, seed=4, R=onp.array([[-1.0]]))
    if ck.tier != "quick":
        ck.do(box, "3D larger", "HEX8", (3, 2, 4), 3, (0.3, -1.2, 5.0), (1., 2., 0.5))
        ck.do(box, "2D larger", "TRI3", (6, 5), 2, (3., -1.), (0.5, 2.))
        ck.do(strata, "2D far box", "TRI3", (3, 2), (40., -3.), (3., 0.5))
        ck.do(cyclic, "larger sector", (3, 4, 2), 0.4, 3, seed=8)
