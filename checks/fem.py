"""Shared gallery: small meshes of every element type, and an independent finite-element oracle.

The oracle knows only the published node numbering (meshio/VTK) of each element type: it builds the nodal
basis by inverting a Vandermonde matrix on the reference nodes and integrates with its own Gauss rules.
"""
import itertools
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from symx.poly import Ctx, SA
from symx.interp import Interp

# ---- reference nodes (meshio order) and polynomial spaces --------------------------------------
def _mid(c, edges):
    return onp.array(list(c) + [(c[a] + c[b]) / 2 for a, b in edges])


_TRI = onp.array([[0., 0.], [1., 0.], [0., 1.]])
_QUAD = onp.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]])
_TET = onp.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])
_HEX = onp.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.], [0., 0., 1.], [1., 0., 1.], [1., 1., 1.], [0., 1., 1.]])
_QE = [(0, 1), (1, 2), (2, 3), (3, 0)]
_HE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]


def _pspace(dim, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=dim) if sum(e) <= deg]


def _qspace(dim, deg):
    return list(itertools.product(range(deg + 1), repeat=dim))


def _serendipity(dim):   # superlinear degree <= 2
    return [e for e in itertools.product(range(3), repeat=dim) if sum(k for k in e if k > 1) <= 2]


REF = {
    "TRI3": (_TRI, _pspace(2, 1), "s"), "TRI6": (_mid(_TRI, [(0, 1), (1, 2), (2, 0)]), _pspace(2, 2), "s"),
    "QUAD4": (_QUAD, _qspace(2, 1), "c"), "QUAD8": (_mid(_QUAD, _QE), _serendipity(2), "c"),
    "QUAD9": (onp.vstack([_mid(_QUAD, _QE), [[.5, .5]]]), _qspace(2, 2), "c"),
    "TET4": (_TET, _pspace(3, 1), "s"),
    "TET10": (_mid(_TET, [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]), _pspace(3, 2), "s"),
    "HEX8": (_HEX, _qspace(3, 1), "c"), "HEX20": (_mid(_HEX, _HE), _serendipity(3), "c"),
}
CORNERS = {"TRI3": 3, "TRI6": 3, "QUAD4": 4, "QUAD8": 4, "QUAD9": 4, "TET4": 4, "TET10": 4, "HEX8": 8, "HEX20": 8}
FACES = {   # corner sets of the faces, by local corner number
    "s2": [(0, 1), (1, 2), (2, 0)], "c2": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "s3": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)],
    "c3": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
}


def dim_of(et):
    return REF[et][0].shape[1]


def basis(et):
    """coefficients C with N_a(xi) = sum_k C[k, a] xi^e_k"""
    X, sp, _ = REF[et]
    V = onp.array([[onp.prod([x[d] ** e[d] for d in range(len(e))]) for e in sp] for x in X])
    assert V.shape[0] == V.shape[1], (et, V.shape)
    return sp, onp.linalg.inv(V)


def tab(et, xi):
    sp, C = basis(et)
    d = xi.shape[1]
    M = onp.array([[onp.prod([x[k] ** e[k] for k in range(d)]) for e in sp] for x in xi])
    N = M @ C
    G = onp.zeros(N.shape + (d,))
    H = onp.zeros(N.shape + (d, d))

    def dm(x, e, ds):
        e = list(e)
        c = 1.0
        for k in ds:
            c *= e[k]
            if e[k] == 0:
                return 0.0
            e[k] -= 1
        return c * onp.prod([x[k] ** e[k] for k in range(d)])
    for k in range(d):
        G[:, :, k] = onp.array([[dm(x, e, [k]) for e in sp] for x in xi]) @ C
        for l in range(d):
            H[:, :, k, l] = onp.array([[dm(x, e, [k, l]) for e in sp] for x in xi]) @ C
    return N, G, H


def gauss(kind, dim, n=4):
    p, w = onp.polynomial.legendre.leggauss(n)
    p, w = (p + 1) / 2, w / 2
    if kind == "c":
        X = onp.array(list(itertools.product(p, repeat=dim))).reshape(-1, dim)
        W = onp.array([onp.prod(t) for t in itertools.product(w, repeat=dim)])
        return X, W
    if dim == 1:
        return p[:, None], w
    if dim == 2:
        X = onp.array([[a, b * (1 - a)] for a in p for b in p])
        W = onp.array([wa * wb * (1 - a) for a, wa in zip(p, w) for wb in w])
        return X, W
    X = onp.array([[a, b * (1 - a), c * (1 - a) * (1 - b)] for a in p for b in p for c in p])
    W = onp.array([wa * wb * wc * (1 - a) ** 2 * (1 - b) for a, wa in zip(p, w) for b, wb in zip(p, w) for wc in w])
    return X, W


class Oracle:
    """Quadrature data of one field on a mesh (volume), own basis."""

    def __init__(self, points, cells, et, geo=None, nq=4, rule=None):
        """geo: (points, cells, ele_type) describing the geometry map when different from the field's mesh."""
        self.et, self.cells, self.npts = et, onp.asarray(cells), len(points)
        d = dim_of(et)
        kind = REF[et][2]
        xi, w = rule if rule is not None else gauss(kind, d, nq)
        N, G, H = tab(et, xi)
        self.N = N
        Xc = onp.asarray(points)[self.cells]                       # (c, a, d)
        J = onp.einsum('cai,qak->cqik', Xc, G)                     # dx_i/dxi_k
        det = onp.linalg.det(J)
        Ji = onp.linalg.inv(J)                                     # dxi_k/dx_i
        self.JxW = onp.abs(det) * w[None]
        self.dN = onp.einsum('qak,cqki->cqai', G, Ji)
        self.x = onp.einsum('cai,qa->cqi', Xc, N)
        self.dim = d
        self.H = onp.einsum('qakl,cqki,cqlj->cqaij', H, Ji, Ji)    # valid on affine cells

    def val(self, u):      # u (n, vec)
        return jnp.einsum('cav,qa->cqv', u[self.cells], self.N)

    def grad(self, u):
        return jnp.einsum('cav,cqai->cqvi', u[self.cells], self.dN)

    def int_val(self, f):  # f (c,q,v) -> (n, v)
        e = jnp.einsum('cqv,qa,cq->cav', f, self.N, self.JxW)
        return jnp.zeros((self.npts, f.shape[-1])).at[self.cells.reshape(-1)].add(e.reshape(-1, f.shape[-1]))

    def int_grad(self, s):  # s (c,q,v,i)
        e = jnp.einsum('cqvi,cqai,cq->cav', s, self.dN, self.JxW)
        return jnp.zeros((self.npts, s.shape[2])).at[self.cells.reshape(-1)].add(e.reshape(-1, s.shape[2]))


class SurfOracle:
    """Quadrature data on the faces whose corner nodes all satisfy pred."""

    def __init__(self, points, cells, et, pred, nq=4):
        points, cells = onp.asarray(points), onp.asarray(cells)
        self.npts, self.et = len(points), et
        d = dim_of(et)
        kind = REF[et][2]
        Xr = REF[et][0]
        s, w = gauss(kind if d == 3 else "c", d - 1, nq)
        self.faces = []
        Ns, cell_ids, dS, xs, nrm = [], [], [], [], []
        for c in range(len(cells)):
            for f in FACES[kind + str(d)]:
                corner = points[cells[c][list(f)]]
                if not all(pred(p) for p in corner):
                    continue
                r = Xr[list(f)]
                if d == 2:
                    xi = r[0] + s * (r[1] - r[0])
                    t = [(r[1] - r[0])]
                elif kind == "s":
                    xi = r[0] + s[:, :1] * (r[1] - r[0]) + s[:, 1:] * (r[2] - r[0])
                    t = [r[1] - r[0], r[2] - r[0]]
                else:
                    xi = r[0] + s[:, :1] * (r[1] - r[0]) + s[:, 1:] * (r[3] - r[0])
                    t = [r[1] - r[0], r[3] - r[0]]
                N, G, _ = tab(et, xi)
                Xc = points[cells[c]]
                J = onp.einsum('ai,qak->qik', Xc, G)
                T = [J @ tt for tt in t]
                if d == 2:
                    n = onp.stack([T[0][:, 1], -T[0][:, 0]], -1)
                else:
                    n = onp.cross(T[0], T[1])
                dA = onp.linalg.norm(n, axis=1)
                n = n / dA[:, None]
                xq = N @ Xc
                ctr = points[cells[c]][:CORNERS[et]].mean(0)
                sg = onp.sign(onp.einsum('qi,qi->q', n, xq - ctr))
                Ns.append(N); cell_ids.append(c); dS.append(dA * w); xs.append(xq); nrm.append(n * sg[:, None])
                self.faces.append((c, f))
        k = len(Ns)
        self.N = onp.array(Ns).reshape(k, len(w), -1)
        self.conn = cells[cell_ids] if k else onp.zeros((0, cells.shape[1]), int)
        self.dS = onp.array(dS)
        self.x = onp.array(xs)
        self.n = onp.array(nrm)

    def val(self, u):
        return jnp.einsum('fav,fqa->fqv', u[self.conn], self.N)

    def int_val(self, t):
        e = jnp.einsum('fqv,fqa,fq->fav', t, self.N, self.dS)
        return jnp.zeros((self.npts, t.shape[-1])).at[self.conn.reshape(-1)].add(e.reshape(-1, t.shape[-1]))


# ---- meshes ---------------------------------------------------------------------------------------
A2 = onp.array([[1.1, 0.3], [-0.2, 0.9]])
A3 = onp.array([[1.1, 0.3, 0.1], [-0.2, 0.9, 0.25], [0.15, -0.1, 1.2]])


def corner_cells(et, n):
    """unit-box corner grid; n cells per direction (tuple)"""
    d = dim_of(et)
    kind = REF[et][2]
    axes = [onp.linspace(0, 1, k + 1) for k in n]
    P = onp.array(list(itertools.product(*axes)))
    idx = onp.arange(len(P)).reshape([k + 1 for k in n])
    cells = []
    for t in itertools.product(*[range(k) for k in n]):
        if d == 2:
            i, j = t
            q = [idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
            cells += [q] if kind == "c" else [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
        else:
            i, j, k = t
            h = [idx[i, j, k], idx[i + 1, j, k], idx[i + 1, j + 1, k], idx[i, j + 1, k],
                 idx[i, j, k + 1], idx[i + 1, j, k + 1], idx[i + 1, j + 1, k + 1], idx[i, j + 1, k + 1]]
            if kind == "c":
                cells.append(h)
            else:
                for p in itertools.permutations(range(3)):
                    off = onp.zeros(3, int)
                    path = [off.copy()]
                    for ax in p:
                        off[ax] += 1
                        path.append(off.copy())
                    t4 = [idx[i + o[0], j + o[1], k + o[2]] for o in path]
                    if onp.linalg.det(P[t4[1:]] - P[t4[0]]) < 0:
                        t4[1], t4[2] = t4[2], t4[1]
                    cells.append(t4)
    return P, onp.array(cells)


def build(et, n, seed=0, affine=True, distort=0.0, scramble=True):
    """(points, cells) of element type et on the unit box, optionally sheared / distorted / renumbered."""
    P, C = corner_cells(et, n)
    X, sp, kind = REF[et]
    lin = {"s2": "TRI3", "c2": "QUAD4", "s3": "TET4", "c3": "HEX8"}[kind + str(dim_of(et))]
    rng = onp.random.RandomState(seed)
    if distort:
        inner = onp.all((P > 1e-9) & (P < 1 - 1e-9), axis=1)
        P = P + distort * inner[:, None] * rng.uniform(-1, 1, P.shape)
    N, _, _ = tab(lin, X)
    pts, key, cells = [], {}, []
    for c in C:
        row = []
        for x in N @ P[c]:
            k = tuple(onp.round(x, 9) + 0.0)
            if k not in key:
                key[k] = len(pts)
                pts.append(x)
            row.append(key[k])
        cells.append(row)
    pts, cells = onp.array(pts), onp.array(cells)
    if scramble:
        perm = rng.permutation(len(pts))
        inv = onp.argsort(perm)
        pts, cells = pts[perm], inv[cells]
        cells = cells[rng.permutation(len(cells))]
    if affine:
        A = A2 if dim_of(et) == 2 else A3
        pts = pts @ A.T + 0.37
    return pts, cells


def unmap(p):
    d = p.shape[-1]
    A = A2 if d == 2 else A3
    return jnp.linalg.inv(jnp.asarray(A)) @ (p - 0.37)


def on_face(ax, v):
    """location function: point on the (mapped) box face x_ax = v (works for jax and numpy points)"""
    def f(p):
        d = p.shape[-1]
        Ai = onp.linalg.inv(A2 if d == 2 else A3)
        return jnp.abs(jnp.dot(jnp.asarray(Ai[ax]), p - 0.37) - v) < 1e-6
    return f


def mesh_of(pts, cells, et):
    return fe.mesh.Mesh(jnp.asarray(pts), jnp.asarray(cells), et) if False else fe.Mesh(pts, cells, et)


def new():
    ctx = Ctx()
    return ctx, Interp(ctx)


def TP(vol=(), surf=()):
    return fe.TracedParams(volume_vars=tuple(vol), surface_vars=list(surf))


def _cof(x):
    n = x.shape[-1]
    g = lambda i, j: x[..., i, j]
    if n == 2:
        d = g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
        return d, [[g(1, 1), -g(0, 1)], [-g(1, 0), g(0, 0)]]
    c = [[g((j + 1) % 3, (i + 1) % 3) * g((j + 2) % 3, (i + 2) % 3) - g((j + 1) % 3, (i + 2) % 3) * g((j + 2) % 3, (i + 1) % 3) for j in range(3)] for i in range(3)]
    return sum(g(0, k) * c[k][0] for k in range(3)), c


def linalg_contracts():
    """jnp.linalg.det / inv of traced 2x2 and 3x3 matrices by cofactors: what these library routines compute, without
    their pivoting (a numerical device with a branch per pivot)."""
    def wrap(f, g):
        def h(x, *a, **k):
            if isinstance(x, jax.core.Tracer) and x.ndim >= 2 and x.shape[-1] == x.shape[-2] and x.shape[-1] in (2, 3):
                return g(x)
            return f(x, *a, **k)
        return h

    def inv(x):
        d, c = _cof(x)
        return jnp.stack([jnp.stack([e / d for e in r], -1) for r in c], -2)
    jnp.linalg.det = wrap(jnp.linalg.det, lambda x: _cof(x)[0])
    jnp.linalg.inv = wrap(jnp.linalg.inv, inv)
