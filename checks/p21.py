"""P21: linear buckling — the lowest positive load factors of the free pencil, their modes, and exact sensitivities."""
import contextlib
import numpy as onp
import jax
import jax.numpy as jnp
import z3
import feax as fe
import feax.solvers.eigen as eigen
from feax.csr import CSRMatrix
from symx import pyx, npx
from symx.pyx import eq, le, conj, Num, Flag, term, wrap, check
from symx.npx import ite, wrapa
from symx.interp import is_sym
from symx.poly import Unsupported, SA, lift
from .fem import *

BIG = 10 ** 12        # stands for +inf on the symbolic side (every load factor stays below 10**4)


# ---- stand-ins ----------------------------------------------------------------------------------------------------------

class DMat:
    """a sparse matrix on terms: fixed pattern, dense storage"""
    __array_priority__ = 100
    __array_ufunc__ = None

    def __init__(self, a): self.a = onp.asarray(a, object)

    @property
    def shape(self): return self.a.shape
    @property
    def T(self): return DMat(self.a.T)
    def transpose(self): return self.T
    def tocsr(self): return self
    def tocsc(self): return self
    def copy(self): return self
    def sort_indices(self): pass
    def sum_duplicates(self): pass
    def toarray(self): return wrapa(self.a.copy())
    todense = toarray
    def diagonal(self): return wrapa(onp.diagonal(self.a).copy())

    def __getitem__(self, k):
        k = tuple(onp.asarray(npx.plain(x) if isinstance(x, npx.OArr) else x).astype(int) if not isinstance(x, slice) else x for x in (k if isinstance(k, tuple) else (k,)))
        if len(k) == 2 and not any(isinstance(x, slice) for x in k) and k[0].ndim == 1 and k[1].ndim == 1:
            raise Unsupported("pointwise sparse indexing")
        return DMat(self.a[k])

    def _o(self, o): return o.a if isinstance(o, DMat) else o
    def __add__(self, o): return DMat(self.a + self._o(o))
    def __sub__(self, o): return DMat(self.a - self._o(o))
    def __mul__(self, o): return self @ o if isinstance(o, (DMat, onp.ndarray)) else DMat(self.a * o)
    def __rmul__(self, o): return DMat(o * self.a)
    def __truediv__(self, o): return DMat(self.a / o)
    def __neg__(self): return DMat(-self.a)

    def __matmul__(self, o):
        r = onp.dot(self.a, npx.NP().asarray(o.a if isinstance(o, DMat) else o).view(onp.ndarray))
        return DMat(r) if isinstance(o, DMat) else wrapa(r)
    dot = __matmul__


class Cplx:
    """complex numbers as two arrays"""
    def __init__(self, re, im): self.real, self.imag = wrapa(re), wrapa(im)
    @property
    def size(self): return self.real.size
    @property
    def shape(self): return self.real.shape
    def __len__(self): return len(self.real)
    def __getitem__(self, k): return Cplx(onp.asarray(self.real[k], object), onp.asarray(self.imag[k], object))


class NPe(npx.NP):
    inf = BIG
    def full(self, shape, v, dtype=float): return self._new(shape, v, dtype)
    def isfinite(self, x): return self.asarray(x) < BIG if isinstance(x, onp.ndarray) else (x < BIG if npx.symbolic(x) else bool(x < BIG))
    def sqrt(self, x):
        f = lambda z: npx._pow(z, 0.5)
        return wrapa(onp.frompyfunc(f, 1, 1)(self.asarray(x).view(onp.ndarray))) if isinstance(x, onp.ndarray) else f(x)
    def abs(self, x): return abs(self.asarray(x)) if isinstance(x, onp.ndarray) else abs(x)
    absolute = abs
    def ix_(self, *a): return onp.ix_(*[onp.asarray(npx.plain(x) if isinstance(x, npx.OArr) else x).astype(int) for x in a])
    def asarray(self, x, dtype=None, **k):
        if isinstance(x, Cplx):
            return x
        return super().asarray(x, None if dtype is not None and npx.symbolic(getattr(x, "flat", [x])[0] if getattr(x, "size", 1) else 0) else dtype, **k)
    array = asarray


@contextlib.contextmanager
def stubs(pencil, eigs, solved):
    """pencil(A, B) answers the dense generalised eigenproblem, eigs(matvec, n, k, which) the iterative one, solved(A, b) a factorised solve"""
    import scipy.sparse as sp
    import scipy.sparse.linalg as spla
    import sksparse.cholmod as ch
    keep = []

    def put(o, k, v):
        keep.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def make(a, shape=None, **k):
        if isinstance(a, DMat):
            return a
        if isinstance(a, tuple) and len(a) == 3:
            n = len(a[2]) - 1
            out = onp.empty(shape or (n, n), object)
            out[...] = 0
            ip, ix = [int(x) for x in a[2]], [int(x) for x in a[1]]
            for i in range(n):
                for s in range(ip[i], ip[i + 1]):
                    out[i, ix[s]] = out[i, ix[s]] + a[0][s]
            return DMat(out)
        raise Unsupported("matrix constructor")

    class Lu:
        def __init__(self, A): self.A = A
        def solve(self, b, *a, **k): return solved(self.A, b)
        __call__ = solve

    class Op:
        def __init__(self, shape, matvec=None, dtype=None, **k):
            self.shape, self.matvec = shape, matvec
        def __matmul__(self, v): return self.matvec(v)

    def no(*a, **k):
        raise ValueError("not available")
    NPX = NPe()
    try:
        for m in ("csr_matrix", "csc_matrix", "csr_array", "csc_array"):
            put(sp, m, make)
        put(spla, "splu", lambda A, **k: Lu(A))
        put(spla, "factorized", lambda A: Lu(A))
        put(spla, "LinearOperator", Op)
        put(spla, "eigs", eigs)
        put(ch, "cholesky", no)
        for k, v in list(vars(eigen).items()):
            if v is onp or v is jnp:
                put(eigen, k, NPX)
        put(eigen, "generalized_eigh", pencil)
        eigen.float = npx.SymFloat
        yield
    finally:
        vars(eigen).pop("float", None)
        for o, k, v in reversed(keep):
            setattr(o, k, v)


def pattern(N, seed, extra=2):
    """symmetric pattern with a full diagonal and a few couplings: list of (i, j)"""
    rng = onp.random.RandomState(seed)
    p = {(i, i) for i in range(N)} | {(i, i + 1) for i in range(N - 1)} | {(i + 1, i) for i in range(N - 1)}
    for _ in range(extra):
        i, j = rng.choice(N, 2, False)
        p |= {(int(i), int(j)), (int(j), int(i))}
    return sorted(p)


def csr_of(pat, N, data):
    ip = onp.zeros(N + 1, int)
    for i, _ in pat:
        ip[i + 1] += 1
    return CSRMatrix(data, jnp.asarray(onp.cumsum(ip)), jnp.asarray([j for _, j in pat]), (N, N))


def callback_of(bf, K, Kg):
    """the host function the solver hands to jax (captured from an eager call)"""
    got = []
    real = jax.pure_callback

    def grab(f, shapes, *a, **k):
        got.append(f)
        return jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), shapes, is_leaf=lambda s: hasattr(s, "dtype"))
    jax.pure_callback = grab
    try:
        bf(K, Kg)
    finally:
        jax.pure_callback = real
    return got[0]


def modes(ck, solver, N, free, m, extra_kw=()):
    """the host eigensolve: restriction to the free dofs, choice and order of the factors, embedding, normalisation, padding"""
    free = onp.asarray(free)
    nf, kw = len(free), dict(extra_kw)
    pk, pg = pattern(N, 1), pattern(N, 2)
    k = nf if solver == "dense" else min(m + 4, nf - 2)
    V = {f"k{i}{j}": "real" for i, j in pk if i <= j}
    V |= {f"g{i}{j}": "real" for i, j in pg if i <= j}
    V |= {f"e{c}": "real" for c in range(k)}
    V |= {f"q{c}": "real" for c in range(k)}                     # energy of each vector
    if solver != "dense":
        V |= {f"im{c}": "real" for c in range(k)}
        V |= {f"t{i}": "real" for i in range(nf)}
    rng = onp.random.RandomState(5)
    vec = onp.round(rng.uniform(-1, 1, (nf, k)), 2)              # eigenvectors: concrete, distinct per column
    vec[onp.abs(vec) < 0.05] = 0.3
    bf = eigen.create_linear_buckling_solver(free, num_modes=m, solver=solver, **kw)
    o = lambda p: csr_of(p, N, jnp.asarray([2.0 if i == j else 0.1 for i, j in p]))
    host = callback_of(bf, o(pk), o(pg))

    def h(v):
        K = [[v[f"k{min(i, j)}{max(i, j)}"] if (i, j) in pk else 0 for j in range(N)] for i in range(N)]
        G = [[v[f"g{min(i, j)}{max(i, j)}"] if (i, j) in pg else 0 for j in range(N)] for i in range(N)]
        e = [v[f"e{c}"] for c in range(k)]
        if pyx.ENG is None:
            return concrete(bf, e, N, free, m, solver)
        Kf = [[K[i][j] for j in free] for i in free]
        Gf = [[G[i][j] for j in free] for i in free]
        seen, fresh = {}, []

        def match(name, A, B):
            a = npx.NP().asarray(A.a if isinstance(A, DMat) else A)
            seen[name] = conj(*[eq(a[i, j], B[i][j]) for i in range(nf) for j in range(nf)]) if a.shape == (nf, nf) else False

        def pencil(A, B):
            match("pencil uses the geometric stiffness of the free dofs", A, Gf)
            match("pencil uses the stiffness of the free dofs", B, Kf)
            return wrapa(onp.array(e + [None], object)[:-1]), wrapa(vec.astype(object))

        def solved(A, b):
            match("solve uses the stiffness of the free dofs", A, Kf)
            y = [Num(z3.Real(f"y{len(fresh)}_{i}")) for i in range(nf)]
            fresh.append(1)
            b = npx.NP().asarray(b)
            for i in range(nf):
                pyx.ENG.path.append(z3.Sum([pyx._real(term(Kf[i][j])) * y[j].z for j in range(nf)]) == pyx._real(term(b[i])))
            return wrapa(onp.array(y + [None], object)[:-1])

        def eigs(op, k=6, which="LM", **kk):
            seen["asks for the largest inverse factors"] = which in ("LM", "LR") and kk.get("sigma") is None and k <= nf - 2 and k >= min(m, nf - 2)
            t = [v[f"t{i}"] for i in range(nf)]
            y = npx.NP().asarray(op.matvec(wrapa(onp.array(t + [None], object)[:-1])))
            for i in range(nf):
                lhs = sum(Kf[i][j] * y[j] for j in range(nf))
                rhs = sum(Gf[i][j] * t[j] for j in range(nf))
                seen[f"operator {i}"] = eq(lhs + rhs, 0, 1e-6)
            kk_ = min(k, len(e))
            return Cplx(onp.array(e[:kk_] + [None], object)[:-1], onp.array([v[f"im{c}"] for c in range(kk_)] + [None], object)[:-1]), \
                Cplx(vec[:, :kk_].astype(object), onp.zeros((nf, kk_), object))

        with stubs(pencil, eigs, solved):
            try:
                lam, md, phi = host(wrapa(onp.array([K[i][j] for i, j in pk] + [None], object)[:-1]), wrapa(onp.array([G[i][j] for i, j in pg] + [None], object)[:-1]))
            except eigen.BucklingConvergenceError:
                return {"raises only without a positive factor": conj(*[~_b((e[c] > 0) & (v[f"im{c}"] == 0)) if isinstance(e[c], Num) else True for c in range(k)]), **seen}
        lam, md, phi = (npx.NP().asarray(x) for x in (lam, md, phi))
        out = dict(seen)
        out["shapes"] = lam.shape == (m,) and md.shape == (m, N) and phi.shape == (m, nf)
        if not out["shapes"]:
            return out
        ok = [(e[c] < 0) if solver == "dense" else (e[c] > 0) & (v[f"im{c}"] == 0) for c in range(k)]
        # load factor of column c: -1/e (dense, of the pencil Kg x = e K x), 1/e (iterative, of -K^-1 Kg x = e x)
        sgn = -1 if solver == "dense" else 1
        before = lambda a, b: (sgn * e[a] > sgn * e[b])          # factor of a below that of b (both valid)
        count = sum((ite(x, 1, 0) for x in ok), 0)
        kept = conj(count >= 0)
        for i in range(m):
            has = count > i
            pads = conj(lam[i] >= BIG, *[eq(md[i, j], 0) for j in range(N)], *[eq(phi[i, j], 0) for j in range(nf)])
            cs = []
            for c in range(k):
                rank_lo = sum((ite(_b(ok[a]) & _b(before(a, c)), 1, 0) for a in range(k) if a != c), 0)
                rank_hi = sum((ite(_b(ok[a]) & ~_b(before(c, a)), 1, 0) for a in range(k) if a != c), 0)
                x = [md[i, int(d)] for d in free]
                para = [eq(x[a] * float(vec[b, c]), x[b] * float(vec[a, c]), 1e-6) for a in range(nf) for b in range(a)]
                cs.append(conj(ok[c], eq(lam[i] * e[c], sgn, 1e-6), rank_lo <= i, rank_hi >= i, *para))
            good = cs[0]
            for c in cs[1:]:
                good = _b(good) | _b(c)
            fixed = [j for j in range(N) if j not in set(free.tolist())]
            places = conj(*[eq(md[i, j], 0) for j in fixed], *[eq(phi[i, a], md[i, int(d)]) for a, d in enumerate(free)])
            energy = sum(phi[i, a] * Kf[a][b] * phi[i, b] for a in range(nf) for b in range(nf))
            out[f"factor {i}"] = _b(has) & _b(good) | ~_b(has) & _b(pads)
            out[f"mode {i} lives on the free dofs"] = places
            out[f"mode {i} has unit energy"] = ~_b(has) | _b(eq(energy, 1, 1e-6))
        return out

    def assume(v):
        K = lambda i, j: v[f"k{min(i, j)}{max(i, j)}"] if (i, j) in pk else 0
        a = []
        for c in range(k):
            a += [v[f"e{c}"] >= -100, v[f"e{c}"] <= 100, (v[f"e{c}"] >= 0.01) | (v[f"e{c}"] <= -0.01)]
            q = sum(K(int(free[x]), int(free[y])) * float(vec[x, c]) * float(vec[y, c]) for x in range(nf) for y in range(nf))
            a += [v[f"q{c}"] == q, q >= 0.01, q <= 100]
            if solver != "dense":
                a += [(v[f"im{c}"] == 0) | (v[f"im{c}"] >= 1) | (v[f"im{c}"] <= -1)]
        return a
    check(ck, f"{solver} modes N={N} free={free.tolist()} m={m}", V, h, assume, max_paths=1200)


def converged(ck, tol):
    """an iterative answer whose fundamental pair misses the tolerance, or that holds no positive factor, raises; any other is returned"""
    import scipy.sparse.linalg as spla
    N, free, m = 5, onp.array([0, 1, 3, 4]), 1
    nf, k = 4, 2
    full = [(i, j) for i in range(N) for j in range(N)]
    K, G = onp.diag([4.0, 5.0, 3.0, 4.0, 6.0]) + 0.5, onp.diag([-2.0, -1.0, 1.0, -4.0, 2.0]) + 0.25
    vec = onp.array([[1.0, 0.25], [0.5, -1.0], [-0.25, 0.5], [0.75, 0.125]])
    bf = eigen.create_linear_buckling_solver(free, num_modes=m, solver="sparse", **({} if tol is None else {"conv_tol": tol}))
    t = 1e-2 if tol is None else tol
    host = callback_of(bf, csr_of(full, N, jnp.asarray(K.reshape(-1))), csr_of(full, N, jnp.asarray(G.reshape(-1))))
    Kf, Gf = K[onp.ix_(free, free)], G[onp.ix_(free, free)]
    T = -onp.linalg.solve(Kf, Gf @ vec)

    def h(v):
        mu, im = [v["e0"], v["e1"]], [v["i0"], v["i1"]]

        def eigs(op, k=6, **kk):
            if pyx.ENG is None:
                return onp.array(mu) + 1j * onp.array(im), vec + 0j
            return Cplx(onp.array(mu + [None], object)[:-1], onp.array(im + [None], object)[:-1]), Cplx(vec.astype(object), onp.zeros((nf, k), object))

        def solved(A, b):
            b = npx.NP().asarray(b)
            Ki = onp.linalg.inv(onp.array(npx.plain(wrapa(A.a)), float))
            return wrapa(onp.array([sum(float(Ki[i, j]) * b[j] for j in range(nf)) for i in range(nf)] + [None], object)[:-1])
        try:
            if pyx.ENG is None:
                real, spla.eigs = spla.eigs, eigs
                try:
                    lam = host(K.reshape(-1), G.reshape(-1))[0]
                finally:
                    spla.eigs = real
            else:
                with stubs(None, eigs, solved):
                    lam = host(wrapa(K.reshape(-1).astype(object)), wrapa(G.reshape(-1).astype(object)))[0]
            raised = False
        except eigen.BucklingConvergenceError:
            raised = True
        res = [sum((T[a, c] - mu[c] * float(vec[a, c])) * (T[a, c] - mu[c] * float(vec[a, c])) for a in range(nf)) for c in range(k)]
        nrm = [float((vec[:, c] ** 2).sum()) for c in range(k)]
        ok = [_b((mu[c] > 0)) & _b(im[c] == 0) for c in range(k)]
        first = [ok[c] & (~ok[1 - c] | _b(mu[c] > mu[1 - c])) for c in range(k)]
        good = [first[c] & _b(res[c] <= (t * (1 - 1e-6)) ** 2 * nrm[c]) for c in range(k)]
        bad = [first[c] & _b(res[c] >= (t * (1 + 1e-6)) ** 2 * nrm[c]) for c in range(k)]
        none = ~ok[0] & ~ok[1]
        if raised:
            return {"raises only without a converged positive factor": _pl(~(good[0] | good[1]))}
        return {"returns only a converged positive factor": _pl(~(bad[0] | bad[1] | none)),
                "returned factor": _pl(none | (first[0] & _b(eq(lam[0] * mu[0], 1, 1e-6))) | (first[1] & _b(eq(lam[0] * mu[1], 1, 1e-6))) | (~first[0] & ~first[1]))}

    def _pl(x):
        return x if pyx.ENG is not None else z3.is_true(z3.simplify(x.z if isinstance(x, Flag) else z3.BoolVal(x)))

    def assume(v):
        a = []
        for c in range(2):
            a += [v[f"e{c}"] >= -5, v[f"e{c}"] <= 5, (v[f"e{c}"] >= 0.01) | (v[f"e{c}"] <= -0.01), (v[f"i{c}"] == 0) | (v[f"i{c}"] >= 1)]
        return a + [v["i0"] <= 9, v["i1"] <= 9]
    check(ck, f"convergence test of the iterative eigensolve, tolerance {t}", {"e0": "real", "e1": "real", "i0": "real", "i1": "real"}, h, assume)


def _b(x):
    return x if isinstance(x, Flag) else Flag(z3.BoolVal(bool(x)))


def concrete(bf, e, N, free, m, solver):
    """replay on a real pencil with (about) these eigenvalues and the real eigensolver"""
    rng = onp.random.RandomState(3)
    nf = len(free)
    B = onp.linalg.qr(rng.randn(nf, nf))[0] * rng.uniform(0.7, 1.4, nf)
    g = [(x if solver == "dense" else -x) for x in e]
    g = onp.array(g + [1e-4 * (i + 1) for i in range(nf - len(g))])
    g = g + onp.arange(nf) * 1e-5 * onp.abs(g)
    Bi = onp.linalg.inv(B)
    K, G = onp.eye(N) * 3 + 0.2, onp.eye(N) * 2 - 0.3
    K[onp.ix_(free, free)] = Bi.T @ Bi
    G[onp.ix_(free, free)] = Bi.T @ onp.diag(g) @ Bi
    full = [(i, j) for i in range(N) for j in range(N)]
    lam, md = bf(csr_of(full, N, jnp.asarray(K.reshape(-1))), csr_of(full, N, jnp.asarray(G.reshape(-1))))
    lam, md = onp.asarray(lam), onp.asarray(md)
    want = onp.sort([-1 / x for x in g if x < 0])[:m]
    n = len(want)
    out = {"factors": lam.shape == (m,) and onp.allclose(lam[:n], want, rtol=1e-5) and onp.all(onp.isinf(lam[n:])) and not onp.any(md[n:])}
    fixed = [j for j in range(N) if j not in set(onp.asarray(free).tolist())]
    out["embedded"] = not onp.any(md[:, fixed])
    out["modes"] = all(onp.allclose((K + lam[i] * G)[free] @ md[i], 0, atol=1e-4) and abs(md[i] @ K @ md[i] - 1) < 1e-5 for i in range(n))
    return {a: bool(b) for a, b in out.items()}


# ---- sensitivities ------------------------------------------------------------------------------------------------------

def sensitivities(ck, solver, N, free, m, pads=0):
    """dλ = λ φᵀ dK φ + λ² φᵀ dKg φ on the free dofs, for every factor and mode the eigensolve may return; modes carry no gradient"""
    free = onp.asarray(free)
    pk, pg = pattern(N, 1), pattern(N, 4, 3)
    nk, ng = len(pk), len(pg)
    bf = eigen.create_linear_buckling_solver(free, num_modes=m, solver=solver)
    real = jax.pure_callback
    callback_of(bf, csr_of(pk, N, jnp.ones(nk)), csr_of(pg, N, jnp.ones(ng)))
    ctx, _ = new()
    kd, gd = ctx.array("kd", (nk,)), ctx.array("gd", (ng,))
    lam, phi, a = ctx.array("lam", (m,), 0.1, 3.0), ctx.array("phi", (m, len(free))), ctx.array("a", (m,))

    def impl(kd, gd, lam, phi, a):
        def cb(f, shapes, *args, **kw):
            return lam, jnp.zeros((m, N)).at[:, free].set(phi), phi
        jax.pure_callback = cb
        try:
            def loss(kd, gd):
                l, md = bf(csr_of(pk, N, kd), csr_of(pg, N, gd))
                return jnp.sum(a * l + 0.5 * a * l ** 2) + jnp.sum(md[:, 0] * 0.3)
            return jax.grad(loss, (0, 1))(kd, gd)
        finally:
            jax.pure_callback = real

    def spec(kd, gd, lam, phi, a):
        P = jnp.zeros((m, N)).at[:, free].set(phi)
        bar = a + a * lam
        f = lambda pat, w: jnp.stack([jnp.sum(w * P[:, i] * P[:, j]) for i, j in pat])
        return f(pk, bar * lam), f(pg, bar * lam ** 2)
    ck.forall(f"{solver} sensitivities N={N} free={free.tolist()} m={m}", impl, spec, (kd, gd, lam, phi, a), ctx, validate=False)


def missing(ck, N=5, free=(0, 2, 3, 4), m=3):
    """fewer positive factors than asked for: the others' sensitivities are untouched by the padding (concrete branch)"""
    free = onp.asarray(free)
    full = [(i, j) for i in range(N) for j in range(N)]
    K, G = onp.eye(N) * 3 + 0.2, onp.diag([-1.0, 2.0, -0.5, 1.0, 1.5]) + 0.01
    out = []
    for mm in (2, m):
        bf = eigen.create_linear_buckling_solver(free, num_modes=mm, solver="dense")
        k0, g0 = jnp.asarray(K.reshape(-1)), jnp.asarray(G.reshape(-1))
        bf(csr_of(full, N, k0), csr_of(full, N, g0))
        f = lambda kd, gd: bf(csr_of(full, N, kd), csr_of(full, N, gd))[0][:2] @ jnp.asarray([1.0, 0.5])
        out.append([onp.asarray(x) for x in jax.grad(f, (0, 1))(k0, g0)])
    if not all(onp.allclose(x, y, atol=1e-9) for x, y in zip(*out)):
        ck.violate("sensitivities with fewer positive factors than asked for", {"K": K.tolist(), "Kg": G.tolist(), "free": free.tolist(), "num_modes": m,
                   "sensitivity to K": out[1][0][:6].tolist(), "expected": out[0][0][:6].tolist()})


# ---- generalised symmetric eigenproblem ------------------------------------------------------------------------------------

def generalized(ck, n, U):
    """A x = w B x and xᵀ B x = 1 for every symmetric A and positive B, given exact Cholesky and standard eigen factorisations"""
    ctx, _ = new()
    l = ctx.array("l", (n, n), -1.0, 1.0)
    d, w = jnp.asarray([1.5, 0.75, 1.25][:n]), ctx.array("w", (n,), -2.0, 2.0)
    U = jnp.asarray(U)

    def data(l, w):
        L = jnp.tril(l, -1) + jnp.diag(d)
        return L, (U * w) @ U.T

    def impl(l, w):
        L, C = data(l, w)
        A, B = L @ C @ L.T, L @ L.T
        return eigen.generalized_eigh(A, B) + (A, B)

    def spec_res(l, w):
        ww, X, A, B = impl(l, w)
        return [jnp.sum(ww ** q) for q in range(1, n + 1)], A @ X - (B @ X) * ww, X.T @ B @ X

    def chol(I, eqn, ins):
        if not is_sym(ins[0]):
            return NotImplemented
        L = I.run(lambda l: jnp.tril(l, -1) + jnp.diag(d), l)
        B = I.run(lambda L: L @ L.T, L)
        if not _close(ins[0], B):
            raise Unsupported("cholesky of another matrix")
        return [L]

    def eigh(I, eqn, ins):
        if not is_sym(ins[0]):
            return NotImplemented
        C = I.run(lambda w: (U * w) @ U.T, w)
        if not _close(ins[0], C):
            raise Unsupported("eigh of another matrix")
        outs = []
        for v in eqn.outvars:
            outs.append(lift(ctx, onp.asarray(U)) if v.aval.ndim == 2 else w)
        return outs

    def tri(I, eqn, ins):
        p = eqn.params
        a, b = ins
        if not is_sym(a) and not is_sym(b):
            return NotImplemented
        lower, ta, left, unit = p["lower"], p["transpose_a"], p["left_side"], p.get("unit_diagonal", False)
        if unit or not left:
            raise Unsupported("triangular solve form")

        def f(a, b):
            if ta:
                a_ = a.T
                low = not lower
            else:
                a_, low = a, lower
            xs = {}
            for i in (range(n) if low else range(n - 1, -1, -1)):
                r = b[i]
                for j in xs:
                    r = r - a_[i, j] * xs[j]
                xs[i] = r / a_[i, i]
            return jnp.stack([xs[i] for i in range(n)])
        return [I.run(f, a, b)]
    hooks = {"cholesky": chol, "eigh": eigh, "triangular_solve": tri}
    ck.forall(f"generalised eigenproblem n={n}", spec_res, lambda l, w: ([jnp.sum(w ** q) for q in range(1, n + 1)], jnp.zeros((n, n)), jnp.eye(n)), (l, w), ctx, tol=1e-7, hooks=hooks, validate=False)


def _close(a, b):
    d = a - b
    if isinstance(d, SA):
        return all(abs(c) < 1e-9 for p in d.polys() for c in p.values())
    return onp.allclose(d, 0)


def run(ck):
    ck.fn("feax.solvers.eigen.create_linear_buckling_solver", "feax.solvers.eigen.generalized_eigh")
    ck.bound("pencils of 4 to 7 dofs with 2 to 5 free ones in any listed order, 1 to 3 requested factors; eigenvalues symbolic with |value| in [0.01, 100], of either sign, in every order, real or complex; stiffness entries symbolic")
    ck.bound("eigen, Cholesky and factorisation routines of LAPACK/ARPACK/SuperLU are contracts (exact eigenpairs of the matrices they are handed); convergence of ARPACK is outside")
    ck.do(modes, "dense", 5, (0, 2, 3), 2)
    ck.do(modes, "dense", 4, (3, 1), 3)
    ck.do(modes, "dense", 4, (2, 0, 3), 1)
    ck.do(modes, "sparse", 6, (1, 2, 4, 5), 1, (("conv_tol", None),))
    ck.do(modes, "sparse", 7, (6, 0, 2, 3, 5), 2, (("conv_tol", None),))
    ck.do(sensitivities, "dense", 5, (0, 2, 3), 2)
    ck.do(sensitivities, "sparse", 6, (5, 1, 2, 4), 3)
    ck.do(converged, None)
    ck.do(converged, 0.8)
    ck.do(missing)
    ck.do(generalized, 2, [[0.6, -0.8], [0.8, 0.6]])
    ck.do(generalized, 3, onp.linalg.qr(onp.array([[1.0, 2, 0], [0, 1, 3], [2, 0, 1]]))[0])
