"""P20: direct back ends answer the system they are handed, whatever they solved before; automatic selection fits the matrix."""
import contextlib
import functools
import importlib
import types
import numpy as onp
import jax
import jax.numpy as jnp
import z3
import feax as fe
import feax.solvers.direct as direct
from symx import pyx, npx
from symx.pyx import eq, conj, Num, Flag, term, wrap, check
from symx.npx import ite, wrapa, numpy_on_terms
from symx.poly import Unsupported
from .fem import *
from .p05 import quiet, D, K
from .p07 import Fork


# ---- a stand-in for sparse matrices and factorizations on solver terms -------------------------------------------------

class Mat:
    """compressed rows (or columns) whose pattern and values may be terms"""

    def __init__(self, values, columns, offsets, n, by="row"):
        self.v, self.c, self.o, self.n, self.by = list(values), list(columns), list(offsets), n, by
        self.shape = (n, n)

    def dense(self):
        n, out = self.n, [[0] * self.n for _ in range(self.n)]
        for k, (v, c) in enumerate(zip(self.v, self.c)):
            for i in range(n):
                here = (self.o[i] <= k) & (k < self.o[i + 1])
                for j in range(n):
                    x = ite(here & (c == j), v, 0)
                    r, q = (i, j) if self.by == "row" else (j, i)
                    out[r][q] = out[r][q] + x
        return out

    def tocsc(self): return self
    def tocsr(self): return self
    def copy(self): return self
    def sort_indices(self): pass
    def sum_duplicates(self): pass

    @property
    def T(self): return Mat(self.v, self.c, self.o, self.n, "col" if self.by == "row" else "row")
    def transpose(self): return self.T


class Factor:
    """contract of a factorization object: the pattern is analysed once, factorize() takes new values on that pattern"""
    count = 0

    def __init__(self, A, kind):
        self.kind, self.pattern, self.A, self.ok = kind, (A.c, A.o, A.n, A.by), A, True

    def factorize(self, A):
        c, o, n, by = self.pattern
        same = n == A.n and by == A.by and len(c) == len(A.c) and all(bool(x == y) for x, y in zip(c, A.c)) and all(bool(x == y) for x, y in zip(o, A.o))
        self.A, self.ok = A, same
        return self

    def solve(self, rhs, trans="N", **k):
        n = self.A.n
        B = self.A.dense()
        if self.kind in ("upper", "lower"):
            keep = (lambda i, j: i <= j) if self.kind == "upper" else (lambda i, j: i >= j)
            B = [[B[i][j] if keep(i, j) else B[j][i] for j in range(n)] for i in range(n)]
        if trans in ("T", "H"):
            B = [list(r) for r in zip(*B)]
        r = npx.NP().asarray(rhs)
        cols = r.reshape(n, -1) if r.ndim == 2 else r.reshape(n, 1)
        if r.ndim == 2 and r.shape[0] != n or r.ndim == 1 and r.shape[0] != n:
            raise ValueError("shape mismatch in factor.solve")
        out = onp.empty(cols.shape, object)
        for q in range(cols.shape[1]):
            xs = []
            for i in range(n):
                Factor.count += 1
                xs.append(z3.Real(f"x_{Factor.count}"))
            for i in range(n):
                out[i, q] = Num(xs[i])
                if self.ok:
                    pyx.ENG.path.append(z3.Sum([term_r(B[i][j]) * xs[j] for j in range(n)]) == term_r(cols[i, q]))
        return wrapa(out.reshape(r.shape))
    __call__ = solve


def term_r(x):
    return pyx._real(term(x if not isinstance(x, onp.generic) else x.item()))


class NPc(npx.NP):
    def array(self, x, dtype=None, copy=True, **k):
        return wrapa(self.asarray(x, dtype).view(onp.ndarray).copy())

    def asfortranarray(self, x): return self.asarray(x)
    def ascontiguousarray(self, x): return self.asarray(x)
    def empty(self, shape, dtype=float): return self._new(shape, 0, float)
    def copy(self, x): return self.array(x)
    def diff(self, x): return self.asarray(x)[1:] - self.asarray(x)[:-1]


@contextlib.contextmanager
def stubs(*mods):
    import scipy.sparse as sp
    import scipy.sparse.linalg as spla
    if pyx.ENG is None:
        yield
        return
    Factor.count = 0
    keep = []

    def put(o, k, v):
        keep.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def matrix(by):
        real = sp.csr_matrix if by == "row" else sp.csc_matrix

        def make(a, shape=None, **k):
            if isinstance(a, tuple) and len(a) == 3:
                return Mat(a[0], a[1], a[2], shape[0] if shape else len(a[2]) - 1, by)
            if isinstance(a, Mat):
                return a
            raise Unsupported("matrix constructor")
        return make
    try:
        for m in ("csr_matrix", "csr_array"):
            put(sp, m, matrix("row"))
        for m in ("csc_matrix", "csc_array"):
            put(sp, m, matrix("col"))
        put(spla, "spsolve", lambda A, b, **k: Factor(A, "lu").solve(b))
        put(spla, "splu", lambda A, **k: Factor(A, "lu"))
        put(spla, "factorized", lambda A: Factor(A, "lu").solve)
        import sksparse.cholmod as ch
        import sksparse.umfpack as um
        put(ch, "cho_factor", lambda A, lower=False, **k: Factor(A, "lower" if lower else "upper"))
        put(um, "umf_factor", lambda A, **k: Factor(A, "lu"))
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is onp:
                    put(m, k, NPc())
        yield
    finally:
        for o, k, v in reversed(keep):
            setattr(o, k, v)


# ---- structural evaluation of a jaxpr on object arrays -------------------------------------------------------------------

def ev(jaxpr, consts, args):
    env = {}
    rd = lambda v: env[v] if not hasattr(v, "val") else onp.asarray(v.val)
    for v, x in zip(jaxpr.constvars, consts):
        env[v] = onp.asarray(x)
    for v, x in zip(jaxpr.invars, args):
        env[v] = x
    for e in jaxpr.eqns:
        ins, p, nm = [rd(v) for v in e.invars], e.params, e.primitive.name
        sym = any(isinstance(x, onp.ndarray) and x.dtype == object for x in ins)
        nd = [x.view(onp.ndarray) if isinstance(x, onp.ndarray) else x for x in ins]
        if nm in ("jit", "pjit", "closed_call", "core_call"):
            sub = p["jaxpr"] if "jaxpr" in p else p["call_jaxpr"]
            outs = ev(getattr(sub, "jaxpr", sub), getattr(sub, "consts", ()), ins)
        elif nm == "custom_vmap_call":
            outs = ev(p["call"].jaxpr, p["call"].consts, ins)
        elif nm == "pure_callback":
            cb = p["callback"]
            fn = getattr(cb, "callback_func", None)
            if fn is None:
                raise Unsupported("callback form")
            a, k = jax.tree_util.tree_unflatten(cb.in_tree, [wrapa(onp.asarray(x).astype(object)) if not isinstance(x, npx.OArr) else x for x in ins])
            outs = [npx.NP().asarray(x) for x in jax.tree_util.tree_leaves(fn(*a, **k), is_leaf=lambda x: isinstance(x, onp.ndarray))]
            for x, av in zip(outs, p["result_avals"]):
                if tuple(x.shape) != tuple(av.shape):
                    raise ValueError(f"callback returned shape {x.shape}, promised {av.shape}")
        elif not sym:
            r = e.primitive.bind(*[jnp.asarray(x) for x in ins], **p)
            outs = [onp.asarray(x) for x in (r if e.primitive.multiple_results else [r])]
        elif nm == "transpose":
            outs = [wrapa(onp.transpose(nd[0], p["permutation"]))]
        elif nm == "reshape":
            outs = [wrapa(nd[0].reshape(p["new_sizes"]))]
        elif nm == "squeeze":
            outs = [wrapa(onp.squeeze(nd[0], tuple(p["dimensions"])))]
        elif nm == "expand_dims":
            outs = [wrapa(onp.expand_dims(nd[0], tuple(p["dimensions"])))]
        elif nm == "slice":
            st = p["strides"] or (1,) * nd[0].ndim
            outs = [wrapa(nd[0][tuple(slice(a, b, s) for a, b, s in zip(p["start_indices"], p["limit_indices"], st))])]
        elif nm == "broadcast_in_dim":
            sh = [1] * len(p["shape"])
            for q, dd in enumerate(p["broadcast_dimensions"]):
                sh[dd] = nd[0].shape[q]
            outs = [wrapa(onp.broadcast_to(nd[0].reshape(sh), p["shape"]).copy())]
        elif nm == "concatenate":
            outs = [wrapa(onp.concatenate(nd, p["dimension"]))]
        elif nm in ("convert_element_type", "copy", "copy_p", "stop_gradient", "optimization_barrier"):
            outs = list(ins)
        else:
            raise Unsupported(f"primitive {nm} on terms")
        for v, x in zip(e.outvars, outs):
            env[v] = x
    return [rd(v) for v in jaxpr.outvars]


def apply(f, args):
    """f on the given arrays: through its jaxpr on terms, directly on numbers"""
    if pyx.ENG is None:
        return onp.asarray(f(*[jnp.asarray(onp.array(a.tolist(), float if k < 2 else int)) for k, a in enumerate(args)]))
    cj = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(a.shape, float if k < 2 else int) for k, a in enumerate(args)])
    return ev(cj.jaxpr, cj.consts, args)[0]


def backend(name):
    """freshly loaded modules: no state survives from another path"""
    u = importlib.import_module("feax.solvers.direct._callback_utils") if hasattr(direct, "_callback_utils") else None
    m = importlib.import_module("feax.solvers.direct." + name)
    mods = [importlib.reload(x) for x in (u, m) if x is not None]
    return getattr(mods[-1], {"umfpack": "umfpack_solve", "cholmod": "cholmod_solve", "spsolve": "spsolve"}[name]), mods


def history(ck, label, name, calls, n=2, nnz=3, pad=0, kw=None, fixed=None):
    """calls: per call one of '1' (single; 'A': on the pattern of the first call), 'b' (values and rhs batched), 'r' (rhs batched),
    'v' (values batched), upper-case: on the pattern of the first call.  kw: keywords of the back end"""
    kw = kw or {}
    var, spec = {}, []
    for t, c in enumerate(calls):
        pt = 0 if c.isupper() else t
        c = c.lower().replace("a", "1")
        nv, nb = (2 if c in "bv" else 1), (2 if c in "br" else 1)
        if fixed is None:
            for k in range(nnz):
                var[f"c{pt}_{k}"] = "int"
            for i in range(1, n):
                var[f"o{pt}_{i}"] = "int"
        for q in range(nv):
            for k in range(nnz):
                var[f"v{t}_{q}_{k}"] = "real"
        for q in range(nb):
            for i in range(n):
                var[f"b{t}_{q}_{i}"] = "real"
        spec.append((t, pt, c, nv, nb))

    def pattern(v, pt):
        if fixed is not None:
            return list(fixed[pt % len(fixed)][0]), list(fixed[pt % len(fixed)][1])
        return [v[f"c{pt}_{k}"] for k in range(nnz)], [0] + [v[f"o{pt}_{i}"] for i in range(1, n)] + [nnz]

    def mats(v, t, pt, nv):
        c, o = pattern(v, pt)
        return [Mat([v[f"v{t}_{q}_{k}"] for k in range(nnz)], c, o, n) for q in range(nv)]
    sym = name == "cholmod"

    def use(A):
        if not sym:
            return [list(r) for r in zip(*A)] if kw.get("trans") == "T" else A
        keep = (lambda i, j: i >= j) if kw.get("lower") else (lambda i, j: i <= j)
        return [[A[i][j] if keep(i, j) else A[j][i] for j in range(n)] for i in range(n)]

    def det(A):
        if n == 1:
            return A[0][0]
        if n == 2:
            return A[0][0] * A[1][1] - A[0][1] * A[1][0]
        return sum((-1) ** j * A[0][j] * (A[1][(j + 1) % 3 if j != 1 else 0] * A[2][(j + 2) % 3 if j != 1 else 2] - A[1][(j + 2) % 3 if j != 1 else 2] * A[2][(j + 1) % 3 if j != 1 else 0]) for j in range(3))

    def assume(v):
        out = []
        for t, pt, c, nv, nb in spec:
            cs, os_ = pattern(v, pt)
            if fixed is None and pt == t:
                out += [z3.And(term(x) >= 0, term(x) < n) for x in cs]
                out += [term(a) <= term(b) for a, b in zip(os_, os_[1:])]
                for i in range(n):      # columns increase within a row
                    out += [z3.Implies(z3.And(term(os_[i]) <= k, k + 1 < term(os_[i + 1])), term(cs[k]) < term(cs[k + 1])) for k in range(nnz - 1)]
            for q in range(nv):
                out += [z3.And(term(v[f"v{t}_{q}_{k}"]) >= -3, term(v[f"v{t}_{q}_{k}"]) <= 3) for k in range(nnz)]
                A = use(mats(v, t, pt, nv)[q].dense())
                if sym:
                    ab = lambda z: z3.If(z < 0, -z, z)
                    out += [term_r(A[i][i]) >= 1 + z3.Sum([z3.RealVal(0)] + [ab(term_r(A[i][j])) for j in range(n) if j != i]) for i in range(n)]
                else:
                    d_ = term_r(det(A))
                    out.append(z3.Or(d_ >= 1, d_ <= -1))
            for q in range(nb):
                out += [z3.And(term(v[f"b{t}_{q}_{i}"]) >= -1, term(v[f"b{t}_{q}_{i}"]) <= 1) for i in range(n)]
        return [wrap(x) for x in out]

    def harness(v):
        fn, mods = backend(name)
        claims = {}
        with stubs(*mods):
            for t, pt, c, nv, nb in spec:
                cs, os_ = pattern(v, pt)
                A = npx.NP().asarray
                vals = A([[v[f"v{t}_{q}_{k}"] for k in range(nnz)] + [7.0] * pad for q in range(nv)])
                rhs = A([[v[f"b{t}_{q}_{i}"] for i in range(n)] for q in range(nb)])
                cols, offs = A(cs + [0] * pad), A(os_)
                f = lambda b, w, o, cc: fn(b, w, o, cc, **kw)
                ax = (0 if nb == 2 or c == "b" else None, 0 if nv == 2 else None, None, None)
                if c == "1":
                    x = apply(f, (rhs[0], vals[0], offs, cols))[None]
                else:
                    x = apply(jax.vmap(f, ax), (rhs if ax[0] == 0 else rhs[0], vals if ax[1] == 0 else vals[0], offs, cols))
                M = [use(m.dense()) for m in mats(v, t, pt, nv)]
                for q in range(max(nv, nb)):
                    for i in range(n):
                        lhs = sum((M[q % nv][i][j] * x[q][j] for j in range(n)), 0)
                        claims[f"call {t}, system {q}, row {i}"] = near(lhs, rhs[q % nb][i])
        return claims
    check(ck, f"{label}: {name}, calls {calls}", var, harness, assume, max_paths=4000, max_decisions=400)


def near(a, b):
    if isinstance(a, Num) or isinstance(b, Num):
        d_ = z3.simplify(term_r(a) - term_r(b), som=True)
        return wrap(z3.And(d_ <= pyx.rat(1e-6), d_ >= -pyx.rat(1e-6)))
    return bool(abs(float(a) - float(b)) <= 1e-6)


# ---- automatic selection -------------------------------------------------------------------------------------------------

def resolved(ck, name):
    """choosing a concrete method keeps every other option, never a method invalid for the matrix"""
    from feax.solvers import options as O
    import dataclasses
    rd, ri = getattr(O, "resolve_direct_solver", None), getattr(O, "resolve_iterative_solver", None)
    if rd is None or ri is None:
        return
    MP, MV = O.MatrixProperty, fe.problem.MatrixView
    var = {"tol": "real", "atol": "real", "shift": "real", "thr": "real", "maxiter": "int", "restart": "int"}
    assume = lambda v: [v[k] > 0 for k in var]

    def harness(v):
        c = {}
        pre = lambda x: x
        base = dict(tol=v["tol"], atol=v["atol"], jacobi_shift=v["shift"], maxiter=v["maxiter"], convergence_threshold=v["thr"], preconditioner=pre, use_jacobi_preconditioner=True, check_convergence=True, verbose=True, restart=v["restart"])
        names = {f.name for f in dataclasses.fields(K)}
        base = {k: x for k, x in base.items() if k in names}
        for mp in MP:
            o = quiet(ri, K(**base), mp)
            c[f"krylov {mp.name} keeps the options"] = conj(*[getattr(o, k) is x if callable(x) or isinstance(x, bool) else (getattr(o, k) is not None and getattr(o, k) == x) for k, x in base.items()])
            c[f"krylov {mp.name} fits the matrix"] = o.solver in {"SPD": ("cg", "bicgstab", "gmres"), "SYMMETRIC": ("bicgstab", "gmres"), "GENERAL": ("bicgstab", "gmres")}[mp.name]
            for mv in MV:
                S = O.SKSPARSEOptions
                o = quiet(rd, D(sksparse_options=S(order="natural"), check_convergence=True, convergence_threshold=v["thr"], verbose=True), mp, mv)
                c[f"direct {mp.name} {mv.name} keeps the options"] = conj(o.check_convergence is True, o.verbose is True, o.convergence_threshold == v["thr"], o.sksparse_options.order == "natural")
                c[f"direct {mp.name} {mv.name} fits the matrix"] = o.solver in (("cholmod", "umfpack", "spsolve", "cudss") if mp.name == "SPD" else ("umfpack", "spsolve", "cudss"))
                if o.solver == "cholmod":
                    c[f"direct {mp.name} {mv.name} reads the stored triangle"] = mv.name == "FULL" or bool(o.sksparse_options.lower) == (mv.name == "LOWER")
            for s in ("cg", "gmres", "bicgstab"):
                o = ri(K(solver=s, **base), mp)
                c[f"explicit {s} on {mp.name} is kept"] = conj(o.solver == s, *[getattr(o, k) == x for k, x in base.items() if isinstance(x, Num) or isinstance(x, (int, float))])
        return c
    check(ck, name, var, harness, assume)


def detected(ck, name, form, n=2, view=None, diag=None):
    """what is reported about a matrix: GENERAL if it is visibly unsymmetric, never SPD with a diagonal entry <= 0, SPD if symmetric with a positive diagonal"""
    from feax.solvers import options as O
    det = getattr(fe, "detect_matrix_property", None) or O.detect_matrix_property
    codes = {"GENERAL": 0.0, "SYMMETRIC": 1.0, "SPD": 2.0}
    ctx, _ = new()
    if diag is None:        # symmetric, every diagonal
        a = ctx.array("a", (3,), -2, 2)
        full = lambda a: a[jnp.asarray([0, 1, 1, 2])]
    else:                   # this diagonal, every pair of off-diagonal entries
        a = ctx.array("a", (2,), -2, 2)
        full = lambda a: jnp.stack([diag[0] + 0 * a[0], a[0], a[1], diag[1] + 0 * a[0]])
    I, J = onp.repeat(onp.arange(n), n), onp.tile(onp.arange(n), n)

    def matrix(a):
        if form == "csr":
            return fe.csr.CSRMatrix(a, jnp.arange(0, n * n + 1, n), jnp.asarray(J), (n, n))
        from jax.experimental import sparse
        return sparse.BCOO((a, jnp.asarray(onp.stack([I, J], 1))), shape=(n, n))

    def judge(a, code):
        A = full(a).reshape(n, n)
        gap = jnp.max(jnp.abs(A - A.T)) if n > 1 else 0.0 * a[0]
        dmin = jnp.min(jnp.diagonal(A))
        vis, sym, pos, neg = gap > 1e-2, gap <= 0.0, dmin > 1e-6, dmin < -1e-6
        if view is not None:
            vis, sym = vis & False, sym | True
        bad = (vis & (code != 0)) | (neg & (code == 2)) | (sym & (code == 0)) | (sym & pos & (code != 2))
        return jnp.where(bad, 1.0, 0.0)

    def impl(a):
        MV = fe.problem.MatrixView
        kw = {} if view is None else {"matrix_view": MV[view]}
        if not isinstance(a, jax.core.Tracer):
            return judge(a, codes[det(matrix(full(a)), **kw).name])
        fork = Fork()
        saved = O.__dict__.get("bool")
        O.bool = lambda c: fork.decide(c) if isinstance(c, jax.core.Tracer) else bool(c)
        try:
            out = []
            for conds, mp in fork.paths(lambda: det(matrix(full(a)), **kw)):
                out.append(jnp.where(functools.reduce(lambda x, y: x & y, conds, jnp.asarray(True)), judge(a, codes[mp.name]), 0.0))
            return sum(out)
        except jax.errors.JAXTypeError as e:
            raise Unsupported(f"not followed: {str(e)[:120]}")
        finally:
            if saved is None:
                O.__dict__.pop("bool", None)
            else:
                O.bool = saved
    ck.forall(name, impl, lambda a: jnp.zeros(()), (a,), ctx, tol=1e-6, robust=True, validate=False)


def run(ck):
    ck.fn("feax.solvers.direct.umfpack.umfpack_solve and host callback", "feax.solvers.direct.cholmod.cholmod_solve and host callback", "feax.solvers.direct.spsolve.spsolve and host callback",
          "feax.solvers.direct._callback_utils", "feax.solvers.options.{resolve_direct_solver,resolve_iterative_solver,detect_matrix_property}")
    ck.bound("histories of 2-3 calls on one back end; systems of 2 equations with 3 stored entries (sparsity pattern, values and right-hand sides all symbolic; 3 equations with listed patterns), batches of 2; single, batched-matrix, batched-rhs and mixed calls in every order; classification: all 2x2 matrices with entries in [-2, 2] (CSR and BCOO)")
    ck.assumption("a factorization object solves with the values of its last factorize() on the analysed pattern, and returns an arbitrary vector if the pattern differs (contract stand-in for CHOLMOD / UMFPACK / SuperLU); systems with |det| >= 1 (CHOLMOD: symmetric and diagonally dominant)")
    full = ck.tier != "quick"
    two = [((0, 1, 1), (0, 2, 3)), ((0, 0, 1), (0, 1, 3))]
    three = [((0, 1, 1, 2, 2), (0, 2, 4, 5)), ((0, 2, 1, 2, 2), (0, 2, 4, 5)), ((0, 1, 2, 1, 2), (0, 3, 4, 5)), ((0, 1, 2, 1, 2), (0, 1, 3, 5)), ((1, 2, 0, 1, 2), (0, 2, 4, 5))]
    for b in ("umfpack", "cholmod", "spsolve"):
        for c in ("11", "1b", "b1", "bb", "rv", "vr"):
            ck.do(history, "any patterns", b, c)
        ck.do(history, "any patterns, padded", b, "11", pad=1)
        ck.do(history, "any patterns, padded", b, "bb", pad=2)
        ck.do(history, "any patterns, back to the first", b, "11A")
        ck.do(history, "same pattern, new values", b, "1B1", fixed=two[:1])
        if b == "umfpack":
            ck.do(history, "transposed solves", b, "11", kw={"trans": "T"})
            ck.do(history, "transposed solves", b, "1b", kw={"trans": "T"})
        if b == "cholmod":
            ck.do(history, "lower triangle", b, "11", kw={"lower": True})
            ck.do(history, "lower triangle", b, "1b", kw={"lower": True})
        for pair in ((0, 1), (2, 3), (0, 2)) + (((0, 4),) if b != "cholmod" else ()):
            ck.do(history, f"three equations, patterns {pair}", b, "111", n=3, nnz=5, fixed=[three[k] for k in pair])
    ck.do(resolved, "automatic selection")
    for f in ("csr", "bcoo"):
        ck.do(detected, f"classification of symmetric 2x2 matrices ({f})", f)
        for dg in ((1.0, 2.0), (1.0, -0.5), (-1.0, 1.0))[:3 if f == "csr" or full else 1]:
            ck.do(detected, f"classification of 2x2 matrices with diagonal {dg} ({f})", f, 2, None, dg)
    ck.do(detected, "classification of a stored triangle", "csr", 2, "UPPER")
