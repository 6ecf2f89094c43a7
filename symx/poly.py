"""Symbolic arrays: numpy arrays whose entries are polynomials over symbolic variables.

An ``SA`` of shape S is stored as ``coef`` (M, *S) float64 together with M
monomials; entry i is ``sum_m coef[m, i] * prod(vars in monomial m)``.  A
monomial is a sorted tuple of variable numbers (repetition = power).  Non
polynomial operations introduce *atoms*: fresh variables with a definition
(``1/p``, ``sqrt p``, ``ite(c, a, b)``, uninterpreted ``exp p`` ...), which are
handed to the SMT solver with their defining constraints.
"""
import numpy as np
import z3

MAXMONO = 400000


class Unsupported(Exception):
    """The encoder does not know how to translate something."""


class Ctx:
    """Variables, atom definitions, assumptions."""

    def __init__(self):
        self.names = []
        self.bounds = []
        self.z = []
        self.defs = {}        # var id -> fn(zp, z) -> list of z3 constraints; zp: polynomial -> z3 term, z: var -> z3 const
        self.deps = {}        # var id -> set of var ids it is defined from
        self.evalf = {}       # var id -> callable(env)->float
        self.atoms = {}       # (op, mono-key) -> list of (coef tuple, var id)
        self.assume = []      # (z3 bool, set of vars): side conditions (e.g. denominators nonzero)
        self.stats = {}
        self._uf = {}
        self.conds = {}
        self.nconds = 0
        self.sqrts = {}       # sqrt atom -> its argument polynomial

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def var(self, name, lo=None, hi=None):
        i = len(self.names)
        self.names.append(name)
        self.bounds.append((lo, hi))
        self.z.append(z3.Real(name))
        return i

    def array(self, name, shape, lo=-1.0, hi=1.0):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        ids = [self.var(f"{name}[{k}]", lo, hi) for k in range(n)]
        coef = np.zeros((n, n))
        coef[np.arange(n), np.arange(n)] = 1.0
        return SA(self, [(i,) for i in ids], coef.reshape((n,) + shape))

    def uf(self, name, arity):
        key = (name, arity)
        if key not in self._uf:
            self._uf[key] = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
        return self._uf[key]

    # ---- scalar polynomials: dict mono -> float -------------------------
    def z3poly(self, p):
        terms = []
        for m, c in p.items():
            if c == 0.0:
                continue
            t = rat(c)
            for v in m:
                t = t * self.z[v]
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def polyvars(self, p):
        s = set()
        for m, c in p.items():
            if c != 0.0:
                s.update(m)
        return s

    def atom(self, op, polys, define, evalf, lo=None, hi=None, extra=None):
        """Hash-consed atom for op(*polys)."""
        key = (op, tuple(tuple(sorted(m for m, c in p.items() if c != 0.0)) for p in polys), extra)
        vals = [np.array([p[m] for m in mk]) for p, mk in zip(polys, key[1])]
        lst = self.atoms.setdefault(key, [])
        for vs, vid in lst:
            if all(np.allclose(a, b, rtol=1e-10, atol=1e-13) for a, b in zip(vs, vals)):
                return vid
        vid = self.var(f"{op}#{len(self.names)}", lo, hi)
        lst.append((vals, vid))
        self.count("atoms")
        deps = set()
        for p in polys:
            deps |= self.polyvars(p)
        self.deps[vid] = deps
        self.defs[vid] = define
        self.evalf[vid] = evalf
        return vid

    def condkey(self, d):
        """number and representative of a condition polynomial; polynomials equal up to rounding share them"""
        ks = tuple(sorted(d))
        v = np.array([d[m] for m in ks])
        lst = self.conds.setdefault(ks, [])
        for w, n in lst:
            if np.allclose(v, w, rtol=1e-9, atol=1e-12):
                return n, dict(zip(ks, w.tolist()))
        lst.append((v, self.nconds))
        self.nconds += 1
        return self.nconds - 1, d

    def evaluate(self, p, env):
        s = 0.0
        for m, c in p.items():
            t = c
            for v in m:
                t *= self.value(v, env)
            s += t
        return s

    def value(self, v, env):
        if v not in env:
            if v not in self.evalf:
                lo, hi = self.bounds[v]
                env[v] = 0.0 if (lo is None or lo <= 0 <= (hi if hi is not None else 0)) else (lo if lo is not None else hi)
            else:
                env[v] = self.evalf[v](env)
        return env[v]

    def closure(self, vs):
        out, todo = set(), list(vs)
        while todo:
            v = todo.pop()
            if v in out:
                continue
            out.add(v)
            todo.extend(self.deps.get(v, ()))
        return out


def rat(x):
    x = float(x)
    if not np.isfinite(x):
        raise Unsupported(f"non-finite coefficient {x}")
    n, d = x.as_integer_ratio()
    return z3.RealVal(f"{n}/{d}") if d != 1 else z3.RealVal(n)


class SA:
    """Array of polynomials."""
    __array_priority__ = 1000
    __slots__ = ("ctx", "monos", "coef", "isint")

    def __init__(self, ctx, monos, coef, prune=True):
        self.ctx = ctx
        coef = np.asarray(coef, float)
        if prune and len(monos):
            flat = coef.reshape(len(monos), -1)
            nz = np.abs(flat).max(axis=1) > 0 if flat.shape[1] else np.zeros(len(monos), bool)
            if not nz.all():
                monos = [m for m, k in zip(monos, nz) if k]
                coef = coef[nz]
        self.monos = list(monos)
        self.coef = coef
        if len(self.monos) > MAXMONO:
            raise Unsupported("too many monomials")

    @property
    def shape(self):
        return self.coef.shape[1:]

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    @property
    def ndim(self):
        return self.coef.ndim - 1

    def is_const(self):
        return all(m == () for m in self.monos)

    def const(self):
        """Concrete part (only valid when is_const)."""
        if not self.monos:
            return np.zeros(self.shape)
        return self.coef[self.monos.index(())]

    def poly(self, idx=()):
        sel = self.coef[(slice(None),) + tuple(idx)]
        nz = np.nonzero(sel)[0]
        return {self.monos[k]: float(sel[k]) for k in nz}

    def polys(self):
        flat = self.coef.reshape(len(self.monos), -1) if self.monos else np.zeros((0, self.size))
        out = []
        for j in range(self.size):
            col = flat[:, j] if len(self.monos) else []
            out.append({self.monos[k]: float(col[k]) for k in np.nonzero(col)[0]} if len(self.monos) else {})
        return out

    def evaluate(self, env):
        """Numerical value under env (var id -> float)."""
        if not self.monos:
            return np.zeros(self.shape)
        w = np.array([np.prod([self.ctx.value(v, env) for v in m]) if m else 1.0 for m in self.monos])
        return np.tensordot(w, self.coef, axes=(0, 0))

    def diff(self, var):
        """Polynomial derivative w.r.t. a base variable (atoms not allowed to depend on it)."""
        acc = {}
        for k, m in enumerate(self.monos):
            for v in set(m):
                if v in self.ctx.deps and var in self.ctx.closure([v]):
                    raise Unsupported("derivative through an atom")
            n = m.count(var)
            if n:
                mm = list(m)
                mm.remove(var)
                mm = tuple(mm)
                acc[mm] = acc.get(mm, 0) + n * self.coef[k]
        return from_dict(self.ctx, acc, self.shape)

    # python operators, for specs written over SAs directly
    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __neg__(self): return neg(self)
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SA) and not o.is_const():
            return mul(self, inv(o))
        o = o.const() if isinstance(o, SA) else o
        return mul(self, 1.0 / np.asarray(o, float))

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return SA(self.ctx, self.monos, self.coef[(slice(None),) + idx])

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        n = len(self.monos)
        s = tuple(np.zeros(self.shape).reshape(s).shape)
        return SA(self.ctx, self.monos, self.coef.reshape((n,) + s))


def from_dict(ctx, d, shape):
    monos = list(d)
    if not monos:
        return SA(ctx, [], np.zeros((0,) + tuple(shape)))
    coef = np.stack([np.broadcast_to(np.asarray(d[m], float), shape) for m in monos])
    return SA(ctx, monos, coef)


def from_polys(ctx, polys, shape):
    monos = {}
    for p in polys:
        for m in p:
            monos.setdefault(m, len(monos))
    coef = np.zeros((len(monos), len(polys)))
    for j, p in enumerate(polys):
        for m, c in p.items():
            coef[monos[m], j] = c
    return SA(ctx, list(monos), coef.reshape((len(monos),) + tuple(shape)))


def lift(ctx, x):
    if isinstance(x, SA):
        return x
    x = np.asarray(x, float)
    return SA(ctx, [()], x[None])


def ctx_of(*xs):
    for x in xs:
        if isinstance(x, SA):
            return x.ctx
    raise ValueError


def align(*xs):
    """Common monomial list; returns monos, [coef arrays (M,*shape_i)]."""
    ctx = ctx_of(*xs)
    xs = [lift(ctx, x) for x in xs]
    pos = {}
    for x in xs:
        for m in x.monos:
            pos.setdefault(m, len(pos))
    out = []
    for x in xs:
        c = np.zeros((len(pos),) + x.shape)
        if x.monos:
            c[[pos[m] for m in x.monos]] = x.coef
        out.append(c)
    return ctx, list(pos), out


def add(a, b):
    ctx, monos, (ca, cb) = align(a, b)
    nd = max(ca.ndim, cb.ndim)
    ca = ca.reshape(ca.shape[:1] + (1,) * (nd - ca.ndim) + ca.shape[1:])
    cb = cb.reshape(cb.shape[:1] + (1,) * (nd - cb.ndim) + cb.shape[1:])
    return SA(ctx, monos, ca + cb)


def neg(a):
    if isinstance(a, SA):
        return SA(a.ctx, a.monos, -a.coef, prune=False)
    return -np.asarray(a)


def _merge(m1, m2):
    return tuple(sorted(m1 + m2))


def group(ctx, monos, coef):
    """Sum coefficient rows with equal monomials."""
    pos = {}
    idx = np.empty(len(monos), int)
    for k, m in enumerate(monos):
        idx[k] = pos.setdefault(m, len(pos))
    if len(pos) == len(monos):
        return SA(ctx, monos, coef)
    out = np.zeros((len(pos),) + coef.shape[1:])
    np.add.at(out, idx, coef)
    return SA(ctx, list(pos), out)


def mul(a, b):
    ctx = ctx_of(a, b)
    if not isinstance(b, SA) or (b.is_const()):
        c = b.const() if isinstance(b, SA) else np.asarray(b, float)
        a = lift(ctx, a)
        c = np.asarray(c, float)
        nd = max(a.ndim, c.ndim)
        ca = a.coef.reshape(a.coef.shape[:1] + (1,) * (nd - a.ndim) + a.shape)
        return SA(ctx, a.monos, ca * c)
    if not isinstance(a, SA) or a.is_const():
        return mul(b, a)
    nd = max(a.ndim, b.ndim)
    ca = a.coef.reshape(a.coef.shape[:1] + (1,) * (nd - a.ndim) + a.shape)
    cb = b.coef.reshape(b.coef.shape[:1] + (1,) * (nd - b.ndim) + b.shape)
    if len(a.monos) > len(b.monos):
        ca, cb, a, b = cb, ca, b, a
    acc = {}
    order = []
    for k, m in enumerate(a.monos):
        blk = ca[k][None] * cb                      # (Mb, *shape)
        flat = blk.reshape(blk.shape[0], -1)
        nz = np.nonzero(np.abs(flat).max(axis=1) > 0)[0] if flat.shape[1] else []
        for q in nz:
            mm = _merge(m, b.monos[q])
            if mm in acc:
                acc[mm] = acc[mm] + blk[q]
            else:
                acc[mm] = blk[q].copy()
    shape = np.broadcast_shapes(a.shape, b.shape)
    return unsqrt(from_dict(ctx, acc, shape))


def map_elems(fn, *xs):
    """Elementwise fn(dict,...)->dict over broadcast SAs."""
    ctx = ctx_of(*xs)
    shape = np.broadcast_shapes(*[np.shape(x) if not isinstance(x, SA) else x.shape for x in xs])
    ps = []
    for x in xs:
        x = lift(ctx, x)
        nd = len(shape)
        c = x.coef.reshape(x.coef.shape[:1] + (1,) * (nd - x.ndim) + x.shape)
        c = np.broadcast_to(c, c.shape[:1] + shape)
        ps.append(SA(ctx, x.monos, c, prune=False).polys())
    return from_polys(ctx, [fn(*t) for t in zip(*ps)], shape)


def pconst(p):
    """Concrete value of a polynomial dict, or None."""
    for m, c in p.items():
        if m != () and c != 0.0:
            return None
    return p.get((), 0.0)


def pkey(p):
    return p


def padd(p, q, s=1.0):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0.0) + s * c
        if r[m] == 0.0:
            del r[m]
    return r


def pclose(p, q, tol=1e-12):
    for m in set(p) | set(q):
        a, b = p.get(m, 0.0), q.get(m, 0.0)
        if abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            return False
    return True


def _inv_poly(ctx, p):
    c = pconst(p)
    if c is not None:
        if c == 0.0:
            raise Unsupported("division by zero")
        return {(): 1.0 / c}
    # single monomial consisting of one invertible atom: 1/(c*v) with v=inv(q) -> not simplified
    # normalise scale so that inv(c*p) shares the atom of inv(p)
    lead = max(p.items(), key=lambda t: (abs(t[1]), t[0]))[1]
    q = {m: c / lead for m, c in p.items()}
    box = []

    def define(zp, z):
        r = {}
        for m, c in q.items():
            mm = tuple(sorted(m + (box[0],)))
            r[mm] = r.get(mm, 0.0) + c
        return [zp(r) == 1]
    lo, hi = _bounds_of(ctx, q)
    blo = bhi = None
    if lo is not None and (lo > 0 or hi < 0):
        blo, bhi = min(1 / lo, 1 / hi), max(1 / lo, 1 / hi)
    vid = ctx.atom("inv", [q], define, lambda env: 1.0 / ctx.evaluate(q, env), blo, bhi)
    box.append(vid)
    return {(vid,): 1.0 / lead}


def inv(a):
    return cancel(map_elems(lambda p: _inv_poly(a.ctx, p), a))


def cancel(a):
    return a


def _bounds_of(ctx, p):
    lo = hi = 0.0
    for m, c in p.items():
        a, b = 1.0, 1.0
        for v in m:
            l, h = ctx.bounds[v]
            if l is None or h is None:
                return None, None
            k = (a * l, a * h, b * l, b * h)
            a, b = min(k), max(k)
        # even powers are not tightened (sound over-approximation)
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi


def uf_atom(ctx, op, p, fn, facts=None, lo=None, hi=None):
    c = pconst(p)
    if c is not None:
        return {(): float(fn(c))}
    f = ctx.uf(op, 1)
    box = []
    if op in ("exp", "exp2", "expm1", "tanh", "logistic", "log", "log1p"):     # increasing: bounds of the argument carry over
        a, b = _bounds_of(ctx, p)
        if a is not None and not (op == "log" and a <= 0) and not (op == "log1p" and a <= -1):
            v = float(fn(a))
            lo = v - 1e-9 * (1 + abs(v)) if lo is None else max(lo, v - 1e-9 * (1 + abs(v)))
        if b is not None and b < 200:
            v = float(fn(b)) if not (op in ("log", "log1p") and b <= 0) else None
            if v is not None and np.isfinite(v):
                hi = v + 1e-9 * (1 + abs(v)) if hi is None else min(hi, v + 1e-9 * (1 + abs(v)))

    def define(zp, z):
        t = zp(p)
        d = [z[box[0]] == f(t)]
        if facts:
            d += facts(z[box[0]], t)
        return d
    vid = ctx.atom(op, [p], define, lambda env: float(fn(ctx.evaluate(p, env))), lo, hi)
    box.append(vid)
    return {(vid,): 1.0}


def sqrt_atom(ctx, p):
    c = pconst(p)
    if c is not None:
        return {(): float(np.sqrt(c))}
    box = []
    lo, hi = _bounds_of(ctx, p)
    vid = ctx.atom("sqrt", [p], lambda zp, z: [z[box[0]] >= 0, zp({(box[0], box[0]): 1.0}) == zp(p)],
                   lambda env: float(np.sqrt(max(ctx.evaluate(p, env), 0.0))), 0.0,
                   None if hi is None else float(np.sqrt(max(hi, 0.0))))
    box.append(vid)
    ctx.sqrts[vid] = p
    return {(vid,): 1.0}


def unsqrt(a):
    """rewrite squares of sqrt atoms by their argument"""
    if not isinstance(a, SA) or not a.ctx.sqrts:
        return a
    sq = a.ctx.sqrts
    hit = [k for k, m in enumerate(a.monos) if any(v in sq and m.count(v) > 1 for v in m)]
    if not hit:
        return a
    acc = {}
    for k, m in enumerate(a.monos):
        todo = [(m, 1.0)]
        while todo:
            m1, c1 = todo.pop()
            v = next((v for v in m1 if v in sq and m1.count(v) > 1), None)
            if v is None:
                acc[m1] = acc[m1] + c1 * a.coef[k] if m1 in acc else c1 * a.coef[k]
                continue
            rest = list(m1)
            rest.remove(v)
            rest.remove(v)
            for m2, c2 in sq[v].items():
                todo.append((tuple(sorted(tuple(rest) + m2)), c1 * c2))
    return from_dict(a.ctx, acc, a.shape)


class SB:
    """Array of booleans: python bool or (z3 BoolRef, evaluator, deps)."""
    __slots__ = ("ctx", "arr")

    def __init__(self, ctx, arr):
        self.ctx = ctx
        self.arr = arr   # object ndarray of bool | BoolAtom

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    @property
    def ndim(self):
        return self.arr.ndim

    def is_const(self):
        return all(isinstance(x, (bool, np.bool_)) for x in self.arr.ravel())

    def const(self):
        return self.arr.astype(bool)


class BoolAtom:
    __slots__ = ("z", "ev", "deps", "key", "arg")

    def __init__(self, z, ev, deps, key, arg=None):
        self.z, self.ev, self.deps, self.key, self.arg = z, ev, deps, key, arg


def bnot(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if x.key[0] == "not" and x.arg is not None:
        return x.arg
    return BoolAtom(lambda zp: z3.Not(x.z(zp)), lambda env: not x.ev(env), x.deps, ("not", x.key), x)


def band(x, y):
    if isinstance(x, (bool, np.bool_)):
        return y if x else False
    if isinstance(y, (bool, np.bool_)):
        return x if y else False
    parts = set(x.key[1:] if x.key[0] == "and" else (x.key,)) | set(y.key[1:] if y.key[0] == "and" else (y.key,))
    if x.key[0] != "and" and parts == set(y.key[1:]) or x.key == y.key:
        return y
    if any(("not", k) in parts for k in parts):
        return False
    return BoolAtom(lambda zp: z3.And(x.z(zp), y.z(zp)), lambda env: x.ev(env) and y.ev(env), x.deps | y.deps, ("and",) + tuple(sorted(parts, key=str)))


def bor(x, y):
    return bnot(band(bnot(x), bnot(y)))


def bxor(x, y):
    return bor(band(x, bnot(y)), band(bnot(x), y))


def _small_mono(ctx, m):
    """all factors bounded by 1e3 (a rounding-size coefficient on it is rounding noise)"""
    return all(ctx.bounds[v][0] is not None and ctx.bounds[v][1] is not None and max(abs(ctx.bounds[v][0]), abs(ctx.bounds[v][1])) <= 1e3 for v in m)


def _multiple(d, p):
    """d = c * p with c > 0 (up to rounding)"""
    if len(d) > len(p):
        return False
    k = max(p, key=lambda m: abs(p[m]))
    c = d.get(k, 0.0) / p[k]
    return c > 0 and all(abs(d.get(m, 0.0) - c * p.get(m, 0.0)) < 1e-12 * c * abs(p[k]) for m in set(d) | set(p))


def compare(ctx, op, p, q):
    """p op q for scalar polys; op in lt le gt ge eq ne."""
    d = padd(p, q, -1.0)
    c = pconst(d)
    if c is not None:
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
    if all(abs(v) < 1e-15 for v in d.values()):
        return op in ("le", "ge", "eq")
    lo, hi = _bounds_of(ctx, d)
    if lo is not None:
        if op in ("lt", "le"):
            if hi < 0: return True
            if lo > 0: return False
        if op in ("gt", "ge"):
            if lo > 0: return True
            if hi < 0: return False
        if op in ("eq", "ne") and (lo > 0 or hi < 0):
            return op == "ne"
        if op == "le" and hi <= 0 or op == "ge" and lo >= 0:
            return True
    # canonical form (lt / eq, unit leading coefficient), so that equivalent ways of writing a test share one key
    if op == "gt":
        return compare(ctx, "lt", q, p)
    if op == "ge":
        return bnot(compare(ctx, "lt", p, q))
    if op == "le":
        return bnot(compare(ctx, "lt", q, p))
    if op == "ne":
        return bnot(compare(ctx, "eq", p, q))
    big = max(abs(v) for v in d.values())
    d = {m: v / big for m, v in d.items() if abs(v) > 1e-14 * big or not _small_mono(ctx, m)}
    if op == "eq" and d[min(d)] < 0:
        d = {m: -v for m, v in d.items()}
    f = {"lt": lambda t: t < 0, "eq": lambda t: t == 0}[op]
    if op == "lt" and len(d) > 1 and any(_multiple(d, p) for p in ctx.sqrts.values()):
        return False        # a positive multiple of something under a square root (a norm) is never negative
    n, d = ctx.condkey(d)
    key = (op, n)
    return BoolAtom(lambda zp: f(zp(d)), lambda env: bool(f(ctx.evaluate(d, env))), ctx.polyvars(d), key)


def ite(ctx, cond, p, q):
    """cond ? p : q on scalar polys."""
    if isinstance(cond, (bool, np.bool_)):
        return p if cond else q
    if pclose(p, q, 1e-15):
        return p
    box = []
    lo1, hi1 = _bounds_of(ctx, p)
    lo2, hi2 = _bounds_of(ctx, q)
    lo = hi = None
    if lo1 is not None and lo2 is not None:
        lo, hi = min(lo1, lo2), max(hi1, hi2)
    vid = ctx.atom("ite", [p, q], lambda zp, z: [z[box[0]] == z3.If(cond.z(zp), zp(p), zp(q))],
                   lambda env: ctx.evaluate(p, env) if cond.ev(env) else ctx.evaluate(q, env),
                   lo, hi, extra=str(cond.key))
    box.append(vid)
    ctx.deps[vid] |= cond.deps
    return {(vid,): 1.0}
