"""numpy on solver terms: object arrays of pyx.Num/Flag behind a stand-in for the module-level ``onp`` of host code.

``with numpy_on_terms(module, ...)`` replaces the numpy alias inside the modules under test; the code itself is unchanged."""
import contextlib
import functools
import numpy as np
import z3
from . import pyx
from .pyx import Num, Flag, term, wrap, Unsupported

CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal}


class SymFloat(float):
    """stand-in for the builtin float inside the code under test: leaves terms alone, still names the float dtype"""
    def __new__(cls, x=0.0):
        return x if isinstance(x, Num) else float(x)


def _dt(d):
    return np.dtype(float) if d is SymFloat else np.dtype(d)


def symbolic(x):
    return isinstance(x, (Num, Flag))


def has_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object and any(symbolic(x) for x in a.flat)


def plain(a):
    """concrete ndarray of natural dtype, or None if symbolic"""
    if isinstance(a, OArr):
        if has_sym(a):
            return None
        l = a.view(np.ndarray)
        return np.array(l.tolist()) if l.size else np.zeros(l.shape, getattr(a, "kind", None) or float)
    return np.asarray(a)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, Num):
        c = c != 0
        if isinstance(c, bool):
            return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, Flag)) or isinstance(b, (bool, np.bool_, Flag)):
        return wrap(z3.If(c.z, term(a), term(b)))
    x, y = term(a if not isinstance(a, np.generic) else a.item()), term(b if not isinstance(b, np.generic) else b.item())
    if z3.is_int(x) != z3.is_int(y):
        x, y = pyx._real(x), pyx._real(y)
    return wrap(z3.If(c.z, x, y))


def _item(x):
    return x.item() if isinstance(x, np.generic) else x


class OArr(np.ndarray):
    """object array; comparisons and selections stay symbolic"""

    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        ins = tuple(np.asarray(i).view(np.ndarray) if isinstance(i, np.ndarray) else i for i in ins)
        ins = tuple(i.astype(object) if isinstance(i, np.ndarray) else i for i in ins)
        if method == "__call__":
            kw.pop("dtype", None)
            if uf in (np.maximum, np.minimum):
                f = lambda a, b: ite(a >= b if uf is np.maximum else a <= b, a, b)
                r = np.frompyfunc(f, 2, 1)(*ins)
            elif uf in CMP:
                op = {np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b,
                      np.greater_equal: lambda a, b: a >= b, np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b}[uf]
                r = np.frompyfunc(lambda a, b: op(_item(a), _item(b)), 2, 1)(*ins)
            elif uf in (np.logical_and, np.bitwise_and):
                r = np.frompyfunc(lambda a, b: a & b, 2, 1)(*ins)
            elif uf in (np.logical_or, np.bitwise_or):
                r = np.frompyfunc(lambda a, b: a | b, 2, 1)(*ins)
            elif uf in (np.logical_not, np.invert):
                r = np.frompyfunc(lambda a: (~a if isinstance(a, Flag) else not a), 1, 1)(*ins)
            elif uf is np.floor:
                r = np.frompyfunc(_floor, 1, 1)(*ins)
            elif uf is np.ceil:
                r = np.frompyfunc(lambda a: -_floor(-a), 1, 1)(*ins)
            elif uf in (np.absolute,):
                r = np.frompyfunc(abs, 1, 1)(*ins)
            elif uf in (np.add, np.subtract, np.multiply, np.true_divide, np.floor_divide, np.remainder, np.negative, np.square):
                g = {np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b, np.multiply: lambda a, b: a * b,
                     np.true_divide: lambda a, b: a / b, np.floor_divide: lambda a, b: a // b, np.remainder: lambda a, b: a % b}
                if uf is np.negative:
                    r = np.frompyfunc(lambda a: -a, 1, 1)(*ins)
                elif uf is np.square:
                    r = np.frompyfunc(lambda a: a * a, 1, 1)(*ins)
                else:
                    r = np.frompyfunc(lambda a, b: g[uf](_item(a), _item(b)), 2, 1)(*ins)
            elif uf in (np.power, np.float_power):
                r = np.frompyfunc(_pow, 2, 1)(*ins)
            elif uf is np.matmul:
                r = np.matmul(*ins)
                if not isinstance(r, np.ndarray):
                    return r
            elif uf is np.sqrt:
                r = np.frompyfunc(lambda a: _pow(a, 0.5), 1, 1)(*ins)
            else:
                raise Unsupported(f"ufunc {uf.__name__} on terms")
            r = wrapa(r)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == "reduce" and uf is np.add:
            r = np.add.reduce(ins[0], **kw)
            return wrapa(r) if isinstance(r, np.ndarray) else r
        if method == "at" and uf is np.add:
            a, idx, v = self, ins[1], ins[2]
            v = np.broadcast_to(np.asarray(v, object), np.shape(plain(idx)))
            for k, x in zip(np.asarray(plain(wrapa(idx))).ravel(), v.ravel()):
                a[int(k)] = a[int(k)] + x
            return None
        raise Unsupported(f"ufunc {uf.__name__}.{method} on terms")

    def astype(self, dt, *a, **k):
        dt = _dt(dt)
        f = None
        if dt == np.int32:
            f = lambda x: wrap((term(x) + 2 ** 31) % 2 ** 32 - 2 ** 31) if isinstance(x, Num) else int(np.int64(x).astype(np.int32))
        elif dt.kind in "iu":
            f = lambda x: x if isinstance(x, Num) and z3.is_int(x.z) else (wrap(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z))) if isinstance(x, Num) else (ite(x, 1, 0) if isinstance(x, Flag) else int(x)))
        elif dt.kind == "b":
            f = lambda x: (x != 0) if isinstance(x, Num) else (x if isinstance(x, Flag) else bool(x))
        elif dt.kind == "f":
            f = lambda x: x if isinstance(x, Num) else (ite(x, 1.0, 0.0) if isinstance(x, Flag) else float(x))
        else:
            return self.copy()
        r = wrapa(np.frompyfunc(f, 1, 1)(self.view(np.ndarray))) if self.size else self.copy()
        r.kind = dt
        return r

    def __array_finalize__(self, o):
        self.kind = getattr(o, "kind", None)

    def _key(self, k):
        if isinstance(k, tuple):
            return tuple(self._key(x) for x in k)
        if isinstance(k, Num):
            return k.__index__()
        if isinstance(k, Flag):
            return bool(k)
        if isinstance(k, np.ndarray) and k.dtype == object:
            if k.size == 0:
                return k.astype(int).view(np.ndarray) if not isinstance(k, OArr) else np.zeros(k.shape, k.kind if k.kind is not None and k.kind.kind in "ib" else int)
            if any(isinstance(x, (Flag, bool, np.bool_)) for x in k.flat):
                return np.array([bool(x) for x in k.ravel()], bool).reshape(k.shape)
            return np.array([x.__index__() if isinstance(x, Num) else int(x) for x in k.ravel()], int).reshape(k.shape)
        return k

    def __getitem__(self, k):
        r = self.view(np.ndarray)[self._key(k)]
        return wrapa(r, self.kind) if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        self.view(np.ndarray)[self._key(k)] = v.view(np.ndarray) if isinstance(v, OArr) else v

    def any(self, axis=None, **k):
        return self._red(lambda a, b: a | b, False, axis)

    def all(self, axis=None, **k):
        return self._red(lambda a, b: a & b, True, axis)

    def max(self, axis=None, **k):
        return self._red(lambda a, b: ite(a >= b, a, b), None, axis)

    def min(self, axis=None, **k):
        return self._red(lambda a, b: ite(a <= b, a, b), None, axis)

    def clip(self, lo=None, hi=None, **k):
        r = self if lo is None else np.maximum(self, lo)
        return r if hi is None else np.minimum(r, hi)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def _red(self, f, init, axis):
        v = self.view(np.ndarray)
        if axis is None:
            l = list(v.ravel())
            return functools.reduce(f, l if init is None else [init] + l)
        v = np.moveaxis(v, axis, -1)
        out = np.empty(v.shape[:-1], object)
        for i in np.ndindex(out.shape):
            l = list(v[i])
            out[i] = functools.reduce(f, l if init is None else [init] + l)
        return wrapa(out)


def _pow(a, b):
    a, b = _item(a), _item(b)
    if not symbolic(a) and not symbolic(b):
        return a ** b
    if not symbolic(b) and float(b) == 0.5:
        return pyx.ENG.sqrt(a.z)
    if symbolic(b) or float(b) != int(b) or b < 0:
        raise Unsupported("power of terms")
    return a ** int(b)


def _floor(a):
    if isinstance(a, Num):
        return wrap(z3.ToInt(a.z)) if z3.is_real(a.z) else a
    return int(np.floor(a))


def wrapa(r, kind=None):
    if not isinstance(r, np.ndarray):
        a = np.empty((), object)
        a[()] = r
        r = a
    o = np.array([_item(x) for x in r.ravel()] + [None], object)[:-1].reshape(r.shape).view(OArr)
    o.kind = kind if kind is not None else (getattr(r, "kind", None) if isinstance(r, OArr) else (r.dtype if r.dtype != object else None))
    return o


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if n == "norm":
            return _norm
        if not callable(f) or isinstance(f, type):
            return f

        def call(a, *r, **k):
            p = plain(a) if isinstance(a, OArr) else np.asarray(a)
            if p is None:
                raise Unsupported(f"numpy.linalg.{n} on terms")
            q = f(p, *r, **k)
            return wrapa(q) if isinstance(q, np.ndarray) else q
        return call


def _norm(x, ord=None, axis=None, keepdims=False):
    x = NP().asarray(x)
    p = plain(x)
    if p is not None:
        q = np.linalg.norm(p, ord=ord, axis=axis, keepdims=keepdims)
        return wrapa(q) if isinstance(q, np.ndarray) else q
    if ord not in (None, 2) or (axis is None and x.ndim != 1):
        raise Unsupported("norm of terms")
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    return wrapa(np.frompyfunc(lambda a: _pow(a, 0.5), 1, 1)(s.view(np.ndarray))) if isinstance(s, np.ndarray) else _pow(s, 0.5)


class NP:
    """stand-in for numpy inside the code under test; everything not listed runs on concrete data only"""

    def __getattr__(self, n):
        f = getattr(np, n)
        if not callable(f) or isinstance(f, type) or isinstance(f, np.ufunc):
            return f

        def call(*a, **k):
            def conc(x):
                if isinstance(x, OArr):
                    p = plain(x)
                    if p is None:
                        raise Unsupported(f"numpy.{n} on terms")
                    return p
                if isinstance(x, (list, tuple)):
                    return type(x)(conc(y) for y in x)
                if symbolic(x):
                    raise Unsupported(f"numpy.{n} on terms")
                return x
            r = f(*[conc(x) for x in a], **{q: conc(x) for q, x in k.items()})
            if isinstance(r, tuple):
                return tuple(wrapa(x) if isinstance(x, np.ndarray) else x for x in r)
            return wrapa(r) if isinstance(r, np.ndarray) else r
        return call

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, OArr):
            r = x
        elif isinstance(x, np.ndarray):
            r = wrapa(x)
        elif hasattr(x, "__array__") and not isinstance(x, np.generic):
            r = wrapa(np.asarray(x))
        else:
            def deep(y):
                return [deep(z) for z in y] if isinstance(y, (list, tuple, np.ndarray)) else y
            l = deep(x)

            def shape(y):
                return (len(y),) + (shape(y[0]) if y else ()) if isinstance(y, list) else ()

            def flat(y):
                return [q for z in y for q in flat(z)] if isinstance(y, list) else [y]
            s = shape(l)
            o = np.empty(len(flat(l)), object)
            for i, q in enumerate(flat(l)):
                o[i] = _item(q)
            r = wrapa(o.reshape(s))
        return r.astype(dtype) if dtype is not None else r

    array = asarray

    def _new(self, shape, v, dtype):
        shape = (shape,) if not isinstance(shape, (tuple, list)) else tuple(shape)
        o = np.empty([int(s) for s in shape], object)
        o[...] = v
        r = wrapa(o)
        r.kind = _dt(dtype)
        return r

    def full(self, shape, v, dtype=float): return self._new(shape, v, dtype)
    def zeros(self, shape, dtype=float): return self._new(shape, False if _dt(dtype).kind == "b" else 0, dtype)
    def ones(self, shape, dtype=float): return self._new(shape, True if _dt(dtype).kind == "b" else 1, dtype)
    def ones_like(self, x, dtype=float): return self.ones(np.shape(x), dtype)
    def zeros_like(self, x, dtype=float): return self.zeros(np.shape(x), dtype)

    linalg = _Linalg()

    def linspace(self, a, b, num=50, **k):
        if not symbolic(a) and not symbolic(b):
            return wrapa(np.linspace(a, b, num, **k))
        if k:
            raise Unsupported("linspace options")
        return wrapa(np.array([a + (b - a) * (pyx.Fraction(i, num - 1) if num > 1 else 0) for i in range(num)] + [None], object)[:-1])

    def arange(self, *a, dtype=None, **k):
        if any(symbolic(x) for x in a):
            raise Unsupported("arange of terms")
        return wrapa(np.arange(*a, dtype=dtype, **k))

    def meshgrid(self, *xs, indexing="xy", **k):
        if k:
            raise Unsupported("meshgrid options")
        return [wrapa(x) for x in np.meshgrid(*[self.asarray(x).view(np.ndarray) for x in xs], indexing=indexing)]

    def column_stack(self, l):
        return wrapa(np.column_stack([self.asarray(x).view(np.ndarray) for x in l]))

    def isnan(self, x):
        f = lambda a: False if symbolic(a) else bool(np.isnan(float(a)))
        return wrapa(np.frompyfunc(f, 1, 1)(self.asarray(x).view(np.ndarray)), np.dtype(bool)) if isinstance(x, (np.ndarray, list, tuple)) else f(x)

    def einsum(self, spec, *ops, **k):
        return wrapa(np.einsum(spec, *[self.asarray(x).view(np.ndarray) for x in ops]))

    def where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        c, a, b = (x if isinstance(x, np.ndarray) else np.asarray(x, object) for x in (c, *ab))
        return wrapa(np.frompyfunc(lambda c, a, b: ite(_item(c), _item(a), _item(b)), 3, 1)(*np.broadcast_arrays(c.view(np.ndarray), a.view(np.ndarray), b.view(np.ndarray))))

    def nonzero(self, m):
        m = self.asarray(m)
        b = np.array([bool(x) for x in m.ravel()], bool).reshape(m.shape)
        return tuple(wrapa(x) for x in np.nonzero(b))

    def unique(self, x, **k):
        x = self.asarray(x)
        if not has_sym(x) or k:
            return wrapa(np.unique(plain(x), **k)) if not k else NP.__getattr__(self, "unique")(x, **k)
        l = []                                     # distinct elements, ascending (comparisons fork)
        for v in x.ravel():
            i = 0
            while i < len(l) and bool(l[i] < v):
                i += 1
            if i == len(l) or not bool(l[i] == v):
                l.insert(i, v)
        return self.asarray(l)

    def argsort(self, x, **k):
        x = self.asarray(x)
        if not has_sym(x):
            return wrapa(np.argsort(plain(x), **k))
        idx = []
        for j, v in enumerate(x.ravel()):
            i = 0
            while i < len(idx) and bool(x[idx[i]] <= v):
                i += 1
            idx.insert(i, j)
        return wrapa(np.array(idx, int))

    def searchsorted(self, a, v, side="left"):
        a, v = self.asarray(a), self.asarray(v)
        if not has_sym(a) and not has_sym(v):
            return wrapa(np.searchsorted(plain(a), plain(v), side))
        cnt = lambda q: sum((ite(x < q if side == "left" else x <= q, 1, 0) for x in a.ravel()), 0)
        return wrapa(np.frompyfunc(cnt, 1, 1)(v.view(np.ndarray)))

    def isin(self, x, s):
        x, s = self.asarray(x), self.asarray(s)
        f = lambda v: functools.reduce(lambda p, q: p | q, [v == _item(y) for y in s.ravel()], False)
        return wrapa(np.frompyfunc(f, 1, 1)(x.view(np.ndarray)), np.dtype(bool)) if x.size else wrapa(np.zeros(x.shape, bool))

    def union1d(self, a, b):
        return self.unique(self.concatenate([self.asarray(a).ravel(), self.asarray(b).ravel()]))

    def concatenate(self, l, axis=0):
        return wrapa(np.concatenate([self.asarray(x).view(np.ndarray) for x in l], axis))

    def stack(self, l, axis=0):
        return wrapa(np.stack([self.asarray(x).view(np.ndarray) for x in l], axis))

    def array_equal(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        return a.shape == b.shape and bool((a == b).all())

    def clip(self, x, lo, hi):
        return np.minimum(np.maximum(self.asarray(x), lo), hi)

    def sum(self, x, axis=None):
        return self.asarray(x).sum(axis=axis)

    def max(self, x, axis=None): return self.asarray(x).max(axis)
    def min(self, x, axis=None): return self.asarray(x).min(axis)
    def any(self, x, axis=None): return self.asarray(x).any(axis)
    def all(self, x, axis=None): return self.asarray(x).all(axis)

    def broadcast_to(self, x, s):
        return wrapa(np.broadcast_to(self.asarray(x).view(np.ndarray), s))


@contextlib.contextmanager
def numpy_on_terms(*modules):
    """replace every alias of numpy in the modules"""
    saved = []
    if pyx.ENG is None:            # concrete replay: the code runs on numpy itself
        yield
        return
    try:
        for m in modules:
            for k, v in list(vars(m).items()):
                if v is np:
                    saved.append((m, k))
                    setattr(m, k, NP())
        yield
    finally:
        for m, k in saved:
            setattr(m, k, np)
