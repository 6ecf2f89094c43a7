"""Path-exploring symbolic execution of host-side Python: the real functions run on solver terms.

Num wraps a z3 Real/Int term; branching on a symbolic comparison asks the solver which outcomes are feasible under the
path condition and explores each by re-execution.  Claims returned by the harness are proved per path; a model is
replayed by running the same harness on plain numbers."""
import os
import z3
from fractions import Fraction
from .poly import Unsupported, rat

ENG = None


def term(x):
    if isinstance(x, Num):
        return x.z
    if isinstance(x, Flag):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return rat(float(x))


def is_num(x):
    import numpy as np
    return isinstance(x, (Num, int, float, Fraction, np.floating, np.integer)) and not isinstance(x, bool)


def wrap(z):
    z = z3.simplify(z)
    if z3.is_bool(z):
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return Flag(z)
    return Num(z)


class Flag:
    """symbolic boolean"""

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENG.decide(self.z)

    def __and__(self, o): return wrap(z3.And(self.z, term(o)))
    def __or__(self, o): return wrap(z3.Or(self.z, term(o)))
    def __invert__(self): return wrap(z3.Not(self.z))
    __rand__, __ror__ = __and__, __or__


def _real(z):
    return z3.ToReal(z) if z3.is_int(z) else z


class Num:
    """symbolic number (real or integer)"""

    def __init__(self, z):
        self.z = z

    def _op(self, o, f, rev=False, rnd=False):
        if not is_num(o):
            return NotImplemented
        a, b = self.z, term(o)
        if z3.is_int(a) != z3.is_int(b):
            a, b = _real(a), _real(b)
        r = wrap(f(b, a) if rev else f(a, b))
        return ENG.rounded(r) if rnd and ENG is not None else r

    def __add__(self, o): return self._op(o, lambda a, b: a + b, rnd=True)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b, rnd=True)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __radd__(self, o): return self._op(o, lambda a, b: a + b, True, True)
    def __rsub__(self, o): return self._op(o, lambda a, b: a - b, True, True)
    def __rmul__(self, o): return self._op(o, lambda a, b: a * b, True)
    def __truediv__(self, o):
        if is_num(o):
            ENG.guard(term(o) != 0)
        return self._op(o, lambda a, b: _real(a) / _real(b))
    def __rtruediv__(self, o):
        ENG.guard(self.z != 0)
        return self._op(o, lambda a, b: _real(a) / _real(b), True)
    def __floordiv__(self, o):
        if not (z3.is_int(self.z) and isinstance(o, (int, Num))):
            raise Unsupported("floor division of reals")
        ENG.guard(term(o) > 0)
        return self._op(o, lambda a, b: a / b)
    def __rfloordiv__(self, o):
        if not (z3.is_int(self.z) and isinstance(o, int)):
            raise Unsupported("floor division of reals")
        ENG.guard(self.z > 0)
        if 0 <= o <= 32:           # count the multiples of the divisor (keeps the arithmetic linear)
            return wrap(z3.Sum([z3.If(k * self.z <= o, z3.IntVal(1), z3.IntVal(0)) for k in range(1, o + 1)]) if o else z3.IntVal(0))
        return self._op(o, lambda a, b: a / b, True)
    def __mod__(self, o):
        if not (z3.is_int(self.z) and isinstance(o, (int, Num))):
            raise Unsupported("modulus of reals")
        ENG.guard(term(o) > 0)
        return self._op(o, lambda a, b: a % b)
    def __rmod__(self, o):
        if not (z3.is_int(self.z) and isinstance(o, int)):
            raise Unsupported("modulus of reals")
        ENG.guard(self.z > 0)
        if 0 <= o <= 32:
            return o - (o // self) * self
        return self._op(o, lambda a, b: a % b, True)
    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported("power")
        r = 1
        for _ in range(k):
            r = r * self
        return r
    def __neg__(self): return wrap(-self.z)
    def __pos__(self): return self
    def __abs__(self): return wrap(z3.If(self.z >= 0, self.z, -self.z))
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._op(o, lambda a, b: a == b) if is_num(o) else False
    def __ne__(self, o): return self._op(o, lambda a, b: a != b) if is_num(o) else True
    def __hash__(self): return hash(str(self.z))
    def __bool__(self): return ENG.decide(self.z != 0)
    def __format__(self, spec): return "<sym>"
    def __repr__(self): return "<sym>"
    def __int__(self):
        z = self.z
        return ENG.concretise(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)) if z3.is_real(z) else z)
    def __index__(self):
        if not z3.is_int(self.z):
            raise TypeError("real number used as an index")
        return ENG.concretise(self.z)
    def __float__(self):
        s = z3.simplify(self.z)
        if z3.is_rational_value(s) or z3.is_int_value(s):
            return float(s.as_fraction()) if z3.is_rational_value(s) else float(s.as_long())
        raise Unsupported("float() of a symbolic number")


class _Cut(Exception):
    pass


def _monomials(z):
    """order-independent key of a term in sum-of-monomials form"""
    tot = {}
    for m in (z.children() if z3.is_add(z) else [z]):
        c, fs = Fraction(1), []
        stack = [m]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack += x.children()
            elif z3.is_rational_value(x):
                c *= x.as_fraction()
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) and x.arg(1).as_fraction().denominator == 1 and x.arg(1).as_fraction() > 0:
                fs += [x.arg(0).sexpr()] * int(x.arg(1).as_fraction())
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                c = -c
                stack.append(x.arg(0))
            else:
                fs.append(x.sexpr())
        k = tuple(sorted(fs))
        tot[k] = tot.get(k, 0) + c
    return tuple(sorted((k, v) for k, v in tot.items() if v))


class Engine:
    def __init__(self, assume=(), max_paths=400, max_decisions=200, round_err=None, timeout_ms=20000):
        self.assume = list(assume)
        self.max_paths, self.max_decisions, self.round_err, self.timeout = max_paths, max_decisions, round_err, timeout_ms
        self.queries = 0

    def _sat(self, extra):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*self.assume, *self.path, *extra)
        self.queries += 1
        r = s.check()
        self.last = s
        if r == z3.unknown:
            raise Unsupported("path feasibility unknown")
        return r == z3.sat

    def rounded(self, r):
        if self.round_err is None or not isinstance(r, Num):
            return r
        e = z3.Real(f"eps_{self.nround}")
        self.nround += 1
        self.path += [e <= self.round_err, e >= -self.round_err]
        return Num(r.z + e)

    def sqrt(self, z):
        """square root: a fresh non-negative term whose square is z (same term for the same radicand on a path)"""
        z = z3.simplify(_real(z), som=True)
        key = _monomials(z)
        if key not in self.roots:
            r = z3.Real(f"root_{len(self.roots)}")
            self.roots[key] = r
            # free roots: any non-negative function of the radicand (weaker, so proofs stay sound; models are replayed)
            self.path += [r >= 0] if getattr(self, 'free_roots', False) else [r >= 0, r * r == z]
        return wrap(self.roots[key])

    def guard(self, c):
        c = z3.simplify(c)
        if not z3.is_true(c) and self._sat([z3.Not(c)]):
            if self.decide(z3.Not(c)):
                raise ZeroDivisionError("division by zero reachable")

    def decide(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = self.k
        self.k += 1
        if k >= self.max_decisions:
            raise Unsupported("too many decisions on one path")
        if k < len(self.trace):
            b = self.trace[k][0]
        else:
            t, f = self._sat([z]), self._sat([z3.Not(z)])
            if not (t or f):
                raise _Cut()
            b = t
            self.trace.append([b, t and f])
        self.path.append(z if b else z3.Not(z))
        return b

    def concretise(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        for _ in range(64):
            k = self.k
            if k < len(self.trace):
                v = self.trace[k][2]
            else:
                if not self._sat([]):
                    raise _Cut()
                v = self.last.model().eval(z, model_completion=True).as_long()
                f = self._sat([z != v])
                self.trace.append([True, f, v])
            self.k += 1
            b = self.trace[k][0]
            self.path.append(z == v if b else z != v)
            if b:
                return v
        raise Unsupported("too many values")

    def paths(self, f):
        """runs f() on every feasible path; yields (path condition, result or exception)"""
        global ENG
        self.trace = []
        n = 0
        while True:
            self.path, self.k, self.nround, self.roots = [], 0, 0, {}
            old, ENG = ENG, self
            try:
                try:
                    r = ("ok", f())
                except _Cut:
                    r = None
                except Unsupported:
                    raise
                except Exception as e:
                    r = ("exc", e)
            finally:
                ENG = old
            if r is not None:
                yield list(self.path), r
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            self.trace = self.trace[:self.k] if self.k < len(self.trace) else self.trace
            while self.trace and not self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                return
            self.trace[-1][0] = not self.trace[-1][0]
            self.trace[-1][1] = False


def eq(a, b, tol=1e-9):
    """claim a == b (within tol * scale on plain numbers)"""
    if isinstance(a, Num) or isinstance(b, Num):
        d = z3.simplify(_real(term(a)) - _real(term(b)), som=True)
        return wrap(z3.And(d <= rat(tol), d >= -rat(tol)))
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def le(a, b, tol=1e-9):
    if isinstance(a, Num) or isinstance(b, Num):
        return wrap(_real(term(a)) <= _real(term(b)) + rat(tol))
    return a <= b + tol * max(1.0, abs(a), abs(b))


def conj(*cs):
    if all(isinstance(c, bool) for c in cs):
        return all(cs)
    return wrap(z3.And(*[term(bool(c) if not isinstance(c, Flag) else c) for c in cs]))


def check(ck, name, variables, harness, assume=lambda v: [], extra_replays=(), max_paths=400, max_decisions=200, round_err=None):
    """variables: {name: 'real'|'int'}; harness(v) -> {claim: Flag/bool}, run on symbolic and on plain numbers.

    Proves every claim on every feasible path; replays models; exceptions raised by the code under test are violations."""
    import time
    from .check import Inconclusive, in_repo
    zv = {k: (z3.Int(k) if t == "int" else z3.Real(k)) for k, t in variables.items()}
    nv = {k: Num(z) for k, z in zv.items()}
    A = [term(c) for c in assume(nv)]
    eng = Engine(A, max_paths, max_decisions, round_err)
    s = z3.Solver()
    s.add(*A)
    ck.twins += 1
    if ck._check(s) != z3.sat:
        raise Inconclusive(f"{name}: vacuous assumptions")

    def values(m):
        out = {}
        for k, z in zv.items():
            v = m.eval(z, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out[k] = v.as_long() if variables[k] == "int" else float(v.as_fraction())
        return out

    def replay(vals):
        try:
            res = harness(dict(vals))
        except Exception as e:
            if in_repo(e):
                return {"inputs": vals, "exception in the code under test": repr(e)[:300]}
            raise
        bad = [k for k, b in res.items() if not b]
        return {"inputs": vals, "violated": bad} if bad else None

    def attempt(vals):
        d = replay(vals)
        return ck.violate(name, d) or True if d else None

    def witnesses():
        """concrete inputs within the assumptions, tried on the real code when the solver's model did not reproduce (reports only)"""
        import random
        rng, end = random.Random(1), time.time() + 8
        for i in range(30):
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(*A)
            names = list(zv)
            rng.shuffle(names)
            for k in names:
                if time.time() > end:
                    return
                scale = rng.choice([1, 1, 3, 30]) if i % 2 else 2
                x = z3.IntVal(rng.randint(-scale, 2 * scale)) if variables[k] == "int" else z3.RealVal(str(Fraction(rng.randint(-9973, 9973), 10007) * scale))
                s.push()
                s.add(zv[k] == x)
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                yield values(s.model())

    def try_witnesses():
        for x in witnesses():
            try:
                if attempt(x):
                    return True
            except Exception:
                return False
        return False
    n = 0
    spurious = None
    t0 = time.time()
    try:
        for path, (kind, r) in eng.paths(lambda: harness(dict(nv))):
            n += 1
            if kind == "exc":
                if not in_repo(r):
                    raise r
                s = z3.Solver()
                s.add(*A, *path)
                if ck._check(s) == z3.sat and attempt(values(s.model())):
                    return
                spurious = f"exception {r!r} on a path does not reproduce"
                continue
            claims = {k: (c.z if isinstance(c, Flag) else z3.BoolVal(bool(c))) for k, c in r.items()}
            s = z3.Solver()
            s.set("timeout", ck.timeout_ms)
            s.add(*A, *path, z3.Not(z3.And(*claims.values())))
            v = ck._check(s)
            if v == z3.unsat:
                continue
            if v == z3.sat:
                if attempt(values(s.model())):
                    return
                for x in extra_replays:
                    if attempt(x):
                        return
                bad = [k for k, c in claims.items() if z3.is_false(s.model().eval(c, model_completion=True))]
                spurious = f"counterexample for {bad} does not reproduce: {values(s.model())}"
            else:
                spurious = "solver unknown"
    except Unsupported as e:
        spurious = f"not encodable: {e}"
    ck.solver_s += 0.0
    ck.queries += eng.queries
    ck.encode_s += time.time() - t0
    if os.environ.get("SYMX_WITNESS") and try_witnesses():
        return
    if spurious:
        for x in extra_replays:
            if attempt(x):
                return
        if try_witnesses():
            return
        raise Inconclusive(f"{name}: {spurious}")
    ck.nvars += len(zv)
    ck.harnesses.append({"name": name, "verdict": "unsat", "paths": n, "path_queries": eng.queries})
