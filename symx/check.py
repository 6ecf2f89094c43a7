"""Decision layer: turns symbolic results into SMT queries, replays counterexamples, writes evidence."""
import json
import os
import sys
import time
import traceback
import hashlib
import numpy as np
import z3
from .poly import SA, SB, BoolAtom, Ctx, Unsupported, lift, add, neg, align, rat, _bounds_of, padd

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inconclusive(Exception):
    pass


class Violation(Exception):
    pass


class LinZ:
    """polynomial -> z3 linear term, monomials of degree >= 2 abstracted to bounded constants."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.mono = {}
        self.pending = []

    def __call__(self, p):
        terms = []
        for m, c in p.items():
            if c == 0.0:
                continue
            if m == ():
                terms.append(rat(c))
            elif len(m) == 1:
                terms.append(rat(c) * self.ctx.z[m[0]])
            else:
                terms.append(rat(c) * self.get(m))
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))

    def get(self, m):
        if m not in self.mono:
            z = z3.Real("m_" + "_".join(map(str, m)))
            self.mono[m] = z
            lo, hi = mono_bounds(self.ctx, m)
            if lo is not None:
                self.pending += [z >= rat(lo), z <= rat(hi)]
            elif all(m.count(v) % 2 == 0 for v in set(m)):
                self.pending.append(z >= 0)
        return self.mono[m]


def mono_bounds(ctx, m):
    a, b = 1.0, 1.0
    for v in sorted(set(m)):
        l, h = ctx.bounds[v]
        if l is None or h is None:
            return None, None
        k = m.count(v)
        ps = [l ** k, h ** k]
        lo, hi = min(ps), max(ps)
        if k % 2 == 0 and l <= 0 <= h:
            lo = 0.0
        q = (a * lo, a * hi, b * lo, b * hi)
        a, b = min(q), max(q)
    return a, b


class ExactZ:
    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, p):
        return self.ctx.z3poly(p)


def add_env(s, ctx, zp, vs, assume):
    """bounds and definitions of the variables vs, plus assumptions"""
    for v in sorted(vs):
        lo, hi = ctx.bounds[v]
        if lo is not None:
            s.add(ctx.z[v] >= rat(lo))
        if hi is not None:
            s.add(ctx.z[v] <= rat(hi))
        f = ctx.defs.get(v)
        if f is not None:
            s.add(*f(zp, ctx.z))
    for b in assume:
        s.add(b.z(zp))
    if isinstance(zp, LinZ):
        s.add(*zp.pending)
        zp.pending = []


class Checker:
    def __init__(self, prop, tier, level="other"):
        self.prop = prop
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.twins = 0
        self.solver_s = 0.0
        self.functions = set()
        self.harnesses = []
        self.bounds = []
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.prims = {}
        self.stubs = {}
        self.nvars = 0
        self.validated = 0
        self.undecided = []
        self.counter = 0
        self.shard, self.nshards = (int(x) for x in os.environ.get("SYMX_SHARD", "0/1").split("/"))
        self.encode_s = 0.0
        self.known = load_known(prop)

    @property
    def timeout_ms(self):
        if self.tier != "quick":
            return 240000
        t = time.time() - self.t0
        return 60000 if t < 150 else 20000 if t < 400 else 5000

    def stopped(self):
        """quick tier: the run has its violation, or its time is used up"""
        if self.tier != "quick":
            return None
        t = time.time() - self.t0
        if t > 600:
            return "not reached within the time of the quick tier"
        flag = os.environ.get("SYMX_FLAG")
        if flag and t > 60 and os.path.exists(flag):
            return "not run after a violation was found"

    def do(self, f, *args, **kw):
        """Run one harness group f(ck, ...) unless it belongs to another shard."""
        only = os.environ.get("SYMX_ONLY")       # development aid: run the named harness groups only
        if only and f.__name__ not in only.split(","):
            return
        k = self.counter
        self.counter += 1
        if self.nshards > 1 and k % self.nshards != self.shard:
            return
        t = time.time()
        why = self.stopped()
        if why:
            self.undecided.append(f"{f.__name__}{str(args[:2])[:80]}: {why}")
            return
        try:
            f(self, *args, **kw)
        except (Inconclusive, Unsupported) as e:
            self.undecided.append(f"{f.__name__}{str(args[:2])[:80]}: {e}")
            traceback.print_exc()
        except Exception as e:
            traceback.print_exc()
            if in_repo(e):
                self.violate(f"{f.__name__}{str(args[:2])[:120]}", {"exception in the code under test": repr(e)[:400], "trace": traceback.format_exc()[-1500:]})
            else:
                self.undecided.append(f"{f.__name__}{str(args[:2])[:80]}: {e!r}")
        if os.environ.get("SYMX_TIMES"):
            print(f"  [{time.time() - t:6.1f}s] {f.__name__} {str(args)[:90]}", flush=True)

    # ---- bookkeeping -----------------------------------------------------------
    def fn(self, *names):
        self.functions.update(names)

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def assumption(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def absorb(self, interp):
        for k, v in interp.prims.items():
            self.prims[k] = self.prims.get(k, 0) + v
        for s in interp.stubs:
            self.stubs[s] = self.stubs.get(s, 0) + 1
        self.nvars += len(interp.ctx.names)

    def _check(self, s):
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        return r

    # ---- for all inputs: impl == spec -------------------------------------------------
    def forall(self, name, impl, spec, args, ctx, tol=1e-8, assume=(), key=None, hints=None, interp=None, hooks=None,
               validate=True, names=None, robust=False):
        """For every value of the symbolic leaves of args: impl(*args) == spec(*args).

        impl, spec: JAX-traceable functions (impl calls the real code) returning pytrees of arrays."""
        import jax
        from .interp import Interp, is_sym
        I = interp or Interp(ctx, hooks)
        leaves, tree = jax.tree_util.tree_flatten(args, is_leaf=is_sym)

        def concretise(env):
            return jax.tree_util.tree_unflatten(tree, [jax.numpy.asarray(l.evaluate(env)) if isinstance(l, SA) else l for l in leaves])

        def flat(x):
            ls = [np.asarray(l).reshape(-1).astype(float) for l in jax.tree_util.tree_leaves(x)]
            return np.concatenate(ls) if ls else np.zeros(0)

        def replay(env):
            if any(not b.ev(dict(env)) for b in assume):
                return None
            if robust:     # a witness must persist in a neighbourhood (not a rounding tie between branches)
                rng = np.random.RandomState(11)
                for _ in range(3):
                    e2 = {v: (x + 1e-5 * rng.uniform(-1, 1) if isinstance(v, int) else x) for v, x in env.items()}
                    if any(not b.ev(dict(e2)) for b in assume):
                        continue
                    a2 = concretise(e2)
                    try:
                        g2, s2 = flat(impl(*a2)), flat(spec(*a2))
                    except Exception:
                        continue
                    if g2.shape == s2.shape and np.allclose(g2, s2, atol=tol, rtol=0):
                        return None
            a = concretise(env)
            try:
                got = flat(impl(*a))
            except Exception as e:
                if not in_repo(e):
                    raise
                return np.full(1, np.nan), np.zeros(1), {"inputs": describe(a), "exception": repr(e)[:300]}
            return got, flat(spec(*a)), describe(a)

        def describe(a):
            return [np.asarray(l).tolist() if np.size(l) <= 60 else f"array{np.shape(l)}"
                    for l, s in zip(jax.tree_util.tree_leaves(a), leaves) if isinstance(s, SA)]
        t = time.time()

        def search(why):
            """no encoding / no verdict: look for a concrete witness (search only: can report, never prove)"""
            rng = np.random.RandomState(3)
            r = self._try(name, replay, [random_env(ctx, rng) for _ in range(6)], max(tol, 1e-6) * 10, key)
            if r is None:
                raise Inconclusive(f"{name}: {why}")
            return r
        try:
            out = I.run(impl, *args)
        except Unsupported as e:
            return search(f"not encodable: {e}")
        except Exception as e:
            if not in_repo(e):
                raise
            return self.violate(name, {"exception in the code under test": repr(e)[:400]}, key)
        sp = I.run(spec, *args)
        a, b = flatten_sym(ctx, out), flatten_sym(ctx, sp)
        if validate:
            rng = np.random.RandomState(7)
            env = random_env(ctx, rng)
            try:
                got = flat(jax.jit(impl)(*concretise(env)))
            except Exception:
                got = flat(impl(*concretise(env)))
            ev = a.evaluate(dict(env))
            if got.shape != ev.shape or not np.allclose(got, ev, rtol=1e-6, atol=max(tol, 1e-7) * 10, equal_nan=True):
                im, spv, inp = replay(dict(env)) or (np.zeros(0), np.zeros(0), None)
                if im.shape != spv.shape or not np.allclose(im, spv, rtol=1e-6, atol=max(tol, 1e-7) * 10):
                    return self.violate(name, {"inputs": inp, "impl": _small(im, 0), "expected": _small(spv, 0),
                                               "note": "concrete run differs from the specification (and from the traced program)"}, key)
                return search(f"encoding validation failed: real code and encoding differ by "
                              f"{np.abs(got - ev).max() if got.shape == ev.shape else 'shape'}")
            self.validated += 1
        if a.shape != b.shape:
            return self.violate(name, {"shape": list(a.shape), "expected shape": list(b.shape)}, key)
        hs = hints(ctx, I) if callable(hints) else (hints or ())
        try:
            r = self.equal(name, ctx, a, b, replay, tol, assume, key, hints=hs)
        except (Inconclusive, Unsupported) as e:
            return search(str(e))
        self.absorb(I)
        self.encode_s += time.time() - t
        return r

    # ---- generic boolean claim over z3 (integer / real harnesses) -----------------
    def prove(self, name, assumptions, claim, replay, timeout=None, tactic=None, twin=True):
        """assumptions |= claim.  replay(model) -> (bool reproduced, dict detail)."""
        s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
        s.set("timeout", timeout or self.timeout_ms)
        s.add(*assumptions)
        if twin:
            r = self._check(s)
            self.twins += 1
            if r != z3.sat:
                raise Inconclusive(f"{name}: vacuous or undecided assumptions ({r})")
        s.add(z3.Not(claim))
        r = self._check(s)
        self.harnesses.append({"name": name, "verdict": str(r)})
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise Inconclusive(f"{name}: solver unknown ({s.reason_unknown()})")
        ok, detail = replay(s.model())
        if not ok:
            raise Inconclusive(f"{name}: counterexample does not reproduce on the real code: {detail}")
        return self.violate(name, detail)

    # ---- symbolic-array equality ----------------------------------------------------
    def equal(self, name, ctx, a, b, replay, tol=1e-8, assume=(), key=None, exact_timeout=None, hints=()):
        """a == b up to tol for every assignment within bounds.

        ``assume``: iterable of BoolAtom extra assumptions; ``hints``: polynomials known to be 0 (consequences of
        the definitions, multiplied out so the linear stage can use them).
        replay(env) -> (impl ndarray, spec ndarray) computed by running the real code at concrete inputs."""
        d = add(lift(ctx, a), neg(lift(ctx, b))) if (isinstance(a, SA) or isinstance(b, SA)) else lift(ctx, np.asarray(a, float) - np.asarray(b, float))
        return self.within(name, ctx, d, replay, tol, assume, key, exact_timeout, hints)

    def within(self, name, ctx, d, replay, tol=1e-8, assume=(), key=None, exact_timeout=None, hints=()):
        polys = d.polys()
        live, slack = [], []
        for j, p in enumerate(polys):
            big, e = {}, 0.0
            for m, c in p.items():
                lo, hi = mono_bounds(ctx, m)
                w = abs(c) * max(abs(lo), abs(hi)) if lo is not None else None
                if not np.isfinite(c):
                    raise Unsupported(f"{name}: non-finite coefficient")
                if w is not None and w <= tol * 1e-3:
                    e += w
                elif w is None and abs(c) < 1e-13:
                    e += abs(c)
                else:
                    big[m] = c
            slack.append(e)
            live.append(big)
        cert = self._reduce(ctx, live, slack, hints, tol)
        lin = LinZ(ctx)
        s = z3.SolverFor("QF_LRA") if not self._needs_uf(ctx, live) else z3.Solver()
        s.set("timeout", self.timeout_ms)
        vs = set()
        for p in live:
            vs |= ctx.polyvars(p)
        for h in (hints if any(live) else ()):
            vs |= ctx.polyvars(h)
        for b in assume:
            vs |= b.deps
        vs = ctx.closure(vs)
        self._add_env(s, ctx, lin, vs, assume)
        for h in (hints if any(live) else ()):
            s.add(lin(h) == 0)
        s.add(*lin.pending)
        lin.pending = []
        self.twins += 1
        r = self._check(s)
        if r != z3.sat:
            raise Inconclusive(f"{name}: assumptions not satisfiable ({r})")
        bad = []
        zs = []
        for j, p in enumerate(live):
            e = z3.Real(f"round_{j}")
            s.add(e >= -rat(slack[j]), e <= rat(slack[j]))
            t = lin(p) + e
            if j in cert:
                for i, c in cert[j]:
                    z = z3.Real(f"eqn_{i}")
                    s.add(z == 0)
                    t = t + rat(c) * z
            zs.append(t)
        s.add(*lin.pending)
        lin.pending = []
        chunk = 100
        for k in range(0, len(zs), chunk):
            els = list(range(k, min(k + chunk, len(zs))))
            dis = []
            for j in els:
                t = rat(tol)
                dis.append(z3.Or(zs[j] > t, zs[j] < -t))
            s.push()
            s.add(z3.Or(*dis))
            r = self._check(s)
            if r == z3.unknown:
                r = self._try(name, replay, self._guided(ctx, live, tol, assume), tol, key)
                if r is not None:
                    return r
                raise Inconclusive(f"{name}: solver unknown")
            if r == z3.sat:
                bad.append((els, s.model()))
                break
            s.pop()
        if not bad:
            self.harnesses.append({"name": name, "verdict": "unsat", "outputs": len(live), "vars": len(vs)})
            return True
        # candidate from the (possibly abstracted) model
        els, m = bad[0]
        cands = [self._model_env(ctx, m)]
        r = self._try(name, replay, cands, tol, key)
        if r is not None:
            return r
        r = self._try(name, replay, self._guided(ctx, live, tol, assume), tol, key)
        if r is not None:
            return r
        # exact stage
        ex = ExactZ(ctx)
        zmap = ctx.z
        for j in els:
            se = z3.Solver()
            se.set("timeout", exact_timeout or self.timeout_ms)
            self._add_env(se, ctx, ex, vs, assume)
            t = rat(tol - min(slack[j], tol * 0.999))
            z = ex(live[j])
            se.add(z3.Or(z > t, z < -t))
            rr = self._check(se)
            if rr == z3.unsat:
                continue
            if rr == z3.sat:
                r = self._try(name, replay, [self._model_env(ctx, se.model())], tol, key)
                if r is not None:
                    return r
            # last resort for locating a concrete witness: random points of the box (search only, never a proof)
            rng = np.random.RandomState(1)
            envs = []
            for _ in range(24):
                env = {}
                for v in range(len(ctx.names)):
                    if v not in ctx.evalf:
                        lo, hi = ctx.bounds[v]
                        env[v] = float(rng.uniform(lo if lo is not None else -1, hi if hi is not None else 1))
                envs.append(env)
            r = self._try(name, replay, envs, tol, key)
            if r is not None:
                return r
            raise Inconclusive(f"{name}: element {j}: solver {rr}, no reproducing counterexample; diff={dict(list(live[j].items())[:6])}")
        # remaining chunks were not examined yet: examine the rest exactly
        rest = [j for j in range(len(live)) if j > els[-1]]
        if rest:
            sub = SA(ctx, d.monos, d.coef.reshape(len(d.monos), -1)[:, rest], prune=False) if d.monos else None
            if sub is not None:
                return self.within(name, ctx, sub, lambda env: replay(env), tol, assume, key, exact_timeout, hints)
        self.harnesses.append({"name": name, "verdict": "unsat(exact)", "outputs": len(live)})
        return True

    def _guided(self, ctx, live, tol, assume, budget=6.0, count=4000, keep=4):
        """points of the box where the encoded difference is nonzero: candidates to replay (they can only report, never prove)"""
        t, rng, out = time.time(), np.random.RandomState(5), []
        vs = [v for v in range(len(ctx.names)) if v not in ctx.evalf]
        for i in range(count):
            if time.time() - t > budget or len(out) >= 12 * keep:
                break
            env = {}
            for v in vs:
                lo, hi = ctx.bounds[v]
                lo, hi = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
                u = rng.uniform()
                env[v] = float(lo if u < 0.06 else hi if u > 0.94 else rng.uniform(lo, hi)) if i % 2 else float(rng.uniform(lo, hi))
            try:
                if any(not b.ev(dict(env)) for b in assume):
                    continue
                e2 = dict(env)
                w = max((abs(ctx.evaluate(p, e2)) for p in live if p), default=0.0)
            except (ArithmeticError, ValueError, KeyError):
                continue
            if np.isfinite(w) and w > 2 * tol:
                out.append((w, env))
        out.sort(key=lambda x: -x[0])
        return [e for _, e in out[:keep]]

    def _reduce(self, ctx, live, slack, hints, tol):
        """Rewrite goals modulo the defining equations of stubbed solves (and hints), which are 0 by definition.

        goal = sum_i c_i * equation_i + remainder; used only where the remainder (with its rounding error) is
        negligible on the whole box.  live/slack are updated in place; returns {goal: [(equation, c_i)]}."""
        eqs = [p for e in getattr(ctx, "eqs", []) for p in e[1]] + list(hints)
        idx = [j for j, p in enumerate(live) if p]
        if not eqs or not idx:
            return {}
        monos = {}
        for p in eqs:
            for m in p:
                monos.setdefault(m, len(monos))
        for j in idx:
            for m in live[j]:
                monos.setdefault(m, len(monos))
        if len(monos) * (len(eqs) + len(idx)) > 6e7:
            return {}
        w = np.empty(len(monos))
        for m, k in monos.items():
            lo, hi = mono_bounds(ctx, m)
            w[k] = np.nan if lo is None else max(abs(lo), abs(hi))

        def mat(ps):
            M = np.zeros((len(ps), len(monos)))
            for i, p in enumerate(ps):
                for m, c in p.items():
                    M[i, monos[m]] += c
            return M
        Eq, G = mat(eqs), mat([live[j] for j in idx])
        C = np.linalg.lstsq(Eq.T, G.T, rcond=1e-12)[0].T
        C[np.abs(C) < 1e-14] = 0.0
        rem = G - C @ Eq
        cnt = (C != 0).astype(float) @ (Eq != 0).astype(float)      # terms actually summed per entry
        err = 4e-16 * (np.abs(G) + np.abs(C) @ np.abs(Eq)) * (2 + cnt)
        names = list(monos)
        out = {}
        for r, j in enumerate(idx):
            e, big = 0.0, {}
            for k in np.nonzero(err[r])[0]:
                t = abs(rem[r, k]) + err[r, k]
                if np.isfinite(w[k]):
                    if t * w[k] > tol * 1e-2:
                        big[names[k]] = float(rem[r, k])
                    else:
                        e += t * w[k]
                elif t > 1e-12:
                    big[names[k]] = float(rem[r, k])
                else:
                    e += t
            if big or e > tol * 0.1:
                continue
            live[j] = {}
            slack[j] += e
            out[j] = [(int(i), float(C[r, i])) for i in np.nonzero(C[r])[0]]
        return out

    def _needs_uf(self, ctx, live):
        vs = set()
        for p in live:
            vs |= ctx.polyvars(p)
        return any(ctx.defs.get(v) is not None for v in ctx.closure(vs))

    def _add_env(self, s, ctx, zp, vs, assume):
        add_env(s, ctx, zp, vs, assume)

    def _model_env(self, ctx, m):
        env = {}
        for v in range(len(ctx.names)):
            if v in ctx.evalf:
                continue
            val = m.eval(ctx.z[v], model_completion=False)
            if z3.is_rational_value(val):
                env[v] = float(val.numerator_as_long()) / float(val.denominator_as_long()) if abs(val.numerator_as_long()) < 2**900 else float(val.as_fraction())
            elif z3.is_algebraic_value(val):
                env[v] = float(val.approx(20).as_fraction())
            else:
                lo, hi = ctx.bounds[v]
                env[v] = 0.5 * ((lo if lo is not None else -1.0) + (hi if hi is not None else 1.0)) + 0.123 * ((hi if hi is not None else 1.0) - (lo if lo is not None else -1.0))
        return env

    def _try(self, name, replay, envs, tol, key):
        for env in envs:
            r = replay(dict(env))
            if r is None:
                continue
            impl, spec, inputs = r
            impl, spec = np.asarray(impl, float), np.asarray(spec, float)
            err = np.abs(impl - spec) if impl.shape == spec.shape else np.array([np.inf])
            if impl.shape == spec.shape:      # nan where nan is expected, the same infinity
                with np.errstate(invalid="ignore"):
                    err = np.where((np.isnan(impl) & np.isnan(spec)) | (impl == spec), 0.0, err)
            err = np.where(np.isnan(err), np.inf, err)
            if err.size and err.max() > tol * 0.5:
                k = int(np.argmax(err))
                return self.violate(name, {"inputs": inputs, "max_abs_error": float(err.max()), "at": k,
                                           "impl": _small(impl, k), "expected": _small(spec, k)}, key)
        return None

    def violate(self, name, detail, key=None):
        key = key or name
        for kf in self.known:
            if kf["key"] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print(f"KNOWN-FINDING: property={self.prop} {kf['what']}", flush=True)
                self.harnesses.append({"name": name, "verdict": "sat: known finding"})
                return False
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, hashlib.sha1(name.encode()).hexdigest()[:10] + ".json")
        with open(fn, "w") as f:
            json.dump({"property": self.prop, "harness": name, "detail": detail,
                       "rerun": f"/verif/run.sh {self.prop} {self.tier}"}, f, indent=1, default=_js)
        print(f"counterexample in {name}: " + json.dumps(detail, default=_js)[:600])
        print(f"VIOLATION property={self.prop} replay={fn}", flush=True)
        self.violations.append({"harness": name, "replay": fn})
        if os.environ.get("SYMX_FLAG"):
            open(os.environ["SYMX_FLAG"], "w").close()
        self.harnesses.append({"name": name, "verdict": "sat: violation"})
        return False

    # ---- evidence --------------------------------------------------------------------
    FIELDS = ("queries", "unsat", "sat", "twins", "solver_s", "nvars", "validated", "encode_s")

    def dump(self):
        return {"sums": {k: getattr(self, k) for k in self.FIELDS}, "functions": sorted(self.functions), "harnesses": self.harnesses,
                "bounds": self.bounds, "assumptions": self.assumptions, "violations": self.violations, "known": self.known_hits,
                "prims": self.prims, "stubs": self.stubs, "undecided": self.undecided}

    def merge(self, d):
        for k, v in d["sums"].items():
            setattr(self, k, getattr(self, k) + v)
        self.functions.update(d["functions"])
        for k in ("harnesses", "violations", "undecided"):
            getattr(self, k).extend(d[k])
        for k in ("bounds", "assumptions"):
            for x in d[k]:
                if x not in getattr(self, k):
                    getattr(self, k).append(x)
        for k in ("prims", "stubs"):
            for a, b in d[k].items():
                getattr(self, k)[a] = getattr(self, k).get(a, 0) + b

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": self.level, "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "method": "symbolic execution of the real code (jaxpr / Python) + SMT (z3 %s)" % z3.get_version_string(),
                "functions_encoded": sorted(self.functions),
                "harnesses": len(self.harnesses), "queries": self.queries, "unsat": self.unsat, "sat": self.sat,
                "vacuity_twins": self.twins, "solver_s": round(self.solver_s, 3), "encode_cpu_s": round(self.encode_s, 1),
                "symbolic_variables": self.nvars, "bounds": self.bounds,
                "primitives": self.prims, "stubs": self.stubs,
                "encodings_validated_against_concrete_runs": self.validated,
                "undecided": self.undecided,
                "harness_verdicts": self.harnesses[:600],
                "explanation": "Each harness executes the current /repo code symbolically (traced to JAX's intermediate representation, or Python run on solver terms) and asks the SMT solver for an input within the stated bounds that breaks the assertion; unsat = holds for all inputs within the bounds; a sat model is replayed on the real code before it is reported.",
            },
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        print(f"{self.prop} [{self.tier}] harnesses={len(self.harnesses)} queries={self.queries} unsat={self.unsat} "
              f"sat={self.sat} undecided={len(self.undecided)} solver={self.solver_s:.1f}s wall={time.time()-self.t0:.1f}s violations={len(self.violations)}", flush=True)


def _js(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    return str(o)


def _small(a, k):
    a = np.asarray(a).ravel()
    return [float(x) for x in a[max(0, k - 3):k + 4]]


def in_repo(e):
    """The exception was raised inside the code under test (not by a call from the harness that no longer fits)."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(VERIF + "/"):
            last = "verif"
        elif fn.startswith(REPO + "/"):
            last = "repo"
        tb = tb.tb_next
    return last == "repo" and not isinstance(e, (ImportError, MemoryError, KeyboardInterrupt))


def random_env(ctx, rng):
    env = {}
    for v in range(len(ctx.names)):
        if v not in ctx.evalf:
            lo, hi = ctx.bounds[v]
            env[v] = float(rng.uniform(lo if lo is not None else -1, hi if hi is not None else 1))
    return env


def flatten_sym(ctx, x):
    import jax
    from .interp import is_sym
    ls = [l if isinstance(l, SA) else lift(ctx, np.asarray(l, float)) for l in jax.tree_util.tree_leaves(x, is_leaf=is_sym)]
    ls = [l.reshape((l.size,)) for l in ls]
    if not ls:
        return lift(ctx, np.zeros(0))
    _, monos, cs = align(*ls)
    return SA(ctx, monos, np.concatenate(cs, axis=1))


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [e for e in json.load(open(fn)).get("findings", []) if e["property"] == prop]


def one(prop, run, tier):
    ck = Checker(prop, tier)
    ck.assumption("arithmetic over the reals: float64 rounding of symbolic values is not modelled (coefficients are float64, comparisons use the stated tolerance)")
    try:
        run(ck)
    except (Inconclusive, Unsupported) as e:
        traceback.print_exc()
        ck.undecided.append(str(e))
    except Exception as e:
        traceback.print_exc()
        if in_repo(e):
            ck.violate("unexpected exception", {"exception in the code under test": repr(e)[:400],
                                                "trace": traceback.format_exc()[-1500:]})
        else:
            ck.undecided.append(repr(e))
    return ck


def main(prop, run, shards=None):
    """Parent: spawn shards of this check, merge their evidence, decide the exit code."""
    import subprocess
    import tempfile
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if "SYMX_OUT" in os.environ:
        ck = one(prop, run, tier)
        with open(os.environ["SYMX_OUT"], "w") as f:
            json.dump(ck.dump(), f, default=_js)
        if os.environ.get("SYMX_COV"):
            sys.modules["__main__"].DUMP()
        os._exit(0)
    n = shards or int(os.environ.get("SYMX_SHARDS", "6"))
    ck = Checker(prop, tier)
    with tempfile.TemporaryDirectory() as td:
        procs = []
        for k in range(n):
            env = dict(os.environ, JAX_COMPILATION_CACHE_DIR=td + "/jaxcache", JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0",
                       JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1", SYMX_SHARD=f"{k}/{n}", SYMX_OUT=f"{td}/{k}.json", SYMX_FLAG=f"{td}/flag")
            out = open(f"{td}/{k}.log", "w")
            procs.append(subprocess.Popen([sys.executable, "-m", "checks.run", prop, tier], env=env, cwd=VERIF, stdout=out, stderr=subprocess.STDOUT))
        limit = time.time() + (840 if tier == "quick" else 6 * 3600)
        for k, p in enumerate(procs):
            while p.poll() is None:
                late = tier == "quick" and time.time() - ck.t0 > 240 and os.path.exists(td + "/flag")
                if late or time.time() > limit:
                    p.kill()
                    p.wait()
                    break
                time.sleep(0.2)
            log = open(f"{td}/{k}.log").read()
            try:
                ck.merge(json.load(open(f"{td}/{k}.json")))
            except Exception:
                ck.undecided.append(f"shard {k} gave no result (exit {p.returncode})")
                ck.violations += [{"harness": "?", "replay": l} for l in log.splitlines() if l.startswith("VIOLATION")]
                log = "\n".join([l for l in log.splitlines() if l.startswith(("VIOLATION", "counterexample", "KNOWN"))] + [log[-3000:]])
            for line in log.splitlines():
                if line.startswith(("VIOLATION", "KNOWN-FINDING", "counterexample", "  [")):
                    print(line)
            if ck.undecided and not ck.violations:
                print(log[-4000:])
    ck.finish()
    if ck.violations:
        sys.exit(1)
    if ck.undecided:
        print(f"UNDECIDED {prop} (not covered by this run's verdict): " + "; ".join(ck.undecided)[:1500])
        if not any(h["verdict"].startswith("unsat") for h in ck.harnesses):
            sys.exit(3)
    sys.exit(0)
