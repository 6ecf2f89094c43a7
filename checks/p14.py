"""P14: optimization drivers: MMA driver schedule, constraints, remeshing; optimality-criteria update; moving band; MDMM."""
import contextlib
import os
import sys
import tempfile
import types
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
import feax.gene.optimizer as O
import feax.gene.narrowband as NB
from feax.gene import mdmm
from symx import pyx
from symx.pyx import eq, le, conj, Num, Flag, term, wrap
from symx.npx import numpy_on_terms, NP, OArr, has_sym, SymFloat
import z3
from .fem import *
from .p05 import quiet


# ---- stand-ins: nlopt evaluates the callbacks it is given; jax differentiates and caches traces --------------------
class M:
    """mesh with a node count and coordinates"""

    def __init__(self, tag, n):
        self.tag, self.points, self.cells = tag, onp.arange(2.0 * n).reshape(n, 2) + 100.0 * tag, onp.zeros((1, 3), int)


class Jax:
    """jit reuses the trace of an equal function at equal shapes (values read from the surroundings are frozen at the first
    trace); gradients of functions affine in the design are exact differences"""

    def __init__(self, world):
        self.w = world
        self.traces = {}

    def __getattr__(self, n):
        return getattr(jax, n)

    def jit(self, f, *a, **k):
        def g(rho, **p):
            key = (f, len(rho))
            ep = self.traces.setdefault(key, self.w.epoch if self.w.forced is None else self.w.forced)
            old, self.w.forced = self.w.forced, ep
            try:
                return f(rho, **p)
            finally:
                self.w.forced = old
        return g

    def grad(self, f, *a, **k):
        return lambda rho, **p: onp.array([f(bump(rho, i), **p) - f(rho, **p) for i in range(len(rho))] + [None], object)[:-1]

    def value_and_grad(self, f, *a, **k):
        return lambda rho, **p: (f(rho, **p), self.grad(f)(rho, **p))


def bump(rho, i):
    r = onp.array(rho)
    r[i] = r[i] + 1.0
    return r


class Jnp:
    def __getattr__(self, n):
        return getattr(jnp, n)

    def array(self, x, *a, **k): return onp.array(x)
    asarray = array
    def float64(self, x): return x


class World:
    epoch = 0
    forced = None

    @property
    def ep(self):
        return self.epoch if self.forced is None else self.forced


@contextlib.contextmanager
def driver(world, nl, saves):
    mods = {"nlopt": nl}
    old = {k: sys.modules.get(k) for k in mods}
    names = {k: v for k, v in vars(O).items() if v is jax or v is jnp}
    save_sol = fe.utils.save_sol
    J = Jax(world)
    sys.modules.update(mods)
    for k, v in names.items():
        setattr(O, k, J if v is jax else Jnp())
    had = "float" in vars(O)
    if not had:
        O.float = SymFloat if pyx.ENG is not None else float
    fe.utils.save_sol = lambda mesh, path, *a, **k: saves.append((mesh, os.path.basename(path), k.get("point_infos", a[1] if len(a) > 1 else None)))
    try:
        yield
    finally:
        fe.utils.save_sol = save_sol
        if not had:
            del O.float
        for k, v in names.items():
            setattr(O, k, v)
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


@contextlib.contextmanager
def floats(mod):
    had = "float" in vars(mod)
    if not had:
        mod.float = SymFloat if pyx.ENG is not None else float
    try:
        yield
    finally:
        if not had:
            del mod.float


def close(a, b):
    return conj(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])


def drive(ck, name, nmax, cont=False, adapt=0, con=True, early=False, out=False, passive=False, conc=None, budget=900):
    """one run of the MMA driver: iteration limits, schedules, evaluation counts per optimizer call symbolic"""
    variables = {"mi": "int"}
    if cont:
        variables.update(ue="int", b0="real", b1="real", st="real")
    if adapt:
        variables.update(ae="int")
    if early:
        variables.update(e0="int", e1="int", r0="int")
    if con:
        variables.update(t1="real", t2="real", tol="real")
    if out:
        variables.update(se="int")
    if passive:
        variables.update(lo="real", hi="real")

    def assume(v):
        a = [v["mi"] >= 1, v["mi"] <= nmax]
        if cont:
            a += [v["ue"] >= 1, v["ue"] <= nmax + 1, v["b0"] >= 0, v["b0"] <= 4, v["b1"] >= 0, v["b1"] <= 4, v["st"] >= -2, v["st"] <= 2,
                  wrap(z3.Or(z3.And(term(v["st"]) >= 0, term(v["b1"]) >= term(v["b0"])), z3.And(term(v["st"]) <= 0, term(v["b1"]) <= term(v["b0"]))))]
            if conc:
                a += [v[k] == x for k, x in conc.items()]
        if adapt:
            a += [v["ae"] >= 1, v["ae"] <= nmax + 1]
        if early:
            a += [v[k] >= 1 for k in ("e0", "e1")] + [v[k] <= nmax for k in ("e0", "e1")] + [v["r0"] >= 0, v["r0"] <= 1]
        if con:
            a += [v["t1"] >= 0.6, v["t1"] <= 2, v["t2"] >= -2, v["t2"] <= 2, v["tol"] >= 0, v["tol"] <= 1]
        if out:
            a += [v["se"] >= 1, v["se"] <= nmax + 1]
        if passive:
            a += [v["lo"] >= 0, v["lo"] <= 0.2, v["hi"] >= 0.6, v["hi"] <= 1]
        return a

    def h(v):
        w, saves, calls, evs = World(), [], [], []
        meshes = [M(0, 3)]

        class Rounded(RuntimeError):
            pass

        class opt:
            def __init__(self, alg, n):
                self.n, self.cons = n, []

            def set_lower_bounds(self, x): self.lo = x
            def set_upper_bounds(self, x): self.hi = x
            def set_min_objective(self, f): self.f = f
            def add_inequality_constraint(self, f, tol=0): self.cons.append((f, tol))
            def set_maxeval(self, k): self.k = k
            def __getattr__(self, n):
                if n.startswith("set_"):
                    return lambda *a: None
                raise AttributeError(n)

            def optimize(self, x):
                i = len(calls)
                rec = types.SimpleNamespace(x0=onp.array(x), n=self.n, epoch=w.epoch, lo=self.lo, hi=self.hi, budget=self.k, first=len(evs))
                calls.append(rec)
                n = self.k
                lim = v[f"e{i}"] if early and i < 2 else None
                j = 0
                while bool(j < n) and (lim is None or bool(j < lim)):
                    xx = 0.1 + 0.01 * len(evs) + 0.05 * onp.arange(self.n)
                    g = onp.zeros(self.n, object)
                    val = self.f(xx, g)
                    cv = []
                    for f, t in self.cons:
                        gc = onp.zeros(self.n, object)
                        cv.append((f(xx, gc), gc, t))
                    evs.append(types.SimpleNamespace(x=xx, val=val, g=g, cons=cv, epoch=w.epoch, call=i))
                    j += 1
                    if j > 3 * nmax + 3:
                        break
                if early and i == 0 and bool(v["r0"] == 1):
                    rec.ret = rec.x0
                    raise Rounded()
                rec.ret = 0.3 + 0.01 * len(evs) + 0.02 * onp.arange(self.n)
                return rec.ret
        nl = types.ModuleType("nlopt")
        nl.opt, nl.LD_MMA, nl.RoundoffLimited = opt, 24, Rounded

        def F(ep, rho, b):
            return (1.0 + ep) * (rho[0] + 2.0 * rho[-1]) + b * (rho[1] - 0.25 * ep)

        def C1(ep, rho, b):
            return (2.0 + ep) * rho[1] + b * rho[0] - 0.5 * ep

        def C2(ep, rho, b):
            return (1.0 - 3.0 * ep) * rho[2] + 2.0 * b * rho[1] + ep

        class P(O.Pipeline):
            builds = []

            def build(self, mesh):
                P.builds.append(mesh)
                w.epoch = len(P.builds) - 1

            def objective(self, rho, beta=0.5):
                return F(w.ep, rho, beta)

            def filter(self, rho):
                return onp.asarray(rho) * 0.5 + 0.01
        P.builds = []
        if con:
            P.amount = O.constraint(target=v["t1"])(lambda self, rho, beta=0.5: C1(w.ep, rho, beta))
            P.level = O.constraint(target=v["t2"], type="eq", tol=v["tol"])(lambda self, rho, beta=0.5: C2(w.ep, rho, beta))
            P.amount.__name__, P.level.__name__ = "amount", "level"
        rem, tra = [], []

        def remesh(m, rf):
            rem.append((m, rf, len(evs)))
            meshes.append(M(len(meshes), 3 if len(meshes) % 2 else 4))
            return meshes[-1]

        def transfer(x, a, b):
            tra.append((x, a, b))
            return onp.full(len(b), 0.2 + 0.01 * len(tra))
        kw = {}
        if cont:
            kw["continuations"] = {"beta": O.Continuation(initial=v["b0"], final=v["b1"], update_every=v["ue"], step=v["st"])}
        if adapt:
            kw["adaptive"] = O.AdaptiveConfig(remesh=remesh, adapt_every=v["ae"], n_adapts_max=adapt, transfer=transfer)
        lo, hi = (v["lo"], v["hi"]) if passive else (0.001, 1.0)
        if passive:
            kw.update(rho_bounds=(lo, hi), passive_solid=onp.array([1]), passive_void=onp.array([2]))
        x0 = None if not passive else onp.array([0.4, 0.4, 0.4], object)
        td = tempfile.TemporaryDirectory() if out else contextlib.nullcontext()
        with td as d, driver(w, nl, saves):
            if out:
                kw.update(output_dir=os.path.join(d, "o"), save_every=v["se"])
            r = quiet(O.run, P(), meshes[0], max_iter=v["mi"], rho_init=x0, **kw)
            rows = open(os.path.join(d, "o", "history.csv")).read().split() if out else None
        m = len(evs)
        c = {"evaluations spend exactly the iteration budget": eq(m, v["mi"])}
        if m > 3 * nmax:
            return c
        beta = []
        for i in range(m + 1):
            if not cont:
                beta.append(0.5)
                continue
            q = (i // v["ue"])
            raw = v["b0"] + v["st"] * q
            up = v["b1"] >= v["b0"]
            z = lambda x: pyx._real(term(x))
            if isinstance(raw, Num) or isinstance(up, Flag):
                beta.append(wrap(z3.If(term(up), z3.If(z(raw) <= z(v["b1"]), z(raw), z(v["b1"])), z3.If(z(raw) >= z(v["b1"]), z(raw), z(v["b1"])))))
            else:
                beta.append(min(raw, v["b1"]) if up else max(raw, v["b1"]))
        # remeshing: after the first multiples of adapt_every that lie strictly inside the run
        at = [k for _, _, k in rem]
        if adapt:
            c["remeshing happens at the multiples of adapt_every"] = conj(*[eq(k, (j + 1) * v["ae"]) for j, k in enumerate(at)])
            c["number of remeshes"] = conj(len(at) <= adapt, *[k < v["mi"] for k in at], len(at) == adapt or (len(at) + 1) * v["ae"] >= v["mi"])
            xs = {0: None}
            for j, (mm, rf, k) in enumerate(rem):
                last = [q for q in calls if q.first <= k][-1] if k < m else calls[-1]
                prev = [q for q in calls if q.first < k][-1]
                c[f"remesh {j} gets the current mesh and filtered design"] = conj(mm is meshes[j], close(rf, [x * 0.5 + 0.01 for x in prev.ret]))
                c[f"transfer {j} gets the design and both meshes"] = conj(close(tra[j][0], prev.ret), onp.array_equal(tra[j][1], meshes[j].points), onp.array_equal(tra[j][2], meshes[j + 1].points))
            c["one build per mesh, in order"] = P.builds == meshes and len(meshes) == len(at) + 1
        else:
            c["one build per mesh, in order"] = P.builds == [meshes[0]]
        ep = lambda i: sum(1 for k in at if k <= i)
        hist = r.history
        c["history length"] = list(hist["iteration"]) == list(range(1, m + 1)) and len(hist["objective"]) == m
        for i, e in enumerate(evs):
            k, b = ep(i), beta[i]
            f = F(k, e.x, b)
            c[f"evaluation {i}: objective with the current parameter and mesh"] = conj(eq(e.val, f), eq(hist["objective"][i], f), len(e.x) == len(meshes[k].points[:, 0]))
            c[f"evaluation {i}: objective gradient"] = conj(*[eq(e.g[j], F(k, bump(e.x, j), b) - f) for j in range(len(e.x))])
            if con:
                f1, f2 = C1(k, e.x, b), C2(k, e.x, b)
                want = [(f1 - v["t1"], [C1(k, bump(e.x, j), b) - f1 for j in range(len(e.x))]), (f2 - (v["t2"] + v["tol"]), [C2(k, bump(e.x, j), b) - f2 for j in range(len(e.x))]),
                        ((v["t2"] - v["tol"]) - f2, [f2 - C2(k, bump(e.x, j), b) for j in range(len(e.x))])]
                c[f"evaluation {i}: number of constraints"] = len(e.cons) == 3 and all(float(t) <= 1e-6 for _, _, t in e.cons)
                for q, (val, gr) in enumerate(want):
                    alt = [conj(eq(val, cv), *[eq(x, y) for x, y in zip(gr, gc)]) for cv, gc, _ in e.cons]
                    c[f"evaluation {i}: constraint {q} enforced"] = any(a is True for a in alt) or wrap(z3.Or(*[term(a) for a in alt]))
                cols = [x for n_, x in hist.items() if n_ not in ("iteration", "objective")]
                c[f"evaluation {i}: constraint history"] = conj(len(cols) >= 2, eq(hist["amount"][i], f1), eq(hist["level"][i], f2))
        for i, q in enumerate(calls):
            k = ep(q.first)
            n = len(meshes[k].points)
            c[f"call {i}: size of the current mesh"] = q.n == n
            pin = passive and n == 3
            L = [lo] * n
            H = [hi] * n
            if pin:
                L[1] = H[1] = 1.0
                L[2] = H[2] = lo
            c[f"call {i}: bounds"] = conj(len(q.lo) == n, len(q.hi) == n, *[eq(a, b) for a, b in zip(list(q.lo) + list(q.hi), L + H)])
            if i == 0 and not passive:
                c["default start is uniform and within the bounds"] = conj(len(q.x0) == n, *[eq(a, q.x0[0]) for a in q.x0], le(lo, q.x0[0], 0), le(q.x0[0], hi, 0))
                continue
            if i == 0:
                start = [0.4, 1.0, lo]
            elif adapt and q.first in at:
                start = [0.2 + 0.01 * (at.index(q.first) + 1)] * n
            else:
                start = list(calls[i - 1].ret)
            c[f"call {i}: starts from the previous design"] = conj(len(q.x0) == n, *[eq(a, b) for a, b in zip(q.x0, start)])
        last = calls[-1]
        c["result design and mesh"] = conj(r.mesh is meshes[-1], close(r.rho, last.ret), close(r.rho_filtered, [x * 0.5 + 0.01 for x in last.ret]))
        k = ep(m - 1)
        xr = last.ret
        c["final objective"] = eq(r.final_objective, F(k, xr, beta[m - 1]))
        if con:
            c["final constraints"] = conj(eq(r.final_constraints["amount"], C1(k, xr, beta[m - 1])), eq(r.final_constraints["level"], C2(k, xr, beta[m - 1])))
        if out:
            c["csv"] = len(rows) == m + 1
            its = {n_: (mm, pi) for mm, n_, pi in saves}
            for i in range(1, m + 1):
                due = eq(i % v["se"], 0) if isinstance(v["se"], Num) else i % v["se"] == 0
                have = f"iter_{i:04d}.vtu" in its
                c[f"snapshot {i} when due"] = wrap(term(due) == z3.BoolVal(have)) if isinstance(due, Flag) else bool(due) == have
                if have:
                    mm, pi = its[f"iter_{i:04d}.vtu"]
                    c[f"snapshot {i} holds the filtered design"] = mm is meshes[ep(i - 1)] and onp.allclose(onp.asarray(pi[0][1], float), evs[i - 1].x * 0.5 + 0.01)
            c["final snapshot"] = conj("final.vtu" in its and its["final.vtu"][0] is meshes[-1]) if "final.vtu" not in its else conj(its["final.vtu"][0] is meshes[-1]) and close(its["final.vtu"][1][0][1], [x * 0.5 + 0.01 for x in xr])
        return c
    pyx.check(ck, name, variables, h, assume, max_paths=budget, max_decisions=400)


def continuation(ck):
    """the value stays between initial and final, moves by step per phase, and is the initial one before the first update"""
    def h(v):
        c = O.Continuation(initial=v["b0"], final=v["b1"], update_every=v["ue"], step=v["st"])
        x, y = c.value_at(v["i"]), c.value_at(v["i"] + v["ue"])
        lo, hi = (v["b0"], v["b1"]) if bool(v["b0"] <= v["b1"]) else (v["b1"], v["b0"])
        out = {"within the range": conj(le(lo, x), le(x, hi))}
        up = bool(v["b0"] <= v["b1"])
        d, st = (y - x, v["st"]) if up else (x - y, -v["st"])
        out["moves by the step until the end"] = conj(le(0, d), le(d, st), bool(eq(d, st)) or bool(eq(y, v["b1"])))
        if bool(v["i"] < v["ue"]):
            out["initial value first"] = eq(x, v["b0"])
        return out
    for n in (1, 3):
        pyx.check(ck, f"continuation value, period {n}", {"b0": "real", "b1": "real", "st": "real", "i": "int", "ue": "int"}, h,
                  lambda v: [v["b0"] >= -10, v["b0"] <= 10, v["b1"] >= -10, v["b1"] <= 10, v["i"] >= 0, v["i"] <= 5 * n, v["ue"] == n,
                             wrap(z3.If(term(v["b1"]) >= term(v["b0"]), term(v["st"]) >= 0, term(v["st"]) <= 0)), v["st"] >= -5, v["st"] <= 5])


# ---- optimality criteria ------------------------------------------------------------------------------------------
def oc(ck, name, dc, dv=None, move=0.2, xmin=0.01, xmax=1.0, tol=0.1, damping=None, l2=64.0, lam=None):
    """design and volume target symbolic, sensitivities fixed"""
    n = len(dc)
    dva = onp.ones(n) if dv is None else onp.asarray(dv, float)

    def h(v):
        rho = [v[f"r{i}"] for i in range(n)]
        with numpy_on_terms(NB), floats(NB):
            sym = any(isinstance(x, Num) for x in rho)
            x = NB.oc_update(NP().asarray(rho) if sym else onp.array(rho), onp.array(dc), v["vf"], move=move, xmin=xmin, xmax=xmax, bisect_tol=tol, l2_init=l2,
                             **({} if dv is None else {"dv": onp.array(dv, float)}), **({} if damping is None else {"damping": damping}))
        x = list(x)
        c = {"one value per entry": len(x) == n}
        V = sum(a * float(b) for a, b in zip(x, dva))
        for i in range(n):
            c[f"entry {i} in its limits"] = conj(le(xmin, x[i]), le(x[i], xmax), le(x[i], rho[i] + move), le(rho[i] - move, x[i]))
        T = v["vf"] * float(dva.sum())
        ratio = ((1 + tol) / (1 - tol)) ** (damping or 0.5)
        c["volume target"] = conj(le(V, T * ratio), le(T, V * ratio))
        p = damping or 0.5
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                # an entry strictly inside its limits moves by the common factor
                s = ((-dc[j] / dva[j]) / (-dc[i] / dva[i])) ** p
                z = lambda q: pyx._real(term(q))
                inside = lambda k: [z(x[k]) < z(rho[k] + move) - pyx.rat(1e-6), z(x[k]) > z(rho[k] - move) + pyx.rat(1e-6), z(x[k]) < pyx.rat(xmax - 1e-6), z(x[k]) > pyx.rat(xmin + 1e-6)]
                if any(isinstance(q, Num) for q in x):
                    a, b = z(x[i]) * pyx.rat(s), z(x[j])
                    # x_i / rho_i * s == x_j / rho_j; products of two designs: only claimed against fixed multiples below
                    k = [z3.And(*inside(i), *inside(j))]
                    c[f"common multiplier {i},{j}"] = wrap(z3.Implies(k[0], z3.And(z(x[i]) * z(rho[j]) * pyx.rat(s) - z(x[j]) * z(rho[i]) <= pyx.rat(1e-7), z(x[i]) * z(rho[j]) * pyx.rat(s) - z(x[j]) * z(rho[i]) >= -pyx.rat(1e-7))))
                else:
                    ins = all(rho[k] - move + 1e-6 < x[k] < rho[k] + move - 1e-6 and xmin + 1e-6 < x[k] < xmax - 1e-6 for k in (i, j))
                    c[f"common multiplier {i},{j}"] = not ins or abs(x[i] * rho[j] * s - x[j] * rho[i]) <= 1e-6
        return c

    def assume(v):
        r = [v[f"r{i}"] for i in range(n)]
        mx = lambda a, b: wrap(z3.If(term(a) >= term(b), pyx._real(term(a)), pyx._real(term(b))))
        mn = lambda a, b: wrap(z3.If(term(a) <= term(b), pyx._real(term(a)), pyx._real(term(b))))
        Vmin = sum((mx(q - move, wrap(pyx.rat(xmin))) * float(b) for q, b in zip(r, dva)), 0)
        Vmax = sum((mn(q + move, wrap(pyx.rat(xmax))) * float(b) for q, b in zip(r, dva)), 0)
        T = v["vf"] * float(dva.sum())
        return [q >= max(xmin, 0.1) for q in r] + [q <= xmax for q in r] + [v["vf"] >= 0.2, v["vf"] <= 1.0, le(Vmin * 1.02, T, 0), le(T, Vmax * 0.98, 0)]
    pyx.check(ck, name, {**{f"r{i}": "real" for i in range(n)}, "vf": "real"}, h, assume, max_paths=600, max_decisions=400)


# ---- moving narrow band -------------------------------------------------------------------------------------------
def band(ck, name, dims, niter, gus, thr, margin, x0=True, low=()):
    """designs symbolic; every iteration solves on exactly the dilated band of the current design and feeds the update"""
    NC = int(onp.prod(dims))
    keep = onp.zeros(dims, bool)
    keep[-1, -1, -1] = True
    variables = {f"x{t}_{i}": "real" for t in range(niter + 1) for i in range(NC)}
    if not x0:
        variables = {k: t for k, t in variables.items() if not k.startswith("x0")}
    variables["vf"] = "real"
    from scipy.ndimage import binary_dilation

    def h(v):
        X = [([v[f"x{t}_{i}"] for i in range(NC)] if t or x0 else [v["vf"]] * NC) for t in range(niter + 1)]
        log = []

        class Cmg:
            def build(self, act):
                log.append(("build", [int(a) for a in act]))
                return ("lv", tuple(int(a) for a in act))

            def create_solver(self, lv, b, **k):
                log.append(("solver", lv, b))

                def solve(rho):
                    log.append(("solve", lv, list(rho)))
                    return onp.arange(3.0)
                return solve

            def compliance_and_dc(self, lv, rho, u):
                log.append(("dc", lv, list(rho), list(u)))
                return 2.5 + len(log), onp.array([-1.0 - 0.1 * k for k in range(len(lv[1]))])

        def filt(act, rho, dc):
            log.append(("filter", [int(a) for a in act], list(rho), list(dc)))
            return onp.array([-2.0 - 0.1 * k for k in range(len(list(act)))])
        ups = []

        def upd(rho, dc, vf, **k):
            ups.append((list(rho), list(dc), vf, k))
            r = X[len(ups)]
            return NP().asarray(r) if any(isinstance(q, Num) for q in r) else onp.array(r)
        grid = types.SimpleNamespace(nx=dims[0], ny=dims[1], nz=dims[2], num_cells=NC)
        real = NB.oc_update
        NB.oc_update = upd
        had = "float" in vars(NB)
        if not had:
            NB.float = SymFloat if pyx.ENG is not None else float
        import scipy.ndimage as S
        bd = S.binary_dilation
        S.binary_dilation = lambda a, *p, **k: bd(onp.array([bool(q) for q in onp.asarray(a, object).ravel()], bool).reshape(onp.shape(a)), *p, **k)
        try:
            with numpy_on_terms(NB):
                xi = None if not x0 else (NP().asarray(X[0]) if any(isinstance(q, Num) for q in X[0]) else onp.array(X[0]))
                rho, hist = NB.run_narrowband_oc(grid, Cmg(), keep, v["vf"], lambda c, lv: ("b", lv), n_iter=niter, grid_update_start=gus, x_init=xi, threshold=thr,
                                                 margin=margin, sensitivity_filter=filt, verbose=False, move=0.15, xmin=0.02)
        finally:
            S.binary_dilation = bd
            NB.oc_update = real
            if not had:
                del NB.float
        c = {"one update per iteration": len(ups) == niter, "history length": len(hist) == niter}
        solves = [e for e in log if e[0] == "solve"]
        c["one solve per iteration"] = len(solves) == niter
        if len(ups) != niter or len(solves) != niter:
            return c
        for t in range(niter):
            on = onp.array([bool(x > thr) for x in X[t]]).reshape(dims)
            want = onp.ones(dims, bool) if t < gus else bd(on, iterations=margin) | keep
            act = [int(a) for a in onp.nonzero(want.ravel())[0]]
            lv, ra = solves[t][1], solves[t][2]
            c[f"iteration {t}: solved on the band"] = list(lv[1]) == act
            if list(lv[1]) != act:
                return c
            c[f"iteration {t}: densities of the band"] = conj(len(ra) == len(act), *[eq(a, X[t][k]) for a, k in zip(ra, act)])
            f = [e for e in log if e[0] == "filter"][t]
            c[f"iteration {t}: filter input"] = conj(f[1] == act, *[eq(a, X[t][k]) for a, k in zip(f[2], act)], f[3] == [-1.0 - 0.1 * k for k in range(len(act))])
            dc = [0.0] * NC
            for j, k in enumerate(act):
                dc[k] = -2.0 - 0.1 * j
            r, d, vf, kw = ups[t]
            c[f"iteration {t}: update input"] = conj(*[eq(a, b) for a, b in zip(r, X[t])], *[eq(a, b) for a, b in zip(d, dc)], eq(vf, v["vf"]), kw.get("move") == 0.15, kw.get("xmin") == 0.02)
            q = hist[t]
            c[f"iteration {t}: history"] = conj(q[0] == t, eq(q[2], len(act) / NC), eq(q[3], sum(X[t + 1]) / NC))
        c["result"] = conj(*[eq(a, b) for a, b in zip(rho, X[niter])])
        c["loads and levels belong together"] = all(e[2] == ("b", e[1]) for e in log if e[0] == "solver")
        return c

    def assume(v):
        return [x >= 0 for x in v.values()] + [x <= 1 for x in v.values()] + [v[f"x{t}_{i}"] < thr for t in range(niter) for i in low]
    pyx.check(ck, name, variables, h, assume, max_paths=1500, max_decisions=400)


def multires(ck, name, dims, levels, factor, floor):
    """coarse to fine: ladder ends at the requested size, each level is seeded by the previous one, iteration counts per level"""
    def h(v):
        calls, builds = [], []

        def build(*d):
            builds.append(d)
            return dict(grid=("g", d), cmg=("c", d), keep=("k", d), load_fn=("l", d))

        def one(grid, cmg, keep, vf, load_fn, **k):
            calls.append((grid, cmg, keep, vf, load_fn, k))
            d = grid[1]
            return onp.linspace(0.1, 0.9, int(onp.prod(d))) * (1 - 0.1 * len(calls)), [("h", len(calls))]
        real = NB.run_narrowband_oc
        NB.run_narrowband_oc = one
        try:
            r = quiet(NB.run_narrowband_multires, build, dims, v["vf"], n_levels=levels, coarse_factor=factor, n_iter=v["n"], coarse_iter=v["ci"], grid_update_start=v["g"], floor=floor, margin=3)
        finally:
            NB.run_narrowband_oc = real
        want = [tuple(dims)]
        for _ in range(levels - 1):
            cc = tuple(max(floor, int(round(d / factor))) for d in want[0])
            if cc == want[0]:
                break
            want.insert(0, cc)
        c = {"resolution ladder": [tuple(b) for b in builds] == want and [tuple(x) for x in r["levels"]] == want}
        if not c["resolution ladder"]:
            return c
        off = 0
        for i, (grid, cmg, keep, vf, lf, k) in enumerate(calls):
            n = v["n"] if i == len(calls) - 1 else v["ci"]
            c[f"level {i}: parts of the level"] = grid == ("g", want[i]) and cmg == ("c", want[i]) and keep == ("k", want[i]) and lf == ("l", want[i]) and k.get("margin") == 3
            c[f"level {i}: iterations"] = conj(eq(k["n_iter"], n), eq(k.get("it_offset", off), off), eq(vf, v["vf"]))
            c[f"level {i}: full-grid phase only on the coarsest"] = eq(k["grid_update_start"], v["g"] if i == 0 else 0)
            off = off + n
            if i == 0:
                c["coarsest level starts uniform"] = k.get("x_init") is None
            else:
                prev = (onp.linspace(0.1, 0.9, int(onp.prod(want[i - 1]))) * (1 - 0.1 * i)).reshape(want[i - 1])
                x = onp.asarray(k["x_init"], float).reshape(want[i])
                c[f"level {i}: seed within the range of the coarse design"] = bool(x.min() >= prev.min() - 1e-9 and x.max() <= prev.max() + 1e-9)
                cor = lambda a: [a[tuple(0 if s == 0 else -1 for s in q)] for q in onp.ndindex(2, 2, 2)]
                c[f"level {i}: seed keeps the corners"] = bool(onp.allclose(cor(x), cor(prev), atol=1e-6))
        c["result is the finest design"] = onp.allclose(r["x"], (onp.linspace(0.1, 0.9, int(onp.prod(dims))) * (1 - 0.1 * len(calls))).reshape(dims))
        c["history per level"] = [q["level"] for q in r["history"]] == list(range(len(calls))) and [tuple(q["dims"]) for q in r["history"]] == want and [q["history"] for q in r["history"]] == [[("h", i + 1)] for i in range(len(calls))]
        return c
    pyx.check(ck, name, {"vf": "real", "n": "int", "ci": "int", "g": "int"}, h,
              lambda v: [v["vf"] >= 0, v["vf"] <= 1, v["n"] >= 1, v["n"] <= 100, v["ci"] >= 1, v["ci"] <= 100, v["g"] >= 0, v["g"] <= 5])


# ---- differential multipliers -------------------------------------------------------------------------------------
def multipliers(ck):
    """constraint losses, initial slack/multipliers, combination, and the sign flip of multiplier updates"""
    ctx, _ = new()
    x = ctx.array("x", (3,))
    lam, sl = ctx.array("lam", (2,)), ctx.array("sl", (2,))
    lm2 = ctx.array("lm2", ())
    f = lambda x: jnp.stack([x[0] * x[1] - 0.3, x[2] + 0.5 * x[0]])
    g = lambda x: x[0] - 2.0 * x[2]
    L = mdmm.LagrangeMultiplier
    e = mdmm.eq(f, damping=2.5, weight=1.5)
    i = mdmm.ineq(f, damping=0.5, weight=2.0)
    e2 = mdmm.eq(g)

    def spec_eq(lam, x):
        v = f(x)
        return 1.5 * jnp.sum(lam * v + 2.5 * v * v / 2), v

    def spec_in(lam, sl, x):
        v = f(x) - sl * sl
        return 2.0 * jnp.sum(lam * v + 0.5 * v * v / 2), v
    ck.forall("equality constraint loss", lambda lam, x: e.loss({"lambda": L(lam)}, x), spec_eq, (lam, x), ctx)
    ck.forall("inequality constraint loss", lambda lam, sl, x: i.loss({"lambda": L(lam), "slack": sl}, x), spec_in, (lam, sl, x), ctx)
    c = mdmm.combine(e, i, e2)

    def comb(lam, sl, lm2, x):
        return c.loss(({"lambda": L(lam)}, {"lambda": L(2 * lam), "slack": sl}, {"lambda": L(lm2)}), x)

    def comb_spec(lam, sl, lm2, x):
        a, b = spec_eq(lam, x), spec_in(2 * lam, sl, x)
        return a[0] + b[0] + lm2 * g(x) + g(x) ** 2 / 2, (a[1], b[1], g(x))
    ck.forall("combined constraints", comb, comb_spec, (lam, sl, lm2, x), ctx, tol=1e-7)
    ck.forall("mean reduction", lambda lam, x: mdmm.eq(f, reduction=jnp.mean).loss({"lambda": L(lam)}, x)[0], lambda lam, x: jnp.mean(lam * f(x) + f(x) ** 2 / 2), (lam, x), ctx)
    ck.forall("initial multipliers are zero", lambda x: tuple(jax.tree.leaves((e.init(x)["lambda"].value, i.init(x)["lambda"].value, [q["lambda"].value for q in c.init(x)]))),
              lambda x: (jnp.zeros(2), jnp.zeros(2), jnp.zeros(2), jnp.zeros(2), jnp.zeros(())), (x,), ctx)

    def slack(x):
        s = i.init(x)["slack"]
        return s * s
    ck.forall("initial slack absorbs satisfied inequalities", slack, lambda x: jnp.where(f(x) >= 0, f(x), 0.0), (x,), ctx, tol=1e-6)
    # a gradient step on the loss becomes descent in the variables and ascent in the multipliers
    tree = lambda lam, sl, x: {"x": x, "c": ({"lambda": L(lam), "slack": sl}, {"lambda": L(x[:2])})}

    def flat(t):
        return tuple(jax.tree.leaves(t))
    ck.forall("multiplier updates change sign", lambda lam, sl, x: flat(mdmm.prepare_update(tree(lam, sl, x))), lambda lam, sl, x: flat(tree(-lam, sl, x)[("c")]) [:0] + flat({"x": x, "c": ({"lambda": L(-lam), "slack": sl}, {"lambda": L(-x[:2])})}), (lam, sl, x), ctx)
    tr = mdmm.optax_prepare_update()
    ck.forall("optax transformation", lambda lam, sl, x: flat(tr.update(tree(lam, sl, x), tr.init(tree(lam, sl, x)))[0]), lambda lam, sl, x: flat({"x": x, "c": ({"lambda": L(-lam), "slack": sl}, {"lambda": L(-x[:2])})}), (lam, sl, x), ctx)


def run(ck):
    ck.fn("feax.gene.optimizer.run", "feax.gene.optimizer.Continuation.value_at", "feax.gene.optimizer._collect_constraints", "feax.gene.narrowband.oc_update",
          "feax.gene.narrowband.run_narrowband_oc", "feax.gene.narrowband.run_narrowband_multires", "feax.gene.mdmm.{eq,ineq,combine,prepare_update,optax_prepare_update}")
    ck.bound("driver: up to 4 iterations, 2 remeshes, symbolic limits, periods, parameter ranges, targets, bounds and evaluations per optimizer call; optimality criteria: 2-3 entries, symbolic designs and volume target, coarse multiplier tolerance; moving band: up to 4 cells, 2 iterations, symbolic designs; constraint losses: all states in a box")
    ck.assumption("nlopt evaluates the registered callbacks at most maxeval times per call and raises RoundoffLimited at will (stand-in); jax.jit reuses traces of equal functions at equal shapes (stand-in, matches jax's cache key); cmg solves are stand-ins")
    full = ck.tier != "quick"
    n = 4 if full else 3
    ck.do(drive, "plain budget and constraints", n, con=True, early=True)
    ck.do(drive, "parameter continuation", n, cont=True, con=False, conc={"b0": 1.0, "b1": 2.5, "st": 1.0})
    ck.do(drive, "decreasing continuation", n, cont=True, con=True, conc={"b0": 2.0, "b1": 0.5, "st": -0.75})
    ck.do(drive, "continuation with early stops", n, cont=True, con=False, early=True, conc={"b0": 1.0, "b1": 4.0, "st": 0.5})
    ck.do(drive, "remeshing", n, adapt=2, con=True)
    ck.do(drive, "remeshing with early stops", n, adapt=1, con=False, early=True)
    ck.do(drive, "remeshing and continuation", n, adapt=2, cont=True, con=True, conc={"b0": 1.0, "b1": 2.0, "st": 0.5})
    ck.do(drive, "passive regions and bounds", 2, passive=True, adapt=1, con=False)
    ck.do(drive, "output", n, out=True, con=True, adapt=1)
    ck.do(continuation)
    t = 0.3 if ck.tier == "quick" else 0.1
    ck.do(oc, "optimality criteria", [-1.0, -2.0], tol=t)
    ck.do(oc, "optimality criteria, weights", [-1.0, -2.5], [1.0, 3.0], tol=t)
    ck.do(oc, "optimality criteria, full damping", [-1.0, -1.6], None, 0.1, 0.05, 0.9, 0.1, 1.0)
    if full:
        ck.do(oc, "optimality criteria, three entries", [-1.0, -2.0, -0.7], [1.0, 0.5, 2.0])
    ck.do(band, "moving band 3x1x1", (3, 1, 1), 2, 1, 0.3, 1)
    ck.do(band, "moving band from a seed", (4, 1, 1), 1, 0, 0.3, 1)
    ck.do(band, "moving band that shifts sideways", (5, 1, 1), 2, 0, 0.3, 1, True, (0, 3, 4))
    ck.do(band, "moving band default start", (2, 2, 1), 2, 0, 0.25, 1, False)
    ck.do(multires, "two resolutions", (16, 9, 8), 2, 2, 4)
    ck.do(multires, "three resolutions", (20, 10, 9), 3, 2, 3)
    ck.do(multires, "single resolution", (6, 4, 4), 1, 2, 4)
    ck.do(multires, "floor stops the ladder", (8, 8, 8), 3, 2, 8)
    ck.do(multipliers)
