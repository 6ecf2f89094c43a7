"""P11: time stepping: the run loop, explicit schemes, implicit steps."""
import os
import tempfile
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
import feax.solvers.time_solver as T
from symx import pyx
from symx.pyx import eq, le, conj, Num, term, wrap
import z3
from .fem import *
from .p05 import quiet, D, K


class Spy(T.TimePipeline):
    """records every call; the state is the list index of the step, so chaining is visible"""

    def __init__(self):
        self.log, self.saves, self.order = [], [], []

    def build(self, mesh):
        self.order.append(("build", mesh))

    def initial_state(self):
        self.order.append(("init",))
        return (0,)

    def step(self, state, t, dt):
        self.log.append((state, t, dt))
        return (len(self.log),)

    def save(self, state, step, t, output_dir):
        self.saves.append((state, step, t))

    def monitor(self, state, step, t):
        return {"s": state[0] + 0.25, "t2": t}


def span(ck, name, n, out=True, every=True):
    """dt, window and output frequencies symbolic; at most n steps fit in the window"""
    variables = {"dt": "real", "t0": "real", "t1": "real"}
    if every:
        variables.update(se="int", pe="int", ce="int")

    def assume(v):
        a = [v["dt"] >= 1e-3, v["dt"] <= 10, v["t0"] >= -10, v["t0"] <= 10, v["t1"] >= v["t0"], v["t1"] <= v["t0"] + v["dt"] * n]
        return a + ([v[k] >= 1 for k in ("se", "pe", "ce")] + [v[k] <= n + 2 for k in ("se", "pe", "ce")] if every else [])

    def h(v):
        p, cbs = Spy(), []
        se, pe, ce = (v[k] if every else 1 for k in ("se", "pe", "ce"))
        with tempfile.TemporaryDirectory() as td:
            d = os.path.join(td, "o") if out else None
            r = quiet(T.run, p, "mesh", T.TimeConfig(dt=v["dt"], t_end=v["t1"], t_start=v["t0"], save_every=se, print_every=pe),
                      output_dir=d, callbacks=[T.Callback(lambda s, i, t: cbs.append((s, i, t)), every=ce)])
            rows = open(os.path.join(d, "history.csv")).read().split("\n") if out else None
        m = len(p.log)
        c = {"built once with the mesh, then the initial state": [o[0] for o in p.order] == ["build", "init"] and p.order[0][1] == "mesh",
             "each step starts from the previous state": [s for s, _, _ in p.log] == [(i,) for i in range(m)],
             "step count": r.n_steps == m and r.final_state == (m,),
             "history steps": r.history["step"] == list(range(m + 1)),
             "history monitors": r.history["s"] == [i + 0.25 for i in range(m + 1)]}
        t = v["t0"]
        times = [t]
        for i, (_, ti, di) in enumerate(p.log):
            last = i == m - 1
            c[f"step {i} starts at the accumulated time"] = eq(ti, t)
            c[f"step {i} size"] = conj(le(di, v["dt"] * (1 + 1e-5)), le(1e-8 * v["dt"], di) if m > 1 else di > 0) if last else conj(le(di, v["dt"] * (1 + 1e-5)), le(v["dt"] * (1 - 1e-5), di))
            t = t + di
            times.append(t)
        c["lands on t_end"] = conj(eq(t, v["t1"]), eq(r.t_final, v["t1"]))
        c["history times"] = conj(len(r.history["time"]) == m + 1, *[eq(a, b) for a, b in zip(r.history["time"], times)])
        c["monitor sees the current time"] = conj(*[eq(a, b) for a, b in zip(r.history["t2"], times)])
        want = lambda i, k: (i % k == 0)
        sv = {i: 0 for i in range(m + 1)}
        for s, i, ti in p.saves:
            sv[i] = sv.get(i, 0) + 1
            c[f"snapshot {i} belongs to its step"] = conj(s == (i,), eq(ti, times[i]))
        if out:
            c["csv rows"] = len([x for x in rows if x]) == m + 1
            for i in range(m + 1):
                w = True if i in (0, m) else want(i, se)
                w = w if isinstance(w, bool) else w.z
                c[f"snapshot {i} saved exactly once when due"] = wrap(z3.And(z3.BoolVal(sv[i] <= 1), (z3.BoolVal(sv[i] == 1) == w)))
        else:
            c["no snapshots without an output directory"] = not p.saves
        ran = [i for _, i, _ in cbs]
        c["callbacks get the new state and time"] = conj(*[conj(s == (i,), eq(ti, times[i])) for s, i, ti in cbs])
        for i in range(1, m + 1):
            w = want(i, ce)
            c[f"callback at step {i} when due"] = wrap(z3.BoolVal(ran.count(i) == 1) == (z3.BoolVal(w) if isinstance(w, bool) else w.z)) if ran.count(i) < 2 else False
        return c
    pyx.check(ck, name, variables, h, assume, max_paths=3000)


class Stop(Exception):
    pass


def adaptive(ck, name, growth, n):
    variables = {"dt": "real", "t1": "real", "lo": "real", "hi": "real", **{f"a{i}": "real" for i in range(n)}}

    def assume(v):
        return [v["lo"] >= 1e-3, v["lo"] <= v["dt"], v["dt"] <= v["hi"], v["hi"] <= 10, v["t1"] >= 0, v["t1"] <= 2 * v["dt"]] + [c for i in range(n) for c in (v[f"a{i}"] >= -20, v[f"a{i}"] <= 20)]

    def h(v):
        class A(Spy):
            def step(self, state, t, dt):
                if len(self.log) == n:
                    raise Stop()        # the window goes on: only the first n steps are judged
                return super().step(state, t, dt)

            def adapt_dt(self, state, step, t, dt):
                self.order.append(("adapt", state, step, t, dt))
                return v[f"a{step - 1}"]
        p = A()
        try:
            r = quiet(T.run, p, "mesh", T.TimeConfig(dt=v["dt"], t_end=v["t1"]), adaptive_dt=T.AdaptiveDtConfig(dt_min=v["lo"], dt_max=v["hi"], growth_factor=growth))
        except Stop:
            r = None
        c, t, dt = {}, 0, v["dt"]
        ads = [o for o in p.order if o[0] == "adapt"]
        for i, (_, ti, di) in enumerate(p.log):
            last = r is not None and i == len(p.log) - 1
            tol = 1e-5 * v["dt"] + 1e-5
            near = lambda a, b: wrap(z3.And(term(a) - term(b) <= term(tol), term(b) - term(a) <= term(tol))) if isinstance(a, Num) or isinstance(b, Num) else abs(a - b) <= 1.1e-4
            c[f"step {i} time"] = eq(ti, t)
            c[f"step {i} size"] = le(di, dt * (1 + 1e-5)) if last else near(di, dt)
            t = t + di
            if i < len(ads):
                a = v[f"a{i}"]
                if isinstance(a, Num):
                    x = z3.If(a.z < v["lo"].z, v["lo"].z, z3.If(a.z > v["hi"].z, v["hi"].z, a.z))
                    g = term(dt) * term(growth)
                    nd = Num(z3.If(x < g, x, g))
                else:
                    nd = min(max(a, v["lo"]), v["hi"], dt * growth)
                c[f"proposal {i} is made from the new state"] = conj(ads[i][1] == (i + 1,), ads[i][2] == i + 1, eq(ads[i][3], t), eq(ads[i][4], dt))
                c[f"step {i + 1} size within limits"] = conj(le(v["lo"], nd), le(nd, v["hi"]))
                dt = nd
        if r is not None:
            c["lands on t_end"] = conj(eq(t, v["t1"]), eq(r.t_final, v["t1"]))
        else:
            c["still within the window"] = le(t, v["t1"])
        c["all steps adapted"] = len(ads) >= len(p.log) - 1
        return c
    pyx.check(ck, name, variables, h, assume, max_paths=3000)


def explicit(ck, scheme):
    """arbitrary right-hand side: every evaluation returns fresh values; arguments and result are compared with the scheme"""
    S = {"euler": ([], [1]), "rk2": ([0.5], [0, 1]), "rk4": ([0.5, 0.5, 1], [1 / 6, 1 / 3, 1 / 3, 1 / 6])}[scheme]
    st = len(S[1])
    variables = {"t": "real", "dt": "real", "u": "real", "v": "real", **{f"k{i}{c}": "real" for i in range(st) for c in "uv"}}

    def h(v):
        calls = []

        class E(T.ExplicitPipeline):
            def build(self, mesh):
                pass

            def initial_state(self):
                pass

            def compute_rhs(self, state, t):
                i = len(calls)
                calls.append((state, t))
                return {"u": v[f"k{i}u"], "w": [v[f"k{i}v"]]}
        E.scheme = scheme
        r = E().step({"u": v["u"], "w": [v["v"]]}, v["t"], v["dt"])
        c = {"evaluations": len(calls) == st}
        for i, (s, t) in enumerate(calls[:st]):
            a = ([0] + S[0])[i]
            c[f"stage {i} time"] = eq(t, v["t"] + v["dt"] * a)
            for k, got in (("u", s["u"]), ("v", s["w"][0])):
                c[f"stage {i} state {k}"] = eq(got, v[k] + v["dt"] * a * v[f"k{i - 1}{k}"] if i and a else v[k])
        for k, got in (("u", r["u"]), ("v", r["w"][0])):
            w = sum(v[f"k{i}{k}"] * (int(round(6 * b))) for i, b in enumerate(S[1]))
            c[f"result {k}"] = eq(got * 6, v[k] * 6 + v["dt"] * w)
        return c
    rng = lambda v: [c for x in v.values() for c in (x >= -10, x <= 10)]
    pyx.check(ck, f"explicit {scheme}", variables, h, rng)


def implicit(ck, pseudo, wrapped):
    """one implicit step: the parameters are built from (state, t, dt), the solve starts from the state; gradients pass unless pseudo"""
    class P(T.ImplicitPipeline):
        pseudo_time = pseudo

        def build(self, mesh):
            pass

        def initial_state(self):
            pass

        def update_vars(self, state, t, dt):
            return (state * t + dt * self.q,)

        def solver(self, tp, state):
            r = tp[0] * state + 2.0 * state
            return fe.Solution(r, ((3, 1),)) if wrapped else r
    ctx, _ = new()
    a = tuple(ctx.array(n, s) for n, s in (("u", (3,)), ("q", (3,)), ("t", ()), ("dt", ()), ("du", (3,)), ("dq", (3,))))

    def chain(f, u, q, t, dt):
        for i in range(2):
            u = f(u, q, t + i * dt, dt)
        return u

    def impl(u, q, t, dt, du, dq):
        def f(u, q, t, dt):
            p = P()
            p.q = q
            r = p.step(u, t, dt)
            assert not isinstance(r, fe.Solution)
            return r
        return jax.jvp(lambda u, q: chain(f, u, q, t, dt), (u, q), (du, dq))

    def spec(u, q, t, dt, du, dq):
        def f(u, q, t, dt):
            s = jax.lax.stop_gradient(u) if pseudo else u
            return (s * t + dt * q) * s + 2.0 * s
        return jax.jvp(lambda u, q: chain(f, u, q, t, dt), (u, q), (du, dq))
    ck.forall(f"implicit chain (pseudo_time={pseudo}, wrapped={wrapped})", impl, spec, a, ctx)


def heat(ck, name, opts, solution):
    """backward Euler heat conduction through run(): every step satisfies its implicit equation"""
    pts, cells = build("QUAD4", (2, 1), seed=3)
    N, dt = len(pts), 0.25

    class Q(fe.Problem):
        def get_tensor_map(self):
            return lambda g, T0, k: k * g

        def get_mass_map(self):
            return lambda u, x, T0, k: (u - T0) / dt
    p = Q(fe.Mesh(pts, cells, "QUAD4"), vec=1, dim=2, ele_type="QUAD4")
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=on_face(0, 0.0), component=0, value=0.3)]).create_bc(p)
    solver = quiet(fe.create_solver, p, bc, opts, linear=True, return_solution=solution, traced_params=TP((jnp.zeros(N), jnp.ones(len(cells)))))
    free, rows = ~onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    ctx, _ = new()
    u0, k = ctx.array("u", (N,)), ctx.array("k", (len(cells),), 0.5, 2.0)

    def impl(u0, k):
        seen = [u0]

        class H(T.ImplicitPipeline):
            def build(self, mesh):
                self.solver = solver

            def initial_state(self):
                return u0

            def update_vars(self, state, t, dt_):
                return TP((state, k * (1 + t)))

        r = quiet(T.run, H(), p.mesh[0] if isinstance(p.mesh, list) else p.mesh, T.TimeConfig(dt=dt, t_end=2 * dt), callbacks=[T.Callback(lambda s, i, t: seen.append(s))])
        out = []
        for i in (1, 2):
            R = fe.get_res(p, [seen[i].reshape(-1, 1)], TP((seen[i - 1], k * (1 + (i - 1) * dt))))[0].reshape(-1)
            out += [R[free], seen[i][rows] - 0.3]
        return jnp.concatenate(out + [r.final_state - seen[2]])
    ck.forall(name, impl, lambda u0, k: jnp.zeros(3 * N), (u0, k), ctx, tol=1e-6)


def run(ck):
    ck.fn("feax.solvers.time_solver.run", "feax.solvers.time_solver.ExplicitPipeline.step", "feax.solvers.time_solver.ImplicitPipeline.step")
    ck.bound("run(): windows of up to 3 steps (4 in the thorough tier), symbolic start, end, dt, output/print/callback frequencies, adaptive proposals and limits; explicit schemes: arbitrary right-hand sides, states, times and step sizes; backward Euler heat: 2 steps, all initial fields and conductivities")
    full = ck.tier != "quick"
    ck.do(span, "fixed step, outputs", 3)
    ck.do(span, "fixed step, no output directory", 4 if full else 3, out=False)
    ck.do(span, "fixed step, longer", 8 if full else 6, every=False)
    for g in (2.0, 1.25):
        ck.do(adaptive, f"adaptive, growth {g}", g, 4 if full else 3)
    for s in ("euler", "rk2", "rk4"):
        ck.do(explicit, s)
    for ps in (False, True):
        for w in (False, True):
            ck.do(implicit, ps, w)
    ck.do(heat, "backward Euler heat", D(), False)
    ck.do(heat, "backward Euler heat, Solution", K(solver="cg", tol=1e-13, atol=1e-13), True)
