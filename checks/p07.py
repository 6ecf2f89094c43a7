"""P07: the nonlinear solve is Newton's method with Armijo backtracking, stopped exactly by its tolerances / iteration limit."""
import functools
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from .fem import *
from .p05 import R_of, quiet, D, K
from .p06 import lin_solve
from symx.check import Inconclusive, Unsupported


def tiny(cubic=0.4, view="FULL", sym=True, cells1=True, lin=0.5):
    """one triangle, scalar unknown, one constrained node: 2 free dofs; or two triangles"""
    pts = onp.array([[0.0, 0.0], [1.0, 0.1], [0.2, 0.9], [1.1, 1.2]])
    c = onp.array([[0, 1, 2], [1, 3, 2]])
    if cells1:
        pts, c = pts[:3], c[:1]
    B = onp.array([[1.0, 0.5], [-0.4, 0.8]])

    class P(fe.Problem):
        def get_tensor_map(self):
            return (lambda g, k: k * g) if sym else (lambda g, k: k * (g @ B))

        def get_mass_map(self):
            return lambda u, x, k: cubic * u * u * u + lin * u - 0.2 * x[:1]

        def get_surface_maps(self):
            return [lambda u, x, t: -t * jnp.ones(1)]
    p = P(fe.Mesh(pts, c, "TRI3"), vec=1, dim=2, ele_type="TRI3", matrix_view=view, gauss_order=1,
          location_fns=[lambda q: q[0] + q[1] > 0.95])
    s = fe.TracedParams.create_uniform_surface_var(p, 1.0, 0)
    return p, (lambda k, t: TP((k,), [(t * s,)])), len(c)


def reference(R, sel, u, opt):
    """Newton with Armijo backtracking on 0.5|r|^2, written out; J = dR/du with the constrained columns dropped when sel is given"""
    n2 = lambda r: jnp.sqrt(jnp.sum(r * r))
    r0 = n2(R(u))

    def more(s):
        u, rn, it, ok = s
        return ok & (rn > opt.tol) & (rn / jnp.maximum(r0, 1e-30) > opt.rel_tol) & (it < opt.max_iter)

    def step(s):
        u, rn, it, ok = s
        r = R(u)
        J = jax.jacfwd(R)(u)
        if sel is not None:
            J = jnp.where(sel[None, :] & ~sel[:, None], 0.0, J)
        du = lin_solve(J, -r)
        best, bn, found, a = u, rn, jnp.asarray(False), 1.0
        for _ in range(opt.line_search_max_backtracks):
            w = u + a * du
            nw = n2(R(w))
            acc = 0.5 * (nw ** 2 - n2(r) ** 2) <= -opt.line_search_c1 * a * jnp.sum(r * r)
            best = jnp.where(acc & ~found, w, best)
            bn = jnp.where(acc & ~found, nw, bn)
            found = found | acc
            a = a * opt.line_search_rho
        fb = u + 1e-8 * du
        return jnp.where(found, best, fb), jnp.where(found, bn, n2(R(fb))), it + 1, found
    return jax.lax.while_loop(more, step, (u, r0, jnp.asarray(0), jnp.asarray(True)))[0]


def steps(ck, name, opts, opt, view="FULL", sym=True, use_ts=True, cubic=0.4, elim=True, free_bc=False, cells1=True, lin=0.5):
    p, tp, nk = tiny(cubic, view, sym, cells1, lin)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: q[0] + q[1] < 0.05, component=0, value=0.3)]).create_bc(p)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    N = p.num_total_dofs_all_vars
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    solver = quiet(fe.create_solver, p, bc, opts, newton_options=opt, traced_params=tp(jnp.ones(nk), 0.3), traced_structure=ts,
                   return_solution=False, symmetric_elimination=elim)
    ctx, _ = new()
    k = ctx.array("k", (nk,), 0.5, 2.0)
    t = ctx.array("t", ())
    g = ctx.array("g", (len(rows),))
    u0 = ctx.array("u", (N,)) if free_bc else ctx.array("u", (N - len(rows),))
    free = onp.nonzero(~m)[0]
    full = (lambda u, g: u) if free_bc else (lambda u, g: jnp.zeros(N).at[free].set(u).at[rows].set(g))

    def impl(k, t, g, u):
        return solver(tp(k, t), full(u, g), bc=bc.replace_vals(g), **({"traced_structure": ts} if use_ts else {}))

    def spec(k, t, g, u):
        R = lambda u: jnp.where(m, u - jnp.zeros(N).at[rows].set(g), R_of(p, u, tp(k, t), ts))
        return reference(R, jnp.asarray(m) if elim else None, full(u, g).at[rows].set(g), opt)
    ck.forall(name, impl, spec, (k, t, g, u0), ctx, tol=1e-5, robust=True)


def affine(ck, name, opts, opt=None, view="FULL", sym=True, use_ts=True, elim=True, bcfree=False, guess=True, cells1=False):
    """an affine residual: whatever the guess, the returned state solves the constrained equations"""
    p, tp, nk = tiny(0.0, view, sym, cells1)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: q[0] + q[1] < 0.05, component=0, value=0.3)]).create_bc(p)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    N = p.num_total_dofs_all_vars
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    solver = quiet(fe.create_solver, p, bc, opts, newton_options=opt, traced_params=tp(jnp.ones(nk), 0.3), traced_structure=ts,
                   return_solution=False, symmetric_elimination=elim)
    ctx, _ = new()
    k = ctx.array("k", (nk,), 0.5, 2.0)
    t = ctx.array("t", ())
    g = ctx.array("g", (len(rows),)) if guess else jnp.full(len(rows), 0.3)
    u0 = ctx.array("u", (N,)) if guess else jnp.zeros(N)

    def impl(k, t, g, u):
        if not bcfree:
            u = u.at[rows].set(g)
        a = (u,) if guess else ()
        u = solver(tp(k, t), *a, **({"bc": bc.replace_vals(g)} if guess else {}), **({"traced_structure": ts} if use_ts else {}))
        r = jnp.where(m, u - jnp.zeros(N).at[rows].set(g), R_of(p, u, tp(k, t), ts))
        return r
    from symx.interp import Interp
    I = Interp(ctx)
    I.enter_loops = True      # a guess that already meets the tolerances is the "steps" harnesses' case
    ck.forall(name, impl, lambda *a: jnp.zeros(N), (k, t, g, u0), ctx, tol=5e-6, robust=True, interp=I)


def batched(ck, name, opts, opt):
    """vmap over guesses and parameters: every lane is its own Newton solve (lanes stop independently)"""
    p, tp, nk = tiny()
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: q[0] + q[1] < 0.05, component=0, value=0.3)]).create_bc(p)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    N = p.num_total_dofs_all_vars
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    solver = quiet(fe.create_solver, p, bc, opts, newton_options=opt, traced_params=tp(jnp.ones(nk), 0.3), traced_structure=ts, return_solution=False)
    ctx, _ = new()
    u0 = ctx.array("u", (2, N - 1))
    t = ctx.array("t", (2,))
    k = jnp.ones(nk)
    free = onp.nonzero(~m)[0]
    full = lambda u: jnp.zeros(N).at[free].set(u).at[rows].set(0.3)
    from symx.interp import Interp
    I = Interp(ctx)
    I.enter_loops = True

    def spec1(t, u):
        R = lambda u: jnp.where(m, u - jnp.zeros(N).at[rows].set(0.3), R_of(p, u, tp(k, t), ts))
        return reference(R, jnp.asarray(m), full(u), opt)
    ck.forall(name, lambda t, u: jax.vmap(lambda t, u: solver(tp(k, t), full(u), traced_structure=ts))(t, u),
              lambda t, u: jnp.stack([spec1(t[0], u[0]), spec1(t[1], u[1])]), (t, u0), ctx, tol=1e-5, robust=True, interp=I)


def failure(ck, name, opts):
    """a failed line search raises NewtonLineSearchError from an eager call, and only then (states found by search)"""
    p, tp, nk = tiny(cubic=3.0)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: q[0] + q[1] < 0.05, component=0, value=0.3)]).create_bc(p)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    N = p.num_total_dofs_all_vars
    m = onp.asarray(bc.bc_mask)
    mk = lambda r: quiet(fe.create_solver, p, bc, opts, newton_options=fe.NewtonOptions(max_iter=1, line_search_max_backtracks=1, line_search_c1=0.45, raise_on_line_search_failure=r),
                         traced_params=tp(jnp.ones(nk), 0.3), traced_structure=ts, return_solution=False)
    loud, soft = mk(True), mk(False)
    R = jax.jit(lambda u, t: jnp.where(m, u - 0.3, R_of(p, u, tp(0.3 * jnp.ones(nk), t), ts)))
    from feax.solvers.newton import NewtonLineSearchError
    rng, seen = onp.random.RandomState(5), {True: 0, False: 0}
    for _ in range(60):
        u = jnp.asarray(rng.uniform(-1, 1, N)).at[onp.asarray(bc.bc_rows)].set(0.3)
        t = float(rng.uniform(-1, 1))
        P = tp(0.3 * jnp.ones(nk), t)
        w = soft(P, u, traced_structure=ts)
        J = jax.jacfwd(R)(u, t)
        J = jnp.where(m[None, :] & ~m[:, None], 0.0, J)
        du = -jnp.linalg.solve(J, R(u, t))
        r0, r1 = float(jnp.sum(R(u, t) ** 2)), float(jnp.sum(R(u + du, t) ** 2))
        if abs(0.5 * (r1 - r0) + 0.45 * r0) < 1e-6 * r0:
            continue
        fail = 0.5 * (r1 - r0) > -0.45 * r0
        seen[fail] += 1
        try:
            loud(P, u, traced_structure=ts)
            raised = False
        except NewtonLineSearchError:
            raised = True
        if raised != fail:
            return ck.violate(name, {"guess": onp.asarray(u).tolist(), "load": t, "full step accepted by the Armijo test": not fail, "NewtonLineSearchError raised": raised})
        if seen[True] >= 4 and seen[False] >= 4:
            break
    ck.harnesses.append({"name": name + f" (concrete, {seen})", "verdict": "checked"})


class Fork:
    """Path explorer for loops that run on the host: comparisons of traced scalars ask for a decision and record it."""
    def __init__(self, max_paths=80):
        self.todo, self.max_paths = [[]], max_paths

    def paths(self, f):
        n = 0
        while self.todo:
            self.want, self.took, self.conds = self.todo.pop(), [], []
            n += 1
            if n > self.max_paths:
                raise Inconclusive("too many paths through the host loop")
            out = f()
            for i in range(len(self.want), len(self.took)):
                self.todo.append(self.took[:i] + [not self.took[i]])
            yield self.conds, out

    def decide(self, c):
        i = len(self.took)
        d = self.want[i] if i < len(self.want) else False
        self.took.append(d)
        self.conds.append(c if d else ~c)
        return d


def host_float(fork):
    """stand-in for float() in a host loop run on traced values"""
    class B:
        def __init__(self, c):
            self.c = c

        def __bool__(self):
            return fork.decide(self.c)

        def __and__(self, o):
            return B(self.c & (o.c if isinstance(o, B) else o))

        def __or__(self, o):
            return B(self.c | (o.c if isinstance(o, B) else o))
        __rand__, __ror__ = __and__, __or__

        def __invert__(self):
            return B(~self.c)

    raw = lambda o: o.v if isinstance(o, F) else o

    class F:
        def __init__(self, v):
            self.v = jnp.asarray(v)

        def __format__(self, spec):
            return "?"

        def __float__(self):
            raise Unsupported("a traced value is needed as a host float")
    for n in "add radd sub rsub mul rmul truediv rtruediv pow".split():
        setattr(F, f"__{n}__", (lambda n: lambda a, b: F(getattr(a.v, f"__{n}__")(raw(b))))(n))
    for n in "neg abs".split():
        setattr(F, f"__{n}__", (lambda n: lambda a: F(getattr(a.v, f"__{n}__")()))(n))
    for n in "lt le gt ge".split():
        setattr(F, f"__{n}__", (lambda n: lambda a, b: B(getattr(a.v, f"__{n}__")(raw(b))))(n))
    F.__repr__ = F.__str__ = lambda a: "?"
    return lambda x: F(x.v if isinstance(x, F) else x) if isinstance(x, (jax.core.Tracer, F)) else float(x)


class passthrough:
    """custom_vjp without its rule (forward values only)"""
    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def defvjp(self, *a, **k):
        pass


def first_decrease(R, sel, u, opt, lt):
    """host loops: Newton, the first of 1, rho, rho^2.. that strictly lowers the residual norm; no such step: stop where it is.
    lt(a, b) decides a < b (on host values: the comparison; on traced values: a path decision)"""
    n2 = lambda r: jnp.linalg.norm(r)
    r0 = rn = n2(R(u))
    for it in range(opt.max_iter):
        if lt(rn, opt.tol) or (it and lt(rn / (r0 + 1e-30), opt.rel_tol)):
            return u
        J = jax.jacfwd(R)(u)
        if sel is not None:
            J = jnp.where(sel[None, :] & ~sel[:, None], 0.0, J)
        du = lin_solve(J, -R(u))
        for i in range(opt.line_search_max_backtracks):
            w = u + opt.line_search_rho ** i * du
            nw = n2(R(w))
            if lt(nw, rn):
                break
        else:
            return u
        u, rn = w, nw
    return u


def hosted(ck, name, opts, opt, extra=None, sym=True, cubic=0.4, elim=True, lin=0.5, use_ts=True):
    """Newton loops that run on the host (extra residual, rebuilt AMG): all paths of the loop, each on symbolic values"""
    import feax.solvers.newton as N_
    import feax.solvers.amg as amg_
    p, tp, nk = tiny(cubic, "FULL", sym, True, lin)
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: q[0] + q[1] < 0.05, component=0, value=0.3)]).create_bc(p)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    N = p.num_total_dofs_all_vars
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    kw = {} if extra is None else {"extra_residual_fn": extra}
    make = lambda: quiet(fe.create_solver, p, bc, opts, newton_options=opt, traced_params=tp(jnp.ones(nk), 0.3), traced_structure=ts,
                         return_solution=False, symmetric_elimination=elim, **kw)
    orig, build = jax.custom_vjp, amg_.build_amg_preconditioner
    amg_.build_amg_preconditioner = lambda *a, **k: (lambda v: v)     # the preconditioner does not change what a converged solve returns
    try:                                                               # (and amjax cannot cycle on so small a matrix)
        real = make()
        jax.custom_vjp = passthrough
        bare = make()
    finally:
        jax.custom_vjp, amg_.build_amg_preconditioner = orig, build
    ctx, _ = new()
    k = ctx.array("k", (nk,), 0.5, 2.0)
    t = ctx.array("t", ())
    g = ctx.array("g", (len(rows),))
    u0 = ctx.array("u", (N,))

    def impl(k, t, g, u):
        call = lambda solver: solver(tp(k, t), u, bc=bc.replace_vals(g), **({"traced_structure": ts} if use_ts else {}))
        if not any(isinstance(x, jax.core.Tracer) for x in (k, t, g, u)):
            return quiet(call, real) - reference(k, t, g, u, lambda a, b: bool(a < b))
        sf = Fork()
        want = list(sf.paths(lambda: reference(k, t, g, u, lambda a, b: sf.decide(a < b))))
        fork = Fork()
        saved = {mod: mod.__dict__.get("float") for mod in (N_, amg_)}
        warn = N_.logger.warning
        N_.logger.warning = lambda *a, **k: None
        try:
            for mod in saved:
                mod.float = host_float(fork)
            out = []
            for conds, sol in fork.paths(lambda: call(bare)):
                for c2, ref in want:
                    out.append(jnp.where(functools.reduce(lambda a, b: a & b, conds + c2, jnp.asarray(True)), sol - ref, 0.0))
            return jnp.concatenate(out)
        except jax.errors.JAXTypeError as e:
            raise Unsupported(f"host loop not followed: {str(e)[:120]}")
        finally:
            N_.logger.warning = warn
            for mod, v in saved.items():
                if v is None:
                    mod.__dict__.pop("float", None)
                else:
                    mod.float = v

    def reference(k, t, g, u, lt):
        e = extra or (lambda u: 0.0 * u)
        R = lambda u: jnp.where(m, u - jnp.zeros(N).at[rows].set(g), R_of(p, u, tp(k, t), ts) + e(u))
        return first_decrease(R, jnp.asarray(m) if elim else None, u.at[rows].set(g), opt, lt)
    ck.forall(name, impl, lambda *a: jnp.zeros(jax.eval_shape(impl, *a).shape if isinstance(a[0], jax.core.Tracer) else N), (k, t, g, u0), ctx, tol=1e-5, robust=True, validate=False)


def couple(u):
    """extra residual: a cubic spring between the free dofs and to the constrained one"""
    w = 0.3 * (u - jnp.roll(u, 1)) ** 3
    return w - jnp.roll(w, -1) + 0.1 * u


def couple_skew(u):
    return couple(u) + 0.2 * jnp.roll(u, 1)


def run(ck):
    ck.fn("feax.solver.create_solver (nonlinear)", "feax.solvers.newton.create_newton_solver", "feax.solvers.newton.create_callback_newton_solver (forward)",
          "feax.solvers.newton.create_armijo_line_search_scan", "feax.solvers.common.create_linear_solve_fn",
          "feax.solvers.newton._create_assembled_extra_newton_solver (loop)", "feax.solvers.newton hybrid loop", "feax.solvers.newton._create_amg_rebuild_newton_solver (loop)")
    ck.bound("1-2 triangles, scalar unknown (2-3 free dofs), cubic reaction (mild and overshooting); guess, load and prescribed value in [-1,1], stiffness in [0.5,2]; up to 2 Newton steps with up to 4 line-search trials unrolled (the loop body is the same for every step); affine problems: all steps")
    ck.assumption("inner linear solves satisfy A x = b (contract stub); loops on the host (extra residual, AMG rebuild) are followed along every path, float() yielding the traced value; the AMG preconditioner is replaced by the identity")
    O = lambda **k: fe.NewtonOptions(**{**dict(raise_on_line_search_failure=False, tol=1e-3, rel_tol=1e-3), **k})
    kr = lambda s, **k: K(solver=s, tol=1e-13, atol=1e-13, **({"restart": 40} if s == "gmres" else {}), **k)
    U = D(solver="umfpack")
    full = ck.tier != "quick"
    ck.do(steps, "one step, one trial", U, O(max_iter=1, line_search_max_backtracks=1))
    ck.do(steps, "one step, three trials", U, O(max_iter=1, line_search_max_backtracks=3))
    ck.do(steps, "two steps", U, O(max_iter=2, line_search_max_backtracks=1))
    ck.do(steps, "two steps, two trials", U, O(max_iter=2, line_search_max_backtracks=2))
    ck.do(steps, "two steps, absolute tolerance only", U, O(max_iter=2, line_search_max_backtracks=1, tol=0.05, rel_tol=0.0))
    ck.do(steps, "two steps, relative tolerance only", U, O(max_iter=2, line_search_max_backtracks=1, tol=0.0, rel_tol=0.2))
    ck.do(steps, "other line search constants", U, O(max_iter=1, line_search_max_backtracks=2, line_search_c1=0.3, line_search_rho=0.25))
    ck.do(steps, "overshooting law, four trials", U, O(max_iter=1, line_search_max_backtracks=4, line_search_c1=0.45), cubic=6.0, lin=-3.0)
    ck.do(steps, "overshooting law, two steps", U, O(max_iter=2, line_search_max_backtracks=3, line_search_c1=0.3, line_search_rho=0.4), cubic=6.0, lin=-3.0)
    ck.do(steps, "guess off the prescribed values", U, O(max_iter=1, line_search_max_backtracks=2), free_bc=True)
    ck.do(steps, "plain elimination", U, O(max_iter=1, line_search_max_backtracks=2), free_bc=True, elim=False)
    ck.do(steps, "gmres", kr("gmres"), O(max_iter=2, line_search_max_backtracks=1), sym=False)
    ck.do(steps, "bicgstab", kr("bicgstab"), O(max_iter=1, line_search_max_backtracks=1), sym=False)
    ck.do(steps, "cg", kr("cg"), O(max_iter=1, line_search_max_backtracks=2))
    ck.do(steps, "upper", D(), O(max_iter=1, line_search_max_backtracks=2), view="UPPER")
    ck.do(steps, "lower, no structure", D(), O(max_iter=1, line_search_max_backtracks=2), view="LOWER", use_ts=False)
    ck.do(batched, "batch of two", U, O(max_iter=1, line_search_max_backtracks=1))
    ck.do(failure, "line search failure is reported", U)
    ck.do(affine, "affine default options", None)
    ck.do(affine, "affine nonsym", U, sym=False)
    ck.do(affine, "affine gmres", kr("gmres"), sym=False)
    ck.do(affine, "affine guess off the prescribed values", U, bcfree=True)
    ck.do(affine, "affine plain elimination, guess off", U, bcfree=True, elim=False)
    ck.do(affine, "affine default guess", U, guess=False)
    A = getattr(fe, "AMGSolverOptions", None)
    ck.do(hosted, "extra residual, direct: one step, two trials", U, O(max_iter=1, line_search_max_backtracks=2), couple_skew, sym=False)
    ck.do(hosted, "extra residual, direct: two steps", U, O(max_iter=2, line_search_max_backtracks=1, tol=0.02, rel_tol=0.1), couple)
    ck.do(hosted, "extra residual, direct: plain elimination", U, O(max_iter=1, line_search_max_backtracks=2), couple, elim=False, use_ts=False)
    ck.do(hosted, "extra residual, direct: overshooting law", U, O(max_iter=1, line_search_max_backtracks=3, line_search_rho=0.4), couple, cubic=6.0, lin=-3.0)
    ck.do(hosted, "extra residual, gmres: one step, two trials", kr("gmres"), O(max_iter=1, line_search_max_backtracks=2), couple_skew, sym=False)
    ck.do(hosted, "extra residual, cg: two steps", kr("cg"), O(max_iter=2, line_search_max_backtracks=1, tol=0.02, rel_tol=0.1), couple)
    ck.do(hosted, "extra residual, gmres: overshooting law", kr("gmres"), O(max_iter=1, line_search_max_backtracks=3, line_search_rho=0.4), couple, cubic=6.0, lin=-3.0)
    if A is not None:
        ck.do(hosted, "rebuilt AMG: one step, two trials", A(tol=1e-13, atol=1e-13), O(max_iter=1, line_search_max_backtracks=2))
        ck.do(hosted, "rebuilt AMG: two steps", A(tol=1e-13, atol=1e-13, rebuild_every=1), O(max_iter=2, line_search_max_backtracks=1, tol=0.02, rel_tol=0.1))
        ck.do(hosted, "rebuilt AMG: overshooting law", A(tol=1e-13, atol=1e-13), O(max_iter=1, line_search_max_backtracks=3, line_search_rho=0.4), cubic=6.0, lin=-3.0)
    if full:
        ck.do(steps, "two triangles", U, O(max_iter=1, line_search_max_backtracks=2), cells1=False)
        ck.do(steps, "two triangles nonsym", kr("gmres"), O(max_iter=1, line_search_max_backtracks=2), cells1=False, sym=False)
        ck.do(steps, "one step, five trials", U, O(max_iter=1, line_search_max_backtracks=5))
