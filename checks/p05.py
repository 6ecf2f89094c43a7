"""P05: a linear solve returns the state with zero residual on free dofs and the prescribed values on constrained ones."""
import contextlib
import io
import numpy as onp
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
import feax as fe
from .fem import *

D, K = fe.DirectSolverOptions, fe.KrylovSolverOptions


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def make(kind, et="QUAD4", n=(2, 1), view="FULL"):
    """problem, parameter builder tp(k, a, t), number of k's.

    kind: scalar / elastic / nonsym / two (coupled fields, two parameters)"""
    pts, cells = build(et, n, seed=31)
    d = dim_of(et)
    C = onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:d, :d]
    loc = [lambda q: on_face(0, 1.0)(q), lambda q: on_face(1, 1.0)(q)]
    if kind == "two":
        class P(fe.Problem):
            def get_weak_form(self):
                def wf(vals, grads, x, k):
                    u, t = vals
                    gu, gt = grads
                    return [0.3 * u + t[0] * 0.2 - 0.4, k * t + 0.1 * x[0]], [k * gu + 0.2 * t[0] * jnp.eye(2), gt - 0.1 * jnp.ones((1, 2)) * u[0]]
                return wf

            def get_surface_weak_forms(self):
                return [lambda vals, x, t: [vals[0] * 0.2 - t, vals[1] * 0.3], lambda vals, x, a: [a * vals[0], a * vals[1] - 0.1]]
        p2, c2 = build("TRI3", n, seed=31)
        p = P([fe.Mesh(p2, c2, "TRI3")] * 2, vec=[2, 1], dim=2, ele_type=["TRI3"] * 2, matrix_view=view, location_fns=loc)
        nk = len(c2)
    else:
        vec = 1 if kind == "scalar" else 2 if d == 2 else 3

        class P(fe.Problem):
            def get_tensor_map(self):
                if kind == "elastic":
                    return lambda g, k: k * (g + g.T + 0.5 * jnp.trace(g) * jnp.eye(d))
                if kind == "nonsym":
                    return lambda g, k: k * (g @ C)
                return lambda g, k: k * g

            def get_mass_map(self):
                return lambda u, x, k: 0.3 * u - 0.5 * x[:1]

            def get_surface_maps(self):
                return [lambda u, x, t: -t * jnp.ones(vec), lambda u, x, a: a * u - 0.2 * x[:1]]
        p = P(fe.Mesh(pts, cells, et), vec=vec, dim=d, ele_type=et, matrix_view=view, location_fns=loc)
        nk = len(cells)
    s = [fe.TracedParams.create_uniform_surface_var(p, 1.0, i) for i in range(2)]

    def tp(k, a, t):
        return TP((k,), [(t * s[0],), (a * s[1],)])
    return p, tp, nk


def bc_of(p, kind):
    S = fe.DirichletBCSpec
    specs = [S(location=lambda q: on_face(0, 0.0)(q), component="all", value=0.2)]
    if kind == "two":
        specs = [S(location=lambda q: on_face(0, 0.0)(q), component="all", value=0.2, variable_index=0),
                 S(location=lambda q: on_face(0, 1.0)(q), component=0, value=-0.1, variable_index=1)]
    elif kind in ("elastic", "nonsym"):
        specs.append(S(location=lambda q: on_face(1, 0.0)(q), component=1, value=-0.1))
    return fe.DirichletBCConfig(specs).create_bc(p)


@contextlib.contextmanager
def plain_amg():
    """AMG hierarchies are host objects that need large matrices: the preconditioner is replaced by the identity (it does not change what a converged solve returns)"""
    import feax.solvers.amg as amg_
    orig = getattr(amg_, "build_amg_preconditioner", None)
    amg_.build_amg_preconditioner = lambda *a, **k: (lambda v: v)
    try:
        yield
    finally:
        amg_.build_amg_preconditioner = orig


def R_of(p, u, tp, ts):
    return ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(u), tp, ts=ts))[0]


def sample(p, tp, nk, a=0.4):
    return tp(jnp.ones(nk), a, 0.3)


def solve(ck, name, kind, opts, use_ts=True, et="QUAD4", n=(2, 1), view="FULL", low=None, override=True, guess=True, a0=0.4, as_solution=True, **kw):
    p, tp, nk = make(kind, et, n, view)
    bc = bc_of(p, kind)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    if low is None:
        solver = quiet(fe.create_solver, p, bc, opts, linear=True, traced_params=sample(p, tp, nk, a0), traced_structure=ts, return_solution=as_solution, **kw)
    else:
        from feax.solvers.linear import create_linear_solver
        solver = quiet(create_linear_solver, p, bc, opts, traced_params=sample(p, tp, nk, a0), traced_structure=ts, symmetric_elimination=low)
    N = p.num_total_dofs_all_vars
    m = onp.asarray(bc.bc_mask)
    rows = onp.asarray(bc.bc_rows)
    ctx, _ = new()
    k = ctx.array("k", (nk,), 0.5, 2.0)
    a = ctx.array("a", (), 0.1, 1.0)
    t = ctx.array("t", ())
    g = ctx.array("g", (len(rows),)) if override else bc.bc_vals
    ig = ctx.array("ig", (N,)) if guess else None

    def impl(k, a, t, g, *ig):
        P = tp(k, a, t)
        args = (ig[0],) if ig else ((None,) if not isinstance(opts, K) else (fe.zero_like_initial_guess(p, bc),))
        u = solver(P, *args, **({"bc": bc.replace_vals(g)} if override else {}), **({"traced_structure": ts} if use_ts else {}))
        u = jnp.asarray(u.dofs if hasattr(u, "dofs") else u)
        gf = jnp.zeros(N).at[rows].set(g)
        return jnp.where(m, u - gf, R_of(p, u, P, ts))
    ck.forall(name, impl, lambda *a: jnp.zeros(N), (k, a, t, g) + ((ig,) if guess else ()), ctx, tol=1e-5)


def batched(ck, name, opts, over):
    """vmap over parameters / loads / prescribed values: every lane solves its own problem"""
    p, tp, nk = make("elastic")
    bc = bc_of(p, "elastic")
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    solver = quiet(fe.create_solver, p, bc, opts, linear=True, traced_params=sample(p, tp, nk), traced_structure=ts, return_solution=False)
    N, B = p.num_total_dofs_all_vars, 2
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    ctx, _ = new()
    sh = lambda c, s: ((B,) if c in over else ()) + s
    k = ctx.array("k", sh("k", (nk,)), 0.5, 2.0)
    t = ctx.array("t", sh("t", ()))
    g = ctx.array("g", sh("g", (len(rows),)))
    ig = fe.zero_like_initial_guess(p, bc)

    def one(k, t, g):
        P = tp(k, 0.4, t)
        u = solver(P, ig, bc=bc.replace_vals(g), traced_structure=ts)
        return jnp.where(m, u - jnp.zeros(N).at[rows].set(g), R_of(p, u, P, ts))
    ax = tuple(0 if c in over else None for c in "ktg")
    ck.forall(name, jax.vmap(one, in_axes=ax), lambda *a: jnp.zeros((B, N)), (k, t, g), ctx, tol=1e-5)


def guarded(ck, view):
    """convergence checking: a result above the threshold becomes nan, any other is handed through unchanged"""
    if not hasattr(fe, "check_convergence"):
        return
    from feax.problem import MatrixView
    rows, cols = {"FULL": ([0, 0, 1, 1], [0, 1, 0, 1]), "UPPER": ([0, 0, 1], [0, 1, 1]), "LOWER": ([0, 1, 1], [0, 0, 1])}[view]
    ip = onp.searchsorted(rows, onp.arange(3))
    from feax.csr import CSRMatrix
    ctx, _ = new()
    a = ctx.array("a", (len(rows),))
    x, b = ctx.array("x", (2,)), ctx.array("b", (2,))
    thr = 0.25
    o = D(solver="spsolve", check_convergence=True, convergence_threshold=thr)
    A0 = CSRMatrix(jnp.zeros(len(rows)), jnp.asarray(ip), jnp.asarray(cols), (2, 2))

    def dense(a):
        M = jnp.zeros((2, 2)).at[onp.array(rows), onp.array(cols)].set(a)
        return M if view == "FULL" else M + M.T - jnp.diag(jnp.diag(M))

    def spec(a, x, b):
        r = dense(a) @ x - b
        return jnp.where(jnp.sqrt(jnp.sum(r * r)) / (jnp.sqrt(jnp.sum(b * b)) + 1e-12) < thr, x, jnp.full(2, jnp.nan))
    mv = MatrixView[view]
    ck.forall(f"convergence check {view}", lambda a, x, b: fe.check_convergence(A0.with_data(a), x, b, o, mv, "t"), spec, (a, x, b), ctx)


def low_level(ck, opts, view):
    """the single-step linear_solve: exact equations, and nan exactly when the inner result misses the threshold"""
    ls = getattr(fe, "linear_solve", None)
    if ls is None:
        from feax.solvers import linear as L
        ls = getattr(L, "linear_solve", None)
    if ls is None:
        return
    p, tp, nk = make("elastic", n=(1, 1), view=view)
    bc = bc_of(p, "elastic")
    N, m, rows = p.num_total_dofs_all_vars, onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    res = fe.create_res_bc_function(p, bc)
    J = fe.create_J_bc_csr_function(p, bc)
    ctx, _ = new()
    k, t, ig = ctx.array("k", (nk,), 0.5, 2.0), ctx.array("t", ()), ctx.array("ig", (N,))
    gv = jnp.zeros(N).at[rows].set(bc.bc_vals)

    def impl(k, t, ig):
        P = tp(k, 0.4, t)
        u = ls(J, res, jnp.where(m, gv, ig), bc, opts, p.matrix_view, P)[0]
        return jnp.where(m, u - gv, R_of(p, u, P, None))
    ck.forall(f"single-step solve {opts.solver} {view}", impl, lambda *a: jnp.zeros(N), (k, t, ig), ctx, tol=1e-5)


def checked_solve(ck):
    """a solver with convergence checking hands the exact solution through"""
    p, tp, nk = make("scalar", n=(1, 1))
    bc = bc_of(p, "scalar")
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    N, m = p.num_total_dofs_all_vars, onp.asarray(bc.bc_mask)
    gv = jnp.zeros(N).at[onp.asarray(bc.bc_rows)].set(bc.bc_vals)
    for o in (D(solver="spsolve", check_convergence=True), K(solver="cg", tol=1e-12, atol=1e-12, check_convergence=True)):
        solver = quiet(fe.create_solver, p, bc, o, linear=True, traced_params=sample(p, tp, nk), traced_structure=ts, return_solution=False)
        ctx, _ = new()
        t = ctx.array("t", ())
        ig = fe.zero_like_initial_guess(p, bc)

        def impl(t):
            P = tp(jnp.ones(nk), 0.4, t)
            u = solver(P, ig, traced_structure=ts)
            return jnp.where(m, u - gv, R_of(p, u, P, ts))
        ck.forall(f"solve with convergence check {o.solver}", impl, lambda *a: jnp.zeros(N), (t,), ctx, tol=1e-5)


def run(ck):
    ck.fn("feax.solver.create_solver (linear)", "feax.solvers.linear.create_linear_solver", "feax.solvers.common.create_x0",
          "feax.assembler.create_J_bc_csr_parametric", "feax.assembler.create_matfree_res_J_parametric", "feax.assembler.detect_zero_surface_jacobian",
          "feax.solvers.direct.{spsolve,umfpack,cholmod}", "feax.solvers.amg", "feax.solvers.options.resolve_*", "feax.DCboundary.DirichletBC.replace_vals")
    ck.bound("meshes of 2-6 cells (up to 24 dofs); one stiffness parameter per cell in [0.5,2], Robin coefficient in [0.1,1], traction, prescribed values and initial guess in [-1,1]; solution components within 1e3")
    ck.assumption("linear-algebra back ends and Krylov iterations satisfy A x = b for the operator they are given (contract stub; each encoding is validated against one concrete run)")
    full = ck.tier != "quick"
    A = getattr(fe, "AMGSolverOptions", None)
    ck.do(solve, "scalar cholmod", "scalar", D(solver="cholmod"))
    ck.do(solve, "elastic auto direct", "elastic", D())
    ck.do(solve, "elastic default options", "elastic", None)
    ck.do(solve, "elastic spsolve no structure", "elastic", D(solver="spsolve"), False)
    ck.do(solve, "elastic umfpack", "elastic", D(solver="umfpack"))
    ck.do(solve, "elastic cg", "elastic", K(solver="cg", tol=1e-12, atol=1e-12))
    ck.do(solve, "elastic auto krylov", "elastic", K(tol=1e-12, atol=1e-12))
    ck.do(solve, "elastic cg no structure", "elastic", K(solver="cg", tol=1e-12, atol=1e-12), False)
    ck.do(solve, "nonsym bicgstab", "nonsym", K(solver="bicgstab", tol=1e-13, atol=1e-13))
    ck.do(solve, "nonsym gmres", "nonsym", K(solver="gmres", tol=1e-12, atol=1e-12, restart=40))
    ck.do(solve, "nonsym umfpack", "nonsym", D(solver="umfpack"))
    ck.do(solve, "nonsym auto direct", "nonsym", D())
    ck.do(solve, "nonsym auto krylov", "nonsym", K(tol=1e-12, atol=1e-12))
    ck.do(solve, "two fields umfpack", "two", D(solver="umfpack"))
    ck.do(solve, "two fields spsolve no structure", "two", D(solver="spsolve"), False)
    ck.do(solve, "two fields gmres", "two", K(solver="gmres", tol=1e-12, atol=1e-12, restart=40))
    ck.do(solve, "upper auto direct", "elastic", D(), True, view="UPPER")
    ck.do(solve, "lower auto direct", "elastic", D(), True, view="LOWER")
    ck.do(solve, "upper cg", "elastic", K(solver="cg", tol=1e-12, atol=1e-12), True, view="UPPER")
    ck.do(solve, "plain elimination spsolve", "elastic", D(solver="spsolve"), True, low=False)
    ck.do(solve, "plain elimination gmres", "elastic", K(solver="gmres", tol=1e-12, atol=1e-12, restart=40), True, low=False)
    ck.do(solve, "create_solver symmetric_elimination=False", "elastic", D(solver="umfpack"), True, symmetric_elimination=False)
    ck.do(solve, "default values and guess, direct", "elastic", D(solver="cholmod"), True, override=False, guess=False)
    ck.do(solve, "default values and guess, krylov", "elastic", K(solver="cg", tol=1e-12, atol=1e-12), True, override=False, guess=False)
    ck.do(solve, "sample with zero Robin coefficient", "scalar", D(), True, a0=0.0)
    ck.do(solve, "sample with zero Robin coefficient, no structure", "scalar", D(solver="spsolve"), False, a0=0.0)
    ck.do(solve, "tetrahedra", "scalar", D(solver="cholmod"), True, et="TET4", n=(1, 1, 1))
    ck.do(solve, "raw vector return", "scalar", D(solver="cholmod"), True, as_solution=False)
    if A is not None:
        ck.do(solve, "AMG", "elastic", A(tol=1e-12, atol=1e-12), True)
    for o, nm in ((D(solver="cholmod"), "cholmod"), (D(solver="spsolve"), "spsolve"), (D(solver="umfpack"), "umfpack"), (K(solver="cg", tol=1e-12, atol=1e-12), "cg")):
        for over in ("k", "t", "ktg"):
            if full or over != "k" or nm in ("umfpack", "cg"):
                ck.do(batched, f"batch over {over} {nm}", o, over)
    if full:
        for et, n in (("TRI6", (1, 1)), ("QUAD8", (1, 1)), ("HEX8", (2, 1, 1)), ("TRI3", (2, 2)), ("TET10", (1, 1, 1))):
            ck.do(solve, f"{et} auto", "scalar", D(), True, et=et, n=n)
            ck.do(solve, f"{et} cg", "scalar", K(solver="cg", tol=1e-12, atol=1e-12), True, et=et, n=n)
        ck.do(solve, "elastic 3x2", "elastic", D(), True, n=(3, 2))
        ck.do(solve, "hex elastic", "elastic", D(), True, et="HEX8", n=(1, 1, 1))
    for view in ("FULL", "UPPER", "LOWER"):
        ck.do(guarded, view)
    ck.do(low_level, D(solver="umfpack"), "FULL")
    ck.do(low_level, K(solver="bicgstab", tol=1e-12, atol=1e-12), "FULL")
    ck.do(checked_solve)
