"""P06: reverse-mode gradients through a solve equal the exact sensitivity of the discrete solution."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
import feax as fe
from symx.poly import SA, from_polys
from symx.interp import is_sym, pmul
from .fem import *
from .p05 import plain_amg, make as make_lin, bc_of, R_of, quiet, D, K, sample


def make_nl(kind="FULL", view="FULL"):
    """nonlinear problem (cubic, potential-derived when symmetric) with a follower-type surface term"""
    pts, cells = build("QUAD4", (2, 1), seed=41)
    sym = kind != "nonsym"
    B = onp.array([[1.2, 0.4], [-0.3, 0.9]])

    class P(fe.Problem):
        def get_tensor_map(self):
            if sym:
                return lambda g, k: k * g + 0.3 * g * jnp.sum(g * g)
            return lambda g, k: k * (g @ B) + 0.2 * g * g[0, 0]

        def get_mass_map(self):
            return lambda u, x, k: 0.4 * u + 0.2 * k * u * u - 0.3 * x[0]

        def get_surface_maps(self):
            return [lambda u, x, t: -t * jnp.ones(2), lambda u, x, a: a * u * u + 0.1 * u]
    p = P(fe.Mesh(pts, cells, "QUAD4"), vec=2, dim=2, ele_type="QUAD4", matrix_view=view,
          location_fns=[lambda q: on_face(0, 1.0)(q), lambda q: on_face(1, 1.0)(q)])
    s = [fe.TracedParams.create_uniform_surface_var(p, 1.0, i) for i in range(2)]
    return p, (lambda k, a, t: TP((k,), [(t * s[0],), (a * s[1],)])), len(cells)


def newton_stub(interp, eqn, ins):
    """Newton's while loop -> an arbitrary state (the gradient formula must hold at whatever state it returns)."""
    if not any(is_sym(x) for x in ins):
        return NotImplemented
    p = eqn.params
    nc = p["cond_nconsts"] + p["body_nconsts"]
    outs = []
    for v, x in zip(eqn.outvars, ins[nc:]):
        a = v.aval
        if a.dtype.kind == "f":
            outs.append(interp.ctx.array(f"newton{len(interp.ctx.names)}", a.shape))
        else:
            outs.append(x if not is_sym(x) else onp.zeros(a.shape, a.dtype))
    interp.stubs.append("Newton loop -> arbitrary state in [-1,1]^N")
    return outs


def products(ctx, I):
    """zero polynomials (adjoint equation_i * du_i) and (tangent equation_i * lambda_i)"""
    eqs = getattr(ctx, "eqs", [])[-2:]
    if len(eqs) < 2:
        return []
    a, b = eqs
    return [pmul(p, b[2][r]) for p, r in zip(a[1], a[3])] + [pmul(p, a[2][r]) for p, r in zip(b[1], b[3])]


def lin_solve(J, b):
    return jax.lax.custom_linear_solve(lambda x: J @ x, b, lambda mv, b: jnp.linalg.solve(J, b))


def total_residual(p, tp, bc, ts, extra=None):
    m, rows = onp.asarray(bc.bc_mask), onp.asarray(bc.bc_rows)
    N = p.num_total_dofs_all_vars

    def R(u, k, a, t, g):
        r = R_of(p, u, tp(k, a, t), ts)
        if extra is not None:
            r = r + extra(u)
        return jnp.where(m, u - jnp.zeros(N).at[rows].set(g), r)
    return R


def grads(ck, name, p, tp, nk, bc, opts, linear, use_ts=True, aopts=None, low=None, a0=0.4, **kw):
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    if low is not None:
        from feax.solvers.linear import create_linear_solver
        solver = quiet(create_linear_solver, p, bc, opts, adjoint_solver_options=aopts, traced_params=sample(p, tp, nk, a0), traced_structure=ts, symmetric_elimination=low)
    else:
        if not linear:
            kw.setdefault("newton_options", fe.NewtonOptions(tol=1e-9, rel_tol=1e-9, max_iter=20, raise_on_line_search_failure=False))
        solver = quiet(fe.create_solver, p, bc, opts, adjoint_solver_options=aopts, linear=linear, traced_params=sample(p, tp, nk, a0), traced_structure=ts, return_solution=False, **kw)
    N = p.num_total_dofs_all_vars
    rows = onp.asarray(bc.bc_rows)
    R = total_residual(p, tp, bc, ts)
    ig = fe.zero_like_initial_guess(p, bc)
    ctx, I = new()
    k = ctx.array("k", (nk,), 0.5, 2.0)
    a = ctx.array("a", (), 0.1, 1.0)
    t = ctx.array("t", ())
    g = ctx.array("g", (len(rows),))
    v = ctx.array("v", (N,))
    dk, da, dt, dg = ctx.array("dk", (nk,)), ctx.array("da", ()), ctx.array("dt", ()), ctx.array("dg", (len(rows),))

    def impl(k, a, t, g, v, dk, da, dt, dg):
        f = lambda k, a, t, g: solver(tp(k, a, t), ig, bc=bc.replace_vals(g), **({"traced_structure": ts} if use_ts else {}))
        u, vjp = jax.vjp(f, k, a, t, g)
        gk, ga, gt, gg = vjp(v)
        J = jax.jacfwd(R)(u, k, a, t, g)
        dR = jax.jvp(lambda *q: R(u, *q), (k, a, t, g), (dk, da, dt, dg))[1]
        du = lin_solve(J, -dR)
        return jnp.stack([jnp.vdot(gk, dk) + ga * da + gt * dt + jnp.vdot(gg, dg) - jnp.vdot(v, du)])
    hooks = None if linear else {"while": newton_stub}
    ck.forall(name, impl, lambda *q: jnp.zeros(1), (k, a, t, g, v, dk, da, dt, dg), ctx, tol=2e-4, hints=products, hooks=hooks)


def linear(ck, name, kind, opts, view="FULL", use_ts=True, **kw):
    p, tp, nk = make_lin(kind, view=view)
    grads(ck, name, p, tp, nk, bc_of(p, kind), opts, True, use_ts, **kw)


def newton(ck, name, kind, opts, view="FULL", use_ts=True, **kw):
    p, tp, nk = make_nl(kind, view)
    grads(ck, name, p, tp, nk, bc_of(p, "elastic"), opts, False, use_ts, **kw)


def host_loop(ck, name, opts, extra=None, kind="FULL", sym=True, aopts=None, use_ts=True):
    """solvers whose loop runs on the host: concrete state, every cotangent (and every direction) symbolic"""
    p, tp, nk = make_nl(kind)
    bc = bc_of(p, "elastic")
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    kw = {"extra_residual_fn": extra} if extra is not None else {}
    solver = quiet(fe.create_solver, p, bc, opts, adjoint_solver_options=aopts, traced_params=sample(p, tp, nk), traced_structure=ts, return_solution=False,
                   newton_options=fe.NewtonOptions(tol=1e-10, rel_tol=1e-13, max_iter=40), symmetric_elimination=sym, **kw)
    N, rows = p.num_total_dofs_all_vars, onp.asarray(bc.bc_rows)
    R = total_residual(p, tp, bc, ts, extra)
    ig = fe.zero_like_initial_guess(p, bc)
    x0 = (jnp.linspace(0.8, 1.3, nk), jnp.asarray(0.4), jnp.asarray(0.3), jnp.asarray(onp.linspace(-0.15, 0.2, len(rows))))
    f = lambda k, a, t, g: solver(tp(k, a, t), ig, bc=bc.replace_vals(g), **({"traced_structure": ts} if use_ts else {}))
    u, vjp = quiet(jax.vjp, f, *x0)
    res = float(jnp.abs(R(u, *x0)).max())
    if not res < 1e-6:
        ck.violate(name + " residual", {"residual of the returned state": res, "parameters": [onp.asarray(q).tolist() for q in x0]})
        return
    ck.harnesses.append({"name": name + " returned state solves the problem (concrete)", "verdict": "checked"})
    J = jax.jacfwd(R)(u, *x0)
    dRs = jax.jacfwd(lambda *q: R(u, *q), argnums=(0, 1, 2, 3))(*x0)
    S = [-jnp.linalg.solve(J, d.reshape(N, -1)) for d in dRs]
    ctx, _ = new()
    v = ctx.array("v", (N,))
    ck.forall(name, lambda v: [x.reshape(-1) for x in vjp(v)], lambda v: [s.T @ v for s in S], (v,), ctx, tol=1e-5)


def amg_loop(ck, name, opts, **kw):
    with plain_amg():
        host_loop(ck, name, opts, **kw)


def amg_fixed(ck, name, lin, opts, **kw):
    with plain_amg():
        (linear if lin else newton)(ck, name, "nonsym", opts, **kw)


def spring(u):
    """dense-ish extra residual coupling neighbouring dofs, including constrained ones (symmetric tangent)"""
    w = 0.2 * (u - jnp.roll(u, 3)) ** 3
    return w - jnp.roll(w, -3) + 0.05 * u


def run(ck):
    ck.fn("feax.solvers.linear.create_linear_solver (custom VJP)", "feax.solvers.newton.create_callback_newton_solver (custom VJP)", "feax.solvers.newton._create_differentiable_newton_solver",
          "feax.solvers.newton._create_assembled_extra_newton_solver", "feax.solvers.newton hybrid and AMG-rebuild paths", "feax.solvers.linear.linear_solve_adjoint", "feax.csr.transpose_with_maps")
    ck.bound("2-4 cell meshes (12-18 dofs); parameters in the P05 box, cotangent and perturbation directions in [-1,1]; Newton states arbitrary in [-1,1]^N; host-loop solvers: one concrete state, all cotangents")
    ck.assumption("linear-algebra back ends satisfy their A x = b contract")
    A = getattr(fe, "AMGSolverOptions", None)
    kr = lambda s, **k: K(solver=s, tol=1e-13, atol=1e-13, **({"restart": 40} if s == "gmres" else {}), **k)
    full = ck.tier != "quick"
    ck.do(linear, "linear cholmod", "elastic", D(solver="cholmod"))
    ck.do(linear, "linear auto", "elastic", None)
    ck.do(linear, "linear spsolve, no structure", "elastic", D(solver="spsolve"), use_ts=False)
    ck.do(linear, "linear cg", "elastic", kr("cg"))
    ck.do(linear, "linear nonsym umfpack", "nonsym", D(solver="umfpack"))
    ck.do(linear, "linear nonsym gmres", "nonsym", kr("gmres"))
    ck.do(linear, "linear nonsym bicgstab", "nonsym", kr("bicgstab"))
    ck.do(linear, "linear nonsym umfpack forward, gmres adjoint", "nonsym", D(solver="umfpack"), aopts=kr("gmres"))
    ck.do(linear, "linear gmres forward, umfpack adjoint", "nonsym", kr("gmres"), aopts=D(solver="umfpack"))
    ck.do(linear, "linear upper", "elastic", D(), view="UPPER")
    ck.do(linear, "linear lower", "elastic", D(), view="LOWER")
    ck.do(linear, "linear upper cg", "elastic", kr("cg"), view="UPPER")
    ck.do(linear, "linear plain elimination", "nonsym", D(solver="spsolve"), low=False)
    ck.do(linear, "linear plain elimination gmres", "elastic", kr("gmres"), low=False)
    ck.do(linear, "linear two fields", "two", D(solver="umfpack"))
    ck.do(linear, "linear zero Robin sample", "elastic", D(), a0=0.0)
    ck.do(newton, "newton umfpack", "FULL", D(solver="umfpack"))
    ck.do(newton, "newton auto", "FULL", None)
    ck.do(newton, "newton cholmod", "FULL", D(solver="cholmod"), use_ts=False)
    ck.do(newton, "newton cg", "FULL", kr("cg"))
    ck.do(newton, "newton nonsym spsolve", "nonsym", D(solver="spsolve"))
    ck.do(newton, "newton nonsym gmres", "nonsym", kr("gmres"))
    ck.do(newton, "newton upper", "FULL", D(), view="UPPER")
    ck.do(newton, "newton lower", "FULL", D(), view="LOWER")
    ck.do(newton, "newton plain elimination umfpack", "nonsym", D(solver="umfpack"), symmetric_elimination=False)
    ck.do(newton, "newton plain elimination gmres", "FULL", kr("gmres"), symmetric_elimination=False)
    ck.do(newton, "newton umfpack forward, gmres adjoint", "nonsym", D(solver="umfpack"), aopts=kr("gmres"))
    ck.do(host_loop, "extra residual, direct", D(solver="umfpack"), spring)
    ck.do(host_loop, "extra residual, direct, plain elimination", D(solver="umfpack"), spring, sym=False)
    ck.do(host_loop, "extra residual, direct, nonsym", D(solver="umfpack"), spring, kind="nonsym")
    ck.do(host_loop, "extra residual, gmres, nonsym", kr("gmres"), spring, kind="nonsym")
    ck.do(host_loop, "extra residual, direct, nonsym, plain elimination", D(solver="spsolve"), spring, kind="nonsym", sym=False)
    ck.do(host_loop, "extra residual, cg", kr("cg"), spring)
    ck.do(host_loop, "extra residual, direct forward gmres adjoint", D(solver="umfpack"), spring, aopts=kr("gmres"))
    if A is not None:
        am = lambda **k: A(solver="gmres", tol=1e-13, atol=1e-13, restart=40, **k)
        ck.do(amg_loop, "rebuilt AMG, nonsym", am(rebuild_every=1), kind="nonsym")
        ck.do(amg_loop, "rebuilt AMG, no structure", am(), use_ts=False)
        ck.do(amg_loop, "rebuilt AMG, plain elimination", am(rebuild_every=2), kind="nonsym", sym=False)
        ck.do(amg_fixed, "fixed AMG, linear", True, am())
        ck.do(amg_fixed, "fixed AMG, newton", False, am(rebuild_every=0))
