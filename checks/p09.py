"""P09: solves with a periodic constraint matrix P, and their gradients."""
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from feax.flat import pbc
from .fem import *
from .p05 import R_of, quiet, D, K
from .p06 import products, lin_solve
from .p08 import cell_of, classes


def make(kind, et="QUAD4", n=(3, 2), lb=None, L=None):
    d = dim_of(et)
    lb = onp.array([-0.4, 0.7, 0.2][:d]) if lb is None else lb
    L = onp.array([1.5, 1.0, 0.8][:d]) if L is None else L
    uc, pts = cell_of(et, n, lb, L)
    vec = 1 if kind == "scalar" else d
    C = onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:d, :d]

    class Q(fe.Problem):
        def get_tensor_map(self):
            if kind == "elastic":
                return lambda g, k, f: k * (g + g.T + 0.5 * jnp.trace(g) * jnp.eye(d))
            if kind == "nonsym":
                return lambda g, k, f: k * (g @ C)
            return lambda g, k, f: k * g

        def get_mass_map(self):
            return lambda u, x, k, f: (0.3 if kind != "nonsym" else 0.3 * jnp.asarray(C[:vec, :vec])) @ u - f * x[:vec] if kind == "nonsym" else 0.3 * u - f * x[:vec]
    p = Q(uc.mesh, vec=vec, dim=d, ele_type=et)
    pairs = (pbc.periodic_bc_2D if d == 2 else pbc.periodic_bc_3D)(uc, vec=vec, dim=d)
    P = pbc.prolongation_matrix(pairs, uc.mesh, vec)
    ids, m = classes(pts, lb, L)
    W = onp.zeros((len(pts) * vec, m * vec))
    for i, c in enumerate(ids):
        for k in range(vec):
            W[i * vec + k, c * vec + k] = 1
    nc = len(onp.asarray(uc.mesh.cells))
    tp = lambda k, f: TP((k, f * jnp.ones(nc)))
    return p, tp, nc, P, W, pts, ids, lb, L


def bc_for(p, pts, ids, lb, L, pin):
    """pin: none / interior (an unpaired node, all components) / class (component 0 of a whole boundary class)"""
    S = fe.DirichletBCSpec
    cnt = onp.bincount(ids)
    if pin == "none":
        return fe.DirichletBCConfig([]).create_bc(p)
    i = int(onp.nonzero(cnt[ids] == 1)[0][0]) if pin == "interior" else int(onp.nonzero(cnt[ids] == 2)[0][0])
    sel = onp.nonzero(ids == ids[i])[0]
    locs = [jnp.asarray(pts[j]) for j in sel]
    near = lambda c: lambda q: jnp.sum(jnp.abs(q - c)) < 1e-7
    bc = fe.DirichletBCConfig([S(location=near(c), component="all" if pin == "interior" else 0, value=0.2) for c in locs]).create_bc(p)
    if len(onp.asarray(bc.bc_rows)) != (p.fes[0].vec if pin == "interior" else len(sel)):
        raise AssertionError("harness selects the wrong dofs")
    return bc


def args(ctx, nc, N, nb, guess=True):
    return (ctx.array("k", (nc,), 0.5, 2.0), ctx.array("f", ())), (ctx.array("g", (nb,)) if nb else onp.zeros(0)), (ctx.array("ig", (N,)) if guess else onp.zeros(N))


def solve(ck, name, kind, opts, pin="interior", et="QUAD4", n=(3, 2), use_ts=False, override=True, guess=True, batch=False):
    p, tp, nc, P, W, pts, ids, lb, L = make(kind, et, n)
    bc = bc_for(p, pts, ids, lb, L, pin)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    solver = quiet(fe.create_solver, p, bc, opts, linear=True, P=P, return_solution=False)
    N, rows = p.num_total_dofs_all_vars, onp.asarray(bc.bc_rows)
    m = onp.asarray(bc.bc_mask)
    if (m @ W)[(m @ W) > 0].tolist() != (onp.ones(N) @ W)[(m @ W) > 0].tolist():
        raise AssertionError("harness pins part of a class")
    free = (m @ W) == 0
    Wf = W[:, free]
    Q = onp.eye(N) - Wf @ onp.linalg.pinv(Wf)
    ctx, _ = new()
    (k, f), g, ig = args(ctx, nc, N, len(rows) if override else 0, guess)
    kw = {"traced_structure": ts} if use_ts else {}

    def one(k, f, g, ig):
        t = tp(k, f)
        b = bc.replace_vals(g) if override and len(rows) else None
        u = solver(t, ig if guess else None, **({"bc": b} if b is not None else {}), **kw)
        val = g if override else bc.bc_vals
        start = (ig if guess else jnp.zeros(N)).at[rows].set(val)
        return jnp.concatenate([Wf.T @ R_of(p, u, t, ts), Q @ (u - start)])
    if batch:
        k2, g2 = ctx.array("k2", (nc,), 0.5, 2.0), (ctx.array("g2", (len(rows),)) if len(rows) else onp.zeros(0))
        impl = lambda k, k2, f, g, g2, ig: jax.vmap(one, in_axes=(0, None, 0, None))(jnp.stack([k, k2]), f, jnp.stack([g, g2]), ig)
        return ck.forall(name, impl, lambda *a: jnp.zeros((2, Wf.shape[1] + N)), (k, k2, f, g, g2, ig), ctx, tol=1e-5)
    ck.forall(name, one, lambda *a: jnp.zeros(Wf.shape[1] + N), (k, f, g, ig), ctx, tol=1e-5)


def grad(ck, name, kind, opts, pin="interior", aopts=None, et="QUAD4", n=(2, 2), use_ts=False):
    p, tp, nc, P, _, pts, ids, lb, L = make(kind, et, n)
    bc = bc_for(p, pts, ids, lb, L, pin)
    ts = fe.TracedStructure.from_problem(p, free_scratch=False) if use_ts else None
    solver = quiet(fe.create_solver, p, bc, opts, adjoint_solver_options=aopts, linear=True, P=P, return_solution=False)
    W = onp.asarray(P.todense())
    N, rows, m = p.num_total_dofs_all_vars, onp.asarray(bc.bc_rows), onp.asarray(bc.bc_mask)
    ctx, _ = new()
    (k, f), g, _ = args(ctx, nc, N, len(rows), False)
    rng = onp.random.RandomState(2)
    ig = jnp.asarray(rng.uniform(-1, 1, N))
    v = ctx.array("v", (N,))
    dk, df, dg = ctx.array("dk", (nc,)), ctx.array("df", ()), (ctx.array("dg", (len(rows),)) if len(rows) else onp.zeros(0))
    kw = {"traced_structure": ts} if use_ts else {}

    def impl(k, f, g, v, dk, df, dg):
        F = lambda k, f, g: solver(tp(k, f), ig, **({"bc": bc.replace_vals(g)} if len(rows) else {}), **kw)
        u, vjp = jax.vjp(F, k, f, g)
        gk, gf, gg = vjp(v)
        R = lambda u, k, f: R_of(p, u, tp(k, f), ts)
        Kb = jax.jacfwd(R)(u, k, f)
        dR = jax.jvp(lambda k, f: R(u, k, f), (k, f), (dk, df))[1]
        E = jnp.zeros(N).at[rows].set(dg)
        A = jnp.where(m[:, None] | m[None, :], jnp.diag(m.astype(float)), Kb)
        dc = lin_solve(W.T @ A @ W, -W.T @ jnp.where(m, 0.0, Kb @ E + dR))
        du = E + W @ dc
        return jnp.stack([jnp.vdot(gk, dk) + gf * df + jnp.vdot(gg, dg) - jnp.vdot(v, du)])
    ck.forall(name, impl, lambda *q: jnp.zeros(1), (k, f, g, v, dk, df, dg), ctx, tol=2e-4, hints=products)


def partial_pin(ck, name):
    """a Dirichlet dof that is only part of a periodic class must be rejected, not silently diluted"""
    p, tp, nc, P, W, pts, ids, lb, L = make("scalar")
    cnt = onp.bincount(ids)
    i = int(onp.nonzero(cnt[ids] == 2)[0][0])
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(location=lambda q: jnp.sum(jnp.abs(q - jnp.asarray(pts[i]))) < 1e-7, component=0, value=0.2)]).create_bc(p)
    try:
        quiet(fe.create_solver, p, bc, K(solver="cg"), linear=True, P=P, return_solution=False)
    except ValueError:
        return ck.harnesses.append({"name": name, "verdict": "checked"})
    ck.violate(name, {"node": i, "class size": 2, "observed": "accepted without error"})


def amg(ck, name, opts):
    """the AMG variant orchestrates on the host (not traceable): concrete comparison with the decided direct variant"""
    p, tp, nc, P, W, pts, ids, lb, L = make("elastic")
    bc = bc_for(p, pts, ids, lb, L, "interior")
    a, b = (quiet(fe.create_solver, p, bc, o, linear=True, P=P, return_solution=False) for o in (opts, D(solver="umfpack")))
    rng = onp.random.RandomState(4)
    N, nb = p.num_total_dofs_all_vars, len(onp.asarray(bc.bc_rows))
    for _ in range(3):
        k, f, g, ig, v = rng.uniform(0.5, 2, nc), rng.uniform(-1, 1), jnp.asarray(rng.uniform(-1, 1, nb)), jnp.asarray(rng.uniform(-1, 1, N)), rng.uniform(-1, 1, N)
        F = lambda s: jax.value_and_grad(lambda k, f, g: jnp.vdot(v, s(tp(k, f), ig, bc=bc.replace_vals(g))), argnums=(0, 1, 2))(jnp.asarray(k), f, g)
        x, y = (onp.concatenate([onp.ravel(l) for l in jax.tree_util.tree_leaves(F(s))]) for s in (a, b))
        if not onp.allclose(x, y, atol=1e-5 * max(1, onp.abs(y).max())):
            return ck.violate(name, {"k": k.tolist(), "f": f, "AMG": x.tolist(), "direct": y.tolist()})
    ck.harnesses.append({"name": name, "verdict": "checked"})


def run(ck):
    ck.fn("feax.solver.create_solver (P given)", "feax.solvers.reduced.create_reduced_solver", "feax.solvers.reduced._create_assembled_reduced_solver",
          "feax.asd.operator_assembler", "feax.asd.reduced_operator_pattern", "feax.flat.pbc.prolongation_matrix (values)")
    ck.bound("3x2 / 2x2 quadrilaterals (2x1x2 hexahedra in the thorough tier), scalar, elastic and non-symmetric operators, pins: none, one interior node, one whole periodic class; stiffness per cell in [0.5,2], load, prescribed values, non-periodic initial field, cotangents and directions in [-1,1]")
    ck.assumption("inner linear solves satisfy A x = b (contract stub); residual affine in the state")
    kr = lambda s, **k: K(solver=s, tol=1e-13, atol=1e-13, maxiter=2000, **({"restart": 60} if s == "gmres" else {}), **k)
    A = getattr(fe, "AMGSolverOptions", None)
    full = ck.tier != "quick"
    ck.do(solve, "scalar cg interior pin", "scalar", kr("cg"))
    ck.do(solve, "scalar cg no pin", "scalar", kr("cg"), pin="none")
    ck.do(solve, "elastic cg class pin", "elastic", kr("cg"), pin="class")
    ck.do(solve, "elastic auto krylov", "elastic", K(tol=1e-13, atol=1e-13))
    ck.do(solve, "elastic cg, structure argument", "elastic", kr("cg"), use_ts=True)
    ck.do(solve, "nonsym gmres", "nonsym", kr("gmres"))
    ck.do(solve, "nonsym bicgstab", "nonsym", kr("bicgstab"), pin="none")
    ck.do(solve, "elastic umfpack", "elastic", D(solver="umfpack"))
    ck.do(solve, "elastic cholmod class pin", "elastic", D(solver="cholmod"), pin="class")
    ck.do(solve, "elastic auto direct", "elastic", D())
    ck.do(solve, "nonsym spsolve", "nonsym", D(solver="spsolve"))
    ck.do(solve, "default values and guess", "elastic", kr("cg"), override=False, guess=False)
    ck.do(solve, "default values and guess, direct", "elastic", D(), override=False, guess=False)
    ck.do(solve, "batch cg", "scalar", kr("cg"), batch=True)
    ck.do(partial_pin, "partially pinned class is rejected")
    ck.do(grad, "gradient scalar cg", "scalar", kr("cg"))
    ck.do(grad, "gradient elastic cg no pin", "elastic", kr("cg"), pin="none")
    ck.do(grad, "gradient elastic cg class pin", "elastic", kr("cg"), pin="class")
    ck.do(grad, "gradient elastic umfpack", "elastic", D(solver="umfpack"))
    ck.do(grad, "gradient nonsym gmres", "nonsym", kr("gmres"))
    ck.do(grad, "gradient nonsym umfpack", "nonsym", D(solver="umfpack"))
    ck.do(grad, "gradient mixed options", "elastic", D(solver="cholmod"), aopts=kr("cg"))
    ck.do(grad, "gradient other mixed options", "elastic", kr("cg"), aopts=D(solver="umfpack"), use_ts=True)
    if A is not None:
        ck.do(amg, "AMG (host-only, concrete)", A(tol=1e-13, atol=1e-13))
    if full:
        ck.do(solve, "hexahedra", "elastic", kr("cg"), et="HEX8", n=(2, 2, 2), pin="none")
        ck.do(solve, "hexahedra direct", "scalar", D(), et="HEX8", n=(2, 2, 2))
        ck.do(solve, "quadratic", "elastic", kr("cg"), et="QUAD8", n=(2, 2))
        ck.do(grad, "gradient triangles", "elastic", kr("cg"), et="TRI3", n=(2, 2))
        ck.do(grad, "gradient hexahedra", "scalar", kr("cg"), et="HEX8", n=(2, 2, 2))
