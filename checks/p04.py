"""P04: Dirichlet conditions: which dofs are constrained to which values, and how they enter residual and tangent."""
import numpy as onp
import jax
import jax.numpy as jnp
from jax.flatten_util import ravel_pytree
import feax as fe
from .fem import *


def dense(bc, n):
    """constrained mask and prescribed values as full vectors (what the user observes)"""
    return jnp.zeros(n).at[bc.bc_rows].set(bc.bc_vals), jnp.asarray(bc.bc_mask).astype(float)


def oracle(fields, specs, coef):
    """fields: [(points, vec)], specs: [(pred(point, index), component, variable)], coef (S, 1+dim): value a + b.x"""
    n = sum(len(p) * v for p, v in fields)
    val, mask, off = [0.0] * n, onp.zeros(n), 0
    for i, (pts, vec) in enumerate(fields):
        for s, (pred, comp, var) in enumerate(specs):
            if var is not None and var != i:
                continue
            cs = range(vec) if comp == "all" else [{"x": 0, "y": 1, "z": 2}.get(comp, comp)]
            for c in cs:
                if c >= vec:
                    continue
                for k, p in enumerate(pts):
                    if bool(pred(p, k)):
                        d = off + k * vec + c
                        if not mask[d]:
                            mask[d] = 1
                            val[d] = coef[s, 0] + jnp.dot(coef[s, 1:], jnp.asarray(p))
        off += len(pts) * vec
    return jnp.stack([jnp.asarray(v, float) for v in val]), jnp.asarray(mask)


class Poisson(fe.Problem):
    def get_tensor_map(self):
        return lambda g, *k: g


def fields_problem(kinds):
    """kinds: list of (et, n, vec)"""
    ms = [build(et, n, seed=31 + j, scramble=len(kinds) == 1) for j, (et, n, _) in enumerate(kinds)]
    d = dim_of(kinds[0][0])
    if len(kinds) == 1:
        p = Poisson(fe.Mesh(*ms[0], kinds[0][0]), vec=kinds[0][2], dim=d, ele_type=kinds[0][0])
    else:
        class Q(fe.Problem):
            def get_weak_form(self):
                return lambda vals, grads, x: ([v for v in vals], [g for g in grads])
        p = Q([fe.Mesh(*m, k[0]) for m, k in zip(ms, kinds)], vec=[k[2] for k in kinds], dim=d,
              ele_type=[k[0] for k in kinds], gauss_order=[2] * len(kinds))
    return p, [(m[0], k[2]) for m, k in zip(ms, kinds)]


def construct(ck, name, kinds, specs, how="config"):
    p, fields = fields_problem(kinds)
    n = p.num_total_dofs_all_vars
    d = fields[0][0].shape[1]
    ctx, _ = new()
    coef = ctx.array("c", (len(specs), 1 + d))

    def impl(coef):
        with jax.ensure_compile_time_eval():
            S = []
            for s, (pred, comp, var) in enumerate(specs):
                loc = two_arg(pred) if pred.nargs == 2 else one_arg(pred)
                S.append((loc, comp, (lambda x, s=s: coef[s, 0] + jnp.dot(coef[s, 1:], x)), var))
            if how == "add":
                c = fe.DirichletBCConfig()
                for loc, comp, v, var in S:
                    c = c.add(loc, comp, v)
                bc = c.create_bc(p)
            else:
                sp = [fe.DirichletBCSpec(loc, comp, v, var) if var is not None else fe.DirichletBCSpec(location=loc, component=comp, value=v) for loc, comp, v, var in S]
                bc = {"config": lambda: fe.DirichletBCConfig(sp).create_bc(p), "specs": lambda: fe.DirichletBC.from_specs(p, sp),
                      "fn": lambda: fe.dirichlet_bc_config(*sp).create_bc(p)}[how]()
            rows = onp.asarray(bc.bc_rows)
            val, mask = dense(bc, n)
            # every constrained dof is listed exactly once
            once = float(len(set(rows.tolist())) == len(rows) == int(onp.asarray(bc.bc_mask).sum()) == int(jnp.sum(mask)))
        return val, mask, jnp.asarray(once), jnp.asarray(float(bc.total_dofs))

    def spec(coef):
        with jax.ensure_compile_time_eval():
            v, m = oracle(fields, specs, coef)
        return v, m, jnp.asarray(1.0), jnp.asarray(float(n))
    ck.forall(f"{name} via {how}", impl, spec, (coef,), ctx)


def one_arg(pred):
    return lambda q: pred(q, None)


def two_arg(pred):
    return lambda q, k: pred(q, k)


def face(ax, v, nargs=1):
    f = on_face(ax, v)
    g = lambda p, k: f(p)
    g.nargs = nargs
    return g


def nodes(ids):
    ids = onp.asarray(ids)
    g = lambda p, k: jnp.any(jnp.asarray(k) == ids)
    g.nargs = 2
    return g


def nowhere():
    g = lambda p, k: jnp.asarray(p[0] > 1e6)
    g.nargs = 1
    return g


def constant_values(ck):
    """constant (non-callable) values of every numeric kind"""
    p, fields = fields_problem([("QUAD4", (2, 2), 2)])
    n = p.num_total_dofs_all_vars
    ctx, _ = new()
    z = ctx.array("z", (1,))
    for v in (0.25, 3, -1, 0, 0.0):
        specs = [(face(0, 0.0), "x", None), (face(1, 1.0), "all", None)]
        with jax.ensure_compile_time_eval():
            bc = fe.DirichletBCConfig([fe.DirichletBCSpec(one_arg(s[0]), s[1], v) for s in specs]).create_bc(p)
        ref = oracle(fields, specs, jnp.array([[v, 0, 0], [v, 0, 0]], float))
        ck.forall(f"constant value {v!r}", lambda z: tuple(a * z[0] for a in dense(bc, n)), lambda z: tuple(a * z[0] for a in ref), (z,), ctx)
    bc = fe.DirichletBCConfig([]).create_bc(p)
    ck.forall("no conditions", lambda z: tuple(a * z[0] for a in dense(bc, n)), lambda z: (jnp.zeros(n) * z[0],) * 2, (z,), ctx)


def applied(ck, kinds, symmetric, view, use_ts):
    """residual rows become u - g, tangent rows identity (columns eliminated iff symmetric), all other entries untouched"""
    p, fields = fields_problem(kinds)
    n = p.num_total_dofs_all_vars
    et = kinds[0][0]
    d = dim_of(et)

    class Q(fe.Problem):
        def get_tensor_map(self):
            A = onp.array([[1.2, 0.4, 0.1], [-0.3, 0.9, 0.2], [0.05, -0.2, 1.1]])[:d, :d]
            return (lambda g, k: k * (g + 0.5 * g * g[0, 0])) if view != "FULL" else (lambda g, k: k * (g @ A) + 0.5 * g * g[0, 0])
    pts = fields[0][0]
    mesh = build(et, kinds[0][1], seed=31)
    vec = kinds[0][2]
    if view != "FULL":
        class Q(fe.Problem):
            def get_tensor_map(self):
                return lambda g, k: k * (g + g.T if vec > 1 else g)
    p = Q(fe.Mesh(*mesh, et), vec=vec, dim=d, ele_type=et, matrix_view=view)
    sp = [fe.DirichletBCSpec(one_arg(face(0, 0.0)), "x", 0.1), fe.DirichletBCSpec(one_arg(face(1, 1.0)), "all", 0.2)]
    bc = fe.DirichletBCConfig(sp).create_bc(p)
    m = onp.asarray(bc.bc_mask)
    ctx, _ = new()
    u = ctx.array("u", (n,), -0.5, 0.5)
    k = ctx.array("k", (len(mesh[1]),), 0.5, 2)
    g = ctx.array("g", bc.bc_vals.shape)

    def res(u, k):
        return ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(u), TP((k,))))[0]

    def impl(u, k, g):
        b = bc.replace_vals(g)
        r = fe.create_res_bc_function(p, b)(u, TP((k,)))
        r2 = fe.apply_boundary_to_res(b, res(u, k), u)
        r3 = fe.apply_boundary_to_res(b, res(u, k), u, 0.4)
        return r, r2, r3

    def gfull(g, s=1.0):
        return jnp.zeros(n).at[jnp.asarray(bc.bc_rows)].set(g * s)

    def spec(u, k, g):
        r = jnp.where(m, u - gfull(g), res(u, k))
        return r, r, jnp.where(m, u - gfull(g, 0.4), res(u, k))
    ck.forall(f"residual with conditions {et} vec={vec} {view}", impl, spec, (u, k, g), ctx)

    def jimpl(u, k, g):
        b = bc.replace_vals(g)
        return fe.create_J_bc_csr_function(p, b, symmetric=symmetric)(u, TP((k,))).todense()

    def jspec(u, k, g):
        J = jax.jacfwd(lambda s: res(s, k))(u)
        keep = (~m[:, None]) & ((~m[None, :]) if symmetric else True)
        J = jnp.where(keep, J, 0.0) + jnp.diag(jnp.asarray(m, float))
        return jnp.triu(J) if view == "UPPER" else jnp.tril(J) if view == "LOWER" else J
    ck.forall(f"tangent with conditions {et} vec={vec} {view} symmetric={symmetric}", jimpl, jspec, (u, k, g), ctx, tol=1e-7)


def initial_guess(ck):
    """the default initial guess carries the prescribed values and is zero elsewhere"""
    p, fields = fields_problem([("TRI3", (2, 2), 2)])
    n = p.num_total_dofs_all_vars
    bc = fe.DirichletBCConfig([fe.DirichletBCSpec(one_arg(face(0, 0.0)), "x", 0.1), fe.DirichletBCSpec(one_arg(face(1, 1.0)), "all", 0.2)]).create_bc(p)
    ctx, _ = new()
    g = ctx.array("g", bc.bc_vals.shape)
    rows = onp.asarray(bc.bc_rows)
    ck.forall("initial guess", lambda g: fe.zero_like_initial_guess(p, bc.replace_vals(g)), lambda g: jnp.zeros(n).at[rows].set(g), (g,), ctx)
    u = ctx.array("u", (n,))
    cx = fe.create_x0(bc_rows=bc.bc_rows, bc_vals=bc.bc_vals)
    m = onp.asarray(bc.bc_mask)
    ck.forall("Krylov start increment", lambda u: jnp.where(m, cx(u), 0.0), lambda u: jnp.where(m, jnp.zeros(n).at[rows].set(bc.bc_vals) - u, 0.0), (u,), ctx)


def run(ck):
    ck.fn("feax.DCboundary.DirichletBCConfig.create_bc", "feax.DCboundary.DirichletBCSpec", "feax.DCboundary.DirichletBC.replace_vals",
          "feax.DCboundary.apply_boundary_to_res", "feax.DCboundary.apply_boundary_to_J_csr", "feax.assembler.create_res_bc_function",
          "feax.assembler.create_J_bc_csr_function", "feax.utils.zero_like_initial_guess", "feax.solvers.common.create_x0")
    ck.bound("meshes up to 8 cells, 1-3 components, 1-2 fields, up to 4 (overlapping) specifications; prescribed values a + b.x with a, b in [-1,1]; state in [-0.5,0.5]^N")
    q = [("QUAD4", (2, 2), 2)]
    A, B, C, D = face(0, 0.0), face(1, 0.0), face(0, 1.0), face(1, 1.0, 2)
    ck.do(construct, "one side", q, [(A, "all", None)])
    ck.do(construct, "components", q, [(A, "x", None), (B, "y", None), (C, 1, None), (D, 0, None)])
    ck.do(construct, "overlap: first listed wins", q, [(A, "all", None), (B, "all", None), (C, "y", None), (D, "all", None)])
    ck.do(construct, "overlap reversed", q, [(D, "all", None), (C, "y", None), (B, "all", None), (A, "x", None)], "specs")
    ck.do(construct, "by node number", q, [(nodes([3, 0, 7]), "y", None), (nodes([7, 5]), "all", None)], "fn")
    ck.do(construct, "nothing selected", q, [(nowhere(), "all", None), (A, "y", None)], "add")
    ck.do(construct, "add chain", q, [(A, "x", None), (D, "all", None), (A, "all", None)], "add")
    ck.do(construct, "scalar field", [("TRI3", (2, 3), 1)], [(A, 0, None), (B, "all", None), (C, 1, None)])
    ck.do(construct, "3-D", [("HEX8", (2, 1, 1), 3)], [(A, "z", None), (B, "all", None), (face(2, 1.0, 2), "y", None)], "specs")
    ck.do(construct, "quadratic cells", [("TRI6", (2, 1), 2)], [(A, "y", None), (B, "all", None)])
    two = [("TRI6", (1, 1), 2), ("TRI3", (1, 1), 1)]
    ck.do(construct, "two fields", two, [(A, "x", None), (B, "all", None)])
    ck.do(construct, "two fields, addressed", two, [(A, "all", 1), (B, "y", 0), (C, "all", None), (A, "all", 0)])
    two = [("QUAD4", (2, 1), 1), ("QUAD4", (2, 1), 2)]
    ck.do(construct, "two fields, same mesh", two, [(A, "y", None), (B, "all", 1), (D, "all", 0), (C, "all", None)], "fn")
    ck.do(constant_values)
    for view in ("FULL", "UPPER", "LOWER"):
        for sym in (True, False):
            if view == "FULL" or sym:
                ck.do(applied, [("QUAD4", (2, 1), 2)], sym, view, False)
    ck.do(applied, [("TET4", (1, 1, 1), 1)], True, "FULL", False)
    ck.do(applied, [("TRI6", (1, 1), 1)], False, "FULL", False)
    ck.do(initial_guess)
