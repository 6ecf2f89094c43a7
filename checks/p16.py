"""P16: sparse differentiation and colored operator assembly give the dense operators."""
import numpy as onp
import scipy.sparse as sp
import jax
import jax.numpy as jnp
import feax as fe
from feax import asd
from feax.csr import CSRMatrix
from jax.experimental.sparse import BCOO
from symx.poly import SA
from .fem import *
from .p05 import quiet
from .p15 import same

# functions with parameter c (symbolic) on R^n; several shapes of sparsity
F = {
    "chain": (6, 6, lambda c: (lambda x: c[0] * x ** 2 + c[1] * jnp.roll(x, 1) * x + jnp.concatenate([jnp.zeros(1), x[:-1]]) ** 3)),
    "tall": (3, 7, lambda c: (lambda x: jnp.concatenate([x ** 3, jnp.array([x[0] * x[1], c[0] * x[2]]), jnp.sum(x) * jnp.ones(1) * c[1], jnp.zeros(1)]))),
    "wide": (7, 2, lambda c: (lambda x: jnp.array([x[0] * x[6] + c[0] * x[2] ** 2, jnp.dot(x[1:4], x[3:6]) * c[1]]))),
    "gather": (5, 4, lambda c: (lambda x: x[jnp.array([4, 0, 0, 2])] * x[jnp.array([1, 0, 3, 2])] * c[0] + c[1])),
    "scatter": (5, 5, lambda c: (lambda x: jnp.zeros(5).at[jnp.array([1, 1, 4])].add(x[:3] ** 2 * c[0] + c[1] * x[2]))),
    "dense": (4, 4, lambda c: (lambda x: c[0] * x * jnp.sum(x ** 2) + c[1] * jnp.arange(4.0)[:, None] @ x[None, :1] @ jnp.ones(1))),
    "arrow": (5, 5, lambda c: (lambda x: jnp.concatenate([jnp.sum(x ** 2)[None] * c[0], x[1:] * x[0] + c[1] * x[1:] ** 2]))),
}
H = {
    "chain": (6, lambda c: (lambda x: jnp.sum(c[0] * x ** 2) + c[1] * jnp.sum(x[1:] ** 2 * x[:-1]) + jnp.sum(x ** 3))),
    "star": (5, lambda c: (lambda x: c[0] * x[0] * jnp.sum(x[1:] ** 2) + c[1] * x[0] ** 3)),
    "blocks": (6, lambda c: (lambda x: c[0] * x[0] * x[3] * x[5] + c[1] * x[1] ** 2 * x[2] + x[4])),
    "full": (4, lambda c: (lambda x: c[0] * jnp.sum(x) ** 3 + c[1] * x[0] * x[3])),
    "filtered": (6, lambda c: (lambda x: jnp.sum((onp.tril(onp.ones((6, 6)), 1) * onp.triu(onp.ones((6, 6)), -1) @ x) ** 3 * c[0]) + c[1] * x[5] ** 2)),
}


def kinds(P):
    """the same pattern in every accepted form"""
    S = sp.csr_matrix(P != 0)
    coo = S.tocoo()
    rng = onp.random.RandomState(3)
    q = rng.permutation(coo.nnz)
    yield "scipy csr", S.astype(float)
    z = S.astype(float); z.data[::2] = 0.0
    yield "scipy csr with stored zeros", z
    yield "scipy coo, unordered", sp.coo_matrix((onp.ones(coo.nnz), (coo.row[q], coo.col[q])), shape=P.shape)
    yield "dense", onp.asarray(P, float)
    yield "BCOO, unordered", BCOO((jnp.ones(coo.nnz), jnp.stack([jnp.asarray(coo.row[q]), jnp.asarray(coo.col[q])], 1)), shape=P.shape)
    yield "CSRMatrix", CSRMatrix(jnp.ones(S.nnz), jnp.asarray(S.indptr), jnp.asarray(S.indices), P.shape)


def pat_of(ck, name, jac, pat, got):
    """returned structure = structure of the returned matrix"""
    S = sp.csr_matrix(pat)
    if not (S.shape == tuple(got.shape) and onp.array_equal(S.indptr, onp.asarray(got.indptr)) and onp.array_equal(S.indices, onp.asarray(got.indices))):
        ck.violate(name + " structure", {"indptr": onp.asarray(got.indptr).tolist(), "indices": onp.asarray(got.indices).tolist(), "pattern": S.toarray().astype(int).tolist()})


def dense(A):
    nnz = A.data.shape[0]
    if nnz == 0:
        return jnp.zeros(tuple(A.shape))
    r = jnp.sum((jnp.arange(nnz)[:, None] >= jnp.asarray(A.indptr)[None, 1:]).astype(jnp.int32), 1)
    return jnp.zeros(tuple(A.shape)).at[r, jnp.asarray(A.indices)].add(A.data)


def jac(ck, key, mode):
    n, m, f = F[key]
    c0 = jnp.array([0.7, -0.4])
    ctx, _ = new()
    x = ctx.array("x", (n,))
    jf, pat = asd.sparse_jacobian_fn(f(c0), jnp.zeros(n), mode=mode)
    same(ck, f"jacobian {key} {mode}", lambda x: dense(jf(x)), lambda x: jax.jacfwd(f(c0))(x), (x,), ctx)
    pat_of(ck, f"jacobian {key} {mode}", None, pat, jf(jnp.ones(n)))
    D = onp.asarray(asd.detect_jacobian_pattern(f(c0), jnp.zeros(n)).toarray()) != 0

    def outside(x):
        return jnp.where(D, 0.0, jax.jacfwd(f(c0))(x))
    same(ck, f"detected structure {key} holds every entry", outside, lambda x: jnp.zeros((m, n)), (x,), ctx)


def jac_pattern(ck, key, mode, extra):
    n, m, f = F[key]
    ctx, _ = new()
    x = ctx.array("x", (n,))
    c0 = jnp.array([0.7, -0.4])
    P = onp.asarray(asd.detect_jacobian_pattern(f(c0), jnp.ones(n)).toarray()) != 0
    rng = onp.random.RandomState(5)
    P = P | (rng.uniform(size=P.shape) < extra)
    for k, Q in kinds(P):
        jf, pat = asd.sparse_jacobian_fn(f(c0), pattern=Q, mode=mode)
        same(ck, f"jacobian {key} on a given structure ({k})", lambda x: dense(jf(x)), lambda x: jax.jacfwd(f(c0))(x), (x,), ctx)
        if not onp.array_equal(sp.csr_matrix(pat).toarray() != 0, P):
            ck.violate(f"jacobian {key}: structure given as {k}", {"given": P.astype(int).tolist(), "used": sp.csr_matrix(pat).toarray().astype(int).tolist()})


def hess(ck, key, mode, symmetric, given):
    n, f = H[key]
    ctx, _ = new()
    x = ctx.array("x", (n,))
    c0 = jnp.array([0.7, -0.4])
    P = None
    if given:
        P = onp.asarray(asd.detect_hessian_pattern(f(c0), jnp.zeros(n)).toarray()) != 0
        P = P | onp.eye(n, dtype=bool)
        P[0, n - 1] = P[n - 1, 0] = True
    hf, pat = asd.sparse_hessian_fn(f(c0), jnp.zeros(n), **({"pattern": sp.csr_matrix(P)} if given else {}), mode=mode, symmetric=symmetric)
    same(ck, f"hessian {key} {mode} symmetric={symmetric} given={given}", lambda x: dense(hf(x)), lambda x: jax.hessian(f(c0))(x), (x,), ctx)
    pat_of(ck, f"hessian {key}", None, pat, hf(jnp.ones(n)))
    same(ck, f"hessian {key} under jit", lambda x: dense(jax.jit(hf)(x)), lambda x: jax.hessian(f(c0))(x), (x,), ctx)


def hess_solve(ck):
    """design Hessian of a compliance-like quadratic through a filter"""
    n = 5
    W = onp.abs(onp.subtract.outer(onp.arange(n), onp.arange(n))) < 2
    W = W / W.sum(1, keepdims=True)
    f = lambda x: jnp.sum(jnp.asarray(W) @ x) ** 1 + jnp.sum((jnp.asarray(W) @ x) ** 3)
    hf, _ = asd.sparse_hessian_fn(f, jnp.ones(n))
    ctx, _ = new()
    x = ctx.array("x", (n,))
    same(ck, "filtered design hessian", lambda x: dense(hf(x)), lambda x: jax.hessian(f)(x), (x,), ctx)


def operator(ck, seed, n, m, dens, mode):
    rng = onp.random.RandomState(seed)
    P = rng.uniform(size=(m, n)) < dens
    r, c = onp.nonzero(P)
    ctx, _ = new()
    a = ctx.array("a", (len(r),))
    for k, Q in kinds(P):
        asm = asd.operator_assembler(Q, mode=mode)

        def impl(a):
            return dense(asm(lambda v: jnp.zeros(m).at[r].add(a * v[c])))
        same(ck, f"assembled {m}x{n} operator {mode} ({k})", impl, lambda a: jnp.zeros((m, n)).at[r, c].set(a), (a,), ctx)


def reduced(ck, seed, n, k):
    """P^T K P from its action, with structure from the boolean product"""
    rng = onp.random.RandomState(seed)
    cls = rng.randint(0, k, n)
    cls[:k] = onp.arange(k)
    P = onp.zeros((n, k))
    P[onp.arange(n), cls] = rng.choice([1.0, -1.0, 0.5], n)
    P[1, 0] = 0.3
    Kp = (onp.abs(onp.subtract.outer(onp.arange(n), onp.arange(n))) <= 1)
    Kp[0, n - 1] = True
    r, c = onp.nonzero(Kp)
    ctx, _ = new()
    a = ctx.array("a", (len(r),))
    Kd = lambda a: jnp.zeros((n, n)).at[r, c].set(a)
    for kind, Pq in kinds(P):
        if kind == "CSRMatrix" or kind.startswith("BCOO") or True:
            pat = asd.reduced_operator_pattern(Pq, sp.csr_matrix(Kp))
            asm = asd.operator_assembler(pat)
            same(ck, f"reduced operator, constraint given as {kind}", lambda a: dense(asm(lambda v: jnp.asarray(P).T @ (Kd(a) @ (jnp.asarray(P) @ v)))),
                 lambda a: jnp.asarray(P).T @ Kd(a) @ jnp.asarray(P), (a,), ctx, tol=1e-8)


def merge(ck, seed, n, m):
    from feax.csr import transpose_with_maps
    rng = onp.random.RandomState(seed)
    A, B = rng.uniform(size=(n, m)) < 0.35, rng.uniform(size=(n, m)) < 0.3
    A[0], B[:, -1] = False, False
    ra, ca = onp.nonzero(A)
    rb, cb = onp.nonzero(B)
    ctx, _ = new()
    a, b = ctx.array("a", (len(ra),)), ctx.array("b", (len(rb),))
    want = lambda a, b: jnp.zeros((n, m)).at[ra, ca].add(a).at[rb, cb].add(b)
    for k, (Qa, Qb) in enumerate(zip([q for _, q in kinds(A)], [q for _, q in kinds(B)][::-1])):
        M = asd.merge_csr_patterns(Qa, Qb)

        def mat(a, b):
            return CSRMatrix(jnp.zeros(M["nnz"]).at[M["slots_a"]].add(a).at[M["slots_b"]].add(b), M["indptr"], M["indices"], M["shape"])

        def tr(a, b):
            return transpose_with_maps(mat(a, b), M["T_perm"], M["T_indptr"], M["T_indices"])
        same(ck, f"merged structures {n}x{m} ({k})", lambda a, b: (dense(mat(a, b)), dense(tr(a, b))), lambda a, b: (want(a, b), want(a, b).T), (a, b), ctx)
        if M["nnz"] != int((A | B).sum()):
            ck.violate(f"merged structures {n}x{m}: size", {"nnz": M["nnz"], "expected": int((A | B).sum())})


def mesh_pattern(ck, et, n, two=False):
    """every entry of the assembled tangent lies in the structure; the verification tool agrees"""
    pts, cells = build(et, n, seed=4)
    d = dim_of(et)

    class P(fe.Problem):
        def get_tensor_map(self):
            return lambda g, k: k * (g + g @ g.T @ g)

        def get_mass_map(self):
            return lambda u, x, k: k * u ** 2
    p = P(fe.Mesh(pts, cells, et), vec=d, dim=d, ele_type=et)
    tp = TP((jnp.ones(len(cells)),))
    pat = asd.connectivity_pattern(p).toarray() != 0
    N = p.num_total_dofs_all_vars
    want = onp.zeros((len(pts), len(pts)), bool)
    for c in cells:
        want[onp.ix_(c, c)] = True
    want = onp.kron(want, onp.ones((d, d))) != 0
    if not onp.array_equal(pat, want):
        ck.violate(f"{et}: structure", {"missing": int((want & ~pat).sum()), "superfluous": int((pat & ~want).sum())})
    v = asd.verify_jacobian_pattern(p, tp)
    if not v["ok"] or v["num_missing"] != 0 or v["num_pattern"] != int(want.sum()):
        ck.violate(f"{et}: structure verification", {k: (bool(x) if k == "ok" else float(x)) for k, x in v.items()})
    ctx, _ = new()
    u, w = ctx.array("u", (N,)), ctx.array("w", (N,))
    asm = asd.operator_assembler(asd.connectivity_pattern(p))
    ts = fe.TracedStructure.from_problem(p, free_scratch=False)
    from jax.flatten_util import ravel_pytree
    res = lambda u: ravel_pytree(fe.get_res(p, p.unflatten_fn_sol_list(u), tp, ts=ts))[0]
    us = ctx.array("us", (2,))
    B = jnp.asarray(onp.random.RandomState(1).uniform(-1, 1, (N, 2)))
    same(ck, f"{et}: tangent assembled from its action", lambda us: dense(asm(lambda v: jax.jvp(res, (B @ us,), (v,))[1])), lambda us: jax.jacfwd(res)(B @ us), (us,), ctx, tol=1e-8)


def run(ck):
    ck.fn("feax.asd.sparse_jacobian_fn", "feax.asd.sparse_hessian_fn", "feax.asd.detect_jacobian_pattern", "feax.asd.detect_hessian_pattern", "feax.asd.operator_assembler", "feax.asd.reduced_operator_pattern",
          "feax.asd.merge_csr_patterns", "feax.asd.connectivity_pattern", "feax.asd.verify_jacobian_pattern", "feax.csr.transpose_with_maps")
    ck.bound("functions of up to 7 variables (polynomial), operators up to 8x8 with symbolic entries on random structures, structures in every accepted form")
    full = ck.tier != "quick"
    for key in F:
        for mode in (None, "fwd", "rev"):
            ck.do(jac, key, mode)
    for key in ("chain", "tall", "gather", "scatter") + (("wide", "dense", "arrow") if full else ()):
        ck.do(jac_pattern, key, None, 0.2)
    for key in H:
        ck.do(hess, key, None, True, False)
        ck.do(hess, key, None, True, True)
    ck.do(hess, "chain", None, False, False)
    ck.do(hess, "blocks", None, False, True)
    ck.do(hess_solve)
    for s, (n, m, de, mode) in enumerate([(6, 6, 0.3, "fwd"), (4, 7, 0.4, "fwd"), (7, 4, 0.3, "rev"), (5, 5, 1.0, "fwd")] + ([(8, 8, 0.25, "fwd"), (8, 6, 0.25, "rev")] if full else [])):
        ck.do(operator, s, n, m, de, mode)
    ck.do(reduced, 0, 7, 4)
    ck.do(merge, 0, 5, 5)
    ck.do(merge, 1, 4, 6)
    ck.do(mesh_pattern, "QUAD4", (2, 1))
    ck.do(mesh_pattern, "TRI3", (2, 1))
    ck.do(mesh_pattern, "TET4", (1, 1, 1))
