"""Symbolic execution of jaxprs (JAX's intermediate representation of the real code)."""
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jexc
from .poly import (SA, SB, BoolAtom, Unsupported, lift, align, add, neg, mul, inv, map_elems, from_polys,
                   from_dict, pconst, padd, pclose, uf_atom, sqrt_atom, compare, ite, bnot, band, bor, bxor,
                   ctx_of, group, rat, unsqrt)


SOLBOX = 1.0e3   # stated bound on every component of a stubbed linear-solve result


def is_sym(x):
    return isinstance(x, (SA, SB))


def shape_of(x):
    return x.shape if is_sym(x) else np.shape(x)


# primitives that are jointly linear in the listed operand positions (others concrete)
LINEAR1 = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims", "reduce_sum", "slice", "rev", "neg",
           "copy", "copy_p", "cumsum", "real", "reduce_precision", "split", "device_put", "convert_element_type",
           "stop_gradient", "optimization_barrier", "pbroadcast", "mul_const", "tile", "symbolic_zeros", "unstack"}
LINEAR_JOINT = {"concatenate": None, "pad": (0, 1), "scatter-add": (0, 2), "scatter": (0, 2), "scatter_add": (0, 2),
                "dynamic_update_slice": (0, 1), "add_any": None, "stack": None, "scatter_sub": (0, 2), "scatter-sub": (0, 2)}
SUBJ = {"jaxpr", "call_jaxpr", "call", "fun_jaxpr", "branches", "cond_jaxpr"}
INDEXED = {"gather": (0,), "dynamic_slice": (0,)}


def _np_bcast(p, x):
    shp = [1] * len(p["shape"])
    for a, d in zip(x.shape, p["broadcast_dimensions"]):
        shp[d] = a
    return np.broadcast_to(x.reshape(shp), p["shape"])


# primitives evaluated with numpy when all operands are concrete (elementwise / structural: same IEEE results)
NUMPY = {
    "add": lambda p, a, b: a + b, "sub": lambda p, a, b: a - b, "mul": lambda p, a, b: a * b, "neg": lambda p, a: -a,
    "lt": lambda p, a, b: a < b, "le": lambda p, a, b: a <= b, "gt": lambda p, a, b: a > b, "ge": lambda p, a, b: a >= b,
    "eq": lambda p, a, b: a == b, "ne": lambda p, a, b: a != b,
    "reshape": lambda p, a: a.reshape(p["new_sizes"]) if p.get("dimensions") is None else None,
    "transpose": lambda p, a: a.transpose(p["permutation"]), "broadcast_in_dim": _np_bcast,
    "squeeze": lambda p, a: np.squeeze(a, tuple(p["dimensions"])),
    "concatenate": lambda p, *a: np.concatenate(a, p["dimension"]),
    "select_n": lambda p, c, *a: np.where(c, a[1], a[0]) if c.dtype == bool and len(a) == 2 else None,
    "convert_element_type": lambda p, a: a.astype(p["new_dtype"]) if a.dtype.kind in "biu" or np.dtype(p["new_dtype"]).kind == "f" else None,
    "slice": lambda p, a: a[tuple(slice(s, e, k) for s, e, k in zip(p["start_indices"], p["limit_indices"], p["strides"] or [1] * a.ndim))],
    "copy": lambda p, a: a, "copy_p": lambda p, a: a, "stop_gradient": lambda p, a: a,
    "and": lambda p, a, b: a & b if a.dtype == bool else None, "or": lambda p, a, b: a | b if a.dtype == bool else None,
    "not": lambda p, a: ~a if a.dtype == bool else None,
}


def lsq(A, r):
    """value of a stubbed solve at a concrete point; minimum-norm for singular (consistent) systems"""
    sv = np.linalg.svd(A, compute_uv=False)
    return np.linalg.solve(A, r) if sv[-1] > 1e-11 * sv[0] else np.linalg.lstsq(A, r, rcond=1e-11)[0]


class Interp:
    def __init__(self, ctx, hooks=None, max_unroll=2000, stub_solve=True):
        self.ctx = ctx
        self.hooks = hooks or {}
        self.max_unroll = max_unroll
        self.max_while = 6        # symbolic iterations of one data-dependent loop
        self.enter_loops = False  # explore only the path entering a data-dependent loop at least once
        self.prims = {}
        self.stubs = []
        self.nsolve = 0

    # -- entry -----------------------------------------------------------------
    def run(self, fn, *args):
        """Trace fn at the shapes of args (pytrees with SA leaves) and interpret it.

        Concrete leaves (numpy/jax) stay concrete."""
        leaves, tree = jax.tree_util.tree_flatten(args, is_leaf=is_sym)
        avals = []
        for l in leaves:
            if isinstance(l, SA):
                avals.append(jax.ShapeDtypeStruct(l.shape, jnp.float64))
            elif isinstance(l, SB):
                avals.append(jax.ShapeDtypeStruct(l.shape, jnp.bool_))
            else:
                a = jnp.asarray(l)
                avals.append(jax.ShapeDtypeStruct(a.shape, a.dtype))
        out_tree = []

        def flat(*ls):
            out = fn(*jax.tree_util.tree_unflatten(tree, ls))
            o, t = jax.tree_util.tree_flatten(out)
            out_tree.append(t)
            return o
        closed = jax.make_jaxpr(flat)(*avals)
        outs = self.eval(closed.jaxpr, closed.consts, [l if is_sym(l) else np.asarray(l) for l in leaves])
        return jax.tree_util.tree_unflatten(out_tree[-1], outs)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jexc.Literal):
                return np.asarray(v.val)
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if is_sym(c) else np.asarray(c)
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if len(outs) != len(eqn.outvars):
                raise Unsupported(f"{eqn.primitive.name}: {len(outs)} outputs for {len(eqn.outvars)}; {list(eqn.params)} {[v.aval for v in eqn.outvars]}")
            for v, o in zip(eqn.outvars, outs):
                env[v] = simplify(o)
        return [read(v) for v in jaxpr.outvars]

    # -- one equation ------------------------------------------------------------
    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.prims[name] = self.prims.get(name, 0) + 1
        if name in self.hooks:
            r = self.hooks[name](self, eqn, ins)
            if r is not NotImplemented:
                return r
        p = eqn.params
        if not any(is_sym(x) for x in ins) and (not self.hooks or not SUBJ.intersection(p)):
            return self.concrete(eqn, ins)
        if name in ("jit", "pjit", "closed_call", "core_call", "xla_call", "remat", "checkpoint", "remat2",
                    "custom_jvp_call", "custom_vjp_call", "custom_vmap_call", "custom_vjp_call_jaxpr"):
            j = p.get("jaxpr", None)
            if j is None:
                j = p.get("call_jaxpr", None)
            if j is None:
                j = p.get("call", None)
            if j is None:
                j = p.get("fun_jaxpr", None)
            if hasattr(j, "consts"):
                return self.eval(j.jaxpr, j.consts, ins)
            return self.eval(j, (), ins)
        if name == "custom_linear_solve":
            return self.linear_solve(eqn, ins)
        if name == "pure_callback":
            return self.callback(eqn, ins)
        if not any(is_sym(x) for x in ins):
            return self.concrete(eqn, ins)
        if name == "scan":
            return self.scan(eqn, ins)
        if name == "while":
            return self.while_(eqn, ins)
        if name == "cond":
            return self.cond(eqn, ins)
        if name in ("debug_callback", "debug_print"):
            return []
        if name in ("device_put", "optimization_barrier", "copy", "copy_p", "stop_gradient", "reduce_precision", "sharding_constraint"):
            return list(ins)
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, ins)
        if name in LINEAR1:
            return self.linear(eqn, ins, (0,))
        if name in INDEXED:
            return self.linear(eqn, ins, INDEXED[name])
        if name in LINEAR_JOINT:
            pos = LINEAR_JOINT[name]
            return self.linear(eqn, ins, pos if pos is not None else tuple(range(len(ins))))
        if name.startswith(("bcoo_", "bcsr_", "coo_", "csr_")):
            return self.expand(eqn, ins)
        raise Unsupported(f"primitive {name} with symbolic operands")

    def expand(self, eqn, ins):
        """trace a sparse primitive's own implementation and evaluate that"""
        import jax.experimental.sparse.bcoo as bcoo
        mult = eqn.primitive.multiple_results
        impl = getattr(bcoo, f"_{eqn.primitive.name}_impl", None)
        if impl is None:
            raise Unsupported(f"primitive {eqn.primitive.name} with symbolic operands")

        def f(*a):
            o = impl(*a, **eqn.params)
            return o if mult else [o]
        j = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
        return self.eval(j.jaxpr, j.consts, ins)

    def concrete(self, eqn, ins):
        p = eqn.params
        f = NUMPY.get(eqn.primitive.name)
        if f is not None:
            try:
                out = f(p, *[np.asarray(x) for x in ins])
            except Exception:
                out = None
            av = eqn.outvars[0].aval
            if out is not None and np.shape(out) == tuple(av.shape):
                return [np.asarray(out, av.dtype)]
        bp = eqn.primitive.get_bind_params(p)
        args = [jnp.asarray(x) for x in ins]
        out = eqn.primitive.bind(*args, **bp)
        if not eqn.primitive.multiple_results:
            out = [out]
        return [o if jax.dtypes.issubdtype(getattr(o, 'dtype', None), jax.dtypes.extended) else np.asarray(o) for o in out]

    def linear(self, eqn, ins, pos):
        """Apply a primitive that is jointly linear in ins[pos] to every coefficient array."""
        name = eqn.primitive.name
        if any(isinstance(ins[k], SB) for k in pos):
            return self.move_bool(eqn, ins, pos)
        for k, x in enumerate(ins):
            if k not in pos and is_sym(x):
                raise Unsupported(f"{name}: symbolic index operand")
        ctx, monos, cs = align(*[ins[k] for k in pos])
        if not monos:
            monos, cs = [()], [np.zeros((1,) + shape_of(ins[k])) for k in pos]
        p = eqn.params
        # fast numpy paths
        if name == "reshape" and p.get("dimensions") is None:
            return [SA(ctx, monos, cs[0].reshape((len(monos),) + tuple(p["new_sizes"])), prune=False)]
        if name == "transpose":
            return [SA(ctx, monos, cs[0].transpose((0,) + tuple(a + 1 for a in p["permutation"])), prune=False)]
        if name == "neg":
            return [SA(ctx, monos, -cs[0], prune=False)]
        if name in ("copy", "copy_p", "device_put", "stop_gradient", "real", "reduce_precision"):
            return [SA(ctx, monos, cs[0], prune=False)]
        if name == "convert_element_type":
            dt = np.dtype(p["new_dtype"])
            if dt.kind == "f" or dt.kind == "i":
                return [SA(ctx, monos, cs[0], prune=False)]
            raise Unsupported(f"convert to {dt}")
        if name == "reduce_sum":
            return [SA(ctx, monos, cs[0].sum(axis=tuple(int(a) + 1 for a in p["axes"])))]
        if name == "broadcast_in_dim":
            shp, bd = tuple(p["shape"]), [int(b) for b in p["broadcast_dimensions"]]
            c = cs[0]
            exp = [1] * len(shp)
            for a, b in enumerate(bd):
                exp[b] = c.shape[1 + a]
            c = np.broadcast_to(c.reshape((len(monos),) + tuple(exp)), (len(monos),) + shp)
            return [SA(ctx, monos, c, prune=False)]
        if name == "squeeze":
            return [SA(ctx, monos, np.squeeze(cs[0], axis=tuple(int(d) + 1 for d in p["dimensions"])), prune=False)]
        if name == "concatenate":
            return [SA(ctx, monos, np.concatenate(cs, axis=p["dimension"] + 1), prune=False)]
        if name == "stack":
            ax = p.get("axis", p.get("dimension", 0))
            return [SA(ctx, monos, np.stack(cs, axis=ax + 1 if ax >= 0 else ax), prune=False)]
        if name == "add_any":
            return [SA(ctx, monos, cs[0] + cs[1])]
        if name == "split":
            ax = p["axis"] + 1
            return [SA(ctx, monos, c) for c in np.split(cs[0], np.cumsum(p["sizes"])[:-1], axis=ax)]
        fixed = {k: jnp.asarray(x) for k, x in enumerate(ins) if k not in pos}
        bp = eqn.primitive.get_bind_params(p)

        def one(*xs):
            full = [None] * len(ins)
            for k, x in zip(pos, xs):
                full[k] = x
            for k, x in fixed.items():
                full[k] = x
            return eqn.primitive.bind(*full, **bp)
        out = jax.vmap(one)(*[jnp.asarray(c) for c in cs])
        if not eqn.primitive.multiple_results:
            out = [out]
        return [SA(ctx, monos, np.asarray(o)) for o in out]

    def move_bool(self, eqn, ins, pos):
        """Structural primitives on symbolic booleans: move indices around."""
        name = eqn.primitive.name
        if name == "convert_element_type":
            dt = np.dtype(eqn.params["new_dtype"])
            if dt == bool:
                return [ins[0]]
            b = ins[0]
            ps = [ite(b.ctx, x, {(): 1.0}, {}) for x in b.arr.ravel()]
            return [from_polys(b.ctx, ps, b.shape)]
        if name in ("copy", "device_put", "stop_gradient"):
            return [ins[0]]
        ctx = next(ins[k] for k in pos if isinstance(ins[k], SB)).ctx
        pool, mapped = [], []
        for k in pos:
            x = ins[k]
            arr = x.arr if isinstance(x, SB) else np.asarray(x).astype(object)
            ids = np.arange(len(pool), len(pool) + arr.size).reshape(arr.shape)
            pool += list(arr.ravel())
            mapped.append(ids)
        p = dict(eqn.params)
        bp = eqn.primitive.get_bind_params(p)
        full = [None] * len(ins)
        for k, m in zip(pos, mapped):
            full[k] = jnp.asarray(m, jnp.int64)
        for k, x in enumerate(ins):
            if k not in pos:
                if is_sym(x):
                    raise Unsupported(f"{name}: symbolic index on booleans")
                full[k] = jnp.asarray(x)
        out = eqn.primitive.bind(*full, **bp)
        if not eqn.primitive.multiple_results:
            out = [out]
        res = []
        for o in out:
            o = np.asarray(o)
            arr = np.empty(o.shape, object)
            for i in np.ndindex(o.shape):
                arr[i] = pool[int(o[i])]
            res.append(SB(ctx, arr))
        return res

    # -- arithmetic ---------------------------------------------------------------
    def p_add(self, e, i): return [add(num(i[0]), num(i[1]))]
    def p_sub(self, e, i): return [add(num(i[0]), neg(num(i[1])))]
    def p_mul(self, e, i):
        if i[0] is i[1] and isinstance(i[0], SA):
            return self.p_square(e, i)
        return [mul(num(i[0]), num(i[1]))]

    def p_div(self, e, i):
        a, b = num(i[0]), num(i[1])
        if not is_sym(b):
            with np.errstate(divide="ignore", invalid="ignore"):
                r = 1.0 / np.asarray(b, float)
            if not np.isfinite(r).all():
                # x/0: an unconstrained value (a selection normally discards it; models are replayed on the real code)
                ctx = a.ctx
                shape = np.broadcast_shapes(a.shape, r.shape)
                q = mul(a, np.where(np.isfinite(r), r, 0.0))
                ps, ap = q.polys(), mul(a, np.ones(shape)).polys()
                for k, bad in enumerate(np.broadcast_to(~np.isfinite(r), shape).ravel()):
                    if bad:
                        ps[k] = {(ctx.atom("div0", [ap[k]], lambda zp, z: [], lambda env: 0.0),): 1.0}
                return [from_polys(ctx, ps, shape)]
            return [mul(a, r)]
        return [mul(a, inv(b))]

    def p_integer_pow(self, e, i):
        y = e.params["y"]
        x = i[0]
        if y == 2:
            return self.p_square(e, i)
        if y < 0:
            x, y = inv(x), -y
        if y == 0:
            return [np.ones(x.shape)]
        r = None
        base = x
        while y:
            if y & 1:
                r = base if r is None else mul(r, base)
            y >>= 1
            if y:
                base = mul(base, base)
        return [r]

    def p_square(self, e, i):
        x = mod_eqs(i[0])
        return [mul(x, x) if isinstance(x, SA) and not x.is_const() else np.square(x.const() if isinstance(x, SA) else x)]

    def p_pow(self, e, i):
        a, b = num(i[0]), num(i[1])
        ctx = ctx_of(a, b)
        if not is_sym(b):
            bb = np.broadcast_to(np.asarray(b, float), np.broadcast_shapes(shape_of(a), np.shape(b)))
            aa = lift(ctx, a)
            if bb.size and (bb == bb.ravel()[0]).all():
                y = float(bb.ravel()[0])
                if y == int(y):
                    class E: params = {"y": int(y)}
                    r = self.p_integer_pow(E, [aa])[0]
                    return [r]
                if y == 0.5:
                    return self.p_sqrt(e, [aa])

        def f(p, q):
            cp, cq = pconst(p), pconst(q)
            if cp is not None and cq is not None:
                return {(): float(cp) ** float(cq)}
            if cq is not None and float(cq) == int(cq) and cq >= 0:
                r = {(): 1.0}
                for _ in range(int(cq)):
                    r = pmul(r, p)
                return r
            fn = ctx.uf("pow", 2)
            box = []
            vid = ctx.atom("pow", [p, q], lambda zp, z: [z[box[0]] == fn(zp(p), zp(q))],
                           lambda env: float(ctx.evaluate(p, env)) ** float(ctx.evaluate(q, env)))
            box.append(vid)
            return {(vid,): 1.0}
        return [map_elems(f, a, b)]

    def p_sqrt(self, e, i): return [map_elems(lambda p: sqrt_atom(i[0].ctx, p), i[0])]
    def p_rsqrt(self, e, i): return [inv(self.p_sqrt(e, i)[0])]

    def _uf(self, op, fn, facts=None, lo=None, hi=None):
        def f(e, i):
            return [map_elems(lambda p: uf_atom(i[0].ctx, op, p, fn, facts, lo, hi), i[0])]
        return f

    def p_exp(self, e, i): return self._uf("exp", np.exp, lambda z, a: [z > 0], 0.0, None)(e, i)
    def p_exp2(self, e, i): return self._uf("exp2", np.exp2, lambda z, a: [z > 0], 0.0, None)(e, i)
    def p_log(self, e, i): return self._uf("log", np.log)(e, i)
    def p_log1p(self, e, i): return self._uf("log1p", np.log1p)(e, i)
    def p_expm1(self, e, i): return self._uf("expm1", np.expm1)(e, i)

    def p_sin(self, e, i): return self._trig("sin", e, i)
    def p_cos(self, e, i): return self._trig("cos", e, i)

    def _trig(self, op, e, i):
        """sin/cos atoms created in pairs with s^2 + c^2 = 1."""
        ctx = i[0].ctx

        def f(p):
            c = pconst(p)
            if c is not None:
                return {(): float(getattr(np, op)(c))}
            ids = {}
            for nm in ("sin", "cos"):
                ids[nm] = ctx.atom(nm, [p], None,
                                   lambda env, nm=nm: float(getattr(np, nm)(ctx.evaluate(p, env))), -1.0, 1.0)
            for nm in ("sin", "cos"):
                ctx.defs[ids[nm]] = lambda zp, z, nm=nm: [
                    z[ids[nm]] == ctx.uf(nm, 1)(zp(p)),
                    zp({(ids["sin"], ids["sin"]): 1.0, (ids["cos"], ids["cos"]): 1.0}) == 1]
            ctx.deps[ids["sin"]] |= {ids["cos"]}
            return {(ids[op],): 1.0}
        return [map_elems(f, i[0])]

    def p_tanh(self, e, i): return self._uf("tanh", np.tanh, None, -1.0, 1.0)(e, i)

    def p_logistic(self, e, i):
        return self._uf("logistic", lambda x: 1 / (1 + np.exp(-x)), lambda z, a: [z > 0, z < 1], 0.0, 1.0)(e, i)

    def p_abs(self, e, i):
        ctx = i[0].ctx

        def f(p):
            c = compare(ctx, "ge", p, {})
            return ite(ctx, c, p, {m: -v for m, v in p.items()})
        return [map_elems(f, i[0])]

    def p_sign(self, e, i):
        ctx = i[0].ctx
        return [map_elems(lambda p: ite(ctx, compare(ctx, "gt", p, {}), {(): 1.0},
                                        ite(ctx, compare(ctx, "lt", p, {}), {(): -1.0}, {})), i[0])]

    def p_max(self, e, i):
        if any(isinstance(x, SB) for x in i):
            return self.p_or(e, i)
        ctx = ctx_of(*i)
        return [map_elems(lambda p, q: ite(ctx, compare(ctx, "ge", p, q), p, q), i[0], i[1])]

    def p_min(self, e, i):
        if any(isinstance(x, SB) for x in i):
            return self.p_and(e, i)
        ctx = ctx_of(*i)
        return [map_elems(lambda p, q: ite(ctx, compare(ctx, "le", p, q), p, q), i[0], i[1])]

    def p_clamp(self, e, i):
        lo, x, hi = i
        t = self.p_max(e, [lo, x])[0] if is_sym(lo) or is_sym(x) else np.maximum(lo, x)
        return self.p_min(e, [t, hi]) if is_sym(t) or is_sym(hi) else [np.minimum(t, hi)]

    def p_dot_general(self, e, i):
        a, b = num(i[0]), num(i[1])
        if i[0] is i[1] and isinstance(a, SA):
            a = b = mod_eqs(a)
        p = e.params
        ctx = ctx_of(a, b)
        f = lambda x, y: jax.lax.dot_general(x, y, p["dimension_numbers"])
        if not is_sym(b):
            bb = jnp.asarray(b, jnp.float64)
            return [SA(ctx, a.monos, np.asarray(jax.vmap(lambda x: f(x, bb))(jnp.asarray(a.coef))))] if a.monos else \
                [np.zeros(jax.eval_shape(f, jax.ShapeDtypeStruct(a.shape, bb.dtype), bb).shape)]
        if not is_sym(a):
            aa = jnp.asarray(a, jnp.float64)
            return [SA(ctx, b.monos, np.asarray(jax.vmap(lambda y: f(aa, y))(jnp.asarray(b.coef))))] if b.monos else \
                [np.zeros(jax.eval_shape(f, aa, jax.ShapeDtypeStruct(b.shape, aa.dtype)).shape)]
        if not a.monos or not b.monos:
            return [np.zeros(e.outvars[0].aval.shape)]
        acc = {}
        g = jax.jit(jax.vmap(f, (None, 0)))
        bc = jnp.asarray(b.coef)
        for k, m in enumerate(a.monos):
            blk = np.asarray(g(jnp.asarray(a.coef[k]), bc))
            nz = np.nonzero(np.abs(blk.reshape(blk.shape[0], -1)).max(axis=1) > 0)[0]
            for q in nz:
                mm = tuple(sorted(m + b.monos[q]))
                acc[mm] = acc[mm] + blk[q] if mm in acc else blk[q]
        return [unsqrt(from_dict(ctx, acc, e.outvars[0].aval.shape))]

    def p_select_n(self, e, i):
        pred, cases = i[0], i[1:]
        if not is_sym(pred) or (isinstance(pred, SB) and pred.is_const()):
            pr = np.asarray(pred.const() if isinstance(pred, SB) else pred)
            if any(isinstance(c, SB) for c in cases):
                ctx = next(c.ctx for c in cases if isinstance(c, SB))
                shp = shape_of(cases[0])
                idx = np.broadcast_to(pr, shp).astype(int)
                arrs = [c.arr if isinstance(c, SB) else np.asarray(c).astype(bool).astype(object) for c in cases]
                out = np.empty(shp, object)
                for t in np.ndindex(shp):
                    out[t] = arrs[idx[t]][t]
                return [SB(ctx, out)]
            ctx, monos, cs = align(*cases)
            prb = np.broadcast_to(pr, shape_of(cases[0]))
            if prb.dtype == bool:
                r = np.where(prb[None], cs[1], cs[0])
            else:
                r = np.choose(np.broadcast_to(prb[None], cs[0].shape), cs)
            return [SA(ctx, monos, r)]
        if isinstance(pred, SA):
            raise Unsupported("select_n with symbolic integer index")
        ctx = pred.ctx
        shp = shape_of(cases[0])
        pa = np.broadcast_to(pred.arr, shp)
        if any(isinstance(c, SB) for c in cases) or (np.asarray(cases[0]).dtype == bool if not is_sym(cases[0]) else False):
            arrs = [c.arr if isinstance(c, SB) else np.asarray(c).astype(object) for c in cases]
            out = np.empty(shp, object)
            for t in np.ndindex(shp):
                c = pa[t]
                f, tr = arrs[0][t], arrs[1][t]
                out[t] = bor(band(c, as_b(tr)), band(bnot(c), as_b(f)))
            return [SB(ctx, out)]
        fa, ta = lift_nan(ctx, cases[0], pa, True), lift_nan(ctx, cases[1], pa, False)
        pf, pt = fa.polys(), ta.polys()
        ps = [ite(ctx, c, t, f) for c, t, f in zip(pa.ravel(), pt, pf)]
        return [from_polys(ctx, ps, shp)]

    # -- comparisons / booleans ------------------------------------------------------
    def _cmp(self, op, i):
        if any(isinstance(x, SB) for x in i):
            f = {"eq": lambda a, b: bnot(bxor(a, b)), "ne": bxor}.get(op)
            if f is None:
                raise Unsupported(f"{op} on booleans")
            return self._bool2(f, i)
        ctx = ctx_of(*i)
        a, b = num(i[0]), num(i[1])
        # comparisons with inf
        shape = np.broadcast_shapes(shape_of(a), shape_of(b))
        for x, y, flip in ((a, b, False), (b, a, True)):
            if not is_sym(y) and not np.isfinite(np.asarray(y, float)).all():
                yy = np.asarray(y, float)
                if np.isnan(yy).any():
                    raise Unsupported("comparison with nan")
                xr = np.zeros(shape_of(x))
                f = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
                     "eq": np.equal, "ne": np.not_equal}[op]
                return [np.asarray(f(yy, xr) if flip else f(xr, yy))]
        la, lb = lift(ctx, a), lift(ctx, b)
        if len(la.monos) == len(lb.monos) and la.shape == lb.shape and set(la.monos) == set(lb.monos):
            pass
        pa = SA(ctx, la.monos, np.broadcast_to(la.coef.reshape(la.coef.shape[:1] + (1,) * (len(shape) - la.ndim) + la.shape), (len(la.monos),) + shape), prune=False).polys()
        pb = SA(ctx, lb.monos, np.broadcast_to(lb.coef.reshape(lb.coef.shape[:1] + (1,) * (len(shape) - lb.ndim) + lb.shape), (len(lb.monos),) + shape), prune=False).polys()
        out = np.empty(len(pa), object)
        for k, (x, y) in enumerate(zip(pa, pb)):
            out[k] = compare(ctx, op, x, y)
        return [SB(ctx, out.reshape(shape))]

    def p_lt(self, e, i): return self._cmp("lt", i)
    def p_le(self, e, i): return self._cmp("le", i)
    def p_gt(self, e, i): return self._cmp("gt", i)
    def p_ge(self, e, i): return self._cmp("ge", i)

    def p_eq(self, e, i): return self._cmp("eq", i)

    def p_ne(self, e, i):
        return self._cmp("ne", i)

    def _bool2(self, f, i):
        ctx = next(x.ctx for x in i if isinstance(x, SB))
        shape = np.broadcast_shapes(*[shape_of(x) for x in i])
        arrs = [np.broadcast_to(x.arr if isinstance(x, SB) else np.asarray(x).astype(object), shape) for x in i]
        out = np.empty(shape, object)
        for t in np.ndindex(shape):
            out[t] = f(as_b(arrs[0][t]), as_b(arrs[1][t]))
        return [SB(ctx, out)]

    def p_and(self, e, i): return self._bool2(band, i)
    def p_or(self, e, i): return self._bool2(bor, i)
    def p_xor(self, e, i): return self._bool2(bxor, i)

    def p_not(self, e, i):
        out = np.empty(i[0].shape, object)
        for t in np.ndindex(i[0].shape):
            out[t] = bnot(i[0].arr[t])
        return [SB(i[0].ctx, out)]

    def p_is_finite(self, e, i):
        return [np.ones(i[0].shape, bool)]

    def _breduce(self, f, init, e, i):
        axes = tuple(int(a) for a in e.params["axes"])
        x = i[0]
        keep = [a for a in range(x.ndim) if a not in axes]
        arr = x.arr.transpose(keep + list(axes)).reshape([x.shape[a] for a in keep] + [-1])
        out = np.empty(arr.shape[:-1], object)
        for t in np.ndindex(out.shape):
            acc = init
            for b in arr[t]:
                acc = f(acc, b)
            out[t] = acc
        return [SB(x.ctx, out)]

    def p_reduce_and(self, e, i): return self._breduce(band, True, e, i)
    def p_reduce_or(self, e, i): return self._breduce(bor, False, e, i)

    def _reduce(self, op, e, i):
        axes = tuple(int(a) for a in e.params["axes"])
        x = i[0]
        ctx = x.ctx
        keep = [a for a in range(x.ndim) if a not in axes]
        y = SA(ctx, x.monos, x.coef.transpose([0] + [a + 1 for a in keep] + [a + 1 for a in axes]), prune=False)
        shp = tuple(x.shape[a] for a in keep)
        n = int(np.prod([x.shape[a] for a in axes]))
        ps = y.reshape(shp + (n,)).polys()
        out = []
        for k in range(0, len(ps), n):
            acc = ps[k]
            for q in ps[k + 1:k + n]:
                acc = op(ctx, acc, q)
            out.append(acc)
        return [from_polys(ctx, out, shp)]

    def p_reduce_max(self, e, i):
        return self._reduce(lambda c, p, q: ite(c, compare(c, "ge", p, q), p, q), e, i)

    def p_reduce_min(self, e, i):
        return self._reduce(lambda c, p, q: ite(c, compare(c, "le", p, q), p, q), e, i)

    def p_reduce_prod(self, e, i):
        return self._reduce(lambda c, p, q: pmul(p, q), e, i)

    def p_scatter_mul(self, e, i):
        raise Unsupported("scatter-mul")

    # -- control flow ------------------------------------------------------------------
    def scan(self, eqn, ins):
        p = eqn.params
        j = p["jaxpr"]
        if "num_consts" in p:
            nc, nk = p["num_consts"], p["num_carry"]
        else:
            parts = [list(x) for x in p["ft_in"].update(list(range(len(ins)))).unpack()]
            if [k for q in parts for k in q] != list(range(len(ins))):
                raise Unsupported("scan operand order")
            nc, nk = len(parts[0]), len(parts[1])
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        L = p["length"]
        if L > self.max_unroll:
            raise Unsupported(f"scan of length {L}")
        order = range(L - 1, -1, -1) if p["reverse"] else range(L)
        ys = [None] * L
        for t in order:
            xt = [index0(x, t) for x in xs]
            outs = self.eval(j.jaxpr, j.consts, list(consts) + carry + xt)
            carry = outs[:nk]
            ys[t] = outs[nk:]
        res = list(carry)
        ny = len(eqn.outvars) - nk
        for k in range(ny):
            if L == 0:
                res.append(np.zeros(eqn.outvars[nk + k].aval.shape))
            else:
                res.append(stack0([ys[t][k] for t in range(L)]))
        return res

    def while_(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bcs, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        def go(carry, depth):
            for it in range(self.max_unroll):
                c = self.eval(cj.jaxpr, cj.consts, list(cc) + carry)[0]
                if shape_of(c) != ():      # batched loop: runs while any lane wants to, lanes that are done keep their state
                    ca = c.arr if isinstance(c, SB) else np.asarray(c).astype(object)
                    if not isinstance(c, SB) and not np.asarray(c).any():
                        return carry
                    if self.enter_loops and depth == 0:
                        carry = self.eval(bj.jaxpr, bj.consts, list(bcs) + carry)
                        depth = 1
                        continue
                    if depth >= self.max_while:
                        if not any(x is True or (isinstance(x, BoolAtom) and self.feasible(x)) for x in ca.ravel()):
                            return carry
                        raise Unsupported("while: symbolic unroll bound reached")
                    nxt = self.eval(bj.jaxpr, bj.consts, list(bcs) + carry)
                    carry = [self.merge(ca, t, f) for t, f in zip(nxt, carry)]
                    depth += 1
                    continue
                if isinstance(c, SB) and not c.is_const():
                    if self.enter_loops and depth == 0:
                        carry = self.eval(bj.jaxpr, bj.consts, list(bcs) + carry)
                        depth = 1
                        continue
                    if depth >= self.max_while:
                        if not self.feasible(c.arr.ravel()[0]):
                            return carry
                        raise Unsupported("while: symbolic unroll bound reached")
                    rest = go(self.eval(bj.jaxpr, bj.consts, list(bcs) + carry), depth + 1)
                    return [self.merge(c.arr.ravel()[0], t, f) for t, f in zip(rest, carry)]
                if not bool(np.asarray(c.const() if isinstance(c, SB) else c)):
                    return carry
                carry = self.eval(bj.jaxpr, bj.consts, list(bcs) + carry)
            raise Unsupported("while: unroll bound reached")
        return go(carry, 0)

    def merge(self, c, t, f):
        """c ? t : f for whole arrays"""
        sh = shape_of(t)
        arr = np.empty(sh, object)
        if isinstance(c, np.ndarray):
            if sh[:c.ndim] != c.shape:
                raise Unsupported("while: unbatched carry in a batched loop")
            arr[...] = c.reshape(c.shape + (1,) * (len(sh) - c.ndim))
        else:
            arr[...] = c
        return simplify(self.p_select_n(None, [SB(self.ctx, arr), f, t])[0])

    def feasible(self, c):
        """may the condition hold? (monomials abstracted: 'no' is definite)"""
        import z3
        from .check import LinZ, add_env
        lin = LinZ(self.ctx)
        s = z3.Solver()
        s.set("timeout", 20000)
        add_env(s, self.ctx, lin, self.ctx.closure(c.deps), [c])
        s.add(*lin.pending)
        return s.check() != z3.unsat

    def cond(self, eqn, ins):
        br = eqn.params["branches"]
        idx, ops = ins[0], ins[1:]
        if not is_sym(idx):
            k = int(np.clip(int(np.asarray(idx)), 0, len(br) - 1))
            return self.eval(br[k].jaxpr, br[k].consts, list(ops))
        outs = [self.eval(b.jaxpr, b.consts, list(ops)) for b in br]
        if len(br) != 2:
            raise Unsupported("switch with symbolic index")
        # idx is an SA holding ite(b,1,0)
        ctx = idx.ctx
        b = compare(ctx, "ge", idx.polys()[0], {(): 0.5})
        res = []
        for f, t in zip(*outs):
            arr = np.empty((), object)
            arr[()] = b
            pred = SB(ctx, np.broadcast_to(arr, shape_of(f)))
            if isinstance(f, SB) or isinstance(t, SB) or (not is_sym(f) and np.asarray(f).dtype == bool):
                res += self.p_select_n(None, [pred, f, t])
            else:
                res += self.p_select_n(None, [pred, f, t])
        return res

    # -- linear solves: contract stubs ---------------------------------------------------
    def linear_solve(self, eqn, ins):
        """custom_linear_solve: x with matvec(x) = b (contract of cg/bicgstab/gmres and lax.linalg solves)."""
        p = eqn.params
        cl, js = p["const_lengths"], p["jaxprs"]
        n_mv = cl.matvec
        consts = ins[:n_mv]
        total = cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve
        bs = ins[total:]
        mv = js.matvec
        shapes = [tuple(v.aval.shape) for v in mv.jaxpr.outvars]
        sizes = [int(np.prod(s)) if s else 1 for s in shapes]
        n = sum(sizes)
        if not any(is_sym(c) for c in consts):
            def f(flat):
                parts, o = [], 0
                for s, z in zip(shapes, sizes):
                    parts.append(flat[o:o + z].reshape(s))
                    o += z
                outs = jax.core.eval_jaxpr(mv.jaxpr, mv.consts, *[jnp.asarray(c) for c in consts], *parts)
                return jnp.concatenate([x.reshape(-1) for x in outs])
            A = np.asarray(jax.vmap(f, out_axes=1)(jnp.eye(n)))
            return self._solve_const(A, bs, shapes, sizes, "custom_linear_solve")
        # symbolic operator: fresh unknown with defining equations
        x = self.fresh_solution(n, lambda xs: self._mv(mv, consts, xs, shapes, sizes), self._flat(bs, sizes))
        self.stubs.append(f"custom_linear_solve n={n} symbolic operator")
        out, o = [], 0
        for s, z in zip(shapes, sizes):
            out.append(x[o:o + z].reshape(s))
            o += z
        return out

    def _mv(self, mv, consts, x, shapes, sizes):
        parts, o = [], 0
        for s, z in zip(shapes, sizes):
            parts.append(x[o:o + z].reshape(s))
            o += z
        outs = self.eval(mv.jaxpr, mv.consts, list(consts) + parts)
        return self._flat(outs, sizes)

    def _flat(self, bs, sizes):
        parts = []
        for b, z in zip(bs, sizes):
            parts.append(lift(self.ctx, b).reshape((z,)) if is_sym(b) else lift(self.ctx, np.asarray(b).reshape(z)))
        _, monos, cs = align(*parts)
        return SA(self.ctx, monos, np.concatenate(cs, axis=1))

    def _solve_const(self, A, bs, shapes, sizes, what):
        b = self._flat(bs, sizes)
        if np.linalg.cond(A) > 1e14:
            raise Unsupported(f"{what}: singular operator")
        self.nsolve += 1
        self.stubs.append(f"{what} n={A.shape[0]} constant operator")
        X = np.linalg.solve(A, b.coef.T).T if b.monos else np.zeros((0, A.shape[0]))
        x = SA(self.ctx, b.monos, X)
        out, o = [], 0
        for s, z in zip(shapes, sizes):
            out.append(x[o:o + z].reshape(s))
            o += z
        return out

    def fresh_solution(self, n, apply, b, name="x"):
        """Fresh vector x (n,) constrained by apply(x) == b (component equations)."""
        ctx = self.ctx
        k = len(ctx.names)
        x = ctx.array(f"sol{k}", (n,), -SOLBOX, SOLBOX)
        ids = [m[0] for m in x.monos]
        idset = set(ids)
        polys = add(apply(x), neg(b)).polys()
        solved = {}
        rws = list(range(n))
        for p in polys:      # rows that read c * x_j = known: no unknown needed
            mine = [m for m, c in p.items() if c != 0.0 and idset.intersection(m)]
            if len(mine) == 1 and len(mine[0]) == 1 and mine[0][0] not in solved:
                c = p[mine[0]]
                solved[mine[0][0]] = {m: -v / c for m, v in p.items() if m != mine[0]}
        if solved:
            full = from_polys(ctx, [solved.get(v, {(v,): 1.0}) for v in ids], (n,))
            polys = add(apply(full), neg(b)).polys()
            rws = [r for r, p in enumerate(polys) if any(idset.intersection(m) for m in p)]
            polys = [polys[r] for r in rws]
            x = full
            ids = [v for v in ids if v not in solved]
            idset = set(ids)
            if len(polys) != len(ids):
                raise Unsupported("singular linear system in a solve")
        self.nsolve += 1
        if not ids:
            return x
        col = {v: t for t, v in enumerate(ids)}
        n = len(ids)
        deps = set()
        for p in polys:
            deps |= ctx.polyvars(p)
        deps -= idset
        if not hasattr(ctx, "eqs"):
            ctx.eqs = []
            ctx.eqforms = []
        form = [{tuple(sorted(-1 - col[v] if v in idset else v for v in m)): c for m, c in p.items() if c != 0.0} for p in polys]
        for f2, x2 in ctx.eqforms:       # the same system solved again has the same solution
            if len(f2) == len(form) and all(set(a) == set(b) and pclose(a, b, 1e-9) for a, b in zip(form, f2)):
                return from_polys(ctx, x2, x.shape)
        ctx.eqforms.append((form, x.polys()))
        ctx.eqs.append((ids, polys, x.polys(), rws))

        def solve(env):
            key = ("sol", ids[0])
            if key not in env:
                A = np.zeros((n, n))
                r = np.zeros(n)
                for i, p in enumerate(polys):
                    for m, c in p.items():
                        xs = [v for v in m if v in idset]
                        w = c
                        for v in m:
                            if v not in idset:
                                w *= ctx.value(v, env)
                        if len(xs) == 0:
                            r[i] -= w
                        elif len(xs) == 1:
                            A[i, col[xs[0]]] += w
                        else:
                            raise Unsupported("non-linear solve stub")
                env[key] = lsq(A, r)
            return env[key]
        for t, v in enumerate(ids):
            ctx.deps[v] = set(deps) | (idset - {v})
            ctx.defs[v] = (lambda zp, z: [zp(p) == 0 for p in polys]) if t == 0 else None
            ctx.evalf[v] = lambda env, t=t: float(solve(env)[t])
        return x

    def callback(self, eqn, ins):
        """pure_callback: concrete -> run the real callback; a CSR direct solve with symbolic right-hand
        side -> the real callback on every coefficient vector (it is linear in b); symbolic matrix -> contract."""
        cb = eqn.params["callback"]
        real = lambda *a: cb(*[jnp.asarray(x) for x in a])
        outs_aval = [v.aval for v in eqn.outvars]

        def call(args):
            r = real(*args)
            return [np.asarray(x) for x in jax.tree_util.tree_leaves(r)]
        if not any(is_sym(x) for x in ins):
            return call(ins)
        ints = [k for k, x in enumerate(ins) if not is_sym(x) and np.asarray(x).dtype.kind in "iu"]
        flts = [k for k, x in enumerate(ins) if k not in ints]
        if len(ints) != 2 or len(flts) != 2 or len(outs_aval) != 1:
            raise Unsupported("pure_callback of unknown form")
        oshape = tuple(outs_aval[0].shape)
        struct = {}
        for k in ints:       # batched callbacks may broadcast the (identical) sparsity structure
            z = np.asarray(ins[k])
            if z.ndim == 2:
                if not (z == z[:1]).all():
                    raise Unsupported("pure_callback with differing structures")
                z = z[0]
            struct[k] = z
        off = [k for k in ints for c in ints if c != k and struct[k].size and struct[k][0] == 0 and struct[k][-1] == len(struct[c])
               and (np.diff(struct[k]) >= 0).all() and len(struct[k]) - 1 in oshape]
        if not off:
            raise Unsupported("pure_callback of unknown form")
        off = off[0]
        col = [k for k in ints if k != off][0]
        indptr, cols = struct[off], struct[col]
        n, nnz = len(indptr) - 1, len(cols)
        bpos = [k for k in flts if shape_of(ins[k]) == oshape]
        if len(bpos) == 2:
            bpos = [k for k in bpos if shape_of(ins[[q for q in flts if q != k][0]])[-1:] == (nnz,)][-1:]
        if not bpos:
            raise Unsupported("pure_callback of unknown form")
        bpos = bpos[0]
        vpos = [k for k in flts if k != bpos][0]
        if shape_of(ins[vpos])[-1] != nnz:
            raise Unsupported("pure_callback of unknown form")
        if not is_sym(ins[vpos]):
            b = ins[bpos]
            outs = []
            for m, c in zip(b.monos, b.coef):
                a = list(ins)
                a[bpos] = c
                outs.append(call(a)[0])
            self.nsolve += 1
            self.stubs.append(f"direct solve n={n} real backend per coefficient (linear in rhs)")
            x = SA(self.ctx, b.monos, np.stack(outs)) if outs else np.zeros(oshape)
            return [x]
        if len(oshape) != 1:
            return [self._callback_batched(ins, vpos, bpos, indptr, cols, call, oshape)]
        kind = self.csr_kind(ins, vpos, bpos, indptr, cols, n, call)
        rows = np.repeat(np.arange(n), np.diff(indptr))
        self.stubs.append(f"direct solve n={n} symbolic matrix, contract A x = b ({kind})")
        data = ins[vpos]
        x = self.fresh_solution(n, lambda xs: csr_apply(kind, data, rows, cols, xs, n), lift(self.ctx, ins[bpos]))
        return [x]

    def _callback_batched(self, ins, vpos, bpos, indptr, cols, call, oshape):
        """several right-hand sides and/or several matrices on one structure; batch axis first or last"""
        n = len(indptr) - 1
        rows = np.repeat(np.arange(n), np.diff(indptr))
        vals, b = lift(self.ctx, ins[vpos]), lift(self.ctx, ins[bpos])
        # find the layout and orientation that the real callback solves, on a concrete sample
        rng = np.random.RandomState(0)
        env = {}
        for v in range(len(self.ctx.names)):
            if v not in self.ctx.evalf:
                env[v] = self._mid(v, rng)
        sv, sb = vals.evaluate(env), rng.rand(*oshape)
        a = list(ins)
        a[vpos], a[bpos] = sv, sb
        xs = call(a)[0]
        good = []
        for axis in (0, 1):
            if oshape[1 - axis] != n or vals.ndim == 2 and vals.shape[0] != oshape[axis]:
                continue
            for k in ("full", "upper", "lower", "T"):
                if all(np.allclose(csr_dense(k, sv[t] if sv.ndim == 2 else sv, rows, cols, n) @ np.take(xs, t, axis), np.take(sb, t, axis), atol=1e-6)
                       for t in range(oshape[axis])):
                    good.append((axis, k))
        if not good:
            raise SolveContractBroken("batched direct solve does not solve its blocks")
        axis, kind = good[0]
        self.stubs.append(f"batched direct solve n={n} x{oshape[axis]}, symbolic matrices, contract A x = b ({kind})")
        out = []
        for t in range(oshape[axis]):
            bt = b[t] if axis == 0 else b[:, t]
            vt = vals[t] if vals.ndim == 2 else vals
            out.append(self.fresh_solution(n, lambda x, vt=vt: csr_apply(kind, vt, rows, cols, x, n), bt))
        x = stack0(out)
        if axis == 1 and is_sym(x):
            x = SA(self.ctx, x.monos, np.swapaxes(x.coef, 1, 2), prune=False)
        elif axis == 1:
            x = np.swapaxes(x, 0, 1)
        return x

    def _mid(self, v, rng):
        lo, hi = self.ctx.bounds[v]
        if lo is None or hi is None:
            return rng.rand()
        return lo + (hi - lo) * (0.3 + 0.4 * rng.rand())

    def csr_kind(self, ins, vpos, bpos, indptr, cols, n, call):
        rng = np.random.RandomState(0)
        rows = np.repeat(np.arange(n), np.diff(indptr))
        env = {}
        for v in range(len(self.ctx.names)):
            if v not in self.ctx.evalf:
                env[v] = self._mid(v, rng)
        sv = ins[vpos].evaluate(env)
        sb = rng.rand(n)
        a = list(ins)
        a[vpos], a[bpos] = sv, sb
        x = call(a)[0]
        for k in ("full", "upper", "lower", "T"):
            if np.allclose(csr_dense(k, sv, rows, cols, n) @ x, sb, atol=1e-6):
                return k
        raise SolveContractBroken("direct solve does not satisfy A x = b on a concrete system")


class SolveContractBroken(Unsupported):
    pass


def csr_dense(kind, data, rows, cols, n):
    A = np.zeros((n, n))
    np.add.at(A, (rows, cols), data)
    if kind == "T":
        return A.T
    if kind == "upper":
        return np.triu(A) + np.triu(A, 1).T
    if kind == "lower":
        return np.tril(A) + np.tril(A, -1).T
    return A


def csr_apply(kind, data, rows, cols, x, n):
    ctx = x.ctx
    r, c, d = rows, cols, data
    if kind == "T":
        r, c = c, r
    elif kind in ("upper", "lower"):
        keep = np.nonzero(c >= r if kind == "upper" else c <= r)[0]
        offd = keep[r[keep] != c[keep]]
        sel = np.concatenate([keep, offd])
        r, c = np.concatenate([r[keep], c[offd]]), np.concatenate([c[keep], r[offd]])
        d = data[sel]
    prod = mul(lift(ctx, d), x[c])
    out = np.zeros((len(prod.monos), n))
    np.add.at(out, (slice(None), r), prod.coef)
    return SA(ctx, prod.monos, out)


# -- helpers -----------------------------------------------------------------------------
def num(x):
    if isinstance(x, SB):
        ps = [ite(x.ctx, b, {(): 1.0}, {}) for b in x.arr.ravel()]
        return from_polys(x.ctx, ps, x.shape)
    return x


def as_b(x):
    return bool(x) if not isinstance(x, BoolAtom) else x


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0.0) + c1 * c2
    return r


def mod_eqs(a):
    """Subtract multiples of the defining equations of stubbed solves (0 by definition) that remove all their unknowns
    from an entry: r + c K x  ->  r - c r  where K x = -r."""
    eqs = getattr(a.ctx, "eqs", None) if isinstance(a, SA) else None
    if not eqs or not a.monos:
        return a
    vs = set()
    for m in a.monos:
        vs.update(m)
    sys_ = [(set(e[0]), e[1]) for e in eqs if vs.intersection(e[0])]
    if not sys_ or a.size > 64:
        return a
    out, hit = [], False
    for p in a.polys():
        for ids, ps in reversed(sys_):
            xp = {m: c for m, c in p.items() if ids.intersection(m)}
            if not xp:
                continue
            big = max(abs(c) for c in xp.values())
            for e in ps:
                xe = {m: c for m, c in e.items() if ids.intersection(m)}
                if len(xe) == 0:
                    continue
                k = max(xe, key=lambda m: abs(xe[m]))
                if k not in xp:
                    continue
                c = xp[k] / xe[k]
                if all(abs(xp.get(m, 0.0) - c * xe.get(m, 0.0)) < 1e-11 * big for m in set(xp) | set(xe)):
                    scale = max([abs(v) for v in p.values()] + [abs(c * v) for v in e.values()])
                    q = {}
                    for m in set(p) | set(e):
                        if ids.intersection(m):
                            continue
                        v = p.get(m, 0.0) - c * e.get(m, 0.0)
                        if abs(v) > 1e-12 * scale:
                            q[m] = v
                    p, hit = q, True
                    break
        out.append(p)
    return from_polys(a.ctx, out, a.shape) if hit else a


def simplify(o):
    if isinstance(o, SA) and o.is_const():
        return o.const()
    if isinstance(o, SB) and o.is_const():
        return o.const()
    return o


def lift_nan(ctx, x, preds, when_false):
    """Concrete operand of a symbolic select: a nan/inf in it is kept as an opaque atom."""
    if isinstance(x, SA):
        return x
    x = np.asarray(x, float)
    if np.isfinite(x).all():
        return lift(ctx, x)
    ps = []
    for v in x.ravel():
        if np.isfinite(v):
            ps.append({(): float(v)} if v else {})
        else:
            key = "NAN" if np.isnan(v) else ("INF" if v > 0 else "NINF")
            if not hasattr(ctx, "_special"):
                ctx._special = {}
            if key not in ctx._special:
                ctx._special[key] = ctx.var(key)
                vid = ctx._special[key]
                ctx.evalf[vid] = lambda env, v=v: float(v)
                ctx.deps[vid] = set()
                ctx.defs[vid] = None
            ps.append({(ctx._special[key],): 1.0})
    return from_polys(ctx, ps, x.shape)


def index0(x, t):
    if isinstance(x, SA):
        return x[t]
    if isinstance(x, SB):
        a = x.arr[t]
        if not isinstance(a, np.ndarray):
            z = np.empty((), object)
            z[()] = a
            a = z
        return SB(x.ctx, a)
    return np.asarray(x)[t]


def stack0(xs):
    if any(isinstance(x, SB) for x in xs):
        ctx = next(x.ctx for x in xs if isinstance(x, SB))
        return SB(ctx, np.stack([x.arr if isinstance(x, SB) else np.asarray(x).astype(object) for x in xs]))
    if any(isinstance(x, SA) for x in xs):
        ctx, monos, cs = align(*xs)
        return SA(ctx, monos, np.stack(cs, axis=1))
    return np.stack([np.asarray(x) for x in xs])
