"""P17: the mechanics building blocks implement the laws they document."""
import itertools
import numpy as onp
import jax
import jax.numpy as jnp
import feax as fe
from feax import mechanics as me
from feax.mechanics import orientation
from symx.poly import SA
from .fem import *
from .p05 import quiet
from .p15 import same

R0 = onp.random.RandomState


def aniso(dim, seed, n=None):
    """random stiffness with minor and major symmetries"""
    r = R0(seed)

    def one():
        C = r.uniform(-1, 1, (dim,) * 4)
        C = C + C.transpose(1, 0, 2, 3)
        C = C + C.transpose(0, 1, 3, 2)
        return C + C.transpose(2, 3, 0, 1)
    return jnp.asarray(one() if n is None else onp.stack([one() for _ in range(n)]))


def sym(dim, seed, n=None):
    r = R0(seed)
    A = r.uniform(-1, 1, ((dim, dim) if n is None else (n, dim, dim)))
    return jnp.asarray(A + onp.swapaxes(A, -1, -2))


def rot2(th):
    c, s = jnp.cos(th), jnp.sin(th)
    return [[c, -s], [s, c]]


def rotate(C, R):
    """C'_{ij..} = R_ip R_jq .. C_pq.., index by index"""
    d = len(R)
    out = C
    for ax in range(onp.ndim(C)):
        M = jnp.moveaxis(out, ax, 0)
        rows = [sum(R[i][p] * M[p] for p in range(d)) for i in range(d)]
        out = jnp.moveaxis(jnp.stack(rows), 0, ax)
    return out


# ------------------------------------------------------------------ cohesive interfaces
def cohesive_geometry(ck, vec, beta, axis):
    r = R0(vec)
    n, npts = 3, 8
    top, bot = onp.array([5, 2, 7]), onp.array([0, 4, 3])
    w = r.uniform(0.5, 2, n)
    if axis is None:
        nr = r.normal(size=(n, vec))
        nr /= onp.linalg.norm(nr, axis=1)[:, None]
        itf = me.CohesiveInterface(top, bot, w, nr, vec, beta)
    else:
        nr = onp.zeros((n, vec))
        nr[:, axis] = 1
        itf = me.CohesiveInterface.from_axis(top, bot, w, axis, vec, beta)
    ctx, _ = new()
    u = ctx.array("u", (npts * vec,))
    dm = ctx.array("dmax", (n,), 0.0, 2.0)
    a = ctx.array("a", (2,))
    tag = f"interface in {vec}D, {'general normals' if axis is None else f'axis {axis}'}, beta={beta}"

    def parts(u):
        U = u.reshape(npts, vec)
        j = U[top] - U[bot]
        dn = jnp.array([sum(j[i, k] * nr[i, k] for k in range(vec)) for i in range(n)])
        t = j - dn[:, None] * nr
        return j, dn, jnp.sum(t * t, 1)

    def opening(u):
        _, dn, t2 = parts(u)
        return jnp.sqrt(jnp.where(dn > 0, dn, 0.0) ** 2 + beta ** 2 * t2 + 1e-30)
    same(ck, tag + ": jump", itf.get_jump, lambda u: parts(u)[0], (u,), ctx)
    same(ck, tag + ": normal opening", lambda u: itf.get_opening_components(u)[0], lambda u: parts(u)[1], (u,), ctx)
    same(ck, tag + ": sliding", lambda u: itf.get_opening_components(u)[1] ** 2, lambda u: parts(u)[2], (u,), ctx)
    same(ck, tag + ": effective opening", lambda u: itf.get_opening(u) ** 2, lambda u: opening(u) ** 2, (u,), ctx)
    pot = lambda d, dmx, *, a: a[0] * d ** 2 + a[1] * dmx ** 2 * d ** 2
    same(ck, tag + ": energy", lambda u, dm, a: itf.create_energy_fn(pot, a=a)(u, dm),
         lambda u, dm, a: jnp.sum(w * pot(opening(u), dm, a=a)), (u, dm, a), ctx)
    pot1 = lambda d, dmx, *, g: g * d
    same(ck, tag + ": energy is a function of the opening", lambda u: itf.create_energy_fn(pot1, g=2.0)(u, jnp.zeros(n)),
         lambda u: 2.0 * jnp.sum(jnp.asarray(w) * itf.get_opening(u)), (u,), ctx)


def exponential(ck, Ga, sc, case):
    dc = Ga / (onp.e * sc)
    ctx, _ = new()
    d = ctx.array("d", (1,), 0.0, 4 * dc)
    if case == "virgin":
        args, asm = (d,), ()
        impl = lambda d: me.exponential_potential(d, jnp.zeros(1), Gamma=Ga, sigma_c=sc)
        spec = lambda d: Ga * (1 - (1 + d / dc) * jnp.exp(-d / dc))
        return same(ck, f"exponential law, first loading (Gamma={Ga}, sigma_c={sc})", impl, spec, args, ctx)
    m = ctx.array("m", (1,), 0.01 * dc, 4 * dc)
    g = ctx.array("g", (1,), 1e-6 * dc, 4 * dc)
    phi = lambda d: Ga * (1 - (1 + d / dc) * jnp.exp(-d / dc))
    if case == "reloading":
        same(ck, f"exponential law, opening beyond the largest so far (Gamma={Ga}, sigma_c={sc})",
             lambda m, g: me.exponential_potential(m + g, m, Gamma=Ga, sigma_c=sc), lambda m, g: phi(m + g), (m, g), ctx)
    else:    # d = s * m with s < 1: secant energy s^2 phi(m)
        s = ctx.array("s", (1,), 0.0, 0.999)
        same(ck, f"exponential law, unloading (Gamma={Ga}, sigma_c={sc})",
             lambda m, s: me.exponential_potential(s * m, m, Gamma=Ga, sigma_c=sc) * m ** 2, lambda m, s: s ** 2 * m ** 2 * phi(m), (m, s), ctx, tol=1e-8 * max(1, Ga * dc * dc))


def bilinear(ck, Ga, sc, case):
    df = 2 * Ga / sc
    k0 = sc ** 2 / (2 * Ga)
    ctx, _ = new()
    law = lambda d: jnp.where(d < df, 0.5 * k0 * d ** 2, Ga)
    tol = 1e-7 * Ga
    if case == "virgin":
        for lo, hi in ((0.0, df * 0.9999), (df * 1.0001, 3 * df)):
            d = ctx.array(f"d{lo}", (1,), lo, hi)
            same(ck, f"bilinear law, first loading from {lo:.3g} (Gamma={Ga}, sigma_c={sc})", lambda d: me.bilinear_potential(d, jnp.zeros(1), Gamma=Ga, sigma_c=sc), law, (d,), ctx, tol=tol)
        return
    for lo, hi in ((0.01 * df, df * 0.9999), (df * 1.0001, 3 * df)):
        m = ctx.array(f"m{lo}", (1,), lo, hi)
        s = ctx.array(f"s{lo}", (1,), 0.0, 0.999)
        same(ck, f"bilinear law, unloading from {lo:.3g} (Gamma={Ga}, sigma_c={sc})", lambda m, s: me.bilinear_potential(s * m, m, Gamma=Ga, sigma_c=sc) * m ** 2,
             lambda m, s: law(m) * s ** 2 * m ** 2, (m, s), ctx, tol=tol * df * df)
        g = ctx.array(f"g{lo}", (1,), 1e-4 * df, 0.5 * df)
        same(ck, f"bilinear law, opening beyond the largest so far from {lo:.3g} (Gamma={Ga}, sigma_c={sc})",
             lambda m, g: jnp.where(jnp.abs(m + g - df) < 1e-4 * df, 0.0, me.bilinear_potential(m + g, m, Gamma=Ga, sigma_c=sc)),
             lambda m, g: jnp.where(jnp.abs(m + g - df) < 1e-4 * df, 0.0, law(m + g)), (m, g), ctx, tol=tol)


def cohesive_weights(ck):
    """trapezoidal / lumped weights integrate every piecewise (bi)linear function exactly"""
    ctx, _ = new()
    for n in (2, 3, 5):
        x = onp.sort(R0(n).uniform(0, 3, n))
        f = ctx.array(f"f{n}", (n,))
        w = onp.asarray(me.compute_trapezoidal_weights(x))
        same(ck, f"trapezoidal weights, {n} nodes", lambda f: jnp.sum(w * f), lambda f: sum(0.5 * (f[i] + f[i + 1]) * (x[i + 1] - x[i]) for i in range(n - 1)), (f,), ctx)
    # planar parallelogram grid in 3-D, a subset of the nodes
    G = onp.array([[1.0, 0.2, 0.1], [-0.3, 0.9, 0.4]])
    pts = onp.array([[i, j] for j in range(3) for i in range(4)], float) @ G + [3, 1, 2]
    quads = onp.array([[j * 4 + i, j * 4 + i + 1, (j + 1) * 4 + i + 1, (j + 1) * 4 + i] for j in range(2) for i in range(3)])
    perm = R0(1).permutation(12)
    pts2 = onp.zeros((15, 3))
    pts2[perm + 3] = pts
    q2 = perm[quads] + 3
    ids = (perm + 3)[[0, 1, 2, 4, 5, 6, 7, 9, 11]]
    W = onp.asarray(me.compute_lumped_area_weights(ids, pts2, q2))
    area = onp.linalg.norm(onp.cross(G[0], G[1]))
    f = ctx.array("fq", (len(ids),))
    same(ck, "lumped area weights", lambda f: jnp.sum(W * f), lambda f: sum(f[i] * area / 4 * float((q2 == ids[i]).sum()) for i in range(len(ids))), (f,), ctx)
    # a general planar quad: area by the shoelace formula
    q = onp.array([[0, 0, 1.0], [2, 0.3, 1.0], [1.7, 1.9, 1.0], [-0.2, 1.1, 1.0]])
    A = 0.5 * abs(sum(q[i, 0] * q[(i + 1) % 4, 1] - q[(i + 1) % 4, 0] * q[i, 1] for i in range(4)))
    g = ctx.array("gq", (4,))
    W1 = onp.asarray(me.compute_lumped_area_weights(onp.arange(4), q, onp.arange(4)[None]))
    same(ck, "lumped area weights, general quad", lambda g: jnp.sum(W1 * g), lambda g: A / 4 * (g[0] + g[1] + g[2] + g[3]), (g,), ctx)


# ------------------------------------------------------------------ plates and laminates
def in_plane(ck):
    ctx, _ = new()
    E, nu = ctx.array("E", (), 0.5, 3.0), ctx.array("nu", (), -0.4, 0.45)
    e = ctx.array("e", (2, 2))

    def iso(E, nu, e):
        lam, mu = E * nu / (1 - nu * nu), E / (2 * (1 + nu))
        return jnp.array([[lam * (e[0, 0] + e[1, 1]) + 2 * mu * e[0, 0], mu * (e[0, 1] + e[1, 0])], [mu * (e[0, 1] + e[1, 0]), lam * (e[0, 0] + e[1, 1]) + 2 * mu * e[1, 1]]])
    dd = lambda C, e: jnp.sum(C * e[None, None], (2, 3))
    same(ck, "isotropic plane-stress stiffness", lambda E, nu, e: dd(me.isotropic_in_plane_stiffness(E, nu), e), iso, (E, nu, e), ctx)
    E2, G = ctx.array("E2", (), 0.5, 3.0), ctx.array("G", (), 0.2, 1.0)

    def orth(E, E2, G, nu, e):
        nu21 = nu * E2 / E
        m = 1 / (1 - nu * nu21)
        s12 = G * (e[0, 1] + e[1, 0])
        return jnp.array([[m * (E * e[0, 0] + nu21 * E * e[1, 1]), s12], [s12, m * (nu21 * E * e[0, 0] + E2 * e[1, 1])]])
    same(ck, "orthotropic plane-stress stiffness", lambda E, E2, G, nu, e: dd(me.orthotropic_in_plane_stiffness(E, E2, G, nu), e), orth, (E, E2, G, nu, e), ctx)
    h, ks = ctx.array("h", (), 0.1, 2.0), ctx.array("ks", (), 0.5, 1.0)
    C, Gt = ctx.array("C", (2, 2, 2, 2)), ctx.array("Gt", (2, 2))
    same(ck, "plate stiffness", lambda C, h, Gt, ks: me.plate_stiffness(C, h, Gt, ks), lambda C, h, Gt, ks: (h * C, h * h * h * C / 12, ks * h * Gt), (C, h, Gt, ks), ctx)
    same(ck, "plate stiffness, scalar shear modulus", lambda C, h, G: me.plate_stiffness(C, h, G), lambda C, h, G: (h * C, h * h * h * C / 12, 5.0 / 6.0 * h * G * jnp.eye(2)), (C, h, G), ctx)


def laminate(ck, n, per_layer, sym_angles):
    ctx, _ = new()
    t = ctx.array("t", (n,), 0.1, 1.0)
    if sym_angles:
        th = ctx.array("th", (n,), -1.5, 1.5)
        C = aniso(2, 1, n if per_layer else None)
        G = sym(2, 2, n if per_layer else None)
        al = sym(2, 3, n if per_layer else None)
        args = (th, t)
        get = lambda th, t: (th, t, C, G, al)
    else:
        thc = jnp.asarray(R0(n).uniform(-1.5, 1.5, n))
        s = (n,) if per_layer else ()
        C, G, al = ctx.array("C", s + (2,) * 4), ctx.array("G", s + (2, 2)), ctx.array("al", s + (2, 2))
        args = (t, C, G, al)
        get = lambda t, C, G, al: (thc, t, C, G, al)
    dT, dg = ctx.array("dT", ()), ctx.array("dg", ())

    def z(t):
        H = sum(t[k] for k in range(n))
        zz = [-0.5 * H]
        for k in range(n):
            zz.append(zz[-1] + t[k])
        return zz
    lay = (lambda X, k: X[k]) if per_layer else (lambda X, k: X)

    def stiff(*a):
        th, t, C, G, _ = get(*a)
        zz = z(t)
        A = B = D = S = 0
        for k in range(n):
            R = rot2(th[k])
            Q, g = rotate(lay(C, k), R), rotate(lay(G, k), R)
            m = 0.5 * (zz[k] + zz[k + 1])      # midpoint form of the thickness moments
            A, B, D, S = A + t[k] * Q, B + t[k] * m * Q, D + (t[k] * m * m + t[k] * t[k] * t[k] / 12) * Q, S + t[k] * g
        return A, B, D, 0.8 * S

    def thermal(*a):
        *a, dT, dg = a
        th, t, C, _, al = get(*a)
        zz = z(t)
        N = M = 0
        for k in range(n):
            R = rot2(th[k])
            sg = jnp.sum(rotate(lay(C, k), R) * rotate(lay(al, k), R)[None, None], (2, 3))
            m = 0.5 * (zz[k] + zz[k + 1])
            N = N + sg * t[k] * (dT + dg * m)
            M = M + sg * (t[k] * m * dT + dg * (t[k] * m * m + t[k] * t[k] * t[k] / 12))
        return N, M
    tag = f"laminate of {n} layers, {'own material each' if per_layer else 'one material'}, {'all angles' if sym_angles else 'all moduli'}"

    def istiff(*a):
        th, t, C, G, _ = get(*a)
        return me.laminate_stiffness(C, G, th, t, kappa_s=0.8)

    def ith(*a):
        *a, dT, dg = a
        th, t, C, _, al = get(*a)
        return me.laminate_thermal_loads(C, al, th, t, dT_avg=dT, dT_grad=dg)
    same(ck, tag + ": stiffness", istiff, stiff, args, ctx, tol=1e-7)
    same(ck, tag + ": interface coordinates", lambda t: me.z_layer_coordinates(t), lambda t: jnp.stack(z(t)), (t,), ctx)
    if sym_angles:
        same(ck, tag + ": thermal resultants", ith, thermal, args + (dT, dg), ctx, tol=1e-7)
    elif n == 2:
        # bilinear in (C, alpha): alpha symbolic, C concrete
        Cc = aniso(2, 5, n if per_layer else None)
        get0 = get
        same(ck, tag + ": thermal resultants", lambda t, al, dT, dg: me.laminate_thermal_loads(Cc, al, thc, t, dT_avg=dT, dT_grad=dg),
             lambda t, al, dT, dg: thermal(t, Cc, None, al, dT, dg), (t, al, dT, dg), ctx, tol=1e-7)


def rotations2(ck):
    ctx, _ = new()
    th = ctx.array("th", (), -3.0, 3.0)
    C, G = ctx.array("C", (2,) * 4), ctx.array("G", (2, 2))
    same(ck, "rotated in-plane stiffness", lambda C, th: me.rotate_in_plane_stiffness(C, th), lambda C, th: rotate(C, rot2(th)), (C, th), ctx)
    same(ck, "rotated shear stiffness", lambda G, th: me.rotate_shear_stiffness(G, th), lambda G, th: rotate(G, rot2(th)), (G, th), ctx)
    same(ck, "rotated thermal expansion", lambda G, th: me.rotate_thermal_expansion(G, th), lambda G, th: rotate(G, rot2(th)), (G, th), ctx)
    a, b = ctx.array("a", ()), ctx.array("b", ())
    same(ck, "thermal expansion of an orientation state", lambda G, a, b: me.thermal_expansion_from_orientation(G, a, b), lambda G, a, b: b * jnp.eye(2) + (a - b) * G, (G, a, b), ctx)


def mindlin_point(ck, nl):
    ctx, _ = new()
    g, gt, th = ctx.array("g", (3, 2)), ctx.array("gt", (2, 2)), ctx.array("th", (2,))

    def strains(g, gt, th):
        e = [[0.5 * (g[i, j] + g[j, i]) + (0.5 * g[2, i] * g[2, j] if nl == "von_karman" else 0.0) for j in range(2)] for i in range(2)]
        k = [[0.5 * (gt[i, j] + gt[j, i]) for j in range(2)] for i in range(2)]
        return jnp.array(e), jnp.array(k), jnp.array([g[2, 0] + th[0], g[2, 1] + th[1]])
    same(ck, f"plate strains ({nl})", lambda g, gt, th: me.mindlin_strains(g, gt, th, nonlinear=nl), strains, (g, gt, th), ctx)
    e, k, ga = ctx.array("e", (2, 2)), ctx.array("k", (2, 2)), ctx.array("ga", (2,))
    A, B, D, G = (ctx.array(x, (2,) * 4) for x in "ABDG")
    G = ctx.array("Gs", (2, 2))
    NT, MT = ctx.array("NT", (2, 2)), ctx.array("MT", (2, 2))
    dd = lambda C, e: jnp.sum(C * e[None, None], (2, 3))
    Q = lambda G, ga: jnp.array([G[0, 0] * ga[0] + G[0, 1] * ga[1], G[1, 0] * ga[0] + G[1, 1] * ga[1]])
    if nl == "linear":
        same(ck, "plate resultants", lambda e, k, ga, A, D, G: me.mindlin_resultants(e, k, ga, A, D, G), lambda e, k, ga, A, D, G: (dd(A, e), dd(D, k), Q(G, ga)), (e, k, ga, A, D, G), ctx)
        same(ck, "plate resultants with coupling and thermal loads", lambda e, k, ga, A, D, G, B, NT, MT: me.mindlin_resultants(e, k, ga, A, D, G, B=B, N_T=NT, M_T=MT),
             lambda e, k, ga, A, D, G, B, NT, MT: (dd(A, e) + dd(B, k) - NT, dd(B, e) + dd(D, k) - MT, Q(G, ga)), (e, k, ga, A, D, G, B, NT, MT), ctx)
        same(ck, "plate resultants with a thermal moment only", lambda e, k, ga, A, D, G, MT: me.mindlin_resultants(e, k, ga, A, D, G, M_T=MT),
             lambda e, k, ga, A, D, G, MT: (dd(A, e), dd(D, k) - MT, Q(G, ga)), (e, k, ga, A, D, G, MT), ctx)


def mindlin_plate(ck, et, n, nl, coupled, order):
    """the plate's residual is the derivative of its strain energy"""
    pts, cells = build(et, n, seed=4)
    A, D, G = aniso(2, 1), aniso(2, 2), sym(2, 3)
    B, NT, MT = (aniso(2, 4), sym(2, 5), sym(2, 6)) if coupled else (None, None, None)
    p = me.make_mindlin_plate(fe.Mesh(pts, cells, et), A, D, G, ele_type=et, gauss_order=order, nonlinear=nl, B=B, N_T=NT, M_T=MT)
    o = Oracle(pts, cells, et, nq=5)
    N = len(pts)
    ctx, _ = new()
    if nl == "linear":
        U, T = ctx.array("U", (N, 3)), ctx.array("T", (N, 2))
        args, get = (U, T), lambda U, T: (U, T)
    else:      # cubic: all states of a 4-parameter family
        q = ctx.array("q", (4,))
        b1, b2 = (jnp.asarray(R0(k).uniform(-1, 1, (4, N, m))) for k, m in ((1, 3), (2, 2)))
        args, get = (q,), lambda q: (jnp.tensordot(q, b1, 1), jnp.tensordot(q, b2, 1))

    def energy(UT):
        U, T = UT
        g, gt, tv = o.grad(U), o.grad(T), o.val(T)
        e = 0.5 * (g[..., :2, :] + jnp.swapaxes(g[..., :2, :], -1, -2))
        gw = g[..., 2, :]
        if nl != "linear":
            e = e + 0.5 * gw[..., :, None] * gw[..., None, :]
        k = 0.5 * (gt + jnp.swapaxes(gt, -1, -2))
        ga = gw + tv
        W = 0.5 * jnp.einsum('cqij,ijkl,cqkl->cq', e, A, e) + 0.5 * jnp.einsum('cqij,ijkl,cqkl->cq', k, D, k) + 0.5 * jnp.einsum('cqi,ij,cqj->cq', ga, G, ga)
        if coupled:
            W = W + jnp.einsum('cqij,ijkl,cqkl->cq', e, B, k) - jnp.einsum('cqij,ij->cq', e, NT) - jnp.einsum('cqij,ij->cq', k, MT)
        return jnp.sum(W * o.JxW)

    def impl(*a):
        U, T = get(*a)
        return fe.get_res(p, [U, T], TP(()))

    def spec(*a):
        return list(jax.grad(energy)(get(*a)))
    same(ck, f"plate residual {et} {nl}{' with coupling and thermal loads' if coupled else ''}", impl, spec, args, ctx, tol=1e-7)


# ------------------------------------------------------------------ 3-D stiffness and layered solids
V = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (2, 1): 3, (0, 2): 4, (2, 0): 4, (0, 1): 5, (1, 0): 5}


def stiffness3(ck):
    ctx, _ = new()
    C6, e = ctx.array("C6", (6, 6)), ctx.array("e", (3, 3))
    T4 = list(itertools.product(range(3), repeat=4))
    same(ck, "Voigt to tensor", lambda C: me.voigt_to_tensor(C), lambda C: jnp.stack([C[V[i, j], V[k, l]] for i, j, k, l in T4]).reshape(3, 3, 3, 3), (C6,), ctx)
    C = ctx.array("C", (3,) * 4)
    pr = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    same(ck, "tensor to Voigt", lambda C: me.tensor_to_voigt(C), lambda C: jnp.stack([C[a + b] for a in pr for b in pr]).reshape(6, 6), (C,), ctx)
    E, nu = ctx.array("E", (), 0.5, 3.0), ctx.array("nu", (), -0.4, 0.45)
    dd = lambda C, e: jnp.sum(C * e[None, None], (2, 3))

    def iso(E, nu, e):
        lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
        return lam * (e[0, 0] + e[1, 1] + e[2, 2]) * jnp.eye(3) + mu * (e + e.T)
    same(ck, "isotropic stiffness", lambda E, nu, e: dd(me.isotropic_stiffness_3d(E, nu), e), iso, (E, nu, e), ctx)
    # compliance applied to the stress of every strain gives the strain back
    ep = lambda e: 0.5 * (e + e.T)

    def comp(s, E1, E2, E3, G12, G13, G23, n12, n13, n23):
        d = [s[0, 0] / E1 - n12 / E1 * s[1, 1] - n13 / E1 * s[2, 2], -n12 / E1 * s[0, 0] + s[1, 1] / E2 - n23 / E2 * s[2, 2], -n13 / E1 * s[0, 0] - n23 / E2 * s[1, 1] + s[2, 2] / E3]
        g = {(0, 1): G12, (0, 2): G13, (1, 2): G23}
        return jnp.stack([d[i] if i == j else s[i, j] / (2 * g[min(i, j), max(i, j)]) for i in range(3) for j in range(3)]).reshape(3, 3)
    for mp in ((10.0, 2.0, 1.5, 0.7, 0.6, 0.5, 0.3, 0.2, 0.4), (1.0, 3.0, 2.0, 0.9, 0.4, 1.1, 0.1, -0.2, 0.25)):
        Co = jnp.asarray(me.orthotropic_stiffness_3d(*mp))
        same(ck, f"orthotropic stiffness {mp}", lambda e: comp(dd(Co, e), *mp), ep, (e,), ctx)
    E1, E2, G12, n12, n23 = 10.0, 2.0, 0.7, 0.3, 0.4
    Ct = jnp.asarray(me.transverse_isotropic_stiffness_3d(E1, E2, G12, n12, n23))
    same(ck, "transversely isotropic stiffness", lambda e: comp(dd(Ct, e), E1, E2, E2, G12, G12, E2 / (2 * (1 + n23)), n12, n12, n23), ep, (e,), ctx)
    th = ctx.array("th", (), -3.0, 3.0)
    same(ck, "transverse isotropy: stiffness unchanged about the fibre", lambda th: rotate(Ct, [[1.0, 0, 0], [0, jnp.cos(th), -jnp.sin(th)], [0, jnp.sin(th), jnp.cos(th)]]), lambda th: Ct, (th,), ctx, tol=1e-7)
    a, b = ctx.array("a", ()), ctx.array("b", ())
    same(ck, "isotropic expansion", lambda a: me.isotropic_cte_3d(a), lambda a: a * jnp.eye(3), (a,), ctx)
    same(ck, "lamina expansion", lambda a, b: me.transverse_isotropic_cte_3d(a, b), lambda a, b: jnp.array([[a, 0, 0], [0, b, 0], [0, 0, b]]), (a, b), ctx)
    v = ctx.array("v", (3,))
    for ax in ((0.0, 0.0, 1.0), (1.0, -2.0, 0.5)):
        n = onp.array(ax) / onp.linalg.norm(ax)
        same(ck, f"rotation about {ax}", lambda th, v: me.rotation_matrix_axis(th, ax) @ v,
             lambda th, v: jnp.cos(th) * v + jnp.sin(th) * jnp.cross(n, v) + (1 - jnp.cos(th)) * n * jnp.dot(n, v), (th, v), ctx)
    R = onp.linalg.qr(R0(3).normal(size=(3, 3)))[0]
    same(ck, "rotated stiffness", lambda C: me.rotate_stiffness_3d(C, jnp.asarray(R)), lambda C: rotate(C, R), (C,), ctx)
    same(ck, "rotated expansion", lambda e: me.rotate_cte_3d(e, jnp.asarray(R)), lambda e: rotate(e, R), (e,), ctx)


def rodrigues(n, th):
    K = onp.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return onp.eye(3) + onp.sin(th) * K + (1 - onp.cos(th)) * K @ K


def plyrule(thick, ng=3):
    """own rule, ply by ply"""
    x, w = onp.polynomial.legendre.leggauss(ng)
    x, w = (x + 1) / 2, w / 2
    z = onp.concatenate([[0], onp.cumsum(thick) / onp.sum(thick)])
    P, W, K = [], [], []
    for k in range(len(thick)):
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):
                for c, wc in zip(x, w):
                    P.append([a, b, z[k] + (z[k + 1] - z[k]) * c])
                    W.append(wa * wb * wc * (z[k + 1] - z[k]))
                    K.append(k)
    return onp.array(P), onp.array(W), onp.array(K)


def quadrature(ck, thick, n1, n2):
    """the rule integrates, in each ply separately, every polynomial of its degree exactly"""
    P, W, K = me.layered_reference_quadrature(thick, n_inplane=n1, n_thick_per_ply=n2)
    z = onp.concatenate([[0], onp.cumsum(thick) / onp.sum(thick)])
    ctx, _ = new()
    ex = list(itertools.product(range(2 * n1), range(2 * n1), range(2 * n2)))
    c = ctx.array("c", (len(ex),))
    M = onp.array([[p[0] ** e[0] * p[1] ** e[1] * p[2] ** e[2] for e in ex] for p in P])
    ok = len(P) == len(W) == len(K) == len(thick) * n1 * n1 * n2
    if not ok:
        ck.violate(f"layered quadrature {thick} {n1} {n2}: size", {"points": len(P), "weights": len(W), "plies": len(K)})
    for k in range(len(thick)):
        same(ck, f"layered quadrature {len(thick)} plies ({n1},{n2}): ply {k}", lambda c: jnp.sum((M[K == k] @ c) * W[K == k]),
             lambda c: sum(c[i] * (z[k + 1] ** (e[2] + 1) - z[k] ** (e[2] + 1)) / (e[2] + 1) / (e[0] + 1) / (e[1] + 1) for i, e in enumerate(ex)), (c,), ctx)


THICK = (0.5, 1.5, 0.7)


def hexes():
    pts, cells = build("HEX8", (2, 1, 1), seed=2)
    return pts, cells


def ply_oracle(pts, cells, thick):
    P, W, K = plyrule(thick)
    return Oracle(pts, cells, "HEX8", rule=(P, W)), K


def layered(ck, normal, per_ply):
    pts, cells = hexes()
    ang = onp.array([0.3, -1.1, 0.8])
    C = aniso(3, 1, 3 if per_ply else None)
    kw = {} if normal is None else dict(normal=normal)
    p, tp = me.create_layered_solid(fe.Mesh(pts, cells, "HEX8"), C, ang, THICK, **kw)
    n = onp.array((0.0, 0.0, 1.0) if normal is None else normal)
    n = n / onp.linalg.norm(n)
    Cr = onp.stack([onp.asarray(rotate(C[k] if per_ply else C, rodrigues(n, ang[k]))) for k in range(3)])
    o, K = ply_oracle(pts, cells, THICK)
    ctx, _ = new()
    u = ctx.array("u", (len(pts), 3))

    def spec(u):
        g = o.grad(u)
        return [o.int_grad(jnp.einsum('qijkl,cqkl->cqij', Cr[K], g))]
    same(ck, f"layered solid residual, normal {normal}, {'material per ply' if per_ply else 'one material'}", lambda u: fe.get_res(p, [u], tp), spec, (u,), ctx, tol=1e-7)


def oriented(ck, thermal, nin, nth):
    pts, cells = hexes()
    nc, npl = len(cells), len(THICK)
    C = onp.stack([onp.asarray(aniso(3, 10 + c, npl)) for c in range(nc)])
    cte = onp.stack([onp.asarray(sym(3, 20 + c, npl)) for c in range(nc)])
    mesh = fe.Mesh(pts, cells, "HEX8")
    kw = dict(n_inplane=nin, n_thick_per_ply=nth)
    o, K = ply_oracle(pts, cells, THICK)
    ctx, _ = new()
    u = ctx.array("u", (len(pts), 3))
    CK = C[:, K]
    tag = f"oriented layered solid ({nin},{nth})"
    if not thermal:
        p, tp = me.create_oriented_layered_solid(mesh, jnp.asarray(C), THICK, **kw)
        return same(ck, tag + " residual", lambda u: fe.get_res(p, [u], tp), lambda u: [o.int_grad(jnp.einsum('cqijkl,cqkl->cqij', CK, o.grad(u)))], (u,), ctx, tol=1e-7)
    p, tp = me.create_oriented_layered_solid(mesh, jnp.asarray(C), THICK, with_thermal=True, cte_cell_ply=jnp.asarray(cte), **kw)
    same(ck, tag + " residual, unit temperature change", lambda u: fe.get_res(p, [u], tp), lambda u: [o.int_grad(jnp.einsum('cqijkl,cqkl->cqij', CK, o.grad(u) - cte[:, K]))], (u,), ctx, tol=1e-7)
    p0, tp0 = me.create_oriented_layered_solid(mesh, jnp.asarray(C), THICK, with_thermal=True, **kw)
    same(ck, tag + " residual, no expansion given", lambda u: fe.get_res(p0, [u], tp0), lambda u: [o.int_grad(jnp.einsum('cqijkl,cqkl->cqij', CK, o.grad(u)))], (u,), ctx, tol=1e-7)
    # temperature field: nodal, interpolated to the element's points
    T = ctx.array("T", (len(pts),))

    def impl(T):
        q = me.interpolate_nodal_to_layered_quad(T[cells], THICK, **kw)
        cq = me.expand_cte_to_quad(jnp.asarray(cte), THICK, **kw)
        t = fe.TracedParams(volume_vars=(tp.volume_vars[0], tp.volume_vars[1], cq * q[..., None, None]))
        return fe.get_res(p, [jnp.zeros((len(pts), 3))], t)

    def spec(T):
        Tq = o.val(T[:, None])[..., 0]
        return [o.int_grad(jnp.einsum('cqijkl,cqkl->cqij', CK, -cte[:, K] * Tq[..., None, None]))]
    same(ck, tag + " thermal load of a temperature field", impl, spec, (T,), ctx, tol=1e-7)


def stress_and_buckling(ck, nin, nth):
    pts, cells = hexes()
    nc, npl = len(cells), len(THICK)
    P, W, K = me.layered_reference_quadrature(THICK, n_inplane=nin, n_thick_per_ply=nth)
    o = Oracle(pts, cells, "HEX8", rule=(P, W))
    G = tab("HEX8", P)[1]
    C = onp.stack([onp.asarray(aniso(3, 10 + c, npl)) for c in range(nc)])[:, K]
    ctx, _ = new()
    u = ctx.array("u", (len(pts), 3))
    eth = R0(3).uniform(-1, 1, (nc, len(W), 3, 3))
    X = jnp.asarray(pts[cells])
    same(ck, "stress at the layered points", lambda u: me.layered_quad_stress(jnp.asarray(G), X, u[cells], jnp.asarray(C)), lambda u: jnp.einsum('cqijkl,cqkl->cqij', C, o.grad(u)), (u,), ctx, tol=1e-7)
    same(ck, "stress at the layered points, thermal", lambda u: me.layered_quad_stress(jnp.asarray(G), X, u[cells], jnp.asarray(C), jnp.asarray(eth)), lambda u: jnp.einsum('cqijkl,cqkl->cqij', C, o.grad(u) - eth), (u,), ctx, tol=1e-7)
    s0 = onp.asarray(sym(3, 7, nc * len(W))).reshape(nc, len(W), 3, 3)
    mesh = fe.Mesh(pts, cells, "HEX8")
    p, tp = me.create_layered_solid_geometric_stiffness(mesh, jnp.asarray(s0), THICK, n_inplane=nin, n_thick_per_ply=nth)

    def energy(u):
        g = o.grad(u)
        return 0.5 * jnp.sum(jnp.einsum('cqij,cqki,cqkj->cq', s0, g, g) * o.JxW)
    same(ck, "geometric stiffness residual", lambda u: fe.get_res(p, [u], tp), lambda u: [jax.grad(energy)(u)], (u,), ctx, tol=1e-7)


# ------------------------------------------------------------------ fibre orientation
def boxes(ck):
    ctx, _ = new()
    x, y, z = (ctx.array(k, (), -1.0, 1.0) for k in "xyz")
    tol = 3e-6
    # the maps are the isoparametric images of the square / cube: corner images as documented, inside the simplex
    q = [((-1, -1), (0, 0)), ((1, -1), (1, 0)), ((1, 1), (.5, .5)), ((-1, 1), (0, 1))]

    def tri(x, y):
        N = [0.25 * (1 + c[0] * x) * (1 + c[1] * y) for c, _ in q]
        return tuple(sum(n * v[k] for n, (_, v) in zip(N, q)) for k in range(2))
    same(ck, "square to orientation triangle", lambda x, y: me.box_to_triangle(x, y), tri, (x, y), ctx, tol=tol)
    h = [((-1, -1, -1), (0, 0, 0)), ((1, -1, -1), (1, 0, 0)), ((1, 1, -1), (.5, .5, 0)), ((-1, 1, -1), (0, 1, 0)), ((-1, -1, 1), (0, 0, 1)), ((1, -1, 1), (.5, 0, .5)), ((1, 1, 1), (1 / 3, 1 / 3, 1 / 3)), ((-1, 1, 1), (0, .5, .5))]

    def tet(x, y, z):
        N = [0.125 * (1 + c[0] * x) * (1 + c[1] * y) * (1 + c[2] * z) for c, _ in h]
        return tuple(sum(n * v[k] for n, (_, v) in zip(N, h)) for k in range(3))
    same(ck, "cube to orientation tetrahedron", lambda x, y, z: me.box_to_tetrahedron(x, y, z), tet, (x, y, z), ctx, tol=tol)
    neg = lambda *c: jnp.minimum(jnp.stack(c) + tol, 0.0)
    same(ck, "triangle: admissible", lambda x, y: (lambda a: neg(a[0], a[1], 1 - a[0] - a[1]))(me.box_to_triangle(x, y)), lambda x, y: jnp.zeros(3), (x, y), ctx)
    same(ck, "tetrahedron: admissible", lambda x, y, z: (lambda a: neg(a[0], a[1], a[2], 1 - a[0] - a[1] - a[2]))(me.box_to_tetrahedron(x, y, z)), lambda x, y, z: jnp.zeros(4), (x, y, z), ctx)
    X, Y, Z = (ctx.array(k * 2, (2, 3), -1.0, 1.0) for k in "xyz")
    same(ck, "square to triangle, fields", lambda X, Y: me.box_to_triangle(X, Y), tri, (X, Y), ctx, tol=tol)
    same(ck, "cube to tetrahedron, fields", lambda X, Y, Z: me.box_to_tetrahedron(X, Y, Z), tet, (X, Y, Z), ctx, tol=tol)


def orientation_tensors(ck, beta):
    ctx, _ = new()
    x = ctx.array("x", (6,), -1.0, 1.0)
    sg = lambda t: jnp.tanh(beta * t) / onp.tanh(beta)
    same(ck, f"smooth sign {beta}", lambda x: me.smooth_sgn(x, beta), sg, (x,), ctx)

    def a2(x):
        a, b = me.box_to_triangle(x[0], x[1])
        o = jnp.sqrt(jnp.maximum(a * b, 0.0)) * sg(x[2])
        return jnp.array([[a, o], [o, b]])
    same(ck, f"2-D orientation tensor {beta}", lambda x: me.orientation_tensor_2d(x[0], x[1], x[2], beta)[0], a2, (x,), ctx)

    def a3(x):
        d = me.box_to_tetrahedron(x[0], x[1], x[2])
        k = {(0, 1): 3, (0, 2): 4, (1, 2): 5}
        off = lambda i, j: jnp.sqrt(jnp.maximum(d[i] * d[j], 0.0)) * sg(x[k[i, j]])
        return jnp.array([[d[0], off(0, 1), off(0, 2)], [off(0, 1), d[1], off(1, 2)], [off(0, 2), off(1, 2), d[2]]]), *d
    same(ck, f"3-D orientation tensor {beta}", lambda x: me.orientation_tensor_3d(*[x[i] for i in range(6)], sgn_beta=beta), a3, (x,), ctx)


def closures(ck, d):
    ctx, _ = new()
    v = ctx.array("v", (d * (d + 1) // 2,))
    I = onp.eye(d)

    def a2(v):
        idx = {}
        k = 0
        for i in range(d):
            for j in range(i, d):
                idx[i, j] = idx[j, i] = k
                k += 1
        return jnp.stack([v[idx[i, j]] for i in range(d) for j in range(d)]).reshape(d, d)

    def each(f):
        return lambda v: (lambda a: jnp.stack([f(a, *ix) for ix in itertools.product(range(d), repeat=4)]).reshape((d,) * 4))(a2(v))
    quad = lambda a, i, j, k, l: a[i, j] * a[k, l]
    c1, c2 = {2: (-1 / 24, 1 / 6), 3: (-1 / 35, 1 / 7)}[d]

    def lin(a, i, j, k, l):
        return c1 * (I[i, j] * I[k, l] + I[i, k] * I[j, l] + I[i, l] * I[j, k]) + c2 * (
            a[i, j] * I[k, l] + a[k, l] * I[i, j] + a[i, k] * I[j, l] + a[i, l] * I[j, k] + a[j, k] * I[i, l] + a[j, l] * I[i, k])

    def det(a):
        if d == 2:
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        return sum(a[0, i] * (a[1, (i + 1) % 3] * a[2, (i + 2) % 3] - a[1, (i + 2) % 3] * a[2, (i + 1) % 3]) for i in range(3))

    def hyb(a, *ix):
        w = d ** d * det(a)
        return w * lin(a, *ix) + (1 - w) * quad(a, *ix)
    same(ck, f"quadratic closure {d}D", lambda v: me.quadratic_closure(a2(v)), each(quad), (v,), ctx)
    same(ck, f"linear closure {d}D", lambda v: me.linear_closure(a2(v)), each(lin), (v,), ctx)
    same(ck, f"hybrid closure {d}D", lambda v: me.hybrid_closure(a2(v)), each(hyb), (v,), ctx)
    # normalised states: contraction identity
    w = ctx.array("w", (d * (d + 1) // 2 - 1,))

    def unit(w):
        full = jnp.concatenate([w, jnp.zeros(1)])
        a = a2(full)
        return a.at[d - 1, d - 1].set(1 - sum(a[i, i] for i in range(d - 1)))
    same(ck, f"linear closure {d}D contracts to its argument", lambda w: jnp.einsum('ijkk->ij', me.linear_closure(unit(w))), unit, (w,), ctx)


def a4_free(ck):
    ctx, _ = new()
    t = ctx.array("t", (), 0.05, 1.0)
    n = ctx.array("n", (2,))           # nu_1 = n[0] + i n[1]
    y = ctx.array("y", (2,))

    def a2(t, n):
        return 0.5 * t * jnp.array([[1 + n[0], n[1]], [n[1], 1 - n[0]]])
    perms = list(itertools.product(range(2), repeat=4))

    def spec(t, n, y):
        r2 = n[0] * n[0] + n[1] * n[1]
        c4 = n[0] * n[0] - n[1] * n[1] + y[0] * (1 - r2)
        s4 = 2 * n[0] * n[1] + y[1] * (1 - r2)
        by = [(3 + 4 * n[0] + c4) / 8, (2 * n[1] + s4) / 8, (1 - c4) / 8, (2 * n[1] - s4) / 8, (3 - 4 * n[0] + c4) / 8]   # by number of 2s
        return t * jnp.stack([by[sum(p)] for p in perms]).reshape(2, 2, 2, 2)
    same(ck, "closure-free fourth-order tensor", lambda t, n, y: orientation.build_a4_2d(a2(t, n), y[0], y[1], eps=0.0), spec, (t, n, y), ctx, tol=1e-7)
    same(ck, "closure-free fourth-order tensor, default floor", lambda t, n, y: orientation.build_a4_2d(a2(0.5, n), y[0], y[1]), lambda t, n, y: spec(0.5, n, y), (t, n, y), ctx, tol=1e-7)
    same(ck, "closure-free fourth-order tensor contracts to its argument", lambda t, n, y: jnp.einsum('ijkk->ij', orientation.build_a4_2d(a2(t, n), y[0], y[1])), lambda t, n, y: a2(t, n), (t, n, y), ctx, tol=1e-6)
    # fully aligned: no influence of y
    for q in (onp.array([0.6, 0.8]), onp.array([-12 / 13, 5 / 13]), onp.array([0.0, 1.0])):
        same(ck, f"closure-free fourth-order tensor, aligned with {q.round(2)}", lambda t, y: orientation.build_a4_2d(t * jnp.outer(q, q), y[0], y[1], eps=0.0),
             lambda t, y: t * onp.einsum('i,j,k,l->ijkl', q, q, q, q), (t, y), ctx, tol=1e-7)


def averaged(ck, d):
    """for every discrete fibre distribution the stiffness is the weighted mean of the rotated laminae"""
    ctx, _ = new()
    dirs = onp.array([[1, 0], [0.6, 0.8], [-0.28, 0.96], [5 / 13, -12 / 13]]) if d == 2 else onp.array([[1, 0, 0], [0.6, 0.8, 0], [2 / 3, -1 / 3, 2 / 3], [0, 0.28, 0.96], [-0.48, 0.6, 0.64]])
    w = ctx.array("w", (len(dirs),), 0.0, 1.0)
    tens = lambda w, k: jnp.einsum('a,a...->...', w, onp.stack([onp.einsum(','.join('ijkl'[:k]) + '->' + 'ijkl'[:k], *([p] * k)) for p in dirs]))
    E1, E2, G, nu, nu23 = 8.0, 1.5, 0.7, 0.28, 0.35
    frames = []
    for p in dirs:
        if d == 2:
            frames.append(onp.array([[p[0], -p[1]], [p[1], p[0]]]))
        else:
            a = onp.eye(3)[onp.argmin(abs(p))]
            s = onp.cross(p, a)
            s /= onp.linalg.norm(s)
            frames.append(onp.stack([p, s, onp.cross(p, s)], 1))
    if d == 2:
        C0 = onp.zeros((2,) * 4)
        nu21 = nu * E2 / E1
        m = 1 / (1 - nu * nu21)
        C0[0, 0, 0, 0], C0[1, 1, 1, 1], C0[0, 0, 1, 1], C0[1, 1, 0, 0] = m * E1, m * E2, m * nu21 * E1, m * nu21 * E1
        C0[0, 1, 0, 1] = C0[0, 1, 1, 0] = C0[1, 0, 0, 1] = C0[1, 0, 1, 0] = G
    else:
        S = onp.zeros((6, 6))
        S[:3, :3] = [[1 / E1, -nu / E1, -nu / E1], [-nu / E1, 1 / E2, -nu23 / E2], [-nu / E1, -nu23 / E2, 1 / E2]]
        S[3, 3], S[4, 4], S[5, 5] = 2 * (1 + nu23) / E2, 1 / G, 1 / G
        C6 = onp.linalg.inv(S)
        C0 = onp.array([C6[V[i, j], V[k, l]] for i, j, k, l in itertools.product(range(3), repeat=4)]).reshape((3,) * 4)
    Cs = onp.stack([onp.einsum('ip,jq,kr,ls,pqrs->ijkl', f, f, f, f, C0) for f in frames])
    wn = lambda w: jnp.concatenate([w[:-1] / len(dirs), (1 - jnp.sum(w[:-1]) / len(dirs))[None]])
    if d == 2:
        impl = lambda w: me.orientation_averaged_stiffness(tens(wn(w), 2), tens(wn(w), 4), E1, E2, G, nu)
    else:
        impl = lambda w: me.orientation_averaged_stiffness_3d(tens(wn(w), 2), tens(wn(w), 4), E1, E2, G, nu, nu23)
    same(ck, f"orientation-averaged stiffness {d}D", impl, lambda w: jnp.einsum('a,aijkl->ijkl', wn(w), Cs), (w,), ctx, tol=1e-7)


# ------------------------------------------------------------------ third-medium contact
def tmc_density(ck, d, ps):
    et = "QUAD9" if d == 2 else "HEX8"
    if d == 2:
        pts, cells = build(et, (1, 1), seed=1)
    else:
        pts, cells = build(et, (1, 1, 1), seed=1)
    p, _ = me.ThirdMediumContact.create(fe.Mesh(pts, cells, et), jnp.zeros(len(cells)), 0.4, 1.7, ele_type=et, plane_strain=ps)
    psi = p.get_energy_density()
    ctx, _ = new()
    m, l = ctx.array("m", (), 0.1, 2.0), ctx.array("l", (), 0.1, 2.0)
    # diagonal + one shear family keeps det polynomial small; J > 0
    g = ctx.array("g", (d, d), -0.25, 0.25)

    def spec(g, m, l):
        F = [[g[i, j] + (1.0 if i == j else 0.0) for j in range(d)] for i in range(d)]
        if d == 2:
            J = F[0][0] * F[1][1] - F[0][1] * F[1][0]
        else:
            J = sum(F[0][i] * (F[1][(i + 1) % 3] * F[2][(i + 2) % 3] - F[1][(i + 2) % 3] * F[2][(i + 1) % 3]) for i in range(3))
        tr = sum(F[i][j] * F[i][j] for i in range(d) for j in range(d)) + (1.0 if d == 2 and ps else 0.0)
        L = jnp.log(J)
        return 0.5 * m * tr - m * L + 0.5 * l * L * L
    same(ck, f"contact medium energy density {d}D, plane strain {ps}", lambda g, m, l: psi(g, m, l), spec, (g, m, l), ctx)


def tmc_regularization(ck, et, n, L):
    """all-medium and mixed meshes with gamma0 = 0: the residual is the regularization alone on medium cells"""
    pts, cells = build(et, n, seed=3)
    d = dim_of(et)
    mesh = fe.Mesh(pts, cells, et)
    nc = len(cells)
    lam, kr = 1.7, 0.3
    o = Oracle(pts, cells, et, nq=4)
    ctx, _ = new()
    for med in (onp.ones(nc), (onp.arange(nc) % 2 == 0).astype(float)):
        p, tp = me.ThirdMediumContact.create(mesh, jnp.asarray(med), 0.4, lam, gamma0=0.0, kr=kr, ele_type=et, ref_length=L)
        free = onp.ones(len(pts), bool)
        if (med == 0).any():
            free[onp.unique(cells[med == 0])] = False      # body nodes at rest: the body's energy is stationary there
        ids = onp.where(free)[0]
        u = ctx.array(f"u{int(med.sum())}", (len(ids), d))
        full = lambda u: jnp.zeros((len(pts), d)).at[ids].set(u)

        def spec(u):
            U = full(u)
            H = jnp.einsum('cav,cqaij->cqvij', U[cells], o.H)
            Lp = jnp.einsum('cqvii->cqv', H)
            lN = jnp.einsum('cqaii->cqa', o.H)
            e = jnp.einsum('cqvij,cqaij,cq,c->cav', H, o.H, o.JxW, med) - jnp.einsum('cqv,cqa,cq,c->cav', Lp, lN, o.JxW, med) / d
            return [kr * lam * L ** 2 * jnp.zeros((len(pts), d)).at[cells.reshape(-1)].add(e.reshape(-1, d))]
        same(ck, f"contact regularization {et}, {int(med.sum())} of {nc} cells medium, length {L}", lambda u: fe.get_res(p, [full(u)], tp), spec, (u,), ctx, tol=1e-6)


def tmc_material(ck):
    """body cells carry (mu, lambda), medium cells gamma0 times them"""
    pts, cells = build("QUAD4", (3, 1), seed=3)
    med = onp.array([0.0, 1.0, 0.0])
    ctx, _ = new()
    m, l, g0 = ctx.array("m", (), 0.1, 2.0), ctx.array("l", (), 0.1, 2.0), ctx.array("g0", (), 0.01, 1.0)
    mesh = fe.Mesh(pts, cells, "QUAD4")

    class Probe(me.ThirdMediumContact):
        def get_energy_density(self):
            return lambda g, mu, lm, *a: 0.5 * mu * jnp.sum(g * g) + 0.5 * lm * jnp.trace(g) ** 2

        def get_extra_kernel(self):
            return None
    u = jnp.asarray(R0(1).uniform(-1, 1, pts.shape))
    o = Oracle(pts, cells, "QUAD4", nq=4)

    def impl(m, l, g0):
        with jax.ensure_compile_time_eval():
            pass
        p, tp = Probe.create(mesh, jnp.asarray(med), m, l, gamma0=g0, kr=0.1, ele_type="QUAD4")
        return fe.get_res(p, [u], tp)

    def spec(m, l, g0):
        s = jnp.where(med > 0, g0, 1.0)
        g = o.grad(u)
        sig = (s * m)[:, None, None, None] * g + (s * l)[:, None, None, None] * jnp.trace(g, axis1=2, axis2=3)[..., None, None] * jnp.eye(2)
        return [o.int_grad(sig)]
    same(ck, "contact medium: material of body and medium cells", impl, spec, (m, l, g0), ctx)


def classify(ck):
    for et, n in (("QUAD9", (3, 2)), ("QUAD4", (3, 2)), ("HEX8", (2, 2, 1))):
        pts, cells = build(et, n, seed=5)
        k = CORNERS[et]
        ctr = onp.asarray(pts)[cells[:, :k]].mean(1)
        thr = onp.median(ctr[:, 0] + 0.3 * ctr[:, 1])
        got = onp.asarray(me.classify_medium_cells(fe.Mesh(pts, cells, et), lambda *c: c[0] + 0.3 * c[1] > thr + 1e-9, n_corner_nodes=k))
        want = (ctr[:, 0] + 0.3 * ctr[:, 1] > thr + 1e-9).astype(float)
        if got.shape != want.shape or not onp.array_equal(got, want):
            ck.violate(f"classification {et}", {"got": got.tolist(), "want": want.tolist()})


# ---- pressure vessels ---------------------------------------------------------------------------------------------
def vessel(kw):
    """the documented half model: rows (cylinder, then dome), columns around the axis, layers along the outward normal"""
    from feax.mechanics import copv as V
    g = V.DoubleWallCopvGeometry(**kw)
    lay = onp.concatenate([[0.0], g.shell_t + g.gap * onp.arange(g.n_fill + 1) / g.n_fill, [2 * g.shell_t + g.gap]])
    lam = [0.0] * (g.n_merid_cyl + 1) + [onp.arccos(g.polar_radius / g.a) * (i + 1) / g.n_merid_dome for i in range(g.n_merid_dome)]
    z0 = [g.cyl_len * i / g.n_merid_cyl for i in range(g.n_merid_cyl + 1)] + [g.cyl_len] * g.n_merid_dome
    th = 2 * onp.pi * onp.arange(g.n_circum) / g.n_circum
    X = onp.zeros((len(lam), g.n_circum, len(lay), 3))
    for i, (l, z) in enumerate(zip(lam, z0)):
        for j, t in enumerate(th):
            for k, d in enumerate(lay):
                r = (g.a + d) * onp.cos(l)
                X[i, j, k] = [r * onp.cos(t), r * onp.sin(t), z + (g.a + d) * onp.sin(l)]
    return V, g, X


def vessel_mesh(ck, kw):
    V, g, X = vessel(kw)
    m = V.create_double_wall_copv_mesh(g)
    P, C = onp.asarray(m.points), onp.asarray(m.cells)
    nr, nc, nl = X.shape[:3]
    bad = []
    ids = onp.array([[[m.node_id(i, j, k) for k in range(nl)] for j in range(nc)] for i in range(nr)])
    if sorted(ids.ravel()) != list(range(nr * nc * nl)) or P.shape != (nr * nc * nl, 3):
        bad.append("node ids")
    elif abs(P[ids] - X).max() > 1e-9 * g.a:
        bad.append("node positions")
    else:
        want = {}
        for i, j, k in itertools.product(range(nr - 1), range(nc), range(nl - 1)):
            key = frozenset(int(ids[i + a, (j + b) % nc, k + c]) for a in (0, 1) for b in (0, 1) for c in (0, 1))
            want[key] = (i >= g.n_merid_cyl, 0 if k == 0 else (2 if k == nl - 2 else 1))
        dome, zone = onp.asarray(m.dome_cell_mask()), onp.asarray(m.cell_zone)
        if len(C) != len(want) or {frozenset(map(int, c)) for c in C} != set(want):
            bad.append("cells")
        elif any((bool(dome[n]), int(zone[n])) != want[frozenset(map(int, c))] for n, c in enumerate(C)):
            bad.append("zone or dome labels")
        sets = {"equator": (m.equator_node_ids(), ids[0]), "rim": (m.rim_inner_node_ids(), ids[-1, :, :2]), "outer": (m.outer_surface_node_ids(), ids[:, :, -1]), "inner": (m.inner_surface_node_ids(), ids[:, :, 0]),
                "axial dofs": (m.equator_axial_dofs(), ids[0] * 3 + 2)}
        for n, (a, b) in sets.items():
            if sorted(onp.asarray(a).tolist()) != sorted(b.ravel().tolist()):
                bad.append(n)
        pins = sorted(onp.asarray(m.rigid_inplane_pin_dofs()).tolist())
        N = 3 * len(P)
        free = onp.asarray(m.buckling_free_dofs(N)).tolist()
        if free != sorted(set(range(N)) - set(pins) - set((ids[0] * 3 + 2).ravel().tolist())):
            bad.append("free dofs")
        # the constraints leave no rigid motion
        B = onp.zeros((N, 6))
        for a in range(3):
            B[a::3, a] = 1
            e = onp.eye(3)[a]
            B[:, 3 + a] = onp.cross(e, P).reshape(-1)
        cons = sorted(set(range(N)) - set(free))
        if onp.linalg.matrix_rank(B[cons]) != 6 or len(pins) != 3:
            bad.append("a rigid motion is left free")
        for n, fn, b in (("outer", m.outer_surface_location_fn(), ids[:, :, -1]), ("inner", m.inner_surface_location_fn(), ids[:, :, 0]), ("rim", m.rim_location_fn(), ids[-1, :, :2])):
            got = onp.flatnonzero(onp.asarray(jax.vmap(fn)(jnp.asarray(P))))
            if got.tolist() != sorted(b.ravel().tolist()):
                bad.append(n + " location")
        if abs(m.rim_inner_radius() - onp.linalg.norm(X[-1, :, :2, :2], axis=-1).min()) > 1e-9 * g.a:
            bad.append("rim radius")
    if bad:
        ck.violate(f"vessel {kw}", {"problems": bad})


def winding(ck, kw, layup, drop):
    """every ply law, turned into the wall frame of its cell at the geodesic angle"""
    V, g, X = vessel(kw)
    m = V.create_double_wall_copv_mesh(g)
    P, C = onp.asarray(m.points), onp.asarray(m.cells)
    R = onp.zeros((len(C), len(layup), 3, 3))
    zone, dome, tri = [], [], onp.zeros((len(C), 3, 3))
    ang = onp.zeros(len(C))
    for n, c in enumerate(C):
        x = P[c]
        ctr = x.mean(0)
        r = onp.hypot(ctr[0], ctr[1])
        th = onp.array([-ctr[1], ctr[0], 0.0]) / r
        dome.append(x[:, 2].min() > g.cyl_len - 1e-9 * g.a)
        rho = onp.hypot(onp.hypot(x[:, 0], x[:, 1]), x[:, 2] - g.cyl_len) if dome[-1] else onp.hypot(x[:, 0], x[:, 1])
        zone.append(0 if rho.max() < g.a + g.shell_t * 1.0001 else (2 if rho.min() > g.a + g.shell_t + g.gap * 0.9999 else 1))
        outer = rho > rho.mean()
        nrm = x[outer].mean(0) - x[~outer].mean(0)
        nrm = nrm - (nrm @ th) * th
        nrm /= onp.linalg.norm(nrm)
        tm = onp.cross(th, nrm)
        tri[n] = [tm, th, nrm]
        al = onp.arcsin(min(1.0, g.polar_radius / r))
        ang[n] = onp.degrees(al)
        hoops = 0
        for k, (kind, s) in enumerate(layup):
            a = s * al
            if kind == "hoop":
                a = onp.pi / 2
                if drop and dome[-1]:
                    a = al if hoops % 2 == 0 else -al
                hoops += 1
            R[n, k] = onp.stack([onp.cos(a) * tm + onp.sin(a) * th, -onp.sin(a) * tm + onp.cos(a) * th, nrm], 1)
    zone = onp.array(zone)
    shell = zone != 1
    tag = f"winding {'/'.join(k[:3] + ('+' if s > 0 else '-') for k, s in layup)}{'' if drop else ', hoops kept'}, {kw['n_circum']} columns"
    ctx, _ = new()
    C4, F4 = ctx.array("C", (3, 3, 3, 3)), ctx.array("F", (3, 3, 3, 3))
    A2, F2 = ctx.array("a", (3, 3)), ctx.array("f", (3, 3))
    pick = onp.unique(onp.linspace(0, len(C) - 1, 14).astype(int).tolist() + onp.flatnonzero(dome)[:3].tolist() + onp.flatnonzero(~onp.array(dome))[-3:].tolist())
    Rj = jnp.asarray(R[pick])
    W = jnp.asarray(shell[pick])

    def turned(C4):
        return jnp.einsum("npia,npjb,npkc,npld,abcd->npijkl", Rj, Rj, Rj, Rj, C4)
    two = lambda A: jnp.einsum("npia,npjb,ab->npij", Rj, Rj, A)
    L = list(layup)
    ck.forall(f"{tag}: stiffness", lambda C4: V.create_winding_ply_stiffness(m, C4, L, drop_dome_hoop=drop)[pick], turned, (C4,), ctx, tol=1e-6)
    ck.forall(f"{tag}: stiffness with fill", lambda C4, F4: V.create_winding_ply_stiffness(m, C4, L, F4, drop)[pick],
              lambda C4, F4: jnp.where(W[:, None, None, None, None, None], turned(C4), F4[None, None]), (C4, F4), ctx, tol=1e-6)
    ck.forall(f"{tag}: expansion", lambda A2: V.create_winding_cte(m, A2, L, drop_dome_hoop=drop)[pick], two, (A2,), ctx, tol=1e-6)
    ck.forall(f"{tag}: expansion with fill", lambda A2, F2: V.create_winding_cte(m, A2, L, F2, drop)[pick], lambda A2, F2: jnp.where(W[:, None, None, None], two(A2), F2[None, None]), (A2, F2), ctx, tol=1e-6)
    bad = []
    fib = onp.asarray(V.cell_fiber_directions(m, L, drop_dome_hoop=drop))
    if abs(fib - R[..., 0] * shell[:, None, None]).max() > 1e-6:
        bad.append("fibre directions")
    if abs(onp.asarray(V.cell_fiber_directions(m, L, drop_dome_hoop=drop, shell_only=False)) - R[..., 0]).max() > 1e-6:
        bad.append("fibre directions of all cells")
    if abs(onp.asarray(V.cell_winding_angle_deg(m)) - ang).max() > 1e-6:
        bad.append("winding angle")
    if max(abs(onp.asarray(a) - tri[:, i]).max() for i, a in enumerate(V.cell_triads(m))) > 1e-6:
        bad.append("triads")
    if bad:
        ck.violate(f"{tag}: directions", {"problems": bad})


VESSELS = (dict(a=10.0, shell_t=1.0, gap=3.0, cyl_len=8.0, polar_radius=3.0, n_circum=6, n_merid_cyl=2, n_merid_dome=3, n_fill=2),
           dict(a=4.0, shell_t=0.5, gap=1.0, cyl_len=20.0, polar_radius=2.5, n_circum=5, n_merid_cyl=3, n_merid_dome=1, n_fill=1))


def run(ck):
    linalg_contracts()
    ck.fn("feax.mechanics.cohesive", "feax.mechanics.shell", "feax.mechanics.layered_solid_element", "feax.mechanics.orientation", "feax.mechanics.tmc")
    ck.bound("interfaces of 3 node pairs, laminates of up to 3 layers, plates and layered solids on meshes of 1-4 cells, material constants, angles, thicknesses, states, loads and fibre distributions symbolic within boxes")
    full = ck.tier != "quick"
    for vec, beta, ax in ((2, 1.0, None), (2, 0.5, 1), (3, 0.7, None), (3, 0.0, 2)) + (((3, 1.3, 0),) if full else ()):
        ck.do(cohesive_geometry, vec, beta, ax)
    for Ga, sc in ((2.0, 3.0), (0.015, 20.0)):
        for case in ("virgin", "reloading", "unloading"):
            ck.do(exponential, Ga, sc, case)
        for case in ("virgin", "history"):
            ck.do(bilinear, Ga, sc, case)
    ck.do(cohesive_weights)
    ck.do(in_plane)
    for a in ((2, True, True), (2, True, False), (2, False, False), (3, False, True)) + (((3, True, True), (3, True, False)) if full else ()):
        ck.do(laminate, *a)
    ck.do(rotations2)
    ck.do(mindlin_point, "linear")
    ck.do(mindlin_point, "von_karman")
    for a in (("QUAD4", (2, 1), "linear", False, 3), ("QUAD4", (1, 1), "linear", True, 3), ("TRI3", (1, 1), "von_karman", True, 3), ("TRI6", (1, 1), "linear", True, 5)) + ((("QUAD4", (1, 1), "von_karman", False, 5),) if full else ()):
        ck.do(mindlin_plate, *a)
    ck.do(stiffness3)
    for a in (((0.5, 1.5, 0.7), 2, 2), ((1.0,), 2, 2), ((0.2, 0.3), 3, 1)):
        ck.do(quadrature, *a)
    ck.do(layered, None, False)
    ck.do(layered, (1.0, -2.0, 0.5), True)
    ck.do(oriented, False, 2, 2)
    ck.do(oriented, True, 2, 2)
    ck.do(oriented, True, 3, 2)
    ck.do(stress_and_buckling, 2, 2)
    if full:
        ck.do(stress_and_buckling, 3, 2)
    ck.do(boxes)
    ck.do(orientation_tensors, 10.0)
    ck.do(orientation_tensors, 3.0)
    for d in (2, 3):
        ck.do(closures, d)
        ck.do(averaged, d)
    ck.do(a4_free)
    ck.do(tmc_density, 2, True)
    ck.do(tmc_density, 2, False)
    ck.do(tmc_density, 3, True)
    ck.do(tmc_regularization, "QUAD9", (3, 1), 1.0)
    ck.do(tmc_regularization, "QUAD8", (2, 1), 2.0)
    ck.do(tmc_regularization, "TRI6", (1, 1), 0.5)
    ck.do(tmc_material)
    ck.do(classify)
    for kw in VESSELS:
        ck.do(vessel_mesh, kw)
    ck.do(winding, VESSELS[0], (("helical", 1.0), ("hoop", 1.0), ("helical", -1.0), ("hoop", 1.0)), True)
    ck.do(winding, VESSELS[1], (("hoop", -1.0), ("helical", -1.0)), False)
