"""C23: direct shooting."""
import itertools
import numpy as np
from mc.core import wit, digits
from mc import hjb

BOUNDS = ("Cost and constraint: 6 problems x 1..4 steps x every control parameter vector over {-1,0,1} (at most 3 steps of method 1, "
          "4 of method 2; all up to 5 steps thorough), start/end states {-1,0.5}x{0,1.2}, horizons {0.3,1,2.5}, generic "
          "parameters up to 8 steps, NumPy/JAX compiled and eager, TensorFlow in batches, both control parametrisations. Values "
          "on grids: 77 linear-quadratic problems x 1..4 steps, both methods, over square and rectangular grids and 1 or 10 "
          "iterations (every combination of both and up to 6 steps thorough), against the exact minimum of the discretised problem and within C h^4 of the true minimum; two "
          "nonlinear problems; block horizon for 1..3 blocks; TensorFlow 1 and 2 steps")
ASSUMPTIONS = ["nonlinear problems: mild nonlinearity and short horizon, so that the minimum is unique; reference from SLSQP",
               "rounding up to 1e-9 relative (values on grids 1e-7)"]

XS = [(-1.0, 0.0), (0.5, 1.2)]
TS = (0.3, 1.0, 2.5)


def simulate(g, L, T, x0, n, u):
    """n Runge-Kutta steps of (x, cost) for the control u(i, t - t_i) in step i."""
    h = T / n
    x, c = x0, 0.0 * x0
    for i in range(n):
        um, u1, u0 = u(i, h / 2), u(i, h), u(i, 0.0)
        k1, l1 = g(x, u0), L(x, u0)
        x2 = x + h / 2 * k1
        k2, l2 = g(x2, um), L(x2, um)
        x3 = x + h / 2 * k2
        k3, l3 = g(x3, um), L(x3, um)
        x4 = x + h * k3
        k4, l4 = g(x4, u1), L(x4, u1)
        x, c = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), c + h / 6 * (l1 + 2 * l2 + 2 * l3 + l4)
    return c, x


def control(method, th, T):
    """Control of a parameter vector (last axis; leading axes are a batch)."""
    if method == 1:
        return th.shape[-1] // 2, lambda i, s: th[..., 2 * i] + th[..., 2 * i + 1] * s
    n = th.shape[-1] - 1
    h = T / n
    start = np.concatenate([th[..., :1], th[..., :1] + h * np.cumsum(th[..., 1:], axis=-1)], axis=-1)
    return n, lambda i, s: start[..., i] + th[..., 1 + i] * s


def reference(g, L, T, x0, xf, method, th):
    n, u = control(method, th, T)
    c, x = simulate(g, L, T, x0, n, u)
    return c, x - xf


def params(method, n):
    """All parameter vectors over {-1, 0, 1}."""
    k = 2 * n if method == 1 else n + 1
    return np.array([digits(i, 3, k) for i in range(3 ** k)], dtype=float) - 1.0


def _jax(method):
    from parallel_control import hjb_grid_1d_np as H
    if method == 1:
        return lambda g, L, T, x0, xf, th: H.fun_and_con_1(g, L, T, x0, xf, th[0::2], th[1::2])
    return H.fun_and_con_2


def cost_np(rec, fun, method, n):
    import jax
    import jax.numpy as jnp
    g, L, _ = hjb.FUNS[fun]
    fc = _jax(method)
    fn = jax.jit(jax.vmap(lambda T, x0, xf, th: fc(g, L, T, x0, xf, th), in_axes=(None, None, None, 0)))
    th = params(method, n)
    gen = np.stack([wit(("th", method, n, v), th.shape[1], lo=-2, hi=2) for v in range(6)])
    for (x0, xf), T in itertools.product(XS, TS):
        if not rec.case("jax", fun, method, n, x0, T):
            continue
        for part in (th, gen):
            c, con = rec.call(fn, T, x0, xf, jnp.asarray(part))
            wc, wcon = reference(g, L, T, np.full(len(part), x0), xf, method, part)
            ok = np.isfinite(wc) & (np.abs(wc) < 1e8)  # cubic dynamics may blow up
            s = np.maximum(1.0, np.abs(wc))[ok]
            rec.close("cost", np.asarray(c)[ok] / s, wc[ok] / s, tol=1e-9)
            rec.eq("constraint: shape", con.shape, (len(part), 1))
            rec.close("constraint", np.asarray(con)[ok, 0], wcon[ok], tol=1e-9)
        if T == 1.0:
            c, con = rec.call(fc, g, L, T, x0, xf, jnp.asarray(gen[0]))
            wc, wcon = reference(g, L, T, np.float64(x0), xf, method, gen[0])
            rec.close("cost, not compiled", c, wc, tol=1e-9)
            rec.close("constraint, not compiled", con, [wcon], tol=1e-9)
        rec.ok(wc)


def cost_tf(rec, fun, method, n):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_tf as H
    g, L, _ = hjb.FUNS[fun]
    k = lambda a: tf.constant(np.asarray(a, dtype=float), dtype=tf.float64)
    th = np.concatenate([params(method, n), [wit(("th", method, n, v), 2 * n if method == 1 else n + 1, lo=-2, hi=2) for v in range(6)]])
    N = len(th)
    for (x0, xf), T in itertools.product(XS, TS):
        for lead in (N, 1):
            if not rec.case("tf", fun, method, n, x0, T, lead):
                continue
            part = th[-lead:]
            a = (k(np.full(lead, x0)), k(np.full(lead, xf)))
            if method == 1:
                c, con = rec.call(H.fun_and_con_1, g, L, k(T), *a, k(part[:, 0::2]), k(part[:, 1::2]))
            else:
                c, con = rec.call(H.fun_and_con_2, g, L, k(T), *a, k(part))
            wc, wcon = reference(g, L, T, np.full(lead, x0), xf, method, part)
            ok = np.isfinite(wc) & (np.abs(wc) < 1e8)
            s = np.maximum(1.0, np.abs(wc))[ok]
            rec.close("cost", c.numpy()[ok] / s, wc[ok] / s, tol=1e-9)
            rec.eq("constraint: shape", con.shape, (lead, 1))
            rec.close("constraint", con.numpy()[ok, 0], wcon[ok], tol=1e-9)
            rec.ok(wc)


# ---------------------------------------------------------------------------
# values on grids
# ---------------------------------------------------------------------------

#      a     b    c    q    r    s(x)  e(xu)
LQ = {"integrator": (0.0, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0),
      "stable": (-1.0, 0.7, 0.0, 1.0, 0.5, 0.0, 0.0),
      "unstable": (1.0, 1.0, 0.0, 1.0, 1.0, 0.0, 0.0),
      "drift": (0.3, -1.2, 0.8, 2.0, 0.7, -0.6, 0.0),
      "cross": (-0.4, 1.1, -0.5, 1.5, 0.9, 0.4, 0.5)}
C4 = 0.8


def lq(name):
    a, b, c, q, r, s, e = LQ[name] if isinstance(name, str) else name
    return (lambda x, u: a * x + b * u + c), (lambda x, u: 0.5 * q * x * x + 0.5 * r * u * u + s * x + e * x * u)


def discrete_min(g, L, T, x0, xf, method, n):
    """Exact minimum of the discretised linear-quadratic problem (quadratic cost, linear constraint)."""
    k = 2 * n if method == 1 else n + 1
    I = np.eye(k)
    pts = [np.zeros(k)] + [I[i] for i in range(k)] + [I[i] + I[j] for i in range(k) for j in range(i + 1)]
    pts = np.array(pts)
    c, d = reference(g, L, T, np.full(len(pts), x0), xf, method, pts)
    f0, fi = c[0], c[1:k + 1]
    G = np.zeros((k, k))
    p = k + 1
    for i in range(k):
        for j in range(i + 1):
            G[i, j] = G[j, i] = c[p] - fi[i] - fi[j] + f0
            p += 1
    lin = fi - f0 - 0.5 * np.diag(G)
    A, rhs = d[1:k + 1] - d[0], -d[0]
    M = np.block([[G, A[:, None]], [A[None, :], np.zeros((1, 1))]])
    sol = np.linalg.solve(M, np.concatenate([-lin, [rhs]]))[:k]
    assert np.all(np.linalg.eigvalsh(G) > 0)
    return f0 + lin @ sol + 0.5 * sol @ G @ sol


def true_min(name, T, x0, xf):
    """Minimum of the continuous problem, from the Hamiltonian boundary value problem."""
    from scipy.linalg import expm
    a, b, c, q, r, s, e = LQ[name] if isinstance(name, str) else name
    # u = -(b p + e x) / r,  x' = a x + b u + c,  p' = -(q x + s + e u + a p)
    M = np.array([[a - b * e / r, -b * b / r, c], [-(q - e * e / r), -(a - e * b / r), -s], [0, 0, 0]])
    E = expm(M * T)
    p0 = (xf - E[0, 0] * x0 - E[0, 2]) / E[0, 1]
    t, w = np.polynomial.legendre.leggauss(24)
    J = 0.0
    for ti, wi in zip((t + 1) / 2 * T, w / 2 * T):
        x, p, _ = expm(M * ti) @ np.array([x0, p0, 1.0])
        u = -(b * p + e * x) / r
        J += wi * (0.5 * q * x * x + 0.5 * r * u * u + s * x + e * x * u)
    return J


GRIDS = [((-1.0, 0.0, 1.0), (-1.0, 0.0, 1.0)), ((-0.5, 0.4, 1.0, 2.0), (0.3, -1.0)), ((0.7,), (-0.4, 0.2, 0.9))]


def expected(name, T, xg, fg, method, n):
    g, L = lq(name)
    return np.array([[discrete_min(g, L, T, x0, xf, method, n) for xf in fg] for x0 in xg])


def compare(rec, what, V, name, T, xg, fg, method, n):
    want = expected(name, T, xg, fg, method, n)
    rec.close(f"{what}: minimum of the discretised problem", V, want, tol=1e-7)
    true = np.array([[true_min(name, T, x0, xf) for xf in fg] for x0 in xg])
    h = T / n
    s = max(1.0, float(np.max(np.abs(true))))
    e = float(np.max(np.abs(V - true))) / s
    rec.true(f"{what}: true optimal cost within discretisation error", e <= C4 * h ** 4 + 1e-7, error=e, bound=C4 * h ** 4)
    return want


def grid_params():
    """Linear-quadratic problems: every combination of coefficient levels with a unique minimum, and the named ones."""
    out = [LQ[k] for k in LQ]
    for a, b, c, q, s, e in itertools.product((-1.0, 0.0, 1.0), (1.0, -0.7), (0.0, 0.5), (0.0, 1.5), (0.0, -0.6), (0.0, 0.4)):
        if q or not e:
            out.append((a, b, c, q, 0.8, s, e))
    return out


def values_np(rec, method, n, gi, it):
    """All problems through one compiled solver (the coefficients are arguments of the compiled function)."""
    import jax
    import jax.numpy as jnp
    from parallel_control import hjb_grid_1d_np as H
    fn = (H.V_eval_1, H.V_eval_2)[method - 1]
    xg, fg = GRIDS[gi]
    T = (0.4, 1.0, 0.8)[gi]

    def solve(p):
        a, b, c, q, r, s, e = p
        return fn(lambda x, u: a * x + b * u + c, lambda x, u: 0.5 * q * x * x + 0.5 * r * u * u + s * x + e * x * u,
                  T, n, jnp.asarray(xg), jnp.asarray(fg), it)

    f = jax.jit(solve)
    for i, p in enumerate(grid_params()):
        if rec.case("grid", method, n, gi, it, i):
            V = np.asarray(rec.call(f, p))
            rec.ok(compare(rec, f"V_eval_{method} ({it} iterations)", V, p, T, xg, fg, method, n))


def blocks_np(rec, blocks, method):
    """The block value function is that of one block of the horizon, for either method."""
    import jax.numpy as jnp
    from parallel_control import hjb_grid_1d_np as H
    xg = (-1.0, 0.2, 1.4)
    n = 1 + blocks % 2
    T = 0.3 + 0.4 * blocks
    name = "drift" if blocks % 2 else "unstable"
    if rec.case("blocks", blocks, method):
        g, L = lq(name)
        s = H.HJB_Grid_1d(g, L, lambda x: x * x, T, blocks, n, jnp.asarray(xg))
        V = np.asarray(rec.call(s.directShootingValueFunction, *(() if method is None else (method,))))
        want = expected(name, T / blocks, xg, xg, {1: 1, 2: 2, None: 2, 7: 1}[method], n)
        rec.close("directShootingValueFunction", V, want, tol=1e-7)
        rec.ok(want)


NONLIN = {"velocity": (lambda x, u: 1.0 - 0.1 * x * x + u, lambda x, u: 0.5 * x * x + 0.5 * u * u),
          "quartic": (lambda x, u: u - 0.3 * x * x * x, lambda x, u: 0.5 * u * u + 0.05 * u * u * u * u + 0.2 * (x - 0.3) * (x - 0.3))}


def nonlinear_min(name, T, x0, xf, method, n):
    from scipy.optimize import minimize
    g, L = NONLIN[name]
    k = 2 * n if method == 1 else n + 1
    ref = lambda th: reference(g, L, T, np.float64(x0), xf, method, th)

    def grad(fn, th, h=1e-4):  # fourth-order differences
        I = np.eye(len(th)) * h
        return np.array([(8 * (fn(th + d) - fn(th - d)) - fn(th + 2 * d) + fn(th - 2 * d)) / (12 * h) for d in I])

    f, c = lambda t: ref(t)[0], lambda t: ref(t)[1]
    th = np.zeros(k)
    th[0] = (xf - x0) / T
    r = minimize(f, th, jac=lambda t: grad(f, t), method="SLSQP", options=dict(ftol=1e-15, maxiter=300),
                 constraints=[dict(type="eq", fun=c, jac=lambda t: grad(c, t))])
    assert abs(c(r.x)) < 1e-7
    return r.fun


def nonlinear_np(rec, name, method, deep):
    import jax.numpy as jnp
    from parallel_control import hjb_grid_1d_np as H
    g, L = NONLIN[name]
    fn = (H.V_eval_1, H.V_eval_2)[method - 1]
    xg, fg = (-1.0, 0.1, 0.8), (-0.9, 0.3)
    for n in (1, 2, 3) if deep else (2,):
        for T in (0.3, 0.5) if deep else (0.4,):
            if rec.case("nonlinear", name, method, n, T):
                V = np.asarray(rec.call(fn, g, L, T, n, jnp.asarray(xg), jnp.asarray(fg), 12))
                want = np.array([[nonlinear_min(name, T, a, b, method, n) for b in fg] for a in xg])
                rec.close(f"V_eval_{method}", V, want, tol=2e-6)
                rec.ok(want)


def values_tf(rec, name, method, n, iters, entry=None):
    """Functions run eagerly: building the compiled graph of the solver takes minutes."""
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_tf as H
    if not rec.case("tf grid", name, method, n, iters):
        return
    k = lambda a: tf.constant(np.asarray(a, dtype=float), dtype=tf.float64)
    g, L = lq(name) if name in LQ else NONLIN[name]
    xg, fg, T = (-0.5, 0.4, 1.0), (0.3, -1.0), 0.4
    tf.config.run_functions_eagerly(True)
    try:
        if entry:
            fg = xg
            V = rec.call(H.direct_shooting_block_V, g, L, k(T), n, k(xg), max_iter=iters).numpy()
        else:
            V = rec.call((H.V_eval_1, H.V_eval_2)[method - 1], g, L, k(T), n, k(xg), k(fg), iters).numpy()
    finally:
        tf.config.run_functions_eagerly(False)
    if name in LQ:
        want = compare(rec, f"V_eval_{method}", V, name, T, xg, fg, method, n)
    else:
        want = np.array([[nonlinear_min(name, T, a, b, method, n) for b in fg] for a in xg])
        rec.close(f"V_eval_{method}", V, want, tol=2e-5)
    rec.ok(want)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for fun in hjb.FUNS:
        for n in range(1, 4 if not deep else 6):
            for m in (1, 2):
                if m == 1 and n > (3 if not deep else 5):
                    continue
                out.append((4, "cost_np", dict(fun=fun, method=m, n=n)))
                out.append((5, "cost_tf", dict(fun=fun, method=m, n=n)))
        for n in ((4,) if not deep else (6, 8)):
            out.append((4, "cost_np", dict(fun=fun, method=2, n=n)))
            out.append((4, "cost_tf", dict(fun=fun, method=2, n=n)))
    combos = [(n, (n + m) % 3, 1 if (n + m) % 2 else 10, m) for n in (1, 2, 3, 4) for m in (1, 2)] if not deep else \
             [(n, gi, it, m) for n in range(1, 7) for gi in range(3) for it in (1, 10) for m in (1, 2)]
    out += [(30, "values_np", dict(method=m, n=n, gi=gi, it=it)) for n, gi, it, m in combos]
    out += [(12, "blocks_np", dict(blocks=b, method=m)) for b in (1, 2, 3) for m in (1, 2, None, 7)]
    out += [(10, "nonlinear_np", dict(name=k, method=m, deep=deep)) for k in NONLIN for m in (1, 2)]
    tfs = [("drift", 1, 1, 1), ("cross", 2, 2, 1), ("unstable", 1, 2, 1), ("drift", 2, 1, 2), ("velocity", 2, 1, 4), ("quartic", 1, 1, 4)]
    if deep:
        tfs += [(k, m, n, 2) for k in LQ for m in (1, 2) for n in (1, 2, 3)] + [("velocity", 1, 2, 5), ("quartic", 2, 2, 6)]
    for name, m, n, it in dict.fromkeys(tfs):
        out.append((30 * n * it, "values_tf", dict(name=name, method=m, n=n, iters=it)))
    out.append((30, "values_tf", dict(name="cross", method=2, n=1, iters=1, entry=True)))
    return out
