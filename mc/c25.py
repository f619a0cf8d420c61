"""C25: sequential quadratic programming with equality constraints."""
import itertools
import numpy as np
from mc.core import wit, spd, digits

BOUNDS = ("KKT solve: every symmetric G and full-rank A with entries in {-1,0,1} for 1..2 variables (3 variables: A "
          "over {0,1}, all diagonal signs), 1..n constraints, wherever the KKT matrix is regular, in single problems and batches; generic orders to 6. "
          "Newton: quadratic problems of order 1..4 with every number of constraints from 9 starts each, after 1..3 "
          "iterations; 6 nonlinear problems from a grid of starts, every iteration 1..6 against exact Newton-KKT steps, "
          "and run to convergence; 3 problems where the iteration converges linearly for every number of iterations to 24; NumPy/JAX stepping and fast, TensorFlow single and batched, with parameters. BFGS: "
          "every s, y in {-2..2}^n, n <= 2, x 6 Hessians against the secant, symmetry and definiteness conditions; "
          "damped and undamped runs to convergence")
ASSUMPTIONS = ["starts in the region of convergence (Newton), convex problems (BFGS)", "regular KKT matrices",
               "rounding up to 1e-8 relative"]


# ---------------------------------------------------------------------------
# linear KKT systems
# ---------------------------------------------------------------------------

def _sym(n, vals):
    out = []
    for v in itertools.product(vals, repeat=n * (n + 1) // 2):
        G = np.zeros((n, n))
        G[np.triu_indices(n)] = v
        out.append(G + np.triu(G, 1).T)
    return out


def kkt_systems(n, m, deep):
    if n <= 2:
        Gs, As = _sym(n, (-1.0, 0.0, 1.0) if not deep else (-1.0, 0.0, 1.0, 2.0)), [np.array(v).reshape(m, n) for v in itertools.product((-1.0, 0.0, 1.0), repeat=m * n)]
    else:
        Gs = [np.diag(d) + o * (np.ones((3, 3)) - np.eye(3)) for d in itertools.product((-1.0, 0.0, 2.0), repeat=3) for o in (0.0, 0.5)]
        As = [np.array(v).reshape(m, n) for v in itertools.product((0.0, 1.0), repeat=m * n)] if m < 3 or deep else \
             [np.array(v).reshape(3, 3) for v in itertools.product((0.0, 1.0), repeat=9) if sum(v) <= 4]
    for G in Gs:
        for A in As:
            if np.linalg.matrix_rank(A) < m:
                continue
            K = np.block([[G, -A.T], [A, np.zeros((m, m))]])
            if np.linalg.cond(K) < 1e6:
                yield G, A


def check_kkt(rec, what, G, A, c, b, x, lam):
    x, lam = np.asarray(x), np.asarray(lam)
    rec.true(f"{what}: shapes", x.shape == c.shape and lam.shape == b.shape, got=(x.shape, lam.shape))
    rec.close(f"{what}: constraints", np.einsum("...ij,...j->...i", A, x), b, tol=1e-9)
    rec.close(f"{what}: stationarity", np.einsum("...ij,...j->...i", G, x) - np.einsum("...ji,...j->...i", A, lam), -c, tol=1e-9,
              scale=max(1.0, float(np.max(np.abs(c))), float(np.max(np.abs(lam))), float(np.max(np.abs(x)))))


def kkt(rec, lib, n, m, deep):
    import jax
    if lib == "np":
        from parallel_control import sqp_np
        fn = jax.jit(sqp_np.lqe_solve)
        conv = np.asarray
    else:
        import tensorflow as tf
        from parallel_control import sqp_tf
        fn = sqp_tf.lqe_solve
        conv = lambda a: tf.constant(np.asarray(a), tf.float64)
    batch = []
    for i, (G, A) in enumerate(kkt_systems(n, m, deep)):
        c, b = wit(("c", i % 7), n, lo=-2, hi=2), wit(("b", i % 5), m, lo=-2, hi=2)
        if i % 11 == 0:
            c, b = c * 0, b * 0
        batch.append((G, A, c, b))
        if (lib == "np" or i % 3 == 0) and rec.case(lib, n, m, i):
            a = [conv(v) for v in (G, c, A, b)]
            x, lam = rec.call(fn if i % 37 or lib == "tf" else sqp_np.lqe_solve, *a)
            check_kkt(rec, "lqe_solve", G, A, c, b, x, lam)
            rec.ok(x)
    if lib == "tf" and batch and rec.case(lib, "batch", n, m):
        G, A, c, b = (np.array([t[j] for t in batch]) for j in range(4))
        x, lam = rec.call(fn, conv(G), conv(c), conv(A), conv(b))
        check_kkt(rec, "lqe_solve, batch", G, A, c, b, x.numpy(), lam.numpy())
        rec.group("batched systems", len(batch))
        rec.ok(x.numpy())


def kkt_generic(rec, lib):
    from parallel_control import sqp_np
    for n in range(1, 7):
        for m in range(1, n + 1):
            for v in range(3):
                if not rec.case(lib, n, m, v):
                    continue
                G = spd((n, v), n) if v < 2 else wit(("G", n), n, n) + wit(("G", n), n, n).T
                A, c, b = wit(("A", n, m, v), m, n), wit(("c", n, v), n, lo=-3, hi=3), wit(("b", m, v), m, lo=-3, hi=3)
                if lib == "np":
                    x, lam = rec.call(sqp_np.lqe_solve, G, c, A, b)
                else:
                    import tensorflow as tf
                    from parallel_control import sqp_tf
                    x, lam = rec.call(sqp_tf.lqe_solve, *[tf.constant(t) for t in (G, c, A, b)])
                check_kkt(rec, "lqe_solve", G, A, c, b, x, lam)
                rec.ok(x)


# ---------------------------------------------------------------------------
# problems:  fun(x, p, o), con(x, p, o) on lists of components; o offers exp and sin
# ---------------------------------------------------------------------------

class JNP:
    def __init__(self):
        import jax.numpy as jnp
        self.exp, self.sin = jnp.exp, jnp.sin


class TFO:
    def __init__(self):
        import tensorflow as tf
        self.exp, self.sin = tf.exp, tf.sin


PROBLEMS = {
    # name: (n, m, fun, con, starts, parameter)
    "circle": (2, 1, lambda x, p, o: x[0] + p[0] * x[1] + 0.1 * (x[0] * x[0] + 2.0 * x[1] * x[1]), lambda x, p, o: [x[0] * x[0] + x[1] * x[1] - 2.0],
               [(-1.0 + a, -0.9 + b) for a in (-0.4, 0.0, 0.3) for b in (-0.3, 0.0, 0.2)], (1.0,)),
    "parabola": (2, 1, lambda x, p, o: x[0] * x[0] + x[1] * x[1], lambda x, p, o: [x[0] + x[0] * x[0] + x[1] - p[0]],
                 [(a, b) for a in (0.0, 0.3, 0.8) for b in (0.0, 0.5, -0.4)], (1.0,)),
    "exponential": (3, 1, lambda x, p, o: o.exp(x[0]) + o.exp(-x[1]) + o.exp(2.0 * x[2]) + 0.5 * x[0] * x[0] + x[1] * x[1] + x[2] * x[2],
                    lambda x, p, o: [x[0] + 2.0 * x[1] - x[2] - p[0]], [(a, b, 0.2) for a in (-0.5, 0.0, 0.6) for b in (-0.3, 0.4)], (0.7,)),
    "two constraints": (4, 2, lambda x, p, o: sum((x[i] - 0.3 * i) * (x[i] - 0.3 * i) * (1.0 + 0.5 * i) for i in range(4)) + 0.2 * x[0] * x[3] * x[3],
                        lambda x, p, o: [x[0] * x[1] + x[2] - p[0], x[0] + o.sin(x[3]) - p[1]],
                        [(a, 0.5, b, 0.4) for a in (0.2, 0.8, 1.1) for b in (0.0, 0.9)], (0.8, 1.2)),
    "rosenbrock": (2, 1, lambda x, p, o: 5.0 * (x[1] - x[0] * x[0]) * (x[1] - x[0] * x[0]) + (1.0 - x[0]) * (1.0 - x[0]),
                   lambda x, p, o: [x[0] * x[0] + x[1] * x[1] - p[0]], [(0.8 + a, 0.6 + b) for a in (-0.1, 0.0, 0.15) for b in (-0.1, 0.0, 0.1)], (1.0,)),
    "nocedal": (5, 3, lambda x, p, o: o.exp(x[0] * x[1] * x[2] * x[3] * x[4]) - 0.5 * (x[0] * x[0] * x[0] + x[1] * x[1] * x[1] + 1.0) * (x[0] * x[0] * x[0] + x[1] * x[1] * x[1] + 1.0),
                lambda x, p, o: [x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3] + x[4] * x[4] - p[0], x[1] * x[2] - 5.0 * x[3] * x[4], x[0] * x[0] * x[0] + x[1] * x[1] * x[1] + 1.0],
                [(-1.71, 1.59, 1.82, -0.763, -0.763), (-1.73, 1.6, 1.83, -0.78, -0.75), (-1.75, 1.6, 1.85, -0.7, -0.75)], (10.0,)),
}
CONVEX = ("parabola", "exponential", "two constraints")


def jax_problem(name):
    import jax.numpy as jnp
    n, m, fun, con, starts, p = PROBLEMS[name]
    o = JNP()
    return (lambda x: fun([x[i] for i in range(n)], p, o)), (lambda x: jnp.stack(con([x[i] for i in range(n)], p, o))), starts


class Newton:
    """Exact Newton-KKT steps with derivatives of the problem functions."""

    def __init__(self, fun, con, n):
        import jax
        import jax.numpy as jnp
        self.fun, self.con = jax.jit(fun), jax.jit(con)
        self.g, self.J = jax.jit(jax.grad(fun)), jax.jit(jax.jacrev(con))
        self.H = jax.jit(jax.jacrev(jax.grad(lambda x, l: fun(x) - jnp.sum(l * con(x)))))

    def grad_lag(self, x, lam):
        return np.asarray(self.g(x)) - np.asarray(self.J(x)).T @ lam

    def steps(self, x, k):
        x = np.asarray(x, float)
        lam = np.zeros(len(np.asarray(self.con(x))))
        out = []
        for _ in range(k):
            crit = np.linalg.norm(self.grad_lag(x, lam))
            H, J = np.asarray(self.H(x, lam)), np.asarray(self.J(x))
            m = len(lam)
            s = np.linalg.solve(np.block([[H, -J.T], [J, np.zeros((m, m))]]), np.concatenate([-np.asarray(self.g(x)), -np.asarray(self.con(x))]))
            x, lam = x + s[:len(x)], s[len(x):]
            out.append((x, lam, crit))
        return out

    def residual(self, x):
        """Constraint violation, and gradient of the objective along the constraint surface."""
        x = np.asarray(x, float)
        g, J = np.asarray(self.g(x)), np.asarray(self.J(x))
        lam = np.linalg.lstsq(J.T, g, rcond=None)[0]
        return float(np.max(np.abs(np.asarray(self.con(x))))), float(np.max(np.abs(g - J.T @ lam)))


def newton_np(rec, name):
    import jax
    from parallel_control import sqp_np
    n, m = PROBLEMS[name][:2]
    fun, con, starts = jax_problem(name)
    ref = Newton(fun, con, n)
    fast = {k: jax.jit(lambda x, k=k: sqp_np.local_eq_fast(fun, con, x, k, quiet=True)) for k in range(1, 7)}
    for i, x0 in enumerate(starts):
        if not rec.case("newton", name, i):
            continue
        x0 = np.array(x0)
        want = ref.steps(x0, 6)
        for k in range(1, 7):
            x, it, crit = rec.call(fast[k], x0)
            rec.close(f"local_eq_fast, {k} iterations", x, want[k - 1][0], tol=1e-7)
            rec.true("local_eq_fast: number of iterations", int(it) == k)
            rec.close(f"local_eq_fast, {k} iterations: criterion", crit, want[k - 1][2], tol=1e-6)
        for k in (1, 2, 3):   # a negative tolerance never stops early
            x, it, crit = rec.call(sqp_np.local_eq, fun, con, x0, k, tol=-1.0, quiet=True)
            rec.close(f"local_eq, {k} iterations", x, want[k - 1][0], tol=1e-7)
            rec.true("local_eq: number of iterations", int(it) == k)
        x, it, crit = rec.call(sqp_np.local_eq, fun, con, x0, quiet=True)
        feas, stat = ref.residual(x)
        rec.true("local_eq reports convergence", float(crit) <= 1e-6 and int(it) < 100, crit=crit, iter=it)
        rec.true("local_eq: constraints hold where it stops", feas <= 1e-6, violation=feas, x=x)
        rec.true("local_eq: stationary where it stops", stat <= 1e-6, gradient=stat, x=x)
        x2, _, _ = rec.call(sqp_np.local_eq_fast, fun, con, x0, 12)
        rec.true("local_eq_fast: constraints and stationarity", max(ref.residual(x2)) <= 1e-8, residual=ref.residual(x2))
        rec.ok(x)


SLOW = {
    # Newton's method converges linearly here, so every single iteration shows
    "quartic": (2, 1, lambda x: (x[0] - x[1]) ** 4, lambda x: [x[0] + x[1] - 1.0]),
    "sextic": (3, 1, lambda x: x[0] ** 6 + (x[1] - 0.2) ** 6 + x[2] ** 2 + 0.3 * x[2], lambda x: [x[0] + x[1] - x[2]]),
    "tangent": (1, 1, lambda x: x[0] * x[0], lambda x: [(x[0] - 0.7) ** 3]),
}


def counts(rec, name, lib):
    """Exactly the requested number of iterations, up to 24, on problems where the iteration is only linearly convergent."""
    import jax
    import jax.numpy as jnp
    from parallel_control import sqp_np
    n, m, f, c = SLOW[name]
    fun, con = (lambda x: f([x[i] for i in range(n)])), (lambda x: jnp.stack(c([x[i] for i in range(n)])))
    ref = Newton(fun, con, n)
    if lib == "tf":
        import tensorflow as tf
        from parallel_control import sqp_tf
        parts = lambda x: [x[..., i] for i in range(n)]
        tfun, tcon = (lambda x, p: f(parts(x)) + 0.0 * p[..., 0]), (lambda x, p: tf.stack(c(parts(x)), axis=-1))
    for v in range(3):
        x0 = wit(("slow", name, v), n, lo=1.0, hi=2.0)
        want = None
        for k in (1, 2, 3, 5, 8, 9, 10, 11, 13, 16, 17, 20, 24):
            if (lib == "tf" and k not in (1, 5, 9, 24)) or not rec.case("counts", name, lib, v, k):
                continue
            want = want or ref.steps(x0, 24)
            if lib == "np":
                x, it, crit = rec.call(sqp_np.local_eq_fast, fun, con, x0, k)
                rec.close(f"local_eq_fast, {k} iterations", x, want[k - 1][0], tol=1e-8)
                rec.true("local_eq_fast: number of iterations", int(it) == k)
                if k in (2, 10, 16):
                    x, it, crit = rec.call(sqp_np.local_eq, fun, con, x0, k, tol=-1.0, quiet=True)
                    rec.close(f"local_eq, {k} iterations", x, want[k - 1][0], tol=1e-8)
                    rec.true("local_eq: number of iterations", int(it) == k)
            else:
                for batch in (False, True):
                    a = lambda z: tf.constant(np.stack([z, z]) if batch else z, tf.float64)
                    xs, lams, _ = rec.call(sqp_tf.local_eq_fast, tfun, tcon, a(x0), a(np.zeros(1)), k, batch=batch)
                    rec.true("number of iterations", xs.shape[0] == k, got=xs.shape)
                    for j in range(k):
                        rec.close(f"local_eq_fast, iteration {j + 1} of {k}", xs[j], np.broadcast_to(want[j][0], xs[j].shape), tol=1e-8)
            rec.ok(x0)


def bfgs(rec, name, damped):
    from parallel_control import sqp_np
    n = PROBLEMS[name][0]
    fun, con, starts = jax_problem(name)
    ref = Newton(fun, con, n)
    for i, x0 in enumerate(starts):
        if not rec.case("bfgs", name, damped, i):
            continue
        x, it, crit = rec.call(sqp_np.bfgs_eq_bt, fun, con, np.array(x0), max_iter=60, tol=1e-5, damped=damped, quiet=True)
        feas, stat = ref.residual(x)
        rec.true("bfgs_eq_bt reports convergence", float(crit) <= 1e-5 and int(it) < 60, crit=crit, iter=it)
        rec.true("bfgs_eq_bt: constraints hold where it stops", feas <= 1e-4, violation=feas, x=x)
        rec.true("bfgs_eq_bt: stationary where it stops", stat <= 1e-4, gradient=stat, x=x)
        rec.ok(x)


def quadratic(rec, n):
    """One step solves a quadratic objective with linear constraints, from any start."""
    import jax
    import jax.numpy as jnp
    from parallel_control import sqp_np
    for m in range(1, n + 1):
        def fast(G, c, A, b, x0, k):
            return sqp_np.local_eq_fast(lambda x: 0.5 * jnp.dot(x, G @ x) + jnp.dot(c, x), lambda x: A @ x - b, x0, k)
        fns = {k: jax.jit(lambda G, c, A, b, x0, k=k: fast(G, c, A, b, x0, k)) for k in (1, 2, 3)}
        for v in range(4):
            G = spd((n, v), n) if v < 3 else np.round(wit(("iG", n), n, n) + wit(("iG", n), n, n).T, 4)
            A, c, b = wit(("qA", n, m, v), m, n), wit(("qc", n, v), n), wit(("qb", m, v), m)
            s = np.linalg.solve(np.block([[G, -A.T], [A, np.zeros((m, m))]]), np.concatenate([-c, b]))[:n]
            for j in range(9):
                if not rec.case("quadratic", n, m, v, j):
                    continue
                x0 = np.zeros(n) if j == 0 else np.full(n, 1.0) if j == 1 else s if j == 2 else np.linalg.solve(G, -c) if j == 3 else wit(("q0", n, j), n, lo=-20, hi=20)
                for k, f in fns.items():
                    x, it, crit = rec.call(f, G, c, A, b, x0)
                    rec.close(f"local_eq_fast, {k} iterations", x, s, tol=1e-8)
                    rec.close("criterion", crit, np.linalg.norm(G @ x0 + c) if k == 1 else 0.0, tol=1e-7, scale=20.0)
                if j % 4 in (0, 3):
                    fun, con = (lambda x: 0.5 * jnp.dot(x, G @ x) + jnp.dot(c, x)), (lambda x: A @ x - b)
                    x, it, crit = rec.call(sqp_np.local_eq, fun, con, x0, quiet=True)
                    rec.close("local_eq", x, s, tol=1e-8)
                    rec.true("local_eq needs at most three iterations", int(it) <= 3, iter=it)
                    x, it, crit = rec.call(sqp_np.local_eq, fun, con, x0, 1, quiet=True)
                    rec.close("local_eq, one iteration", x, s, tol=1e-8)
                rec.ok(x)


# ---------------------------------------------------------------------------
# BFGS updates
# ---------------------------------------------------------------------------

def updates(rec, n):
    from parallel_control import sqp_np
    Bs = [np.eye(n), 3.0 * np.eye(n), spd(("B", n), n), spd(("B2", n), n, lo=0.1), np.diag(np.arange(1.0, n + 1)), 0.01 * np.eye(n)]
    vecs = [np.array(v) for v in itertools.product((-2.0, -1.0, 0.0, 1.0, 2.0), repeat=n)]
    if n == 3:
        vecs = [np.array(v) for v in itertools.product((-1.0, 0.0, 2.0), repeat=3)]
    for bi, B in enumerate(Bs):
        for si, s in enumerate(vecs):
            if not np.any(s):
                continue
            for yi, y in enumerate(vecs):
                if (n == 2 and (si + yi + bi) % 2) or (n == 3 and (si + yi + bi) % 7) or not rec.case("update", n, bi, si, yi):
                    continue
                sy, sBs = s @ y, s @ B @ s
                N = np.asarray(rec.call(sqp_np.bfgs_basic_update, B, s, y, True))
                if sy > 0:
                    rec.close("bfgs_basic_update: secant condition", N @ s, y, tol=1e-9, scale=max(1.0, np.max(np.abs(N))))
                    rec.close("bfgs_basic_update: symmetric", N, N.T, tol=1e-10)
                    rec.true("bfgs_basic_update: positive definite", np.linalg.eigvalsh(N)[0] > 0)
                    keep = _complement(B, s, y)
                    rec.close("bfgs_basic_update: rank two", keep.T @ N @ keep, keep.T @ B @ keep, tol=1e-9, scale=max(1.0, np.max(np.abs(N))))
                else:
                    rec.eq("bfgs_basic_update skips without curvature", N, B)
                D = np.asarray(rec.call(sqp_np.bfgs_damped_update, B, s, y, True))
                rec.close("bfgs_damped_update: symmetric", D, D.T, tol=1e-10)
                rec.true("bfgs_damped_update: positive definite", np.linalg.eigvalsh(D)[0] > 0, D=D)
                if sy >= 0.2 * sBs:
                    rec.close("bfgs_damped_update: secant condition", D @ s, y, tol=1e-9, scale=max(1.0, np.max(np.abs(D))))
                else:
                    th = 0.8 * sBs / (sBs - sy)
                    rec.close("bfgs_damped_update: damped secant condition", D @ s, th * y + (1 - th) * (B @ s), tol=1e-9, scale=max(1.0, np.max(np.abs(D))))
                    rec.close("bfgs_damped_update: curvature one fifth", s @ D @ s, 0.2 * sBs, tol=1e-9)
                rec.ok(N)


def _complement(B, s, y):
    """Directions on which a rank-two BFGS update acts as the old matrix."""
    M = np.stack([y, B @ s])
    u, w, vt = np.linalg.svd(M)
    r = int(np.sum(w > 1e-9))
    return vt[r:].T


# ---------------------------------------------------------------------------
# TensorFlow
# ---------------------------------------------------------------------------

def newton_tf(rec, name, batch):
    import tensorflow as tf
    import jax.numpy as jnp
    from parallel_control import sqp_tf
    n, m, fun, con, starts, p0 = PROBLEMS[name]
    o, oj = TFO(), JNP()
    k = lambda a: tf.constant(np.asarray(a, float), tf.float64)
    parts = lambda x, d: [x[..., i] for i in range(d)]
    f = lambda x, par: fun(parts(x, n), parts(par, len(p0)), o)
    c = lambda x, par: tf.stack(con(parts(x, n), parts(par, len(p0)), o), axis=-1)
    refs = {}

    def ref(p):
        if p not in refs:
            refs[p] = Newton(lambda x: fun(parts(x, n), p, oj), lambda x: jnp.stack(con(parts(x, n), p, oj)), n)
        return refs[p]

    def pars(i):
        return tuple(v * (1.0 + 0.01 * i) for v in p0) if name != "nocedal" else p0
    K = 6
    solve = tf.function(lambda x, par: sqp_tf.local_eq_fast(f, c, x, par, K, batch=batch))
    if batch:
        sets = [list(range(len(starts))), [0], [1, 2]]
    else:
        sets = [[i] for i in range(len(starts))]
    for idx in sets:
        if not rec.case("tf", name, batch, tuple(idx)):
            continue
        X = np.array([starts[i] for i in idx])
        P = np.array([pars(i) for i in idx])
        want = [ref(pars(i)).steps(starts[i], K) for i in idx]
        lam = np.stack([wit(("lam", name, i), m) for i in idx])
        a = (lambda v: k(v)) if batch else (lambda v: k(v[0]))
        pick = (lambda v: v) if batch else (lambda v: v[0])
        if idx == sets[0] or idx == sets[-1]:
            v, g = rec.call(sqp_tf.fun_value_grad, f, a(X), a(P), batch=batch)
            rec.close("fun_value_grad: value", v, pick(np.array([np.asarray(ref(pars(i)).fun(x)) for i, x in zip(idx, X)])), tol=1e-10)
            rec.close("fun_value_grad: gradient", g, pick(np.array([np.asarray(ref(pars(i)).g(x)) for i, x in zip(idx, X)])), tol=1e-10)
            v, J = rec.call(sqp_tf.con_value_jac, c, a(X), a(P), batch=batch)
            rec.close("con_value_jac: value", v, pick(np.array([np.asarray(ref(pars(i)).con(x)) for i, x in zip(idx, X)])), tol=1e-10)
            rec.close("con_value_jac: jacobian", J, pick(np.array([np.asarray(ref(pars(i)).J(x)) for i, x in zip(idx, X)])), tol=1e-10)
            v, g, H = rec.call(sqp_tf.lag_value_grad_hess, f, c, a(X), a(lam), a(P), batch=batch)
            R = [ref(pars(i)) for i in idx]
            rec.close("lag_value_grad_hess: value", v, pick(np.array([float(r.fun(x)) - l @ np.asarray(r.con(x)) for r, x, l in zip(R, X, lam)])), tol=1e-10)
            rec.close("lag_value_grad_hess: gradient", g, pick(np.array([r.grad_lag(x, l) for r, x, l in zip(R, X, lam)])), tol=1e-10)
            rec.close("lag_value_grad_hess: hessian", H, pick(np.array([np.asarray(r.H(x, l)) for r, x, l in zip(R, X, lam)])), tol=1e-10)
        xs, lams, crits = rec.call(solve, a(X), a(P))
        for j in range(K):
            rec.close(f"local_eq_fast, iteration {j + 1}: x", xs[j], pick(np.array([w[j][0] for w in want])), tol=1e-7)
            rec.close(f"local_eq_fast, iteration {j + 1}: multipliers", lams[j], pick(np.array([w[j][1] for w in want])), tol=1e-6)
            if not batch:
                rec.close(f"local_eq_fast, iteration {j + 1}: criterion", crits[j], want[0][j][2], tol=1e-6)
        if idx == sets[0]:
            for K2 in (1, None):
                xs, lams, crits = rec.call(sqp_tf.local_eq_fast, f, c, a(X), a(P), *(() if K2 is None else (K2,)), batch=batch)
                n_it = 5 if K2 is None else K2
                rec.true("number of iterations", xs.shape[0] == lams.shape[0] == crits.shape[0] == n_it, got=xs.shape)
                rec.close("local_eq_fast, not compiled", xs[-1], pick(np.array([w[n_it - 1][0] for w in want])), tol=1e-7)
        rec.ok(xs[-1].numpy())


def quadratic_tf(rec, n):
    import tensorflow as tf
    from parallel_control import sqp_tf
    mv = tf.linalg.matvec
    k = lambda a: tf.constant(np.asarray(a, float), tf.float64)
    for m in range(1, n + 1):
        G, A, c, b = spd(("tq", n), n), wit(("tqA", n, m), m, n), wit(("tqc", n), n), wit(("tqb", m), m)
        starts = np.stack([np.zeros(n), np.ones(n), np.linalg.solve(G, -c)] + [wit(("t0", n, j), n, lo=-20, hi=20) for j in range(4)])
        f = lambda x, par: 0.5 * tf.reduce_sum(x * mv(k(G), x), axis=-1) + tf.reduce_sum(par * x, axis=-1)
        g = lambda x, par: mv(k(A), x) - k(b)
        s = np.linalg.solve(np.block([[G, -A.T], [A, np.zeros((m, m))]]), np.concatenate([-c, b]))
        for batch in (True, False):
            for j in ([None] if batch else range(len(starts))):
                if rec.case("quadratic tf", n, m, batch, j):
                    X = starts if batch else starts[j]
                    par = np.repeat(c[None], len(starts), 0) if batch else c
                    xs, lams, _ = rec.call(sqp_tf.local_eq_fast, f, g, k(X), k(par), 2, batch=batch)
                    for it in range(2):
                        rec.close("one step solves a quadratic problem", xs[it], np.broadcast_to(s[:n], X.shape), tol=1e-8)
                        rec.close("multipliers", lams[it], np.broadcast_to(s[n:], X.shape[:-1] + (m,)), tol=1e-7)
                    rec.ok(xs.numpy())


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for lib in ("np", "tf"):
        for n, m in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
            out.append((6, "kkt", dict(lib=lib, n=n, m=m, deep=deep)))
        out.append((4, "kkt_generic", dict(lib=lib)))
    for name in PROBLEMS:
        out.append((15, "newton_np", dict(name=name)))
        out += [(15, "newton_tf", dict(name=name, batch=b)) for b in (False, True)]
    out += [(12, "counts", dict(name=k, lib=lib)) for k in SLOW for lib in ("np", "tf")]
    out += [(12, "bfgs", dict(name=k, damped=d)) for k in CONVEX for d in (True, False)]
    out += [(12, "quadratic", dict(n=n)) for n in range(1, 5 if not deep else 7)]
    out += [(12, "quadratic_tf", dict(n=n)) for n in range(1, 4 if not deep else 6)]
    out += [(6, "updates", dict(n=n)) for n in ((1, 2) if not deep else (1, 2, 3))]
    return out
