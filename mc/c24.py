"""C24: iterated nonlinear LQT."""
import itertools
import numpy as np
from mc.core import wit
from mc import lqt
from mc.refs import LQ

BOUNDS = ("7 models (orders 1..4, 1..2 inputs, linear, bilinear, trigonometric, cubic, nonlinear in the input, the bundled vehicle) x horizons "
          "1..5 x 6 nominal trajectories (zero, simulated, inconsistent, repeated, equal states, equal controls) x 5 cost feature sets x 3 methods, "
          "NumPy; horizons 1..3, double precision and two parallelism limits, TensorFlow (1..8 thorough); horizons to 20 (40) for one model; 1..4 successive iterations; "
          "fixed points of the iteration against the gradient of the true cost; one iteration on linear models "
          "from every nominal; vehicle model and Jacobians on a grid of 9 headings x 3 speeds x 3 positions x 4 inputs "
          "x 3 sampling periods, NumPy and TensorFlow; the speed-test iterations and generator")
ASSUMPTIONS = ["joint stage weight positive semidefinite, input weight positive definite (as in C07)",
               "models supply their own derivatives; the bundled model's are checked by complex-step differentiation",
               "rounding up to 1e-7 relative"]

# ---------------------------------------------------------------------------
# models: f, Fx, Fu on 1-D arrays (NumPy) and on batches (TensorFlow)
# ---------------------------------------------------------------------------

A3 = wit("lin A", 3, 3)
B3 = wit("lin B", 3, 2)
C3 = wit("lin c", 3)


class Model:
    def __init__(self, n, m, f, Fx, Fu):
        self.n, self.m, self.f, self.Fx, self.Fu = n, m, f, Fx, Fu


def vehicle(dt):
    def f(x, u):
        return np.array([x[0] + x[3] * np.cos(x[2]) * dt, x[1] + x[3] * np.sin(x[2]) * dt, x[2] + u[1] * dt, x[3] + u[0] * dt])

    def cs(fn, z):  # complex-step derivative
        h = 1e-30
        return np.stack([np.imag(fn(z + 1j * h * e)) / h for e in np.eye(len(z))], axis=1)
    return Model(4, 2, f, lambda x, u: cs(lambda z: f(z, u), np.asarray(x, complex)), lambda x, u: cs(lambda z: f(x, z), np.asarray(u, complex)))


MODELS = {
    "sine": Model(1, 1, lambda x, u: np.array([-np.sin(x[0]) + u[0]]), lambda x, u: np.array([[-np.cos(x[0])]]), lambda x, u: np.eye(1)),
    "cubic": Model(2, 1, lambda x, u: np.array([x[0] + 0.2 * x[1], x[1] + 0.2 * (u[0] - x[0] ** 3 + u[0] * x[1])]),
                   lambda x, u: np.array([[1.0, 0.2], [-0.6 * x[0] ** 2, 1.0 + 0.2 * u[0]]]),
                   lambda x, u: np.array([[0.0], [0.2 + 0.2 * x[1]]])),
    "bilinear": Model(2, 2, lambda x, u: np.array([x[0] + 0.3 * u[0] * x[1] + 0.1 * u[1], 0.8 * x[1] + 0.3 * u[1] * x[0] + 0.2 * u[0] * u[1] + 0.5]),
                      lambda x, u: np.array([[1.0, 0.3 * u[0]], [0.3 * u[1], 0.8]]),
                      lambda x, u: np.array([[0.3 * x[1], 0.1], [0.2 * u[1], 0.3 * x[0] + 0.2 * u[0]]])),
    "saturated": Model(2, 2, lambda x, u: np.array([0.9 * x[0] + 0.2 * x[1] + np.sin(u[0]), x[1] - 0.3 * x[0] + 0.5 * u[1] - 0.1 * u[1] ** 3 + 0.2 * u[0] * u[1]]),
                       lambda x, u: np.array([[0.9, 0.2], [-0.3, 1.0]]),
                       lambda x, u: np.array([[np.cos(u[0]), 0.0], [0.2 * u[1], 0.5 - 0.3 * u[1] ** 2 + 0.2 * u[0]]])),
    "linear": Model(3, 2, lambda x, u: A3 @ x + B3 @ u + C3, lambda x, u: A3.copy(), lambda x, u: B3.copy()),
    "exp": Model(3, 1, lambda x, u: np.array([x[1], x[2] * np.exp(-0.2 * x[0]), 0.5 * np.cos(x[0] * x[1]) + u[0]]),
                 lambda x, u: np.array([[0.0, 1.0, 0.0], [-0.2 * x[2] * np.exp(-0.2 * x[0]), 0.0, np.exp(-0.2 * x[0])],
                                        [-0.5 * np.sin(x[0] * x[1]) * x[1], -0.5 * np.sin(x[0] * x[1]) * x[0], 0.0]]),
                 lambda x, u: np.array([[0.0], [0.0], [1.0]])),
    "vehicle": vehicle(0.1),
}
LINEAR = ("linear",)
_TF = {}


def tf_model(name):
    """The same models on batches of tensors (one set of functions per process, so that graphs are reused)."""
    if name in _TF:
        return _TF[name]
    import tensorflow as tf
    k = lambda a: tf.constant(a, tf.float64)
    col = lambda *c: tf.stack(c, axis=-1)
    mat = lambda *rows: tf.stack([col(*r) for r in rows], axis=-2)
    if name == "vehicle":
        from parallel_control import nonlinear_model_tf as N
        out = (N.nonlinear_model_f, N.nonlinear_model_Fx, N.nonlinear_model_Fu)
    elif name == "linear":
        mv = tf.linalg.matvec
        rep = lambda M, x: tf.broadcast_to(k(M), tf.concat([tf.shape(x)[:1], M.shape], 0))
        out = (lambda x, u: mv(k(A3), x) + mv(k(B3), u) + k(C3), lambda x, u: rep(A3, x), lambda x, u: rep(B3, x))
    else:
        def split(fn):
            return lambda x, u: fn([x[..., i] for i in range(x.shape[-1])], [u[..., i] for i in range(u.shape[-1])], tf.ones_like(x[..., 0]))
        one = {
            "sine": (lambda x, u, I: col(-tf.sin(x[0]) + u[0]), lambda x, u, I: mat((-tf.cos(x[0]),)), lambda x, u, I: mat((I,))),
            "cubic": (lambda x, u, I: col(x[0] + 0.2 * x[1], x[1] + 0.2 * (u[0] - x[0] ** 3 + u[0] * x[1])),
                      lambda x, u, I: mat((I, 0.2 * I), (-0.6 * x[0] ** 2, 1.0 + 0.2 * u[0])),
                      lambda x, u, I: mat((0 * I,), (0.2 + 0.2 * x[1],))),
            "bilinear": (lambda x, u, I: col(x[0] + 0.3 * u[0] * x[1] + 0.1 * u[1], 0.8 * x[1] + 0.3 * u[1] * x[0] + 0.2 * u[0] * u[1] + 0.5),
                         lambda x, u, I: mat((I, 0.3 * u[0]), (0.3 * u[1], 0.8 * I)),
                         lambda x, u, I: mat((0.3 * x[1], 0.1 * I), (0.2 * u[1], 0.3 * x[0] + 0.2 * u[0]))),
            "saturated": (lambda x, u, I: col(0.9 * x[0] + 0.2 * x[1] + tf.sin(u[0]), x[1] - 0.3 * x[0] + 0.5 * u[1] - 0.1 * u[1] ** 3 + 0.2 * u[0] * u[1]),
                          lambda x, u, I: mat((0.9 * I, 0.2 * I), (-0.3 * I, I)),
                          lambda x, u, I: mat((tf.cos(u[0]), 0 * I), (0.2 * u[1], 0.5 - 0.3 * u[1] ** 2 + 0.2 * u[0]))),
            "exp": (lambda x, u, I: col(x[1], x[2] * tf.exp(-0.2 * x[0]), 0.5 * tf.cos(x[0] * x[1]) + u[0]),
                    lambda x, u, I: mat((0 * I, I, 0 * I), (-0.2 * x[2] * tf.exp(-0.2 * x[0]), 0 * I, tf.exp(-0.2 * x[0])),
                                        (-0.5 * tf.sin(x[0] * x[1]) * x[1], -0.5 * tf.sin(x[0] * x[1]) * x[0], 0 * I)),
                    lambda x, u, I: mat((0 * I,), (0 * I,), (I,))),
        }[name]
        out = tuple(split(f) for f in one)
    _TF[name] = out
    return out


def np_model(name):
    if name == "vehicle":
        from parallel_control.nonlinear_model_np import NonlinearModel
        return NonlinearModel()
    return MODELS[name]


# ---------------------------------------------------------------------------
# reference
# ---------------------------------------------------------------------------

def linearised(q, M, us, xs):
    F = [M.Fx(xs[k], us[k]) for k in range(q.T)]
    L = [M.Fu(xs[k], us[k]) for k in range(q.T)]
    c = [M.f(xs[k], us[k]) - F[k] @ xs[k] - L[k] @ us[k] for k in range(q.T)]
    d = {f: getattr(q, f) for f in LQ.FIELDS + ("HT", "rT", "XT")}
    d.update(F=F, L=L, c=c)
    return LQ(**d)


def step(q, M, us, xs):
    p = linearised(q, M, us, xs)
    _, _, K, d = p.dp()
    return p.rollout(xs[0], K, d)


def simulate(M, x0, us):
    xs = [np.asarray(x0, float)]
    for u in us:
        xs.append(M.f(xs[-1], u))
    return xs


def nominal(tag, kind, M, T):
    x0 = wit((tag, "x0"), M.n)
    us = [wit((tag, "u", k), M.m) for k in range(T)]
    if kind == "zero":
        return [np.zeros(M.m) for _ in range(T)], [x0] + [np.zeros(M.n) for _ in range(T)]
    if kind == "simulated":
        return us, simulate(M, x0, us)
    if kind == "repeated":
        return [us[0]] * T, [x0] * (T + 1)
    if kind == "waiting":   # the state stays, the control does not
        return us, [x0] * (T + 1)
    if kind == "held":      # the control stays, the state does not
        return [us[0]] * T, [x0] + [wit((tag, "x", k), M.n, lo=-1.5, hi=1.5) for k in range(T)]
    return us, [x0] + [wit((tag, "x", k), M.n, lo=-1.5, hi=1.5) for k in range(T)]


KINDS = ("zero", "simulated", "inconsistent", "repeated", "waiting", "held")
FEATS = (("r",), ("r", "H", "tv"), ("c", "r", "H", "M", "s"), ("r", "M", "s", "Z", "tv"), lqt.FEATURES)


def problem(name, T, feats, v=0):
    M = MODELS[name]
    return lqt.problem(("C24", name, v), T, M.n, M.m, max(1, M.n - 1), feats)


def compare(rec, what, got, want):
    gu, gx = got
    wu, wx = want
    rec.true(f"{what}: lengths", len(gu) == len(wu) and len(gx) == len(wx), got=(len(gu), len(gx)))
    rec.close(f"{what}: controls", np.array(gu), np.array(wu), tol=1e-7)
    rec.close(f"{what}: states", np.array(gx), np.array(wx), tol=1e-7)


def iterate_np(rec, name, Ts, iters=1):
    from parallel_control.nlqt_np import NLQT
    M = MODELS[name]
    for T, kind, feats in itertools.product(Ts, KINDS, FEATS):
        if not rec.case("np", name, T, kind, feats, iters):
            continue
        q = problem(name, T, feats)
        us, xs = nominal((name, T), kind, M, T)
        u0, x0 = [u.copy() for u in us], [x.copy() for x in xs]
        p = linearised(q, M, us, xs)
        if iters == 1:
            o = NLQT(lqt.build(q), np_model(name))
            rec.call(o.linearize, us, xs)
            rec.close("linearize: F", np.array(o.lqt.F), np.array(p.F), tol=1e-10)
            rec.close("linearize: c", np.array(o.lqt.c), np.array(p.c), tol=1e-10)
            rec.close("linearize: L", np.array(o.lqt.L), np.array(p.L), tol=1e-10)
            got = rec.call(o.simulate, xs[0], us)
            want = simulate(M, xs[0], us)
            rec.close("simulate", np.array(got), np.array(want), tol=1e-10)
            rec.close("cost", rec.call(o.cost, xs[0], us), q.cost(us, want), tol=1e-9)
        for method in (0, 1, 2):
            o = NLQT(lqt.build(q), np_model(name))
            gu, gx, wu, wx = us, xs, us, xs
            for it in range(iters):
                gu, gx = rec.call(o.iterate, gu, gx, method) if method else rec.call(o.iterate, gu, gx)
                wu, wx = step(q, M, wu, wx)
            compare(rec, f"iterate, method {method}, {iters} iterations", (gu, gx), (wu, wx))
            if name in LINEAR:
                compare(rec, "linear model", (gu, gx), q_linear(q, M).kkt(xs[0]))
        for a, b in zip(us + xs, u0 + x0):
            rec.eq("nominal trajectory modified", a, b)
        rec.ok(np.array(wx))


def q_linear(q, M):
    d = {f: getattr(q, f) for f in LQ.FIELDS + ("HT", "rT", "XT")}
    d.update(F=[A3] * q.T, L=[B3] * q.T, c=[C3] * q.T)
    return LQ(**d)


def fixed_point(rec, name):
    """Where the iteration settles, the true nonlinear cost is stationary in every control."""
    from parallel_control.nlqt_np import NLQT
    M = MODELS[name]
    for T, v, method in itertools.product((1, 2, 3, 4), (0, 1), (0, 1, 2)):
        if not rec.case("fixed point", name, T, v, method):
            continue
        q = problem(name, T, ("r", "H", "tv"), v)
        for k in range(T):
            q.U[k] = q.U[k] + 4.0 * np.eye(M.m)   # keep the solution near the origin, where the iteration contracts
        o = NLQT(lqt.build(q), np_model(name))
        us, xs = nominal((name, T, v), "simulated", M, T)
        d = 1.0
        for it in range(60):
            vu, vx = rec.call(o.iterate, us, xs, method)
            d = np.max(np.abs(np.array(vu) - np.array(us))) + np.max(np.abs(np.array(vx) - np.array(xs)))
            us, xs = vu, vx
            if d < 1e-11:
                break
        if d < 1e-11:
            rec.group("settled")
            rec.close("states follow the nonlinear model", np.array(xs), np.array(simulate(M, xs[0], us)), tol=1e-8)
            z = np.array(us)
            h = 1e-5
            J = lambda w: rec.call(o.cost, xs[0], list(w.reshape(z.shape)))
            g = [(J(z.ravel() + h * e) - J(z.ravel() - h * e)) / (2 * h) for e in np.eye(z.size)]
            rec.close("gradient of the true cost", np.array(g), np.zeros(z.size), tol=1e-5)
        rec.ok(np.array(us))


def vehicle_model(rec):
    from parallel_control.nonlinear_model_np import NonlinearModel
    from parallel_control import nonlinear_model_tf as N
    import tensorflow as tf
    heads = np.linspace(-4.0, 4.0, 9)
    pts = [np.array([p, -2 * p + 1, h, s]) for p in (-3.0, 0.0, 7.5) for h in heads for s in (-2.0, 0.0, 1.5)]
    ins = [np.array(u) for u in ((0.0, 0.0), (1.0, -0.5), (-2.0, 3.0), (0.3, 0.0))]
    for dt in (None, 0.1, 0.5, 1.0):
        M = vehicle(0.1 if dt is None else dt)
        o = NonlinearModel() if dt is None else NonlinearModel(dt) if dt < 1 else NonlinearModel(dt=dt, seed=3)
        X, U = [], []
        for i, x in enumerate(pts):
            for j, u in enumerate(ins):
                if rec.case("vehicle", dt, i, j):
                    rec.close("f", rec.call(o.f, x, u), M.f(x, u), tol=1e-12)
                    rec.close("Fx", rec.call(o.Fx, x, u), M.Fx(x, u), tol=1e-12)
                    rec.close("Fu", rec.call(o.Fu, x, u), M.Fu(x, u), tol=1e-12)
                    rec.ok(M.f(x, u))
                X.append(x)
                U.append(u)
        for lead in (len(X), 1, 2):
            if rec.case("vehicle tf", dt, lead):
                xs, us = tf.constant(np.array(X[-lead:])), tf.constant(np.array(U[-lead:]))
                kw = {} if dt is None else {"dt": dt}
                for fn, ref in ((N.nonlinear_model_f, M.f), (N.nonlinear_model_Fx, M.Fx), (N.nonlinear_model_Fu, M.Fu)):
                    rec.close(fn.__name__, rec.call(fn, xs, us, **kw).numpy(), np.array([ref(x, u) for x, u in zip(X[-lead:], U[-lead:])]), tol=1e-12)
                rec.ok(lead)


# ---------------------------------------------------------------------------
# TensorFlow
# ---------------------------------------------------------------------------

TF_FEATS = (("r",), ("r", "H", "tv"))


def tf_problem(q):
    import tensorflow as tf
    k = lambda a: tf.constant(np.array(a), tf.float64)
    return k(q.H), k(q.HT), k(q.r), k(q.rT), k(q.X), k(q.XT), k(q.U)


def iterate_tf(rec, name, T, method, limits=(None,)):
    import tensorflow as tf
    from parallel_control import nlqt_tf as N
    M = MODELS[name]
    f, Fx, Fu = tf_model(name)
    fn = {0: N.nlqt_iterate_par_1, 1: N.nlqt_iterate_par_2, 2: N.nlqt_iterate_seq}[method]
    for kind, feats, lim in itertools.product(KINDS, TF_FEATS, limits if method != 2 else (None,)):
        if not rec.case("tf", name, T, method, kind, feats, lim):
            continue
        # one output dimension for every feature set, so that one graph serves all
        q = lqt.problem(("C24", name), T, M.n, M.m, M.n, feats, pT=M.n)
        us, xs = nominal((name, T), kind, M, T)
        tu, tx = tf.constant(np.array(us)), tf.constant(np.array(xs))
        data = tf_problem(q)
        kw = {} if lim is None else {"max_parallel": lim}
        gu, gx = rec.call(fn, tu, tx, f, Fx, Fu, *data, **kw)
        compare(rec, fn._python_function.__name__ if hasattr(fn, "_python_function") else str(method), (gu.numpy(), gx.numpy()), step(q, M, us, xs))
        if method == 2:
            p = linearised(q, M, us, xs)
            for nm, a, b in zip(("Fs", "cs", "Ls"), rec.call(N.nlqt_linearize, tu, tx[:-1], f, Fx, Fu), (p.F, p.c, p.L)):
                rec.close("nlqt_linearize: " + nm, a.numpy(), np.array(b), tol=1e-10)
            want = simulate(M, xs[0], us)
            rec.close("nlqt_simulate", rec.call(N.nlqt_simulate, tx[0], tu, f).numpy(), np.array(want), tol=1e-10)
            J = rec.call(N.nlqt_cost, tx[0], tu, f, *data)
            rec.close("nlqt_cost", J.numpy(), q.cost(us, want), tol=1e-9)
        rec.ok(gx.numpy())


def speedtest(rec, part):
    """The timed functions are ten iterations; the generator yields the bundled problem of the requested length."""
    import tensorflow as tf
    from parallel_control import nonlinear_speedtest as S
    from parallel_control.nonlinear_model_np import NonlinearModel
    if part == "generator":
        if rec.case("generator"):
            got = list(rec.call(lambda: list(S.nonlinear_generator(start=1, stop=1.5, num=3))))
            for T, (us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us) in zip((10, 17, 31), got):
                m = NonlinearModel()
                o, x0 = m.getLQT(m.genData(T)[0])
                n = len(o.F)
                rec.eq("controls", us.numpy(), np.zeros((n, 2)))
                rec.eq("states", xs.numpy(), np.concatenate([[x0], np.zeros((n, 4))]))
                for nm, a, b in (("H", Hs, o.H), ("HT", HT, o.HT), ("r", rs, o.r), ("rT", rT, o.rT), ("X", Xs, o.X), ("XT", XT, o.XT), ("U", Us, o.U)):
                    rec.close("generator: " + nm, a.numpy(), np.array(b), tol=1e-12)
                M = vehicle(0.1)
                z, w = tf.constant(wit("gx", 2, 4)), tf.constant(wit("gu", 2, 2))
                for fn, ref in ((f, M.f), (Fx, M.Fx), (Fu, M.Fu)):
                    rec.close("generator: model", fn(z, w).numpy(), np.array([ref(a, b) for a, b in zip(z.numpy(), w.numpy())]), tol=1e-12)
            rec.true("three problems", len(got) == 3)
            rec.ok(n)
        return
    name = "sine"
    M = MODELS[name]
    f, Fx, Fu = tf_model(name)
    for T in (1, 3, 4):
        if rec.case("ten iterations", part, T):
            q = lqt.problem(("C24", name), T, 1, 1, 1, ("r", "H", "tv"), pT=1)
            for k in range(T):
                q.U[k] = q.U[k] + 2.0   # successive iterations contract
            us, xs = nominal((name, T), "simulated", M, T)
            gu, gx = rec.call(getattr(S, "nlqt_iter_" + part), tf.constant(np.array(us)), tf.constant(np.array(xs)), f, Fx, Fu, *tf_problem(q))
            wu, wx = us, xs
            for _ in range(10):
                wu, wx = step(q, M, wu, wx)
            compare(rec, "nlqt_iter_" + part, (gu.numpy(), gx.numpy()), (wu, wx))
            if T == 3:
                Ts, D, times = rec.call(getattr(S, f"nlqt_iter_{part}_speedtest"),
                                        [(tf.constant(np.array(us)), tf.constant(np.array(xs)), f, Fx, Fu, *tf_problem(q))], n_iter=1)
                rec.true("speed test reports the problem sizes", [int(a) for a in Ts] == [T] and [int(a) for a in D] == [1] and len(times) == 1)
            rec.ok(wx)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    top = 8 if deep else 5
    for name in MODELS:
        out += [(4, "iterate_np", dict(name=name, Ts=[T])) for T in range(1, top + 1)]
        for it in (2, 4):
            if name not in ("linear",):
                out.append((4, "iterate_np", dict(name=name, Ts=[2, 3] if not deep else [1, 2, 3, 4, 5], iters=it)))
        out.append((6, "fixed_point", dict(name=name)))
        for T in range(1, (8 if deep else 3) + 1):
            for m in (0, 1, 2):
                out.append((10 + T, "iterate_tf", dict(name=name, T=T, method=m, limits=(None, T) if deep or T == 3 else (None,))))
    out += [(8, "iterate_np", dict(name="cubic", Ts=[T])) for T in ((7, 12, 16, 17, 20) if not deep else range(9, 41))]
    out += [(10, "iterate_tf", dict(name="cubic", T=T, method=m)) for T in ((5, 8) if not deep else (9, 12, 16, 17, 33)) for m in (0, 1, 2)]
    out.append((6, "vehicle_model", {}))
    out += [(20, "speedtest", dict(part=p)) for p in ("generator", "seq", "par_1", "par_2")]
    return out
