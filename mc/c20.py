"""C20: Runge-Kutta step and linear discretisation."""
import itertools
import numpy as np
from mc.core import wit, digits

BOUNDS = ("Runge-Kutta: every monomial right-hand side t^0..t^3, start times {-1.5,0,0.7,2}, steps {0.01,0.5,1,2} of both "
          "signs, scalar/vector/matrix states, every calling form (with/without time, with/without parameter); every "
          "linear system with matrix entries in {-1,0,1} of order 1 and 2 and generic ones of order 3; local order on "
          "six nonlinear and time-varying right-hand sides in every form and both directions. Discretisation: every "
          "F with entries in {-1,0,1} of order 1 and 2 (order 3: structured and generic), noise and input gains with "
          "1 and 2 columns, Qc default/scalar/matrix, G default/given, steps {0,0.1,1,2.5}, integer and floating types; "
          "stable, oscillating and unstable systems over steps of 1e-9 to 1000 time constants; integrator chains of order 1 to 3 in every unit of "
          "time, noise and state, entry by entry (larger entries, order 3 grids and more steps thorough); additivity over all pairs of steps")
ASSUMPTIONS = ["reference matrix exponential: Taylor series with squaring in extended precision; reference covariances: "
               "Gauss-Legendre quadrature with 40 nodes", "rounding up to 1e-9 (double), 1e-4 (single) relative"]


# ---------------------------------------------------------------------------
# Runge-Kutta
# ---------------------------------------------------------------------------

class NP:
    name = "numpy"
    sin = staticmethod(np.sin)

    def __init__(self, rec):
        from parallel_control import diffeq_np
        self.rec, self.fn = rec, diffeq_np.rk4
        self.mv = lambda A, x: A @ x

    def const(self, x):
        return np.asarray(x, dtype=float)

    def forms(self, f, dt, x, t, p):
        """Every calling form; f is a function of (x, t, p) that may ignore t and p."""
        c = self.rec.call
        out = [("t,p", c(self.fn, lambda x, a, b: f(x, a, b), dt, x, t, p)),
               ("t", c(self.fn, lambda x, a: f(x, a, p), dt, x, t))]
        if t == 0.0 or f.autonomous:
            out += [("t=0,p", c(self.fn, lambda x, a, b: f(x, a, b), dt, x, 0.0, p))]
        if f.autonomous:
            out += [("p", c(self.fn, lambda x, b: f(x, None, b), dt, x, param=p)),
                    ("", c(self.fn, lambda x: f(x, None, p), dt, x))]
        return [(n, np.asarray(v, dtype=float)) for n, v in out]


class TF:
    name = "tensorflow"

    def __init__(self, rec):
        import tensorflow as tf
        from parallel_control import diffeq_tf
        self.tf, self.rec, self.fn, self.sin = tf, rec, diffeq_tf.rk4, tf.sin
        self.mv = tf.linalg.matvec
        self.cache = {}

    def const(self, x):
        return self.tf.constant(np.asarray(x, dtype=float), dtype=self.tf.float64)

    def forms(self, f, dt, x, t, p):
        c, k = self.rec.call, self.const
        # one function object per right-hand side: one trace per form
        g = self.cache.setdefault(id(f), (f, lambda x, a, b: f(x, a, b)))[1]
        out = [("t,p", c(self.fn, g, k(dt), x, k(t), k(p)))]
        if (t == 0.0 and f.poly) or f.autonomous:
            out += [("p", c(self.fn, g, k(dt), x, param=k(p)))]
        if not f.param:
            out += [("t", c(self.fn, g, k(dt), x, k(t)))]
            if (t == 0.0 and f.poly) or f.autonomous:
                out += [("", c(self.fn, g, k(dt), x))]
        return [(n, np.asarray(v.numpy(), dtype=float)) for n, v in out]


class Rhs:
    """A right-hand side with its flags."""

    def __init__(self, fn, autonomous=False, param=False, poly=False):
        self.fn, self.autonomous, self.param, self.poly = fn, autonomous, param, poly

    def __call__(self, x, t, p):
        return self.fn(x, t, p)


TIMES = [-1.5, 0.0, 0.7, 2.0]
STEPS = [s * h for h in (0.01, 0.5, 1.0, 2.0) for s in (1, -1)]


def quadrature(rec, lib, shape):
    L = (NP if lib == "np" else TF)(rec)
    x0 = wit(("x0", shape), *shape)
    D = wit(("D", shape), *shape)
    x, Dc = L.const(x0), L.const(D)
    fs = {j: Rhs(lambda x, t, p, j=j: Dc * (t * t * t if j == 3 else t * t if j == 2 else t if j == 1 else 1.0 + 0.0 * t)
                 if t is not None else Dc, autonomous=j == 0, poly=True) for j in range(4)}
    fp = {j: Rhs(lambda x, t, p, j=j: p * Dc * (t * t * t if j == 3 else t * t if j == 2 else t if j == 1 else 1.0)
                 if t is not None else p * Dc, autonomous=j == 0, param=True, poly=True) for j in range(4)}
    for j in range(4):
        for t in TIMES:
            for dt in STEPS:
                if not rec.case(lib, shape, j, t, dt):
                    continue
                inc = ((t + dt) ** (j + 1) - t ** (j + 1)) / (j + 1)
                for nm, v in L.forms(fs[j], dt, x, t, 1.0):
                    rec.close(f"{L.name}, form ({nm}), dx/dt = t^{j}", v, x0 + inc * D, 1e-12)
                for nm, v in L.forms(fp[j], dt, x, t, -1.7):
                    rec.close(f"{L.name}, form ({nm}), dx/dt = p t^{j}", v, x0 - 1.7 * inc * D, 1e-12)
                rec.ok(inc)


def linear(rec, lib, n, part=0, parts=1):
    L = (NP if lib == "np" else TF)(rec)
    mats = [np.array(digits(i, 3, n * n), float).reshape(n, n) - 1 for i in range(3 ** (n * n))] if n <= 2 else \
        [wit(("F", i), n, n) for i in range(12)]
    x0 = wit(("x0", n), n)
    x = L.const(x0)
    fp = Rhs(lambda x, t, p: L.mv(p, x), autonomous=True, param=True)
    for F in mats[part::parts]:
        for dt in (0.1, -0.3, 1.0):
            if not rec.case(lib, n, F.tolist(), dt):
                continue
            want, term = x0.copy(), x0.copy()
            for j in range(1, 5):
                term = F @ term * dt / j
                want = want + term
            for nm, v in L.forms(fp, dt, x, 0.7, F if lib != "np" else F):
                rec.close(f"{L.name}, form ({nm}), dx/dt = F x is the fourth-order Taylor step", v, want, 1e-12)
            rec.ok(want)


def order(rec, lib):
    """Local error is fifth order: halving the step divides it by 32."""
    L = (NP if lib == "np" else TF)(rec)
    s = L.sin
    A = wit("ordA", 2, 2)
    Ac = L.const(A)
    rhs = {"x^2": (Rhs(lambda x, t, p: x * x, True), 2), "p x - x^3": (Rhs(lambda x, t, p: p * x - x * x * x, True, True), 2),
           "sin(x) + A x": (Rhs(lambda x, t, p: s(x) + L.mv(Ac, x), True), 2),
           "sin(t) x": (Rhs(lambda x, t, p: s(1.3 * t) * x), 2),
           "x sin(t x) + t^2": (Rhs(lambda x, t, p: x * s(t * x) + t * t), 2),
           "p sin(2 t + x)": (Rhs(lambda x, t, p: p * s(2.0 * t + x), False, True), 2)}
    from scipy.integrate import solve_ivp
    npl = NP(rec)
    for name, (f, n) in rhs.items():
        x0 = np.array([0.4, -0.7])
        x = L.const(x0)
        p = 0.8
        # reference right-hand side in NumPy
        ref = {"x^2": lambda t, y: y * y, "p x - x^3": lambda t, y: p * y - y ** 3, "sin(x) + A x": lambda t, y: np.sin(y) + A @ y,
               "sin(t) x": lambda t, y: np.sin(1.3 * t) * y, "x sin(t x) + t^2": lambda t, y: y * np.sin(t * y) + t * t,
               "p sin(2 t + x)": lambda t, y: p * np.sin(2 * t + y)}[name]
        for t in TIMES:
            for sg in (1, -1):
                if not rec.case(lib, name, t, sg):
                    continue
                errs = {}
                for h in (0.2, 0.1, 0.05, 0.025):
                    y = solve_ivp(ref, (t, t + sg * h), x0, method="DOP853", rtol=1e-13, atol=1e-15).y[:, -1]
                    for nm, v in L.forms(f, sg * h, x, t, p):
                        if nm == "t=0,p" and not f.autonomous and t != 0.0:
                            continue
                        errs.setdefault(nm, []).append(np.max(np.abs(v - y)))
                for nm, (e1, e2, e3, e4) in errs.items():  # a ratio may dip where the leading error term cancels
                    rec.true(f"{L.name}, form ({nm}), {name}: local error is fifth order", e4 < 1e-6 and e2 < 1e-3
                             and (e4 < 1e-12 or max(e1 / e2, e2 / e3, e3 / e4) > 22), errors=[e1, e2, e3, e4])
                rec.ok(y)


def arguments(rec, lib):
    """The right-hand side only sees times inside the step and the parameter it was given."""
    if lib == "np":
        from parallel_control import diffeq_np
        for t in TIMES:
            for dt in STEPS:
                for p in (None, 3, (np.eye(2), "tag"), {"k": 1}):
                    if not rec.case(t, dt, repr(p)):
                        continue
                    seen = []
                    if p is None:
                        rec.call(diffeq_np.rk4, lambda x, a: (seen.append(a), x)[1], dt, np.ones(2), t)
                    else:
                        def f(x, a, b):
                            seen.append(a)
                            rec.true("the parameter is passed unchanged", b is p)
                            return x
                        rec.call(diffeq_np.rk4, f, dt, np.ones(2), t, p)
                    lo, hi = min(t, t + dt), max(t, t + dt)
                    rec.true("times inside the step, both ends seen", all(lo - 1e-12 <= a <= hi + 1e-12 for a in seen)
                             and abs(min(seen) - lo) < 1e-12 and abs(max(seen) - hi) < 1e-12, seen=seen)
                    rec.ok(seen)
    else:
        import tensorflow as tf
        from parallel_control import diffeq_tf
        # structured parameters, float32, and states of any rank
        for dt in (0.25, -0.25):
            for dtype in (tf.float32, tf.float64):
                for shape in ((), (2,), (2, 3), (2, 2, 3)):
                    if not rec.case(dt, str(dtype), shape):
                        continue
                    x = tf.constant(wit(("sx", shape), *shape), dtype=dtype)
                    a, b = tf.constant(0.3, dtype=dtype), tf.constant(-0.8, dtype=dtype)
                    y = rec.call(diffeq_tf.rk4, lambda x, t, p: p[0] * x + p[1] * t, tf.constant(dt, dtype=dtype), x,
                                 tf.constant(0.5, dtype=dtype), (a, b))
                    from parallel_control import diffeq_np
                    z = diffeq_np.rk4(lambda x, t, p: p[0] * x + p[1] * t, dt, wit(("sx", shape), *shape), 0.5, (0.3, -0.8))
                    rec.true("dtype kept", y.dtype == dtype)
                    rec.close("tensor step equals the NumPy step", y.numpy(), z, 1e-5 if dtype == tf.float32 else 1e-13)
                    rec.ok(y.numpy())


# ---------------------------------------------------------------------------
# discretisation
# ---------------------------------------------------------------------------

def expm(A):
    A = np.asarray(A, dtype=np.longdouble)
    k = max(0, int(np.ceil(np.log2(max(1e-30, float(np.max(np.abs(A))) * len(A))))) + 4)
    A = A / np.longdouble(2) ** k
    E = np.eye(len(A), dtype=np.longdouble)
    T = E.copy()
    for j in range(1, 25):
        T = T @ A / j
        E = E + T
    for _ in range(k):
        E = E @ E
    return E


NODES, WEIGHTS = np.polynomial.legendre.leggauss(40)


def reference(F, L, Qc, G, dt):
    n = len(F)
    A = expm(F * dt)
    Q, B = np.zeros((n, n)), np.zeros((n, G.shape[1]))
    M = L @ Qc @ L.T
    for z, w in zip(NODES, WEIGHTS):
        E = np.array(expm(np.asarray(F, float) * (dt * (z + 1) / 2)), dtype=float)
        Q = Q + E @ M @ E.T * (w * dt / 2)
        B = B + E @ G * (w * dt / 2)
    return np.array(A, dtype=float), B, Q


def check(rec, F, L, Qc, G, dt, tol=1e-9):
    from parallel_control import disc
    n = len(F)
    q = np.eye(L.shape[1]) if Qc is None else np.array([[Qc]]) if np.isscalar(Qc) else Qc
    g = np.eye(n) if G is None else G
    A, B, Q = reference(np.asarray(F, float), np.asarray(L, float), q, np.asarray(g, float), dt)
    kw = {} if Qc is None else {"Qc": Qc}
    if G is not None:
        kw["G"] = G
    a, b, c = rec.call(disc.lti_disc_u, F, L, dt=dt, **kw)
    sc = max(1.0, np.max(np.abs(A)), np.max(np.abs(Q)), np.max(np.abs(B)), np.max(np.abs(A)) ** 2)
    for nm, x, y in (("A", a, A), ("B", b, B), ("Q", c, Q)):
        rec.close("lti_disc_u " + nm, x, y, tol, sc)
    kw.pop("G", None)
    a2, c2 = rec.call(disc.lti_disc, F, L, dt=dt, **kw)
    rec.close("lti_disc A", a2, A, tol, sc)
    rec.close("lti_disc Q", c2, Q, tol, sc)
    if dt == 1.0:
        a2, c2 = rec.call(disc.lti_disc, F, L, **kw)
        rec.close("lti_disc default step", np.array([a2, c2]), np.array([A, Q]), tol, sc)
        a2, b2, c2 = rec.call(disc.lti_disc_u, F, L, **({**kw, "G": G} if G is not None else kw))
        rec.close("lti_disc_u default step", np.array([a2, c2]), np.array([A, Q]), tol, sc)
        rec.close("lti_disc_u default step", b2, B, tol, sc)
    return a, b, c


def gains(n):
    L1, L2 = wit(("L1", n), n, 1), wit(("L2", n), n, 2)
    G1, G2 = wit(("G1", n), n, 1), wit(("G2", n), n, 2)
    Q2 = np.array([[0.7, 0.2], [0.2, 1.3]])
    return [(L1, None, None), (L1, 0.3, G1), (L1, np.array([[2.5]]), G2), (L2, None, G1), (L2, Q2, None), (L2, Q2, G2),
            (L1, 2, G2)]


def discretise(rec, n, part, parts, tier):
    if n <= 2:
        vals = [-1, 0, 1] if tier != "thorough" or n == 2 and part % 2 else [-2, -1, 0, 1, 2]
        k = len(vals)
        Fs = [np.array([vals[d] for d in digits(i, k, n * n)], float).reshape(n, n) for i in range(k ** (n * n))]
    else:
        Fs = [wit(("F3", i), 3, 3) for i in range(6)] + [np.diag([1.0, 1.0], 1), np.diag([1.0, 0.0], 1), np.zeros((3, 3)), -np.eye(3),
                                                       np.array([[0, 1.0, 0], [-1, 0, 0], [0, 0, 2.0]])]
        if tier == "thorough":
            Fs += [np.array(digits(i, 3, 9), float).reshape(3, 3) - 1 for i in range(0, 19683, 37)]
    for F in Fs[part::parts]:
        for gi, (L, Qc, G) in enumerate(gains(n)):
            if tier != "thorough" and n == 2 and gi not in (1, 5):
                continue
            for dt in (0.0, 0.1, 1.0, 2.5) + ((-0.4, 0.01, 4.0) if tier == "thorough" else ()):
                if rec.case(n, F.tolist(), gi, dt):
                    rec.ok(check(rec, F, L, Qc, G, dt)[2])
    # additivity
    from parallel_control import disc
    for F in Fs[part::parts]:
        L, Qc, G = gains(n)[5]
        for s, t in itertools.product((0.1, 0.5, 1.3), repeat=2):
            if not rec.case(n, F.tolist(), "sum", s, t):
                continue
            A1, B1, Q1 = rec.call(disc.lti_disc_u, F, L, G, Qc, s)
            A2, B2, Q2 = rec.call(disc.lti_disc_u, F, L, G, Qc, t)
            A, B, Q = rec.call(disc.lti_disc_u, F, L, G, Qc, s + t)
            sc = max(1.0, np.max(np.abs(A)) ** 2, np.max(np.abs(Q)))
            rec.close("A of a sum", A, A2 @ A1, 1e-10, sc)
            rec.close("B of a sum", B, A2 @ B1 + B2, 1e-10, sc)
            rec.close("Q of a sum", Q, A2 @ Q1 @ A2.T + Q2, 1e-10, sc)
            rec.close("Q symmetric", Q, Q.T, 1e-10, sc)
            rec.ok(Q)


def long_steps(rec, n, part, parts):
    """Any step length: stable and unstable systems over steps much longer (and shorter) than their time constants."""
    from parallel_control import disc
    if n == 1:
        Fs = [np.array([[f]]) for f in (-50.0, -7.0, -1.0, -0.01, 0.01, 1.0)]
    elif n == 2:
        Fs = [np.array(digits(i, 3, 4), float).reshape(2, 2) - 1 for i in range(81)]
        Fs += [np.diag([-1.0, -100.0]), np.array([[-0.1, 5.0], [-5.0, -0.1]]), np.array([[-3.0, 40.0], [0.0, -2.0]])]
    else:
        Fs = [wit(("F3", i), 3, 3) - 2.0 * np.eye(3) for i in range(6)] + [np.array([[-1.0, 1, 0], [0, -1, 1], [0, 0, -1]])]
    for F in Fs[part::parts]:
        lam = np.linalg.eigvals(F)
        K = np.kron(F, np.eye(n)) + np.kron(np.eye(n), F)
        unique = np.min(np.abs(lam[:, None] + lam[None])) > 1e-3
        for gi, (L, Qc, G) in enumerate(gains(n)):
            if gi not in (1, 5):
                continue
            for dt in (1e-9, 1e-4, 6.0, 30.0, 300.0, 3000.0, -20.0):
                if max(lam.real * dt) > 12.0 or np.max(np.abs(F)) * abs(dt) > 1000.0 or not unique:
                    continue
                if not rec.case(n, F.tolist(), gi, dt):
                    continue
                q = Qc if not np.isscalar(Qc) else np.array([[Qc]])
                g = np.eye(n) if G is None else G
                M = L @ q @ L.T
                A = np.array(expm(np.asarray(F, np.longdouble) * dt), float)
                # F Q + Q F' = A M A' - M and F B = (A - I) G; short steps would cancel here
                if abs(dt) * np.max(np.abs(F)) < 0.1:
                    _, B, Q = reference(F, L, q, g, dt)
                else:
                    Q = np.linalg.solve(K, (A @ M @ A.T - M).reshape(-1)).reshape(n, n)
                    B = np.linalg.solve(F, (A - np.eye(n)) @ g)
                sA, sB, sQ = max(1e-12, np.max(np.abs(A))), np.max(np.abs(B)), np.max(np.abs(Q))
                a, c = rec.call(disc.lti_disc, F, L, dt=dt, Qc=Qc)
                a2, b2, c2 = rec.call(disc.lti_disc_u, F, L, dt=dt, Qc=Qc, G=G)
                for nm, x, y, z in (("lti_disc A", a, A, sA), ("lti_disc Q", c, Q, sQ), ("lti_disc_u A", a2, A, sA),
                                    ("lti_disc_u B", b2, B, sB), ("lti_disc_u Q", c2, Q, sQ)):
                    rec.close(nm + ", any step length", x, y, 1e-7, z)
                rec.ok(c)


def chains(rec):
    """Integrator chains in every unit of time, noise and state: every entry exact relative to itself."""
    from math import factorial as f
    from parallel_control import disc
    for n in (1, 2, 3):
        F, L = np.diag(np.ones(n - 1), 1), np.eye(n)[:, -1:]
        for e in range(-30, 11, 5):
            dt = 2.0 ** e
            for q in (2.0 ** -30, 0.7, 2.0 ** 20):
                for u in (1.0, 2.0 ** -6, 2.0 ** 6):  # units of the position relative to the noise
                    for sg in (1, -1):
                        if not rec.case(n, e, q, u, sg):
                            continue
                        h, U = sg * dt, np.diag(u ** -np.arange(n - 1.0, -1.0, -1.0))
                        # x = U z: z' = U^-1 F U z + U^-1 L w
                        Fz, Lz = np.linalg.inv(U) @ F @ U, np.linalg.inv(U) @ L
                        A = np.array([[h ** (j - i) / f(j - i) if j >= i else 0.0 for j in range(n)] for i in range(n)])
                        Q = np.array([[q * h ** (2 * n - 1 - i - j) / (f(n - 1 - i) * f(n - 1 - j) * (2 * n - 1 - i - j))
                                       for j in range(n)] for i in range(n)])
                        B = np.array([[h ** (j - i + 1) / f(j - i + 1) if j >= i else 0.0 for j in range(n)] for i in range(n)])
                        a, b, c = rec.call(disc.lti_disc_u, Fz, Lz, Qc=q, dt=h)
                        back = np.linalg.inv(U)
                        for nm, x, y in (("A", U @ a @ back, A), ("B", U @ b @ back, B), ("Q", U @ c @ U, Q)):
                            nz = y != 0
                            rec.close("integrator chain " + nm + ", every entry relative to itself", np.where(nz, x / np.where(nz, y, 1), 1.0 + x),
                                      np.ones_like(y), 1e-8, 1.0)
                        rec.ok(c)


def types(rec):
    """The result does not depend on the number type of the arguments."""
    for n in (1, 2, 3):
        Fi = np.array([[0, 1, 0], [0, 0, 1], [-1, 0, 0]])[:n, :n] if n > 1 else np.array([[-1]])
        for ft in ("int64", "int32", "float32", "float64"):
            for lt in ("int64", "float32", "float64"):
                for qi, Qc in enumerate((None, 0.3, np.array([[0.3]]), 2)):
                    for gt in ("int64", "float64", None):
                        if not rec.case(n, ft, lt, qi, gt):
                            continue
                        L = np.zeros((n, 1))
                        L[-1] = 0.5 if lt != "int64" else 1
                        G = None if gt is None else np.arange(1, n + 1).reshape(n, 1) * (0.3 if gt == "float64" else 1)
                        c = check(rec, Fi.astype(ft), L.astype(lt), Qc, None if G is None else G.astype(gt), 0.5,
                                  1e-4 if ft == "float32" else 1e-6 if lt == "float32" else 1e-9)
                        rec.ok(c[2])


def jobs(tier):
    out = [(2, "types", {}), (3, "chains", {}), (3, "long_steps", {"n": 1, "part": 0, "parts": 1}),
           (3, "long_steps", {"n": 3, "part": 0, "parts": 1})]
    out += [(5, "long_steps", {"n": 2, "part": p, "parts": 4}) for p in range(4)]
    th = tier == "thorough"
    for lib in ("np", "tf"):
        for shape in ((), (2,), (2, 3)):
            out.append((3 if lib == "np" else 20, "quadrature", {"lib": lib, "shape": shape}))
        for n in (1, 2, 3):
            out.append((2 if lib == "np" else 20, "linear", {"lib": lib, "n": n}))
        out.append((5 if lib == "np" else 30, "order", {"lib": lib}))
        out.append((5, "arguments", {"lib": lib}))
    for n, parts in ((1, 1), (2, 8), (3, 2)) if not th else ((1, 1), (2, 16), (3, 16)):
        for part in range(parts):
            out.append((20, "discretise", {"n": n, "part": part, "parts": parts, "tier": tier}))
    return out
