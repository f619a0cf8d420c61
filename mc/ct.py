"""Continuous-time tracking problems and their true solution (C15-C19, C28).

The truth does not use the Riccati equation: it is the two-point boundary value problem of the Hamiltonian system

    x' = F x + c - L U^-1 L' p,   p' = -F' p - H' X (H x - r)

whose flow is integrated with a high-order method to 1e-12; with p(t1) = S1 x - v1 at the end it gives
p(t) = S(t) x - v(t), and with x(t0) = x0 at the start the optimal states and controls.
"""
import copy
import functools
import itertools
import numpy as np
from mc.core import wit, spd, psd

FEATURES = ("c", "r", "H", "tv")


def partial():
    """Every set of time-varying functions, and every set of all-zero fields, with all optional data present."""
    full = ("c", "r", "H")
    for bits in itertools.product((0, 1), repeat=7):
        yield full + tuple("tv:" + a for a, b in zip("FLcHrXU", bits) if b)
    for bits in itertools.product((0, 1), repeat=4):
        if any(bits):
            zero = tuple("0:" + a for a, b in zip(("F", "L", "X", "XT"), bits) if b)
            yield full + zero
            yield full + ("tv:c", "tv:r") + zero


class CT:
    def __init__(self, key, n, m, p, feats):
        f = set(feats)
        self.key, self.n, self.m, self.feats = (key, n, m, p, tuple(feats)), n, m, tuple(feats)
        p = p if "H" in f else n
        self.p = p
        # "tv": everything varies with time; "tv:F" only the state matrix, and so on; "0:X" an all-zero field
        tv = {a: "tv" in f or "tv:" + a in f for a in "FLcHrXU"}
        on = {a: 0.0 if "0:" + a in f else 1.0 for a in ("F", "L", "X", "XT")}
        W = lambda nm, *s: wit((key, nm, n, m, p), *s)
        F0, F1, L0, L1 = W("F0", n, n), W("F1", n, n), W("L0", n, m), W("L1", n, m)
        c0, c1 = W("c0", n), W("c1", n)
        H0, H1 = (W("H0", p, n), W("H1", p, n)) if "H" in f else (np.eye(n), np.zeros((n, n)))
        r0, r1 = W("r0", p) * 2, W("r1", p) * 2
        F0, L0 = F0 * on["F"], L0 * on["L"]
        X0, U0 = on["X"] * spd((key, "X", p), p, 0.2), spd((key, "U", m), m, 0.5)
        zc, zr = ("c" in f) * 1.0, ("r" in f) * 1.0
        # sine-free smooth functions so that they can be evaluated by NumPy and by TensorFlow alike
        var = {"F": lambda t, sin: 0.6 * F1 * sin(1.3 * t + 0.4), "L": lambda t, sin: 0.5 * L1 * sin(1.7 * t + 1.9),
               "c": lambda t, sin: zc * c1 * sin(2.0 * t + 0.3), "H": lambda t, sin: 0.5 * H1 * sin(t + 1.0),
               "r": lambda t, sin: zr * r1 * sin(1.5 * t + 0.8), "X": lambda t, sin: 0.5 * X0 * sin(1.1 * t),
               "U": lambda t, sin: 0.4 * U0 * sin(1.9 * t + 0.6)}
        for a, base in (("F", F0), ("L", L0), ("c", zc * c0), ("H", H0), ("r", zr * r0), ("X", X0), ("U", U0)):
            # a field that does not vary does not look at the time at all
            setattr(self, "_" + a, functools.partial(lambda b, v, t, sin: b + v(t, sin), base, var[a]) if tv[a]
                    else functools.partial(lambda b, t, sin: b.copy(), base))
        for a in "FLcHrXU":
            setattr(self, a, functools.partial(lambda fn, t: fn(t, np.sin), getattr(self, "_" + a)))
        self.HT = W("HT", p, n) if "H" in f else np.eye(n)
        self.rT = zr * W("rT", p)
        self.XT = on["XT"] * psd((key, "XT", p), p, p)
        self.ST = self.HT.T @ self.XT @ self.HT
        self.vT = self.HT.T @ self.XT @ self.rT

    def clqr(self, T):
        """The constant regulator (only when no optional feature is on)."""
        from parallel_control import clqt_np
        assert not self.feats
        return clqt_np.CLQR(self.F(0.0), self.L(0.0), self.X(0.0), self.U(0.0), self.XT, T)

    def scaled(self, T, a, b, tau=1.0):
        """The same problem, costs in units of a, states and inputs in units of b, time in units of tau: S, v, K, d, x, u
        scale with a, ab, 1, b, b, b."""
        from parallel_control import clqt_np
        q = self.retime(tau)
        k = lambda f, c: (lambda t: c * f(t))
        return clqt_np.CLQT(q.F, q.L, k(q.X, a), k(q.U, a), a * q.XT, k(q.c, b), q.H, k(q.r, b), q.HT, b * q.rT, T * tau)

    def retime(self, tau):
        """The same problem with time measured in units of 1 / tau: S, v, K, d, x, u at tau t are those at t."""
        q = copy.copy(self)
        q.__dict__.pop("_cache", None)
        if tau != 1.0:
            for a in "FLcHrXU":
                f = functools.partial(lambda fn, c, t, sin: fn(t / tau, sin) / c, getattr(self, "_" + a),
                                      tau if a in "FLcXU" else 1.0)
                setattr(q, "_" + a, f)
                setattr(q, a, functools.partial(lambda fn, t: fn(t, np.sin), f))
        return q

    def stationary(self):
        """Terminal cost replaced by the stationary solution of the (constant) Riccati equation."""
        from scipy.linalg import solve_continuous_are
        H = self.H(0.0)
        q = copy.copy(self)
        q.__dict__.pop("_cache", None)
        q.HT = np.eye(self.n)
        q.rT = wit((self.key, "rTs"), self.n)
        q.XT = q.ST = solve_continuous_are(self.F(0.0), self.L(0.0), H.T @ self.X(0.0) @ H, self.U(0.0))
        q.vT = q.XT @ q.rT
        return q

    def clqt(self, T):
        from parallel_control import clqt_np
        return clqt_np.CLQT(self.F, self.L, self.X, self.U, self.XT, self.c, self.H, self.r, self.HT, self.rT, T)

    # -- truth -----------------------------------------------------------------
    def ham(self, t):
        n = self.n
        F, L, H, X = self.F(t), self.L(t), self.H(t), self.X(t)
        Q = H.T @ X
        G = np.zeros((2 * n, 2 * n + 1))
        G[:n, :n], G[:n, n:2 * n], G[:n, 2 * n] = F, -L @ np.linalg.solve(self.U(t), L.T), self.c(t)
        G[n:, :n], G[n:, n:2 * n], G[n:, 2 * n] = -Q @ H, -F.T, Q @ self.r(t)
        return G

    def flow(self, ts):
        """Affine Hamiltonian flows from ts[0] to every ts[k]: list of (Phi, phi)."""
        from scipy.integrate import solve_ivp
        n = self.n

        def f(t, y):
            G = self.ham(t)
            Y = y.reshape(2 * n, 2 * n + 1)
            D = G[:, :2 * n] @ Y
            D[:, 2 * n] += G[:, 2 * n]
            return D.ravel()
        y0 = np.eye(2 * n, 2 * n + 1).ravel()
        s = solve_ivp(f, (ts[0], ts[-1]), y0, method="DOP853", t_eval=ts, rtol=1e-12, atol=1e-13)
        assert s.success and s.y.shape[1] == len(ts)
        return [(Y[:, :2 * n], Y[:, 2 * n]) for Y in (s.y[:, k].reshape(2 * n, 2 * n + 1) for k in range(len(ts)))]

    def flows(self, t0, dt, steps, _max=48):
        """Prefix of one cached flow from t0 (every horizon on the same grid shares it)."""
        if not hasattr(self, "_cache"):
            self._cache = {}
        n = max(steps, _max)
        if (t0, dt, n) not in self._cache:
            self._cache[t0, dt, n] = self.flow([t0 + k * dt for k in range(n + 1)])
        return self._cache[t0, dt, n][:steps + 1]

    def truth(self, t0, dt, steps, ST=None, vT=None):
        return Truth(self, t0, dt, steps, self.ST if ST is None else ST, self.vT if vT is None else vT)


class Truth:
    def __init__(self, q, t0, dt, steps, ST, vT):
        n = q.n
        self.q, self.dt, self.steps, self.t0 = q, dt, steps, t0
        self.ts = ts = [t0 + k * dt for k in range(steps + 1)]
        self.fl = fl = q.flows(t0, dt, steps)
        PT, pT = fl[-1]
        self.S, self.v, self.K, self.d = [], [], [], []
        for k in range(steps + 1):
            P, p = fl[k]
            R = PT @ np.linalg.inv(P)                   # flow from ts[k] to the end
            o = pT - R @ p
            # p_end = ST x_end - vT with (x_end, p_end) = R (x, p) + o
            B = R[n:, n:] - ST @ R[:n, n:]
            A = ST @ R[:n, :n] - R[n:, :n]
            b = ST @ o[:n] - o[n:] - vT
            self.S.append(np.linalg.solve(B, A))
            self.v.append(-np.linalg.solve(B, b))
        for k in range(steps):
            t = ts[k]
            G = np.linalg.solve(q.U(t), q.L(t).T)
            self.K.append(G @ self.S[k])
            self.d.append(G @ self.v[k])

    def element(self, i, j):
        """Conditional value function (A, b, C, eta, J) between grid points i and j:
        x_j = A x_i + b - C p_j  and  p_i = J x_i - eta + A' p_j."""
        n = self.q.n
        Pi, pi = self.fl[i]
        Pj, pj = self.fl[j]
        R = Pj @ np.linalg.inv(Pi)
        o = pj - R @ pi
        W = np.linalg.inv(R[n:, n:])
        A = R[:n, :n] - R[:n, n:] @ W @ R[n:, :n]
        return A, o[:n] - R[:n, n:] @ W @ o[n:], -R[:n, n:] @ W, W @ o[n:], -W @ R[n:, :n]

    def path(self, x0):
        n = self.q.n
        z0 = np.concatenate([x0, self.S[0] @ x0 - self.v[0]])
        zs = [P @ z0 + p for P, p in self.fl]
        xs = [z[:n] for z in zs]
        us = [-np.linalg.solve(self.q.U(t), self.q.L(t).T) @ z[n:] for t, z in zip(self.ts[:-1], zs)]
        return us, xs

    def cond(self, A0, b0, C0):
        """Forward conditional value parameters from initial x = A0 y + b0 - C0 p: (A, b, C) on the grid."""
        n = self.q.n
        out = []
        for P, p in self.fl:
            # x(t) = P11 x + P12 p + p1,  p(t) = P21 x + P22 p + p2,  x = A0 y + b0 - C0 p
            Mx, Mp = P[:n, n:] - P[:n, :n] @ C0, P[n:, n:] - P[n:, :n] @ C0
            G = Mx @ np.linalg.inv(Mp)
            A = (P[:n, :n] - G @ P[n:, :n]) @ A0
            b = (P[:n, :n] - G @ P[n:, :n]) @ b0 + p[:n] - G @ p[n:]
            out.append((A, b, -G))
        return out


def held(q, x0, K, d, t0, dt, zoh, sub=6):
    """States under the law u = -K_k x + d_k held over each step (gain held, or control held when zoh)."""
    x, xs, us = np.asarray(x0, float), [np.asarray(x0, float)], []
    for k in range(len(K)):
        u0 = -K[k] @ x + d[k]
        us.append(u0)
        f = (lambda t, x: q.F(t) @ x + q.c(t) + q.L(t) @ u0) if zoh else \
            (lambda t, x: q.F(t) @ x + q.c(t) + q.L(t) @ (-K[k] @ x + d[k]))
        h = dt / sub
        for i in range(sub):
            t = t0 + k * dt + i * h
            k1 = f(t, x)
            k2 = f(t + h / 2, x + h / 2 * k1)
            k3 = f(t + h / 2, x + h / 2 * k2)
            k4 = f(t + h, x + h * k3)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        xs.append(x)
    return us, xs
