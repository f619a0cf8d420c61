"""Boring reference models."""
import itertools
import numpy as np


# --- finite-state control ---------------------------------------------------

def fsc_dp(f, L, LT):
    """Cost-to-go for k=0..T by dynamic programming with Python numbers."""
    T = len(f)
    V = [float(v) for v in LT]
    out = [V]
    for k in reversed(range(T)):
        n, m = f[k].shape
        V = [min(float(L[k][x, u]) + V[int(f[k][x, u])] for u in range(m)) for x in range(n)]
        out.append(V)
    out.reverse()
    return out


def fsc_brute(f, L, LT, x0):
    """(minimum cost, list of all optimal (us, xs)) by enumerating all control sequences."""
    T = len(f)
    m = f[0].shape[1]
    best, arg = None, []
    for us in itertools.product(range(m), repeat=T):
        x, c, xs = int(x0), 0.0, [int(x0)]
        for k, u in enumerate(us):
            c += float(L[k][x, u])
            x = int(f[k][x, u])
            xs.append(x)
        c += float(LT[x])
        if best is None or c < best:
            best, arg = c, [(list(us), xs)]
        elif c == best:
            arg.append((list(us), xs))
    return best, arg


def fsc_policy(f, u_list, x0):
    x, xs, us = int(x0), [int(x0)], []
    for k in range(len(u_list)):
        u = int(u_list[k][x])
        x = int(f[k][x, u])
        us.append(u)
        xs.append(x)
    return us, xs


def fsc_cost(f, L, LT, us, xs):
    c = float(LT[xs[-1]])
    for k, u in enumerate(us):
        c += float(L[k][xs[k], u])
    return c


def fsc_optimal_states(f, L, LT, x0):
    """Set of states lying on optimal trajectories at each time (exact costs assumed)."""
    V = fsc_dp(f, L, LT)
    S = [{int(x0)}]
    for k in range(len(f)):
        nxt = set()
        for x in S[-1]:
            for u in range(f[k].shape[1]):
                y = int(f[k][x, u])
                if float(L[k][x, u]) + V[k + 1][y] == V[k][x]:
                    nxt.add(y)
        S.append(nxt)
    return S, V


# --- hidden Markov models ------------------------------------------------------

def hmm_brute(prior, Pi, Po, ys):
    """Best joint probability, all maximisers, and best path probability into each state per time.

    x_0 ~ prior, x_{k+1} ~ Pi[x_k], y_k ~ Po[x_{k+1}] (the convention of the repository).
    """
    n = len(prior)
    T = len(ys)
    V = [[float(p) for p in prior]]
    for k in range(T):
        V.append([max(V[-1][i] * float(Pi[i, j]) for i in range(n)) * float(Po[j, ys[k]]) for j in range(n)])
    best, arg = -1.0, []
    for xs in itertools.product(range(n), repeat=T + 1):
        p = float(prior[xs[0]])
        for k in range(T):
            p *= float(Pi[xs[k], xs[k + 1]]) * float(Po[xs[k + 1], ys[k]])
        if p > best * (1 + 1e-12):
            best, arg = p, [list(xs)]
        elif abs(p - best) <= 1e-12 * best:
            arg.append(list(xs))
    return best, arg, V


def hmm_logp(prior, Pi, Po, ys, xs):
    with np.errstate(divide="ignore"):
        p = np.log(prior[xs[0]])
        for k in range(len(ys)):
            p = p + np.log(Pi[xs[k], xs[k + 1]]) + np.log(Po[xs[k + 1], ys[k]])
    return float(p)


# --- linear-quadratic tracking ------------------------------------------------------

class LQ:
    """Data of an LQT problem, time-varying, with the documented cost

    J = 1/2 (HT x_T - rT)' XT (HT x_T - rT)
      + sum 1/2 (H x - r)' X (H x - r) + (H x - r)' M (Z u - s) + 1/2 (Z u - s)' U (Z u - s)
    x_{k+1} = F x + c + L u
    """
    FIELDS = ("F", "c", "L", "H", "r", "X", "Z", "s", "U", "M")

    def __init__(self, **k):
        self.__dict__.update(k)

    @property
    def T(self):
        return len(self.F)

    def stage_quad(self, k):
        """Hessian, gradient and constant of the stage cost in (x, u)."""
        H, Z = self.H[k], self.Z[k]
        nr, nx = H.shape
        nz, nu = Z.shape
        A = np.zeros((nr + nz, nx + nu))
        A[:nr, :nx] = H
        A[nr:, nx:] = Z
        b = np.concatenate([self.r[k], self.s[k]])
        W = np.block([[self.X[k], self.M[k]], [self.M[k].T, self.U[k]]])
        return A.T @ W @ A, -A.T @ W @ b, 0.5 * b @ W @ b

    def term_quad(self):
        return self.HT.T @ self.XT @ self.HT, -self.HT.T @ self.XT @ self.rT, 0.5 * self.rT @ self.XT @ self.rT

    def dp(self):
        """Optimal (S, v) with V(x) = 1/2 x'Sx - v'x + const, and u = -Kx x + d, by dense
        minimisation of the quadratic form over u."""
        S, g, c0 = self.term_quad()
        Ss, vs, Ks, ds, cs = [S], [-g], [], [], [c0]
        for k in reversed(range(self.T)):
            Q, q, q0 = self.stage_quad(k)
            nx = self.F[k].shape[0]
            B = np.hstack([self.F[k], self.L[k]])
            Hm = Q + B.T @ S @ B
            gr = q + B.T @ (S @ self.c[k] + g)
            cc = q0 + c0 + 0.5 * self.c[k] @ S @ self.c[k] + g @ self.c[k]
            Huu, Hux, gu = Hm[nx:, nx:], Hm[nx:, :nx], gr[nx:]
            K = np.linalg.solve(Huu, Hux)
            d = -np.linalg.solve(Huu, gu)
            S = Hm[:nx, :nx] - Hux.T @ K
            S = 0.5 * (S + S.T)
            g = gr[:nx] + Hux.T @ d
            c0 = cc + 0.5 * gu @ d
            Ss.append(S); vs.append(-g); Ks.append(K); ds.append(d); cs.append(c0)
        for l in (Ss, vs, Ks, ds, cs):
            l.reverse()
        self.const = cs
        return Ss, vs, Ks, ds

    def rollout(self, x0, Ks, ds):
        x = np.asarray(x0, float)
        xs, us = [x], []
        for k in range(self.T):
            u = -Ks[k] @ x + ds[k]
            x = self.F[k] @ x + self.c[k] + self.L[k] @ u
            us.append(u); xs.append(x)
        return us, xs

    def simulate(self, x0, us):
        x = np.asarray(x0, float)
        xs = [x]
        for k in range(self.T):
            x = self.F[k] @ x + self.c[k] + self.L[k] @ us[k]
            xs.append(x)
        return xs

    def cost(self, us, xs):
        J = 0.0
        for k in range(self.T):
            e = self.H[k] @ xs[k] - self.r[k]
            z = self.Z[k] @ us[k] - self.s[k]
            J += 0.5 * e @ self.X[k] @ e + e @ self.M[k] @ z + 0.5 * z @ self.U[k] @ z
        e = self.HT @ xs[-1] - self.rT
        return J + 0.5 * e @ self.XT @ e

    def kkt(self, x0):
        """Unique minimiser of the cost from x0, by one dense least-squares style solve over all controls."""
        T = self.T
        nu = self.L[0].shape[1]
        n = T * nu
        # affine map from stacked u to x_k:  x_k = a_k + B_k u
        a, B = np.asarray(x0, float), np.zeros((len(x0), n))
        Q, q = np.zeros((n, n)), np.zeros(n)
        for k in range(T):
            Qk, qk, _ = self.stage_quad(k)
            E = np.zeros((nu, n))
            E[:, k * nu:(k + 1) * nu] = np.eye(nu)
            W = np.vstack([B, E])
            w = np.concatenate([a, np.zeros(nu)])
            Q += W.T @ Qk @ W
            q += W.T @ (Qk @ w + qk)
            a, B = self.F[k] @ a + self.c[k], self.F[k] @ B + self.L[k] @ E
        QT, qT, _ = self.term_quad()
        Q += B.T @ QT @ B
        q += B.T @ (QT @ a + qT)
        u = np.linalg.solve(Q, -q)
        us = [u[k * nu:(k + 1) * nu] for k in range(T)]
        return us, self.simulate(x0, us)


def hmm_optimal_states(prior, Pi, Po, ys, tol=1e-9):
    """Value functions (log), best log probability and the set of states on optimal paths per time."""
    with np.errstate(divide="ignore"):
        lp, lPi, lPo = np.log(np.asarray(prior, float)), np.log(np.asarray(Pi, float)), np.log(np.asarray(Po, float))
    V = [lp]
    for y in ys:
        V.append((V[-1][:, None] + lPi).max(axis=0) + lPo[:, y])
    B = [np.zeros(len(lp))]
    for y in reversed(list(ys)):
        B.append((lPi + lPo[:, y][None, :] + B[-1][None, :]).max(axis=1))
    B.reverse()
    best = V[-1].max()
    return V, float(best), [[j for j in range(len(lp)) if V[k][j] + B[k][j] >= best - tol] for k in range(len(V))]
