"""C09: LQR, NumPy."""
import itertools
import numpy as np
from mc.core import wit, spd, psd
from mc.refs import LQ

BOUNDS = ("every horizon 1..33 (1..80, 127..129 thorough) and iteration count 1..16 (1..40), doubling count 0..5 "
          "(0..7) for dimensions 1x1, 2x1, 2x2, 3x2 (and 1x2, 4x2, 5x3) with full-rank, rank-deficient and zero "
          "state weight; every scalar regulator over small integer alphabets in integer and floating type; all "
          "combinations of special 2-D maps and weights; initial states zero, unit vectors, generic; costs, states and inputs in nine units; slowly convergent regulators")
ASSUMPTIONS = ["input weight positive definite", "stationary limit compared only for generic (stabilizable, "
               "detectable) problems, against 3000 Riccati steps", "floating-point rounding up to 1e-7 relative"]


def ref(F, L, X, U, XT, T):
    n, m = L.shape
    z = np.zeros
    return LQ(F=[F] * T, L=[L] * T, c=[z(n)] * T, H=[np.eye(n)] * T, r=[z(n)] * T, X=[X] * T, U=[U] * T,
              M=[z((n, m))] * T, Z=[np.eye(m)] * T, s=[z(m)] * T, HT=np.eye(n), rT=z(n), XT=XT)


def finite(rec, F, L, X, U, XT, T, tol=1e-7, x0s=None, unit=1.0):
    from parallel_control import lqt_np
    o = lqt_np.LQR(F, L, X, U, XT)
    q = ref(F, L, X, U, XT, T)
    Ss, _, Ks, ds = q.dp()
    n, m = L.shape
    if x0s is None:
        x0s = [np.zeros(n)] + [np.eye(n)[i] for i in range(n)] + [wit(("x0", n, T), n, lo=-2, hi=2)]
    for b in ("seq", "par"):
        K, S = rec.call(getattr(o, b + "BackwardPass"), T)
        rec.true(f"{b}BackwardPass: lengths", (len(K), len(S)) == (T, T + 1))
        for k in range(T + 1):
            rec.close(f"{b}BackwardPass: S[{k}]", S[k], Ss[k], tol, max(unit, float(np.max(np.abs(Ss[k])))))
        for k in range(T):
            rec.close(f"{b}BackwardPass: Kx[{k}]", K[k], Ks[k], tol)
        laws = [("", K, x0) for x0 in x0s] + [("arbitrary law, ", [wit(("K", k), m, n) for k in range(T)], x0s[-1])]
        for nm, K, x0 in laws:
            us, xs = q.rollout(x0, K, ds)
            sc = max(1.0, max(np.max(np.abs(x)) for x in xs))
            for f in ("seq", "par"):
                u, x = rec.call(getattr(o, f + "ForwardPass"), x0, K)
                rec.true(f"{f}ForwardPass: lengths", (len(u), len(x)) == (T, T + 1))
                for k in range(T + 1):
                    rec.close(f"{nm}{f}ForwardPass: x[{k}]", x[k], xs[k], tol, sc)
                for k in range(T):
                    rec.close(f"{nm}{f}ForwardPass: u[{k}]", u[k], us[k], tol, sc)
    rec.ok(outcome=Ss[0], sample={"T": T, "S0": Ss[0]})


def gain(F, L, U, S):
    return np.linalg.solve(U + L.T @ S @ L, L.T @ S @ F)


def stationary(rec, F, L, X, U, iters, doubles, are, tol=1e-7, unit=1.0):
    """unit: the unit of cost (S scales with it, K does not)."""
    size = lambda S: max(unit, float(np.max(np.abs(S))))
    from parallel_control import lqt_np
    o = lqt_np.LQR(F, L, X, U, spd("unused", len(F)))
    for n in iters:
        K, S = rec.call(o.lqrIter, n)
        Ss, _, Ks, _ = ref(F, L, X, U, X, n).dp()
        rec.close(f"lqrIter({n}): S", S, Ss[0], tol, size(Ss[0]))
        rec.close(f"lqrIter({n}): K", K, Ks[0], tol)
    for n in doubles:
        K, S = rec.call(o.lqrDouble, n)
        Ss = ref(F, L, X, U, np.zeros_like(X, dtype=float), 2 ** n).dp()[0]
        rec.close(f"lqrDouble({n}): S", S, Ss[0], tol, size(Ss[0]))
        rec.close(f"lqrDouble({n}): K", K, gain(F, L, U, Ss[0]), tol)
    if are:
        S = np.array(X, float)
        for _ in range(3000):
            S = F.T @ S @ F - F.T @ S @ L @ np.linalg.solve(U + L.T @ S @ L, L.T @ S @ F) + X
        K1, S1 = rec.call(o.lqrDare)
        rec.close("lqrDare: S", S1, S, tol, size(S))
        rec.close("lqrDare: K", K1, gain(F, L, U, S), tol)
        for nm, (K2, S2) in (("lqrIter(2000)", rec.call(o.lqrIter, 2000)), ("lqrDouble(12)", rec.call(o.lqrDouble, 12))):
            rec.close(nm + ": S", S2, S, tol, size(S))
            rec.close(nm + ": K", K2, gain(F, L, U, S), tol)
    rec.ok(outcome=S, sample={"S": S})


def data(n, m, v, rank):
    F = wit(("F", n, m, v), n, n) * (1.0 if v != "unstable" else 1.6)
    return F, wit(("L", n, m, v), n, m), psd(("X", n, m, v), n, rank), spd(("U", n, m, v), m)


def lengths(rec, n, m, Ts, vs):
    for T in Ts:
        for v in vs:
            for rank in {0, n - 1, n}:
                for term in ("pd", "zero"):
                    if rec.case("len", n, m, T, v, rank, term):
                        F, L, X, U = data(n, m, v, rank)
                        finite(rec, F, L, X, U, spd(("XT", n, v), n) if term == "pd" else np.zeros((n, n)), T)


def stat(rec, n, m, vs, iters, doubles):
    for v in vs:
        for rank in {0, n - 1, n}:
            if rec.case("stationary", n, m, v, rank):
                stationary(rec, *data(n, m, v, rank), iters, doubles, rank == n)


def scalars(rec, Ts, int_):
    dt = int if int_ else float
    a = lambda x: np.array([[x]], dtype=dt)
    for F, L, X, U, XT in itertools.product((-2, -1, 0, 1, 2), (-2, 0, 1, 2), (0, 1, 4), (1, 2, 4), (0, 1, 2)):
        for T in Ts:
            if rec.case("scalar", int_, F, L, X, U, XT, T):
                finite(rec, a(F), a(L), a(X), a(U), a(XT), T, x0s=[np.array([3], dtype=dt)])
        if XT == 0 and Ts[0] == 1 and rec.case("scalar stationary", int_, F, L, X, U):
            stationary(rec, a(F), a(L), a(X), a(U), range(1, 6), range(4), bool(L) and X > 0)


def specials(rec, T):
    from mc import lqt
    it, Fs, Ls, Xs = lqt.structured(2)
    for i, j, k, l in it:
        if rec.case("special", T, i, j, k, l):
            finite(rec, Fs[i], Ls[j], Xs[k], np.eye(Ls[j].shape[1]), Xs[l], T)
        if l == 0 and T == 1 and rec.case("special stationary", i, j, k):
            stationary(rec, Fs[i], Ls[j], Xs[k], np.eye(Ls[j].shape[1]), range(1, 6), range(4), False)


UNITS = (1e-12, 1e-6, 0.5, 1e6, 1e12)


def units(rec, n, m, vs, Ts):
    """The cost measured in other units."""
    for v in vs:
        for a in UNITS:
            F, L, X, U = data(n, m, v, n)
            XT = spd(("XT", n, v), n)
            for T in Ts:
                if rec.case("units", n, m, v, a, T):
                    finite(rec, F, L, a * X, a * U, a * XT, T, unit=a)
            if rec.case("units, stationary", n, m, v, a):
                stationary(rec, F, L, a * X, a * U, range(1, 12), range(6),
                           0.1 < a < 10, unit=a)                 # the Riccati solver of SciPy needs moderate units


def slow(rec):
    """Nearly marginal systems: the recursions converge slowly and must not be cut short."""
    a1 = lambda x: np.array([[x]])
    for f, x in itertools.product((0.999, 1.0, -1.0), (1e-2, 1e-4)):
        for a in (1e-10, 1.0):
            if rec.case("slow", f, x, a):
                stationary(rec, a1(f), a1(1.0), a1(a * x), a1(a), (10, 100, 1000), (3, 6, 9), x == 1e-2, unit=a * x)


def jobs(tier):
    q = tier == "quick"
    Ts = list(range(1, 34)) if q else list(range(1, 81)) + [127, 128, 129]
    js = []
    vs = ["a", "unstable"] if q else ["a", "b", "e", "unstable"]
    for n, m in [(1, 1), (2, 1), (2, 2), (3, 2)] + ([] if q else [(1, 2), (4, 2), (5, 3)]):
        js += [(6, "lengths", {"n": n, "m": m, "Ts": Ts[i::3], "vs": vs}) for i in range(3)]
        js.append((4, "stat", {"n": n, "m": m, "vs": vs, "iters": list(range(1, 17 if q else 41)),
                               "doubles": list(range(6 if q else 8))}))
    for n, m in [(1, 1), (2, 1), (3, 2)] + ([] if q else [(1, 2), (4, 2), (5, 3)]):
        js.append((4, "units", {"n": n, "m": m, "vs": vs, "Ts": [1, 2, 5, 8] if q else list(range(1, 18))}))
    js.append((3, "slow", {}))
    for int_ in (False, True):
        js += [(5, "scalars", {"Ts": [T], "int_": int_}) for T in ((1, 2, 3) if q else (1, 2, 3, 4, 5, 6, 7, 8))]
    js += [(3, "specials", {"T": T}) for T in ((1, 2, 5) if q else (1, 2, 3, 4, 5, 8, 13))]
    return js
