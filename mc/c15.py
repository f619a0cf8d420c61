"""C15: continuous-time regulation and tracking (NumPy), backward passes."""
import itertools
import numpy as np
from mc.core import wit, spd
from mc.ct import CT, FEATURES, partial

BOUNDS = ("every split into 1..4 x 1..4 blocks and steps (1..8 x 1..6 thorough), both integration directions, all "
          "combinations of time step and start time (default/explicit, 0 / 0.7 / -0.4), default and supplied terminal "
          "value functions, every combination of offset, reference, output matrix and time-varying data (16), state/"
          "input/output dimensions 1/1/1, 2/1/1, 3/2/2 and 2/2/3, step lengths 0.05 and 0.0125 (four splits) (and 0.025 thorough); regulator: 'rk4' and "
          "'exact' methods, exact with steps up to 1.0, and with 1..100 (400) steps on systems whose rates lie between -20 and 1; every "
          "subset of time-varying and of vanishing functions; costs and states in nine units, time in five")
ASSUMPTIONS = ["fourth-order discretisation error is bounded by 40 dt^4 times the size of the solution on these "
               "problems (largest observed on the repository: 7 dt^4); an error of lower order exceeds it",
               "the reference solution (Hamiltonian flow, DOP853 at 1e-12) is correct", "double precision"]

FEATS = [tuple(f for f, b in zip(FEATURES, bits) if b) for bits in itertools.product((0, 1), repeat=4)]
DIMS = [(1, 1, 1), (2, 1, 1), (3, 2, 2), (2, 2, 3)]
C4 = 40.0


def near(rec, what, got, want, dt, c=C4):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    return rec.close(what, got, want, c * dt ** 4 + 1e-10)


def steplengths(tier):
    """0.0125 tells orders apart: an error of second order is then two orders of magnitude above the bound."""
    return (0.05, 0.025, 0.0125) if tier == "thorough" else (0.05, 0.0125)


def grid(dt, tier):
    if dt == 0.0125:
        return [(1, 1), (1, 4), (2, 2), (3, 4)] + ([(4, 9), (6, 6)] if tier == "thorough" else [])
    B, S = (8, 6) if tier == "thorough" else (4, 4)
    return [(b, s) for b in range(1, B + 1) for s in range(1, S + 1)]


def times(T, dt, t0):
    """The calling forms (kwargs, horizon of the problem object) that describe the same grid."""
    out = [({"dt": dt, "t0": t0}, 91.0), ({"t0": t0}, T)]
    if t0 == 0.0:
        out += [({"dt": dt}, 91.0), ({}, T)]
    return out


def law(rec, what, got, tr, dt):
    K, d, S, v = got
    near(rec, what + ": S", S, tr.S, dt)
    near(rec, what + ": v", v, tr.v, dt)
    near(rec, what + ": gains", K, tr.K, dt)
    near(rec, what + ": offsets", d, tr.d, dt)


def track(rec, dims, feats, tier, only=None):
    """only: (step length, start times, splits) instead of the grid of the tier."""
    q = CT("C15", *dims, feats)
    n = q.n
    for dt in [only[0]] if only else steplengths(tier):
        for t0 in only[1] if only else (0.0, 0.7, -0.4):
            seen = set()
            for B, s in only[2] if only else grid(dt, tier):
                N = B * s
                tr = q.truth(t0, dt, N)
                for i, (kw, T) in enumerate(times(N * dt, dt, t0)):
                    if N not in seen:
                        if rec.case(dims, feats, dt, t0, N, i, "seq"):
                            law(rec, "seqBackwardPass", rec.call(q.clqt(T).seqBackwardPass, N, **kw), tr, dt)
                            S1, v1 = 0.3 * spd(("S1", n), n), wit(("v1", n), n)
                            tr1 = q.truth(t0, dt, N, S1, v1)
                            law(rec, "seqBackwardPass(S,v)", rec.call(q.clqt(T).seqBackwardPass, N, S=S1, v=v1, **kw), tr1, dt)
                            law(rec, "seqBackwardPass(S)", rec.call(q.clqt(T).seqBackwardPass, N, S=S1, **kw),
                                q.truth(t0, dt, N, S1, None), dt)
                            law(rec, "seqBackwardPass(v)", rec.call(q.clqt(T).seqBackwardPass, N, v=v1, **kw),
                                q.truth(t0, dt, N, None, v1), dt)
                            rec.ok(tr.S[0])
                    for fw in (False, True):
                        if not rec.case(dims, feats, dt, t0, B, s, i, fw):
                            continue
                        lq = q.clqt(T)
                        law(rec, f"parBackwardPass(forward={fw})",
                            rec.call(lq.parBackwardPass, B, s, forward=fw, **kw), tr, dt)
                        el = rec.call(lq.parBackwardPass_init, B, s, forward=fw, **kw)
                        rec.true("one element per block and the terminal one", len(el) == B + 1)
                        for k in range(B):
                            for nm, g, w in zip(("A", "b", "C", "eta", "J"), el[k], tr.element(k * s, k * s + s)):
                                near(rec, f"element {k} of the blocks: {nm}", g, w, dt)
                        rec.close("terminal element", el[B][4], q.ST, 1e-12)
                        rec.close("terminal element", el[B][3], q.vT, 1e-12)
                        rec.ok(tr.S[0] + tr.v[0])
                seen.add(N)


def regulate(rec, dims, tier):
    n, m = dims
    q = CT("C15r", n, m, n, ())
    S1 = 0.3 * spd(("S1", n), n)

    def lawr(what, got, tr, dt, exact=False):
        K, S = got
        for nm, g, w in (("S", S, tr.S), ("gains", K, tr.K)):
            if exact:
                rec.close(f"{what}: {nm}", np.array(g), np.array(w), 1e-8)
            else:
                near(rec, f"{what}: {nm}", g, w, dt)

    for dt in steplengths(tier):
        for B, s in grid(dt, tier):
            N = B * s
            tr, tr1 = q.truth(0.0, dt, N), q.truth(0.0, dt, N, S1)
            if not rec.case(dims, dt, B, s):
                continue
            lq, lx = q.clqr(N * dt), q.clqr(91.0)
            for mth in ("rk4", "exact"):
                ex = mth == "exact"
                lawr(f"seqBackwardPass({mth})", rec.call(lq.seqBackwardPass, N, method=mth), tr, dt, ex)
                lawr(f"seqBackwardPass({mth}, dt)", rec.call(lx.seqBackwardPass, N, dt=dt, method=mth), tr, dt, ex)
                lawr(f"seqBackwardPass({mth}, S)", rec.call(lq.seqBackwardPass, N, S=S1, method=mth), tr1, dt, ex)
                lawr(f"parBackwardPass(extract {mth})", rec.call(lq.parBackwardPass, B, s, extract_method=mth), tr, dt)
            for fw in (False, True):
                el = rec.call(lq.parBackwardPass_init, B, s, forward=fw)
                for k in range(B):
                    for nm, g, w in zip(("A", "b", "C", "eta", "J"), el[k], tr.element(k * s, k * s + s)):
                        near(rec, f"element {k} of the blocks (forward={fw}): {nm}", g, w, dt)
                from parallel_control import lqt_np
                lawr(f"blocks (forward={fw}), scan, extraction",
                     rec.call(lq.parBackwardPass_extract, lqt_np.par_backward_pass_scan(el), s), tr, dt)
            rec.ok(tr.S[0])
    for dt in (0.1, 0.25, 0.5, 1.0):
        for N in range(1, 5):
            if not rec.case(dims, dt, N, "exact"):
                continue
            for S in (None, S1, np.zeros((n, n))):
                qq = CT("C15r", n, m, n, ())
                tr = qq.truth(0.0, dt, N, S) if S is not None else qq.truth(0.0, dt, N)
                lawr("seqBackwardPass(exact, long step)",
                     rec.call(q.clqr(N * dt).seqBackwardPass, N, S=S, method="exact"), tr, dt, True)
            rec.ok(tr.S[0])
    if rec.case(dims, "unknown method"):
        lq = q.clqr(1.0)
        for fn in (lambda: lq.seqBackwardPass(2, method="euler"), lambda: lq.parBackwardPass_init(2, 2, method="euler"),
                   lambda: lq.parBackwardPass(2, 2, init_method="euler"), lambda: lq.parBackwardPass(2, 2, extract_method="euler")):
            try:
                rec.call(fn)
            except ValueError:
                continue
            rec.fail("unknown method accepted")
        rec.ok(0)


def vary(rec, dims, part, parts, tier):
    """Every set of time-varying functions; every set of vanishing fields."""
    for i, feats in enumerate(partial()):
        if i % parts == part:
            rec.group(f"{sum(f[:2] == 'tv' for f in feats)} time-varying functions")
            track(rec, dims, feats, tier, (0.05, (0.7,), [(2, 2), (3, 1)] if tier == "thorough" else [(2, 2)]))


def units(rec, dims, feats, splits):
    """Costs, states and time measured in other units: the normalised results are those of the original problem."""
    from mc.lqt import UNITS
    q = CT("C15u", *dims, feats)
    dt, t0 = 0.05, 0.7
    for B, s in splits:
        N = B * s
        tr = q.truth(t0, dt, N)
        for a, b, tau in [(a, b, 1.0) for a, b in UNITS] + [(1.0, 1.0, 2.0 ** k) for k in (-40, -20, -10, 10, 20)]:
            if not rec.case("units", dims, feats, B, s, a, b, tau):
                continue
            lq = q.scaled(N * dt, a, b, tau)
            norm = lambda g: [[x / u for x in l] for l, u in zip(g, (1.0, b, a, a * b))]
            law(rec, "seqBackwardPass", norm(rec.call(lq.seqBackwardPass, N, dt=tau * dt, t0=tau * t0)), tr, dt)
            for fw in (False, True):
                law(rec, f"parBackwardPass(forward={fw})",
                    norm(rec.call(lq.parBackwardPass, B, s, dt=tau * dt, t0=tau * t0, forward=fw)), tr, dt)
            rec.ok(tr.S[0])


def spread(rec, rates, tier):
    """Exact method on long horizons with time constants far apart, one to hundreds of steps; the reference
    integrates the Riccati equation itself."""
    from scipy.integrate import solve_ivp
    from parallel_control import clqt_np
    n = len(rates)
    R = np.eye(n) + 0.4 * wit(("rot", rates), n, n)
    F = R @ np.diag(np.array(rates, float)) @ np.linalg.inv(R)
    L, U = wit(("L", rates), n, 1) + 0.5, np.array([[0.5]])
    X, ST = spd(("X", n), n), 0.3 * spd(("ST", n), n)
    G = L @ np.linalg.solve(U, L.T)

    def f(t, y):
        S = y.reshape(n, n)
        return (F.T @ S + S @ F - S @ G @ S + X).ravel()
    for dt in (0.05, 0.1, 0.2):
        for N in (1, 2, 5, 20, 100) if tier == "quick" else (1, 2, 3, 5, 10, 20, 50, 100, 200, 400):
            if not rec.case("spread", rates, dt, N):
                continue
            ts = dt * np.arange(N + 1)
            Y = solve_ivp(f, (0, ts[-1]), ST.ravel(), method="DOP853", t_eval=ts, rtol=1e-11, atol=1e-12).y
            want = [Y[:, N - k].reshape(n, n) for k in range(N + 1)]
            K, S = rec.call(clqt_np.CLQR(F, L, X, U, ST, N * dt).seqBackwardPass, N, method="exact")
            rec.true("list lengths", (len(K), len(S)) == (N, N + 1), got=(len(K), len(S)))
            rec.close("seqBackwardPass(exact): S", np.array(S), np.array(want), 1e-5)
            rec.close("seqBackwardPass(exact): gains", np.array(K), np.array([np.linalg.solve(U, L.T @ w) for w in want[:-1]]), 1e-5)
            rec.group(f"horizon {N * dt:g}")
            rec.ok(want[0])


def jobs(tier):
    out = []
    for rates in itertools.combinations((-20, -5, -1, 0, 1), 2):
        out.append((1, "spread", {"rates": rates, "tier": tier}))
    for rates in ((-20, -1, 1), (-10, -3, 0)):
        out.append((2, "spread", {"rates": rates, "tier": tier}))
    for feats in (FEATS[-1], ()):
        out.append((3, "units", {"dims": (2, 1, 1), "feats": feats, "splits": [(2, 2), (1, 3), (4, 1)] if tier == "quick"
                                 else [(b, s) for b in range(1, 7) for s in range(1, 5)]}))
    for dims in ((2, 1, 1), (2, 2, 2)) if tier == "thorough" else ((2, 1, 1),):
        out += [(5, "vary", {"dims": dims, "part": i, "parts": 8, "tier": tier}) for i in range(8)]
    for feats in FEATS:
        for dims in DIMS:
            if "H" not in feats and dims[2] != 1 and dims != (3, 2, 2):
                continue
            if tier == "quick" and dims in ((1, 1, 1), (2, 2, 3)) and len(feats) not in (0, 4) :
                continue
            out.append((dims[0] * 3, "track", {"dims": dims, "feats": feats, "tier": tier}))
    for dims in ((1, 1), (2, 1), (2, 2), (3, 2)):
        out.append((4, "regulate", {"dims": dims, "tier": tier}))
    return out
