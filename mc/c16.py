"""C16: continuous-time regulation and tracking (NumPy), trajectories."""
import numpy as np
from mc.core import wit, psd
from mc.ct import CT, held, partial
from mc.c15 import C4, DIMS, FEATS, grid, near, steplengths, times

BOUNDS = ("the splits, calling forms, features, dimensions and step lengths of C15; initial state generic, zero (and "
          "unit vectors for the regulator); optimal laws, and arbitrary non-optimal laws for the forward passes; both hold modes; both integration "
          "directions; forward value functions from the default and from supplied initial parameters; every "
          "subset of time-varying and of vanishing functions; costs and states in nine units, time in five")
ASSUMPTIONS = ["discretisation error at most 40 dt^4 times the size of the solution (largest observed 8 dt^4)",
               "with u_zoh the block-parallel pass may propagate block starts with either hold",
               "the reference solution (Hamiltonian flow; RK4 at a sixth of the step for held laws) is correct"]


def path(rec, what, got, us, xs, dt):
    u, x = got
    near(rec, what + ": states", x, xs, dt)
    near(rec, what + ": controls", u, us, dt)


def law_followed(rec, what, got, x0, K, d):
    u, x = got
    rec.close(what + ": initial state", x[0], x0, 1e-12)
    for k in range(len(K)):
        rec.close(what + ": control follows the law", u[k], -K[k] @ x[k] + d[k], 1e-9)


def zoh_blocks(rec, what, got, q, x0, K, d, t0, dt, steps, tau=1.0):
    """u_zoh: inside each block the control is held; block starts lie between the two hold modes."""
    u, x = got
    x = [np.asarray(a, float) for a in x]
    _, xg = held(q, x0, K, d, t0, dt, False)
    _, xz = held(q, x0, K, d, t0, dt, True)
    N = len(K)
    rec.true(what + ": lengths", len(x) == N + 1 and len(u) == N)
    rec.close(what + ": initial state", x[0], x0, 1e-12)
    sc = max(1.0, np.max(np.abs(xg)))
    gap = 0.0
    for b in range(0, N, steps):
        gap = max(gap, float(np.max(np.abs(xg[b] - xz[b]))))
        rec.true(what + ": block start", np.max(np.abs(x[b] - xg[b])) <= 2 * gap + C4 * (dt / tau) ** 4 * sc, got=x[b], want=xg[b])
        lu, lx = held(q, x[b], K[b:b + steps], d[b:b + steps], t0 + b * dt, dt, True)
        near(rec, what + ": controls in a block", u[b:b + steps], lu, dt / tau)
        near(rec, what + ": states in a block", x[b:b + steps], lx[:-1], dt / tau)
    gap = max(gap, float(np.max(np.abs(xg[N] - xz[N]))))
    rec.true(what + ": final state", np.max(np.abs(x[N] - xg[N])) <= 2 * gap + C4 * (dt / tau) ** 4 * sc, got=x[N], want=xg[N])


def track(rec, dims, feats, tier, only=None):
    """only: (step length, start times, splits) instead of the grid of the tier."""
    q = CT("C16", *dims, feats)
    n, m = q.n, q.m
    x0s = [wit((dims, "x0"), n, lo=-2, hi=2)] + ([np.zeros(n)] if feats else [])
    A0, b0, C0 = wit((dims, "A0"), n, n), wit((dims, "b0"), n), 0.3 * psd((dims, "C0"), n, n)
    for dt in [only[0]] if only else steplengths(tier):
        for t0 in only[1] if only else (0.0, 0.7) + ((-0.4,) if tier == "thorough" else ()):
            seen = set()
            for B, s in only[2] if only else grid(dt, tier):
                N = B * s
                tr = q.truth(t0, dt, N)
                laws = [("optimal law", tr.K, tr.d),
                        ("arbitrary law", [wit((dims, "K", k), m, n) for k in range(N)],
                         [wit((dims, "d", k), m) for k in range(N)])]
                for i, (kw, T) in enumerate(times(N * dt, dt, t0)):
                    lq = q.clqt(T)
                    for j, x0 in enumerate(x0s):
                        us, xs = tr.path(x0)
                        if N not in seen and rec.case(dims, feats, dt, t0, N, i, j, "seq"):
                            for nm, K, d in laws:
                                for z in (False, True):
                                    got = rec.call(lq.seqForwardPass, x0, K, d, u_zoh=z, **kw)
                                    path(rec, f"{nm}, seqForwardPass(u_zoh={z})", got, *held(q, x0, K, d, t0, dt, z), dt)
                                    law_followed(rec, f"{nm}, seqForwardPass(u_zoh={z})", got, x0, K, d)
                            A, b, C = rec.call(lq.seqFwdBwdPass, x0, N, **kw)
                            tc = tr.cond(np.zeros((n, n)), x0, np.zeros((n, n)))
                            for nm, g, w in (("A", A, [t[0] for t in tc]), ("b", b, [t[1] for t in tc]), ("C", C, [t[2] for t in tc])):
                                near(rec, "seqFwdBwdPass: " + nm, g, w, dt)
                            got = rec.call(lq.combineForwardBackward, tr.K, tr.d, tr.S, tr.v, A, b, C)
                            path(rec, "seqFwdBwdPass, combineForwardBackward", got, us, xs, dt)
                            law_followed(rec, "combineForwardBackward", got, x0, tr.K, tr.d)
                            A, b, C = rec.call(lq.seqFwdBwdPass, x0, N, A=A0, b=b0, C=C0, **kw)
                            tc = tr.cond(A0, b0, C0)
                            for nm, g, w in (("A", A, [t[0] for t in tc]), ("b", b, [t[1] for t in tc]), ("C", C, [t[2] for t in tc])):
                                near(rec, "seqFwdBwdPass(A,b,C): " + nm, g, w, dt)
                            rec.ok(xs[-1])
                        if not rec.case(dims, feats, dt, t0, B, s, i, j):
                            continue
                        for nm, K, d in laws:
                            ref = held(q, x0, K, d, t0, dt, False)
                            for fw in (True, False):
                                w = f"{nm}, parForwardPass(forward={fw})"
                                got = rec.call(lq.parForwardPass, x0, K, d, B, s, forward=fw, **kw)
                                path(rec, w, got, *ref, dt)
                                law_followed(rec, w, got, x0, K, d)
                                zoh_blocks(rec, w + " u_zoh", rec.call(lq.parForwardPass, x0, K, d, B, s, forward=fw, u_zoh=True, **kw),
                                           q, x0, K, d, t0, dt, s)
                        for fw in (True, False):
                            w = f"parFwdBwdPass(forward={fw})"
                            got = rec.call(lq.parFwdBwdPass, x0, tr.K, tr.d, tr.S, tr.v, B, s, forward=fw, **kw)
                            path(rec, w, got, us, xs, dt)
                            law_followed(rec, w, got, x0, tr.K, tr.d)
                        rec.ok(xs[-1])
                seen.add(N)
    if rec.case(dims, feats, "wrong number of steps"):
        lq, tr = q.clqt(0.3), q.truth(0.0, 0.05, 6)
        x0 = x0s[0]
        for fn in (lambda: lq.parForwardPass(x0, tr.K, tr.d, 2, 2), lambda: lq.parForwardPass(x0, tr.K, tr.d, 4, 2),
                   lambda: lq.parFwdBwdPass(x0, tr.K, tr.d, tr.S, tr.v, 2, 2),
                   lambda: lq.parFwdBwdPass(x0, tr.K, tr.d, tr.S, tr.v, 7, 1)):
            try:
                rec.call(fn)
            except ValueError:
                continue
            rec.fail("a law of the wrong length is accepted")
        rec.ok(0)


def regulate(rec, dims, tier):
    n, m = dims
    q = CT("C16r", n, m, n, ())
    F, L = q.F(0.0), q.L(0.0)
    x0s = list(np.eye(n)) + [wit((dims, "x0"), n, lo=-2, hi=2)]
    Z = np.zeros((n, n))
    A0, b0, C0 = wit((dims, "A0"), n, n), wit((dims, "b0"), n), 0.3 * psd((dims, "C0"), n, n)
    from scipy.linalg import expm
    for dt in steplengths(tier):
        for B, s in grid(dt, tier):
            N = B * s
            tr = q.truth(0.0, dt, N)
            lq, lx = q.clqr(N * dt), q.clqr(91.0)
            zd = [np.zeros(m)] * N
            for j, x0 in enumerate(x0s):
                if not rec.case(dims, dt, B, s, j):
                    continue
                us, xs = tr.path(x0)
                for nm, K in (("optimal law", tr.K), ("arbitrary law", [wit((dims, "K", k), m, n) for k in range(N)])):
                    ref = {z: held(q, x0, K, zd, 0.0, dt, z) for z in (False, True)}
                    for mth in ("rk4", "exact"):
                        for z in (False, True):
                            w = f"{nm}, seqForwardPass({mth}, u_zoh={z})"
                            for got in (rec.call(lq.seqForwardPass, x0, K, method=mth, u_zoh=z),
                                        rec.call(lx.seqForwardPass, x0, K, dt=dt, method=mth, u_zoh=z)):
                                path(rec, w, got, *ref[z], dt)
                                law_followed(rec, w, got, x0, K, zd)
                        w = f"{nm}, parForwardPass({mth})"
                        got = rec.call(lq.parForwardPass, x0, K, B, s, extract_method=mth)
                        path(rec, w, got, *ref[False], dt)
                        law_followed(rec, w, got, x0, K, zd)
                        zoh_blocks(rec, w + " u_zoh", rec.call(lq.parForwardPass, x0, K, B, s, extract_method=mth, u_zoh=True),
                                   q, x0, K, zd, 0.0, dt, s)
                    from parallel_control import lqt_np
                    for fw in (False, True):
                        el = lqt_np.par_forward_pass_scan(rec.call(lq.parForwardPass_init, x0, K, B, s, forward=fw))
                        path(rec, f"{nm}, blocks(forward={fw}), scan, extraction",
                             rec.call(lq.parForwardPass_extract, K, el, s), *ref[False], dt)
                for kw, l in (({}, lq), ({"dt": dt}, lx)):
                    A, b, C = rec.call(l.seqFwdBwdPass, x0, N, **kw)
                    tc = tr.cond(Z, x0, Z)
                    for nm, g, w in (("A", A, [t[0] for t in tc]), ("b", b, [t[1] for t in tc]), ("C", C, [t[2] for t in tc])):
                        near(rec, "seqFwdBwdPass: " + nm, g, w, dt)
                    got = rec.call(l.combineForwardBackward, tr.K, tr.S, A, b, C)
                    path(rec, "combineForwardBackward", got, us, xs, dt)
                    law_followed(rec, "combineForwardBackward", got, x0, tr.K, zd)
                    A, b, C = rec.call(l.seqFwdBwdPass, x0, N, A=A0, b=b0, C=C0, **kw)
                    tc = tr.cond(A0, b0, C0)
                    for nm, g, w in (("A", A, [t[0] for t in tc]), ("b", b, [t[1] for t in tc]), ("C", C, [t[2] for t in tc])):
                        near(rec, "seqFwdBwdPass(A,b,C): " + nm, g, w, dt)
                got = rec.call(lq.parFwdBwdPass, x0, tr.K, tr.S, B, s)
                path(rec, "parFwdBwdPass", got, us, xs, dt)
                law_followed(rec, "parFwdBwdPass", got, x0, tr.K, zd)
                from parallel_control import lqt_np
                for fw in (False, True):
                    el = lqt_np.par_fwdbwd_pass_scan(rec.call(lq.parFwdBwdPass_init, x0, B, s, forward=fw))
                    path(rec, f"forward-backward blocks(forward={fw}), scan, extraction",
                         rec.call(lq.parFwdBwdPass_extract, tr.K, tr.S, el, s), us, xs, dt)
                rec.ok(xs[-1])
    # exact propagation for any step length
    for dt in (0.1, 0.25, 0.5, 1.0):
        for N in range(1, 5):
            if not rec.case(dims, dt, N, "exact"):
                continue
            tr = q.truth(0.0, dt, N)
            x0 = x0s[-1]
            M = expm(np.block([[F, L], [np.zeros((m, n + m))]]) * dt)
            for z in (False, True):
                x, rx, ru = x0, [x0], []
                for k in range(N):
                    u = -tr.K[k] @ x
                    x = M[:n, :n] @ x + M[:n, n:] @ u if z else expm((F - L @ tr.K[k]) * dt) @ x
                    rx.append(x)
                    ru.append(u)
                u, x = rec.call(q.clqr(N * dt).seqForwardPass, x0, tr.K, method="exact", u_zoh=z)
                rec.close(f"seqForwardPass(exact, u_zoh={z}): states", x, rx, 1e-9)
                rec.close(f"seqForwardPass(exact, u_zoh={z}): controls", u, ru, 1e-9)
            rec.ok(x[-1])
    if rec.case(dims, "refused arguments"):
        lq, tr = q.clqr(0.3), q.truth(0.0, 0.05, 6)
        x0 = x0s[0]
        for fn in (lambda: lq.parForwardPass(x0, tr.K, 2, 2), lambda: lq.parForwardPass(x0, tr.K, 7, 1),
                   lambda: lq.parFwdBwdPass(x0, tr.K, tr.S, 2, 2), lambda: lq.parFwdBwdPass(x0, tr.K, tr.S, 7, 1),
                   lambda: lq.seqForwardPass(x0, tr.K, method="euler"), lambda: lq.seqFwdBwdPass(x0, 6, method="euler"),
                   lambda: lq.parForwardPass(x0, tr.K, 2, 3, init_method="euler"),
                   lambda: lq.parForwardPass(x0, tr.K, 2, 3, extract_method="euler"),
                   lambda: lq.parFwdBwdPass(x0, tr.K, tr.S, 2, 3, init_method="euler"),
                   lambda: lq.parFwdBwdPass(x0, tr.K, tr.S, 2, 3, extract_method="euler")):
            try:
                rec.call(fn)
            except ValueError:
                continue
            rec.fail("a wrong length or an unknown method is accepted")
        rec.ok(0)


def vary(rec, dims, part, parts, tier):
    """Every set of time-varying functions; every set of vanishing fields."""
    for i, feats in enumerate(partial()):
        if i % parts == part:
            rec.group(f"{sum(f[:2] == 'tv' for f in feats)} time-varying functions")
            track(rec, dims, feats, tier, (0.05, (0.7,), [(2, 2), (3, 1)] if tier == "thorough" else [(2, 2)]))


def units(rec, dims, feats, splits):
    """Costs, states and time measured in other units: the normalised results are those of the original problem."""
    from mc.lqt import UNITS
    q = CT("C16u", *dims, feats)
    dt, t0 = 0.05, 0.7
    x0 = wit((dims, "x0"), q.n, lo=-2, hi=2)
    for B, s in splits:
        N = B * s
        tr = q.truth(t0, dt, N)
        opt = tr.path(x0)
        for a, b, tau in [(a, b, 1.0) for a, b in UNITS] + [(1.0, 1.0, 2.0 ** k) for k in (-40, -20, -10, 10, 20)]:
            if not rec.case("units", dims, feats, B, s, a, b, tau):
                continue
            lq = q.scaled(N * dt, a, b, tau)
            S, v, K, d = [a * x for x in tr.S], [a * b * x for x in tr.v], tr.K, [b * x for x in tr.d]
            norm = lambda g: [[x / b for x in l] for l in g]
            kw = {"dt": tau * dt, "t0": tau * t0}
            path(rec, "seqForwardPass", norm(rec.call(lq.seqForwardPass, b * x0, K, d, **kw)),
                 *held(q, x0, tr.K, tr.d, t0, dt, False), dt)
            A, bb, C = rec.call(lq.seqFwdBwdPass, b * x0, N, **kw)
            path(rec, "combineForwardBackward", norm(rec.call(lq.combineForwardBackward, K, d, S, v, A, bb, C)), *opt, dt)
            for fw in (False, True):
                path(rec, f"parForwardPass(forward={fw})",
                     norm(rec.call(lq.parForwardPass, b * x0, K, d, B, s, forward=fw, **kw)),
                     *held(q, x0, tr.K, tr.d, t0, dt, False), dt)
                path(rec, f"parFwdBwdPass(forward={fw})",
                     norm(rec.call(lq.parFwdBwdPass, b * x0, K, d, S, v, B, s, forward=fw, **kw)), *opt, dt)
            rec.ok(opt[1][-1])


def jobs(tier):
    out = []
    for feats in (FEATS[-1], ()):
        out.append((3, "units", {"dims": (2, 1, 1), "feats": feats, "splits": [(2, 2), (1, 3), (4, 1)] if tier == "quick"
                                 else [(b, s) for b in range(1, 7) for s in range(1, 5)]}))
    for dims in ((2, 1, 1), (2, 2, 2)) if tier == "thorough" else ((2, 1, 1),):
        out += [(5, "vary", {"dims": dims, "part": i, "parts": 8, "tier": tier}) for i in range(8)]
    for feats in FEATS:
        for dims in DIMS:
            if "H" not in feats and dims[2] != 1 and dims != (3, 2, 2):
                continue
            if tier == "quick" and dims in ((1, 1, 1), (2, 2, 3)) and len(feats) not in (0, 4):
                continue
            if tier == "quick" and dims == (3, 2, 2) and len(feats) in (1, 2):
                continue
            out.append((dims[0] * 3 * (2 if feats else 1), "track", {"dims": dims, "feats": feats, "tier": tier}))
    for dims in ((1, 1), (2, 1), (2, 2), (3, 2)):
        out.append((12, "regulate", {"dims": dims, "tier": tier}))
    return out
