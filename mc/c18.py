"""C18: parareal (NumPy)."""
import itertools
import numpy as np
from mc.core import wit
from mc.ct import CT, FEATURES

BOUNDS = ("every number of blocks 1..6 and steps 1..3 (1..10 x 1..6 thorough), every iteration count 0..blocks+2 and the "
          "default, feature sets (none, time-varying, all and two others quick; all 16 thorough), dimensions 2/1/1 and "
          "3/2/2, horizons 1 and 3, both hold modes, optimal and arbitrary laws, generic and zero initial states; the "
          "intermediate lists after every iteration as well as the composed passes; stationary terminal costs, and time in other units")
ASSUMPTIONS = ["the sequential pass on the fine grid is the reference (C15/C16 decide it)",
               "rounding up to 1e-7 relative"]

TOL = 1e-7


def tail(rec, what, got, want, k, N, s, grid_len):
    """got equals want on the last k blocks of N blocks of s steps (lists of grid_len = N s or N s + 1)."""
    rec.true(what + ": length", len(got) == grid_len, got=len(got), want=grid_len)
    i = max(0, (N - k) * s)
    rec.close(what, np.array(got[i:], float), np.array(want[i:], float), TOL)


def head(rec, what, got, want, k, N, s, grid_len):
    rec.true(what + ": length", len(got) == grid_len, got=len(got), want=grid_len)
    i = grid_len if k == N else k * s
    rec.close(what, np.array(got[:i], float), np.array(want[:i], float), TOL)


def variant(q, form):
    """form: a unit of time, or "stationary" for a terminal cost that solves the stationary Riccati equation."""
    return q if form is None else q.stationary() if form == "stationary" else q.retime(form)


def run(rec, dims, feats, T, blocks, steps, form=None):
    from parallel_control import parareal_clqt_np as pp
    q = variant(CT("C18", *dims, feats), form)
    T = T * (form or 1.0) if form != "stationary" else T
    n, m = q.n, q.m
    lq = q.clqt(T)
    pa = pp.Parareal_CLQT_np(lq)
    for B in blocks:
        for s in steps:
            N = B * s
            sb = lq.seqBackwardPass(N)
            laws = [("optimal", sb[0], sb[1]),
                    ("arbitrary", [wit(("K", k), m, n) for k in range(N)], [wit(("d", k), m) for k in range(N)])]
            # iterates
            if rec.case(dims, feats, T, B, s, form, "iterates"):
                S, v = rec.call(pa.initBackwardPass, B)
                SG, vG = S, v
                for it in range(B + 2):
                    ex = B if s == 1 else min(it, B)
                    rec.close(f"S at block boundaries after {it} iterations", np.array(S[B - ex:]), np.array(sb[2][::s][B - ex:]), TOL)
                    rec.close(f"v at block boundaries after {it} iterations", np.array(v[B - ex:]), np.array(sb[3][::s][B - ex:]), TOL)
                    out = rec.call(pa.finalBackwardPass, s, S, v)
                    ex = min(B, ex + 1)
                    for nm, g, w, ln in zip(("gains", "offsets", "S", "v"), out, sb, (N, N, N + 1, N + 1)):
                        tail(rec, f"final pass after {it} iterations: {nm}", g, w, ex, B, s, ln)
                    SF, vF = rec.call(pa.denseBackwardPass, s, S, v)
                    S, v, SG, vG = rec.call(pa.coarseBackwardPass, SF, vF, SG, vG)
                for j, x0 in enumerate((wit(("x0", n), n, lo=-2, hi=2), np.zeros(n))):
                    for nm, K, d in laws:
                        for z in (False, True):
                            u, x = lq.seqForwardPass(x0, K, d, u_zoh=z)
                            xc = rec.call(pa.initForwardPass, B, x0, K, d, u_zoh=z)
                            xG = xc
                            for it in range(B + 1):
                                ex = B if s == 1 else min(it, B)
                                rec.close(f"{nm}: states at block boundaries after {it} iterations (u_zoh={z})",
                                          np.array(xc[:ex + 1]), np.array(x[::s][:ex + 1]), TOL)
                                xF = rec.call(pa.denseForwardPass, s, xc, K, d, u_zoh=z)
                                xc, xG = rec.call(pa.coarseForwardPass, xF, xG, K, d, u_zoh=z)
                    A, b, C = rec.call(pa.initFwdBwdPass, B, x0)
                    ref = lq.seqFwdBwdPass(x0, N)
                    G = A, b, C
                    for it in range(B + 1):
                        ex = B if s == 1 else min(it, B)
                        for nm, g, w in zip("AbC", (A, b, C), ref):
                            rec.close(f"{nm} at block boundaries after {it} iterations", np.array(g[:ex + 1]),
                                      np.array(w[::s][:ex + 1]), TOL)
                        F = rec.call(pa.denseFwdBwdPass, s, A, b, C)
                        A, b, C, *G = rec.call(pa.coarseFwdBwdPass, *F, *G)
                rec.ok(S[0])
            for it in list(range(B + 3)) + [None]:
                if not rec.case(dims, feats, T, B, s, form, it):
                    continue
                kw = {} if it is None else {"niter": it}
                # one more block is exact through the final fine pass
                done = B if s == 1 else (0 if it is None and s < B else B if it is None else min(B, it + 1))
                out = rec.call(pa.backwardPass, B, s, **kw)
                for nm, g, w, ln in zip(("gains", "offsets", "S", "v"), out, sb, (N, N, N + 1, N + 1)):
                    tail(rec, f"backwardPass: {nm}", g, w, done, B, s, ln)
                for j, x0 in enumerate((wit(("x0", n), n, lo=-2, hi=2), np.zeros(n))):
                    for nm, K, d in laws:
                        for z in (False, True):
                            u, x = lq.seqForwardPass(x0, K, d, u_zoh=z)
                            pu, px = rec.call(pa.forwardPass, B, s, x0, K, d, u_zoh=z, **kw)
                            head(rec, f"{nm}: forwardPass states (u_zoh={z})", px, x, done, B, s, N + 1)
                            head(rec, f"{nm}: forwardPass controls (u_zoh={z})", pu, u, done, B, s, N)
                            rec.close("controls follow the law", np.array(pu),
                                      np.array([-K[k] @ px[k] + d[k] for k in range(N)]), 1e-9)
                    ref = lq.seqFwdBwdPass(x0, N)
                    got = rec.call(pa.fwdBwdPass, B, s, x0, **kw)
                    for nm, g, w in zip("AbC", got, ref):
                        head(rec, "fwdBwdPass: " + nm, g, w, done, B, s, N + 1)
                    if done == B:
                        u, x = lq.combineForwardBackward(*sb, *ref)
                        pu, px = rec.call(lq.combineForwardBackward, *out, *got)
                        rec.close("combined states", np.array(px), np.array(x), TOL)
                        rec.close("combined controls", np.array(pu), np.array(u), TOL)
                rec.ok(out[2][0])


def jobs(tier):
    out = []
    allf = [tuple(f for f, b in zip(FEATURES, bits) if b) for bits in itertools.product((0, 1), repeat=4)]
    th = tier == "thorough"
    for dims in ((2, 1, 1), (3, 2, 2)):
        for j, feats in enumerate(allf):
            if not th and j not in ((0, 1, 15) if dims[0] == 2 else (15, 10, 12)):
                continue
            for T in (1.0, 3.0):
                if not th and T == 3.0 and j != 15:
                    continue
                for B in range(1, 11 if th else 7):
                    out.append((B * B, "run", {"dims": dims, "feats": feats, "T": T, "blocks": [B],
                                               "steps": list(range(1, 7 if th else 4))}))
    for B in range(1, 9 if th else 6):
        for form, feats in ((2.0 ** -20, allf[-1]), (2.0 ** 10, allf[-1]), ("stationary", ("c", "r", "H", "tv:r", "tv:c")),
                            ("stationary", ("c",))):
            out.append((B * B, "run", {"dims": (2, 1, 1), "feats": feats, "T": 3.0, "blocks": [B],
                                       "steps": [1, 2, 3] if th else [2], "form": form}))
    return out
