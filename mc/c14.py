"""C14: partial condensing, TensorFlow."""
import itertools
import numpy as np
from mc import lqt
from mc.core import wit

BOUNDS = ("every horizon 1..7 with every block length 1..horizon+2, and horizons 8..13 with block lengths 2, 3, 5, "
          "horizon-1, horizon, horizon+1 (every horizon 1..16 with every block length in the thorough tier), all data "
          "features; output dimensions smaller than, equal to and larger than the state; constant and per-step data; "
          "sequential and parallel solutions and the three pipelines; every subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["no cross terms, input offsets or input scaling, constant output dimension (documented)",
               "tfp.math.scan_associative, tf.scan, tf.linalg.lstsq behave as documented",
               "rounding up to 1e-6 (double) relative"]
FEATS = [tuple(f for f, b in zip(("c", "r", "H", "tv"), bits) if b) for bits in itertools.product((0, 1), repeat=4)]


def run(rec, q, Nc, key, pipelines, tol=1e-6, unit=1.0):
    import tensorflow as tf
    from parallel_control import lqt_tf, condensing_tf as ct, linear_speedtest as sp
    T, n = q.T, len(q.F[0])
    conv = lqt_tf.lqt_np_to_tf(lqt.build(q))
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = conv
    star = rec.call(ct.condense, Fs, cs, Ls, Hs, rs, Xs, Us, Nc)
    F1, c1, L1, H1, r1, X1, U1, M1, s1, Lam, cb, Lb = star
    rec.true("number of blocks", F1.shape[0] == -(-T // Nc), got=F1.shape)
    F2, c2, X2 = rec.call(lqt_tf.lqt_gen_to_canon, F1, c1, L1, H1, r1, X1, U1, M1, s1)
    bws = [("seq", rec.call(lqt_tf.lqt_seq_backwardpass, F2, c2, L1, H1, HT, r1, rT, X2, XT, U1))]
    bws.append(("par", rec.call(lqt_tf.lqt_par_backwardpass, F2, c2, L1, H1, HT, r1, rT, X2, XT, U1)))
    x0s = [np.zeros(n), unit * wit((key, "x0"), n, lo=-2, hi=2)]
    laws = [(b, Ss, vs) + tuple(rec.call(lqt_tf.lqt_canon_to_gen, K, d, H1, r1, U1, M1, s1)) for b, (Ss, vs, K, d) in bws]
    for i, x0 in enumerate(x0s):
        us, xs = q.kkt(x0)
        us, xs = np.array(us), np.array(xs)
        sc = max(unit, np.max(np.abs(us)), np.max(np.abs(xs)))
        xt = tf.constant(x0, dtype=tf.float64)
        sols = {}
        for b, Ss, vs, K, d in laws:
            sols[b + ", seq forward"] = rec.call(lqt_tf.lqt_seq_forwardpass, xt, F1, c1, L1, K, d)
            if b == "par":
                sols[b + ", par forward"] = rec.call(lqt_tf.lqt_par_forwardpass, xt, F1, c1, L1, K, d)
                sols[b + ", forward-backward"] = rec.call(lqt_tf.lqt_par_fwdbwdpass, xt, F2, c2, L1, H1, r1, X2, U1,
                                                          Ss, vs, K, d)
        for nm, (cx, cu) in sols.items():
            u, x = rec.call(ct.convertUX, cu, cx, Lam, cb, Lb, T)
            rec.close(nm + ": us", u.numpy(), us, tol, sc)
            rec.close(nm + ": xs", x.numpy(), xs, tol, sc)
        if pipelines and i == 1:
            for nm in ("lqt_sequential_cond_bwfw", "lqt_parallel_cond_bwfw_1", "lqt_parallel_cond_bwfw_2"):
                x, u = rec.call(getattr(sp, nm), xt, *conv, Nc)
                rec.close(nm + ": us", u.numpy(), us, tol, sc)
                rec.close(nm + ": xs", x.numpy(), xs, tol, sc)
    rec.group("divides" if T % Nc == 0 else "exceeds" if Nc > T else "partial last block")
    rec.ok(outcome=xs[-1], sample={"T": T, "Nc": Nc, "xT": xs[-1]})


def grid(rec, dims, pT, pairs, feats, pipelines, variants=("a",)):
    for T, Nc in pairs:
        for i, fe in enumerate(feats):
            for v in variants:
                if rec.case("grid", dims, T, Nc, tuple(fe), v):
                    run(rec, lqt.problem(("C14", v), T, *dims, tuple(fe), pT=pT), Nc, (dims, T, v),
                        pipelines and v == "a" and (pipelines == "all" or i == 0))


def vary(rec, dims, pairs, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    absent = ("M", "s", "Z")
    for T, Nc in pairs:
        for fields in lqt.field_subsets(part, parts, absent):
            if rec.case("vary", dims, T, Nc, fields):
                rec.group(f"{len(fields)} varying fields")
                run(rec, lqt.varying("C14V", T, *dims, fields, absent=absent), Nc, ("C14V", T), False)


def units(rec, dims, pairs, feats):
    """Costs, states and inputs measured in other units."""
    for T, Nc in pairs:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, Nc, tuple(fe), a, b):
                    run(rec, lqt.rescale(lqt.problem("C14U", T, *dims, tuple(fe), pT=dims[2]), a, b), Nc, ("C14U", T),
                        False, unit=b)


def jobs(tier):
    q = tier == "quick"
    js = []
    for d in [(2, 2, 2), (2, 1, 1)] + ([] if q else [(1, 1, 1), (3, 2, 2)]):
        for T, N in [(5, 2)] if q else [(T, N) for T in range(1, 8) for N in range(1, T + 2)]:
            js.append((20, "units", {"dims": d, "pairs": [(T, N)], "feats": [FEATS[15]]}))
    for d in [(2, 2, 2)] + ([] if q else [(1, 1, 1), (2, 1, 3), (3, 2, 2)]):
        for T, Nc in [(5, 2)] if q else [(4, 2), (5, 2), (5, 3), (6, 3), (7, 3)]:
            js += [(40, "vary", {"dims": d, "pairs": [(T, Nc)], "part": i, "parts": 4}) for i in range(4)]
    if q:
        pairs = [(T, Nc) for T in range(1, 8) for Nc in range(1, T + 3)]
        more = [(T, Nc) for T in range(8, 14) for Nc in sorted({2, 3, 5, T - 1, T, T + 1})]
    else:
        pairs = [(T, Nc) for T in range(1, 17) for Nc in range(1, T + 3)]
        more = []
    k = 10 if q else 24
    for i in range(k):
        js.append((len(pairs[i::k]), "grid", {"dims": (2, 1, 1), "pT": 1, "pairs": pairs[i::k],
                                              "feats": [FEATS[15], FEATS[0]] if q else FEATS[::-1],
                                              "pipelines": "one" if q else "all"}))
    small = [p for p in pairs if p[0] <= (4 if q else 9)]
    for dims, pT in (((1, 1, 1), 1), ((3, 2, 2), 1), ((2, 2, 3), 3)):
        for i in range(2 if q else 6):
            js.append((40 if dims[0] == 3 else 3, "grid", {"dims": dims, "pT": pT, "pairs": small[i::2 if q else 6],
                                   "feats": FEATS[1:] if dims == (3, 2, 2) else [FEATS[15], FEATS[6]],
                                   "pipelines": "" if q else "one", "variants": ["a"] if q else ["a", "b"]}))
    for i in range(4):
        if more:
            js.append((5, "grid", {"dims": (2, 1, 1), "pT": 2, "pairs": more[i::4], "feats": [FEATS[15]], "pipelines": ""}))
    return js
