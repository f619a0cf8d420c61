"""C10: LQT, TensorFlow."""
import itertools
import numpy as np
from mc import lqt
from mc.core import wit

BOUNDS = ("every horizon 1..18, 31..33 (1..40, 63..65, 127..129 thorough) for state/input/output dimensions 2/1/1, "
          "and horizons 1..9 for 1/1/1, 3/2/2 and 1/2/2 with another terminal output dimension, with every "
          "combination of the canonical optional terms (offset, reference, output matrix, per-step data); limits T "
          "(pipelines), T+1, 2T+1 and the default (in the quick tier one of the three per horizon); double and single precision; initial states zero, unit vectors, generic; "
          "generic non-optimal laws; arbitrary trajectories for the cost; the benchmark pipelines; every subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["no cross terms, input offsets or input scaling (canonical form, documented)",
               "tfp.math.scan_associative and tf.scan behave as documented",
               "the parallelism limit is at least the horizon", "rounding up to 1e-7 (double) and 2e-3 (single) relative"]

FEATS = [tuple(f for f, b in zip(("c", "r", "H", "tv"), bits) if b) for bits in itertools.product((0, 1), repeat=4)]


def npy(t):
    return np.asarray(t.numpy())


def backward(rec, name, got, q, tol, units=(1.0, 1.0)):
    a, b = units
    sc = lambda w, u: max(u, max(float(np.max(np.abs(x))) for x in w))
    Ss, vs, Ks, ds = q.dp()
    S, v, K, d = [npy(t) for t in got]
    rec.close(name + ": Ss", S, np.array(Ss), tol, sc(Ss, a))
    rec.close(name + ": vs", v, np.array(vs), tol, sc(vs, a * b))
    rec.close(name + ": Kxs", K, np.array(Ks), tol, sc(Ks, 1.0))
    rec.close(name + ": ds", d, np.array(ds), tol, sc(ds, b))


def path(rec, name, got, us, xs, tol, unit=1.0):
    x, u = [npy(t) for t in got]
    sc = max(unit, np.max(np.abs(xs)), np.max(np.abs(us)))
    rec.close(name + ": xs", x, np.array(xs), tol, sc)
    rec.close(name + ": us", u, np.array(us), tol, sc)


def verify(rec, q, key, dtype="float64", limits=(None,), pipelines=False, x0s=None,
           units=(1.0, 1.0)):
    a, b1 = units
    import tensorflow as tf
    from parallel_control import lqt_tf
    T, n, m = q.T, q.F[0].shape[0], q.L[0].shape[1]
    tol = 1e-7 if dtype == "float64" else 2e-3
    dt = getattr(tf, dtype)
    conv = rec.call(lqt_tf.lqt_np_to_tf, lqt.build(q), dtype=dt)
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = conv
    for nm, g, w in zip(("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U"), conv,
                        (q.F, q.c, q.L, q.H, q.HT, q.r, q.rT, q.X, q.XT, q.U)):
        rec.close("lqt_np_to_tf " + nm, npy(g), np.array(w), 1e-15 if dtype == "float64" else 1e-6)
        rec.true("lqt_np_to_tf dtype", g.dtype == dt)
    bw = rec.call(lqt_tf.lqt_seq_backwardpass, *conv)
    backward(rec, "lqt_seq_backwardpass", bw, q, tol, units)
    Ss, vs, Kxs, ds = bw
    if x0s is None:
        x0s = [np.zeros(n), b1 * np.eye(n)[n - 1], b1 * wit((key, "x0"), n, lo=-2, hi=2)]
    for x0 in x0s:
        us, xs = q.kkt(x0)
        xt = tf.constant(x0, dtype=dt)
        path(rec, "lqt_seq_forwardpass", rec.call(lqt_tf.lqt_seq_forwardpass, xt, Fs, cs, Ls, Kxs, ds), us, xs, tol, b1)
    lawK = np.array([wit((key, "K", k), m, n) for k in range(T)])
    lawd = np.array([b1 * wit((key, "d", k), m) for k in range(T)])
    lus, lxs = q.rollout(x0s[-1], lawK, lawd)
    lawK, lawd = tf.constant(lawK, dtype=dt), tf.constant(lawd, dtype=dt)
    path(rec, "arbitrary law, lqt_seq_forwardpass",
         rec.call(lqt_tf.lqt_seq_forwardpass, xt, Fs, cs, Ls, lawK, lawd), lus, lxs, tol, b1)
    for lim in limits:
        kw = {} if lim is None else {"max_parallel": lim}
        bw = rec.call(lqt_tf.lqt_par_backwardpass, *conv, **kw)
        backward(rec, f"lqt_par_backwardpass({lim})", bw, q, tol, units)
        Ss, vs, Kxs, ds = bw
        for x0 in x0s:
            us, xs = q.kkt(x0)
            xt = tf.constant(x0, dtype=dt)
            path(rec, f"lqt_par_forwardpass({lim})",
                 rec.call(lqt_tf.lqt_par_forwardpass, xt, Fs, cs, Ls, Kxs, ds, **kw), us, xs, tol, b1)
            path(rec, f"lqt_par_fwdbwdpass({lim})",
                 rec.call(lqt_tf.lqt_par_fwdbwdpass, xt, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds, **kw), us, xs, tol, b1)
        path(rec, f"arbitrary law, lqt_par_forwardpass({lim})",
             rec.call(lqt_tf.lqt_par_forwardpass, xt, Fs, cs, Ls, lawK, lawd, **kw), lus, lxs, tol, b1)
    axs = np.array([b1 * wit((key, "x", k), n, lo=-2, hi=2) for k in range(T + 1)])
    aus = np.array([b1 * wit((key, "u", k), m, lo=-2, hi=2) for k in range(T)])
    for X, U in ((axs, aus), (xs, us)):
        J = rec.call(lqt_tf.lqt_cost, tf.constant(np.array(X), dtype=dt), tf.constant(np.array(U), dtype=dt),
                     Hs, HT, rs, rT, Xs, XT, Us)
        rec.close("lqt_cost", npy(J), q.cost(U, X), tol, max(a * b1 * b1, abs(q.cost(U, X))))
    if pipelines:
        from parallel_control import linear_speedtest as sp
        backward(rec, "lqt_sequential_bw", rec.call(sp.lqt_sequential_bw, *conv), q, tol, units)
        backward(rec, "lqt_parallel_bw", rec.call(sp.lqt_parallel_bw, *conv), q, tol, units)
        for nm in ("lqt_sequential_bwfw", "lqt_parallel_bwfw_1", "lqt_parallel_bwfw_2"):
            path(rec, nm, rec.call(getattr(sp, nm), xt, *conv), us, xs, tol, b1)
    rec.ok(outcome=xs[-1], sample={"xT": xs[-1]})


def lengths(rec, dims, pT, Ts, feats, limits, dtype="float64", pipelines=True, variants=("a",)):
    for T in Ts:
        for i, fe in enumerate(feats):
            fe = tuple(fe)
            for v in variants:
                lims = [None]
                if limits == "all" and i == len(feats) - 1:
                    lims += [T, T + 1, 2 * T + 1]
                elif limits == "one" and i == len(feats) - 1 and T <= 18:
                    lims += [2 * T + 1 if T % 3 == 2 else T + T % 3]
                if rec.case("len", dims, pT, T, fe, dtype, v):
                    rec.group(f"{len(lims)} limits")
                    verify(rec, lqt.problem(("C10", v), T, *dims, fe, pT=pT), (T, dims, v), dtype, lims, pipelines)


def vary(rec, dims, T, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    absent = ("M", "s", "Z")
    for fields in lqt.field_subsets(part, parts, absent):
        if rec.case("vary", dims, T, fields):
            rec.group(f"{len(fields)} varying fields")
            key = ("C10V", T)
            verify(rec, lqt.varying("C10V", T, *dims, fields, pT=1, absent=absent), key,
                   x0s=[wit((key, "x0"), dims[0], lo=-2, hi=2)])


def units(rec, dims, Ts, feats):
    """Costs, states and inputs measured in other units."""
    for T in Ts:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, tuple(fe), a, b):
                    key = ("C10U", T)
                    verify(rec, lqt.rescale(lqt.problem("C10U", T, *dims, tuple(fe), pT=dims[2]), a, b), key,
                           x0s=[b * wit((key, "x0"), dims[0], lo=-2, hi=2)], units=(a, b))


def jobs(tier):
    q = tier == "quick"
    Ts = list(range(1, 19)) + [31, 32, 33] if q else list(range(1, 41)) + [63, 64, 65, 127, 128, 129]
    js = []
    for T in (1, 3) if q else range(1, 10):
        js.append((4, "units", {"dims": (2, 2, 2), "Ts": [T], "feats": [FEATS[15], FEATS[0]]}))
    for d, T in [((2, 2, 2), 3)] + ([] if q else [((1, 1, 1), 2), ((2, 1, 3), 5)]):
        js += [(9, "vary", {"dims": d, "T": T, "part": i, "parts": 4}) for i in range(4)]
    v = ["a"] if q else ["a", "b", "e"]
    f = [FEATS[0], FEATS[5], FEATS[10], FEATS[15]] if q else FEATS
    for i in range(8):
        js.append((9, "lengths", {"dims": [2, 1, 1], "pT": 1, "Ts": Ts[i::8], "feats": f, "limits": "one" if q else "all",
                                "variants": v}))
    for dims, pT in (((1, 1, 1), 1), ((3, 2, 2), 1), ((1, 2, 2), 3)):
        tt = [1, 2, 3, 4, 5, 8] if q else list(range(1, 18))
        for i in range(2 if q else 4):
            js.append((5, "lengths", {"dims": dims, "pT": pT, "Ts": tt[i::2 if q else 4], "feats": FEATS[::-1] if not q else
                                      [FEATS[k] for k in (3, 6, 9, 12, 15)], "limits": "", "pipelines": not q,
                                      "variants": v}))
    js.append((5, "lengths", {"dims": [2, 1, 1], "pT": 1, "Ts": [1, 2, 5] if q else list(range(1, 18)), "feats": [FEATS[15]], "limits": "",
                              "dtype": "float32", "variants": v}))
    return js
