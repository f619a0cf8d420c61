"""C11: LQT, TensorFlow: general cost to canonical form and back."""
import itertools
import numpy as np
from mc import lqt

BOUNDS = ("every combination of offset, reference, output matrix, cross term, input offset and per-step data for "
          "horizons 1..4 (1..9 thorough) and dimensions 1/1/1, 2/1/1, 2/2/2, 3/2/2 (and 1/2/1, 3/1/2, 4/3/3); every "
          "horizon 1..17 (1..40) with all terms; double and single precision; every subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["unscaled inputs (documented: Z is not converted)", "joint stage weight positive semidefinite",
               "rounding up to 1e-7 (double) and 5e-3 (single) relative"]
FEATS = [tuple(f for f, b in zip(("c", "r", "H", "M", "s", "tv"), bits) if b)
         for bits in itertools.product((0, 1), repeat=6)]


def verify(rec, q, dtype, units=(1.0, 1.0)):
    a1, b1 = units
    sc = lambda w, u: max(u, max(float(np.max(np.abs(x))) for x in w))
    import tensorflow as tf
    from parallel_control import lqt_tf
    tol = 1e-7 if dtype == "float64" else 5e-3
    dt = getattr(tf, dtype)
    conv = rec.call(lqt_tf.lqt_np_to_tf_gen, lqt.build(q), dtype=dt)
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = conv
    for nm, a, b in zip(("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U", "M", "s"), conv,
                        (q.F, q.c, q.L, q.H, q.HT, q.r, q.rT, q.X, q.XT, q.U, q.M, q.s)):
        rec.close("lqt_np_to_tf_gen " + nm, a.numpy(), np.array(b), 1e-15 if dtype == "float64" else 1e-6)
        rec.true("lqt_np_to_tf_gen dtype", a.dtype == dt)
    F2, c2, X2 = rec.call(lqt_tf.lqt_gen_to_canon, Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
    S, v, K, d = q.dp()
    for nm in ("lqt_seq_backwardpass", "lqt_par_backwardpass"):
        Ss, vs, Kt, dt_ = rec.call(getattr(lqt_tf, nm), F2, c2, Ls, Hs, HT, rs, rT, X2, XT, Us)
        Kg, dg = rec.call(lqt_tf.lqt_canon_to_gen, Kt, dt_, Hs, rs, Us, Ms, ss)
        rec.close(nm + ": Ss", Ss.numpy(), np.array(S), tol, sc(S, a1))
        rec.close(nm + ": vs", vs.numpy(), np.array(v), tol, sc(v, a1 * b1))
        rec.close(nm + ": Kxs", Kg.numpy(), np.array(K), tol, sc(K, 1.0))
        rec.close(nm + ": ds", dg.numpy(), np.array(d), tol, sc(d, b1))
    rec.ok(outcome=S[0], sample={"S0": S[0]})


def features(rec, dims, Ts, variants, dtype="float64"):
    for T in Ts:
        for fe in FEATS:
            for v in variants:
                if rec.case("feat", dims, T, fe, v, dtype):
                    verify(rec, lqt.problem(("C11", v), T, *dims, fe, pT=dims[2]), dtype)


def lengths(rec, dims, Ts, variants):
    for T in Ts:
        for v in variants:
            if rec.case("len", dims, T, v):
                verify(rec, lqt.problem(("C11L", v), T, *dims, FEATS[-1], pT=3), "float64")


def vary(rec, dims, T, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    for fields in lqt.field_subsets(part, parts, ("Z",)):
        if rec.case("vary", dims, T, fields):
            rec.group(f"{len(fields)} varying fields")
            verify(rec, lqt.varying("C11V", T, *dims, fields, pT=1, absent=("Z",)), "float64")


def units(rec, dims, Ts, feats):
    """Costs, states and inputs measured in other units."""
    for T in Ts:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, tuple(fe), a, b):
                    verify(rec, lqt.rescale(lqt.problem("C11U", T, *dims, tuple(fe), pT=dims[2]), a, b), "float64",
                           (a, b))


def jobs(tier):
    q = tier == "quick"
    js = []
    for T in (1, 3) if q else range(1, 10):
        js.append((4, "units", {"dims": (2, 2, 2), "Ts": [T], "feats": [FEATS[-1], FEATS[0], ("c", "r", "H", "M", "s")]}))
    for d, T in [((2, 2, 2), 3)] + ([] if q else [((1, 1, 1), 2), ((2, 1, 3), 5)]):
        js += [(6, "vary", {"dims": d, "T": T, "part": i, "parts": 4}) for i in range(4)]
    v = ["a", "b"] if q else ["a", "b", "e", "f"]
    for dims in [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 2)] + ([] if q else [(1, 2, 1), (3, 1, 2), (4, 3, 3)]):
        js += [(5, "features", {"dims": dims, "Ts": [T], "variants": v}) for T in ((1, 2, 3, 4) if q else range(1, 10))]
    js.append((4, "features", {"dims": (2, 2, 2), "Ts": [1, 3], "variants": v, "dtype": "float32"}))
    Ts = list(range(5, 18)) if q else list(range(1, 41))
    for i in range(4):
        js.append((5, "lengths", {"dims": (3, 2, 1), "Ts": Ts[i::4], "variants": v}))
    return js
