"""C07: LQT, NumPy: value functions and control laws."""
import itertools
import numpy as np
from mc import lqt

BOUNDS = ("every combination of optional cost terms (offset, reference, output matrix, cross term, input offset, "
          "input scaling, per-step data, varying output dimension) for T = 1..3 (1..6 thorough) and four (seven) "
          "dimension triples; every horizon 1..33 (1..80, 127..129 thorough); every scalar problem over small "
          "integer alphabets in integer and floating type; all combinations of special 2-D maps and weights; every subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["joint stage weight positive semidefinite, input weight positive definite, input scaling invertible",
               "floating-point rounding up to 1e-7 relative"]


def verify(rec, q, tol=1e-7, units=(1.0, 1.0)):
    a, b = units
    near = lambda what, got, want, unit: rec.close(what, got, want, tol, max(unit, float(np.max(np.abs(want)))))
    o = lqt.build(q)
    Ss, vs, Ks, ds = q.dp()
    unscaled = all(np.array_equal(z, np.eye(len(z))) for z in q.Z)
    for name in ("seqBackwardPass", "parBackwardPass") + (("seqTransformedBackwardPass",) if unscaled else ()):
        K, d, S, v = rec.call(getattr(o, name))
        rec.true(f"{name}: lengths", (len(K), len(d), len(S), len(v)) == (q.T, q.T, q.T + 1, q.T + 1))
        for k in range(q.T + 1):
            near(f"{name}: S[{k}]", S[k], Ss[k], a)
            near(f"{name}: v[{k}]", v[k], vs[k], a * b)
        for k in range(q.T):
            near(f"{name}: Kx[{k}]", K[k], Ks[k], 1.0)
            near(f"{name}: d[{k}]", d[k], ds[k], b)
    rec.ok(outcome=np.concatenate([Ss[0].ravel(), vs[0]]), sample={"S0": Ss[0], "v0": vs[0], "T": q.T})


def features(rec, dims, Ts, variants):
    for T in Ts:
        for bits in itertools.product((0, 1), repeat=len(lqt.FEATURES)):
            fe = tuple(f for f, b in zip(lqt.FEATURES, bits) if b)
            if "pv" in fe and "H" not in fe:
                continue
            for v in variants:
                if rec.case("features", T, dims, fe, v):
                    rec.group("feature combinations")
                    verify(rec, lqt.problem(("C07", v), T, *dims, fe))


def lengths(rec, dims, Ts, variants):
    for T in Ts:
        for fe in (lqt.FEATURES, ("c", "r", "M", "s"), ("r", "H", "tv"), ("tv",)):
            for v in variants:
                if rec.case("length", T, dims, fe, v):
                    verify(rec, lqt.problem(("C07L", v), T, *dims, fe))


def scalars(rec, T, tv, int_, part, parts):
    for i, d in enumerate(lqt.scalar_alphabet()):
        if i % parts == part and rec.case("scalar", T, tv, int_, d):
            verify(rec, lqt.scalar(d, T, tv, int_))


def specials(rec, T):
    for i, j, k, l in lqt.structured(2)[0]:
        if rec.case("special", T, i, j, k, l):
            verify(rec, lqt.special(i, j, k, l, T))


def vary(rec, dims, Ts, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    for T in Ts:
        for fields in lqt.field_subsets(part, parts):
            if rec.case("vary", dims, T, fields):
                rec.group(f"{len(fields)} varying fields")
                verify(rec, lqt.varying("C07V", T, *dims, fields))


def units(rec, dims, Ts, feats):
    """Costs, states and inputs measured in other units."""
    for T in Ts:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, tuple(fe), a, b):
                    verify(rec, lqt.rescale(lqt.problem("C07U", T, *dims, tuple(fe)), a, b), units=(a, b))


def jobs(tier):
    q = tier == "quick"
    js = []
    for d, T in [((2, 2, 2), 3)] + ([] if q else [((1, 1, 1), 2), ((2, 1, 3), 4), ((3, 2, 2), 6)]):
        js += [(7, "vary", {"dims": d, "Ts": [T], "part": i, "parts": 4}) for i in range(4)]
    dims = [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 2)] + ([] if q else [(1, 2, 1), (3, 1, 2), (4, 3, 3)])
    for d in dims:
        for T in (range(1, 4) if q else range(1, 7)):
            js.append((5, "features", {"dims": d, "Ts": [T], "variants": ["a"] if q else ["a", "b", "e"]}))
    for d in dims:
        js.append((5, "units", {"dims": d, "Ts": [1, 2, 5, 8] if q else list(range(1, 18)),
                                "feats": [lqt.FEATURES, ("c", "r", "M", "s"), ("c", "r", "H", "tv"), ()]}))
    Ts = list(range(1, 34)) if q else list(range(1, 81)) + [127, 128, 129]
    for d in [(1, 1, 1), (2, 1, 1), (3, 2, 2)] + ([] if q else [(4, 2, 3), (5, 3, 2)]):
        for i in range(4):
            js.append((8, "lengths", {"dims": d, "Ts": Ts[i::4], "variants": ["a"] if q else ["a", "b", "e"]}))
    for T in (1, 2, 3) if q else (1, 2, 3, 4, 5, 7):
        for tv in (False, True):
            if T == 1 and tv:
                continue
            for int_ in (False, True):
                parts, run = (4, [T % 4]) if q and T > 1 else (4, range(4))
                js += [(6, "scalars", {"T": T, "tv": tv, "int_": int_, "part": p, "parts": parts}) for p in run]
        js.append((3, "specials", {"T": T}))
    return js
