"""C08: LQT, NumPy: trajectories."""
import itertools
import numpy as np
from mc import lqt
from mc.core import wit

BOUNDS = ("every combination of optional cost terms for T = 1..3 (1..6 thorough) and four (seven) dimension triples; "
          "every horizon 1..33 (1..80, 127..129 thorough); scalar problems over small integer alphabets in integer "
          "and floating type (a quarter of them in the quick tier, all in the thorough one); special 2-D maps and "
          "weights; initial states zero, unit vectors and generic; generic non-optimal control laws and arbitrary "
          "trajectories for simulation and cost; every subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["joint stage weight positive semidefinite, input weight positive definite, input scaling invertible",
               "batch solution: output dimension the same at every step and at the end (documented)",
               "floating-point rounding up to 1e-7 relative"]


def verify(rec, q, x0s=None, tol=1e-7, key=(), units=(1.0, 1.0)):
    a, b1 = units
    o = lqt.build(q)
    T, n, m = q.T, q.F[0].shape[0], q.L[0].shape[1]
    const_p = len({h.shape[0] for h in q.H} | {q.HT.shape[0]}) == 1
    laws = {b: rec.call(getattr(o, b + "BackwardPass")) for b in ("seq", "par")}
    if x0s is None:
        x0s = [np.zeros(n)] + [b1 * np.eye(n)[i] for i in range(n)] + [b1 * wit((key, "x0"), n, lo=-2, hi=2)]

    def same(name, got_u, got_x, us, xs, x0):
        rec.true(f"{name}: lengths", (len(got_u), len(got_x)) == (T, T + 1), u=len(got_u), x=len(got_x))
        sc = max(b1, max(np.max(np.abs(x)) for x in xs), max(np.max(np.abs(u)) for u in us))
        for k in range(T + 1):
            rec.close(f"{name}: x[{k}]", got_x[k], xs[k], tol, sc)
        for k in range(T):
            rec.close(f"{name}: u[{k}]", got_u[k], us[k], tol, sc)

    for x0 in x0s:
        us, xs = q.kkt(x0)
        for b, (K, d, S, v) in laws.items():
            same(b + ", seqForwardPass", *rec.call(o.seqForwardPass, x0, K, d), us, xs, x0)
            same(b + ", parForwardPass", *rec.call(o.parForwardPass, x0, K, d), us, xs, x0)
            same(b + ", parFwdBwdPass", *rec.call(o.parFwdBwdPass, x0, K, d, S, v), us, xs, x0)
            same(b + ", parFwdBwdPass2", *rec.call(o.parFwdBwdPass2, x0, K, d, S, v), us, xs, x0)
        if const_p:
            same("batchSolution", *rec.call(o.batchSolution, x0), us, xs, x0)
        got = rec.call(o.cost, us, xs)
        c = q.cost(us, xs)
        rec.close("cost of the optimum", got, c, tol, max(a * b1 * b1, abs(c)))
    # non-optimal affine laws, arbitrary controls, arbitrary trajectories
    x0 = x0s[-1]
    K = [wit((key, "K", k), m, n) for k in range(T)]
    d = [b1 * wit((key, "d", k), m) for k in range(T)]
    us, xs = q.rollout(x0, K, d)
    same("arbitrary law, seqForwardPass", *rec.call(o.seqForwardPass, x0, K, d), us, xs, x0)
    same("arbitrary law, parForwardPass", *rec.call(o.parForwardPass, x0, K, d), us, xs, x0)
    us = [b1 * wit((key, "u", k), m, lo=-2, hi=2) for k in range(T)]
    xs = q.simulate(x0, us)
    got = rec.call(o.seqSimulation, x0, us)
    rec.true("seqSimulation: length", len(got) == T + 1)
    for k in range(T + 1):
        rec.close(f"seqSimulation: x[{k}]", got[k], xs[k], tol, max(b1, float(np.max(np.abs(xs[k])))))
    xs = [b1 * wit((key, "x", k), n, lo=-2, hi=2) for k in range(T + 1)]
    c1 = q.cost(us, xs)
    rec.close("cost of an arbitrary trajectory", rec.call(o.cost, us, xs), c1, tol, max(a * b1 * b1, abs(c1)))
    rec.ok(outcome=c, sample={"optimal cost": float(c), "T": T})


def features(rec, dims, Ts, variants):
    for T in Ts:
        for bits in itertools.product((0, 1), repeat=len(lqt.FEATURES)):
            fe = tuple(f for f, b in zip(lqt.FEATURES, bits) if b)
            if "pv" in fe and "H" not in fe:
                continue
            for v in variants:
                if rec.case("features", T, dims, fe, v):
                    rec.group("feature combinations")
                    verify(rec, lqt.problem(("C08", v), T, *dims, fe), key=(T, dims, v))


def lengths(rec, dims, Ts, variants):
    for T in Ts:
        for fe in (lqt.FEATURES, ("c", "r", "H", "M", "s", "Z", "tv"), ("c", "r", "M", "s"), ("r", "H", "tv")):
            for v in variants:
                if rec.case("length", T, dims, fe, v):
                    verify(rec, lqt.problem(("C08L", v), T, *dims, fe), key=(T, dims, v))


def scalars(rec, T, tv, int_, part, parts):
    for i, d in enumerate(lqt.scalar_alphabet()):
        if i % parts == part and rec.case("scalar", T, tv, int_, d):
            x0 = np.array([2 if i % 2 else -1], dtype=int if int_ else float)
            verify(rec, lqt.scalar(d, T, tv, int_), [x0], key=(T, i % 16))


def specials(rec, T):
    for i, j, k, l in lqt.structured(2)[0]:
        if rec.case("special", T, i, j, k, l):
            verify(rec, lqt.special(i, j, k, l, T), key=(T,))


def vary(rec, dims, Ts, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    for T in Ts:
        for fields in lqt.field_subsets(part, parts):
            if rec.case("vary", dims, T, fields):
                rec.group(f"{len(fields)} varying fields")
                key = ("C08V", T)
                verify(rec, lqt.varying("C08V", T, *dims, fields), [wit((key, "x0"), dims[0], lo=-2, hi=2)], key=key)


def units(rec, dims, Ts, feats):
    """Costs, states and inputs measured in other units."""
    for T in Ts:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, tuple(fe), a, b):
                    verify(rec, lqt.rescale(lqt.problem("C08U", T, *dims, tuple(fe)), a, b), key=("U", T, dims),
                           units=(a, b))


def jobs(tier):
    q = tier == "quick"
    js = []
    for d, T in [((2, 2, 2), 3)] + ([] if q else [((1, 1, 1), 2), ((2, 1, 3), 4), ((3, 2, 2), 6)]):
        js += [(7, "vary", {"dims": d, "Ts": [T], "part": i, "parts": 4}) for i in range(4)]
    dims = [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 2)] + ([] if q else [(1, 2, 1), (3, 1, 2), (4, 3, 3)])
    for d in dims:
        for T in (range(1, 4) if q else range(1, 7)):
            js.append((8, "features", {"dims": d, "Ts": [T], "variants": ["a"] if q else ["a", "b", "e"]}))
    for d in dims:
        js.append((5, "units", {"dims": d, "Ts": [1, 2, 5] if q else list(range(1, 18)),
                                "feats": [lqt.FEATURES, ("c", "r", "M", "s"), ("c", "r", "H", "tv"), ()]}))
    Ts = list(range(1, 34)) if q else list(range(1, 81)) + [127, 128, 129]
    for d in [(1, 1, 1), (2, 1, 1), (3, 2, 2)] + ([] if q else [(4, 2, 3), (5, 3, 2)]):
        for i in range(4):
            js.append((9, "lengths", {"dims": d, "Ts": Ts[i::4], "variants": ["a"] if q else ["a", "b", "e"]}))
    for T in (1, 2, 3) if q else (1, 2, 3, 4, 5, 7):
        for tv in (False, True):
            if T == 1 and tv:
                continue
            for int_ in (False, True):
                parts, run = (16, [T, 8 + T, 4 + T, 12 + T]) if q else (16, range(16))
                js += [(6, "scalars", {"T": T, "tv": tv, "int_": int_, "part": p % 16, "parts": parts}) for p in run]
        js.append((3, "specials", {"T": T}))
    return js
