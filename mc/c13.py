"""C13: partial condensing, NumPy."""
import copy
import itertools
import numpy as np
from mc import lqt
from mc.core import wit

BOUNDS = ("every horizon 1..17 (1..30 thorough) with every block length 1..horizon+2, four (seven) dimension triples "
          "including outputs smaller than the state and outputs whose dimension changes between steps, every combination of offset, reference, output matrix, per-step "
          "data for horizons up to 5; every backward/forward pass and the batch solution on the condensed problem; "
          "all sequences of three (four) condense calls on one condenser object over an alphabet of six configurations; every "
          "subset of time-varying fields with shared constants; costs, states and inputs in nine units")
ASSUMPTIONS = ["no cross terms, input offsets or input scaling (documented)",
               "input weight positive definite", "rounding up to 1e-6 relative"]
FEATS = [tuple(f for f, b in zip(("c", "r", "H", "tv"), bits) if b) for bits in itertools.product((0, 1), repeat=4)]


def snapshot(o):
    return copy.deepcopy({k: v for k, v in vars(o).items()})


def same_data(rec, what, o, snap):
    for k, w in snap.items():
        g = getattr(o, k)
        if isinstance(w, list):
            rec.true(f"{what}: {k} changed length", isinstance(g, list) and len(g) == len(w))
            for i, (a, b) in enumerate(zip(g, w)):
                rec.eq(f"{what}: {k}[{i}] modified", a, b)
        else:
            rec.eq(f"{what}: {k} modified", g, w)


def solve_and_expand(rec, con, clqt, q, x0s, tol=1e-6, full=True, unit=1.0):
    T = q.T
    for x0 in x0s:
        us, xs = q.kkt(x0)
        sc = max(unit, np.max(np.abs(us)), np.max(np.abs(xs)))
        sols = {}
        bws = [("seqBackwardPass", clqt.seqBackwardPass)]
        if full:
            bws += [("parBackwardPass", clqt.parBackwardPass), ("seqTransformedBackwardPass", clqt.seqTransformedBackwardPass)]
        for bn, bw in bws:
            K, d, S, v = rec.call(bw)
            sols[bn + ", seqForwardPass"] = rec.call(clqt.seqForwardPass, x0, K, d)
            if full:
                sols[bn + ", parForwardPass"] = rec.call(clqt.parForwardPass, x0, K, d)
                sols[bn + ", parFwdBwdPass"] = rec.call(clqt.parFwdBwdPass, x0, K, d, S, v)
                sols[bn + ", parFwdBwdPass2"] = rec.call(clqt.parFwdBwdPass2, x0, K, d, S, v)
        if full and q.HT.shape[0] == q.F[0].shape[0]:
            sols["batchSolution"] = rec.call(clqt.batchSolution, x0)
        for nm, (cu, cx) in sols.items():
            u, x = rec.call(con.convertUX, cu, cx)
            rec.true(f"{nm}: lengths", (len(u), len(x)) == (T, T + 1), u=len(u), x=len(x))
            rec.close(f"{nm}: u", np.array(u), np.array(us), tol, sc)
            rec.close(f"{nm}: x", np.array(x), np.array(xs), tol, sc)
    return xs


def x0set(n, key):
    return [np.zeros(n), wit((key, "x0"), n, lo=-2, hi=2)]


def run(rec, con, q, Nc, key, full=True, unit=1.0):
    o = lqt.build(q)
    snap = snapshot(o)
    clqt = rec.call(con.condense, o, Nc)
    same_data(rec, "original problem", o, snap)
    rec.true("number of blocks", len(clqt.F) == -(-q.T // Nc), got=len(clqt.F))
    xs = solve_and_expand(rec, con, clqt, q, [unit * x for x in x0set(len(q.F[0]), key)], full=full, unit=unit)
    same_data(rec, "original problem", o, snap)
    return xs


def grid(rec, dims, pT, Ts, feats, variants):
    from parallel_control import condensing_np
    for T in Ts:
        for Nc in range(1, T + 3):
            for fe in feats:
                for v in variants:
                    if rec.case("grid", dims, T, Nc, tuple(fe), v):
                        q = lqt.problem(("C13", v), T, *dims, tuple(fe), pT=pT)
                        xs = run(rec, condensing_np.LQTCondenser(), q, Nc, (dims, T, v))
                        rec.group("divides" if T % Nc == 0 else "exceeds" if Nc > T else "partial last block")
                        rec.ok(outcome=xs[-1], sample={"T": T, "Nc": Nc, "xT": xs[-1]})


CONFIGS = [((2, 1, 1), 5, 2), ((2, 1, 1), 4, 2), ((2, 1, 1), 5, 3), ((3, 2, 2), 3, 2), ((1, 1, 1), 7, 3), ((2, 2, 2), 1, 2)]


def histories(rec, depth):
    """One condenser used for several problems in a row; the last one is expanded and must be right, and a solution
    of the same problem condensed again later must not be disturbed."""
    from parallel_control import condensing_np
    for seq in itertools.product(range(len(CONFIGS)), repeat=depth):
        if not rec.case("history", seq):
            continue
        con = condensing_np.LQTCondenser()
        for i in seq:
            dims, T, Nc = CONFIGS[i]
            q = lqt.problem(("C13H", i), T, *dims, FEATS[-1], pT=dims[2])
            xs = run(rec, con, q, Nc, (i,), full=False)
        rec.ok(outcome=xs[-1])


def vary(rec, dims, pairs, part, parts):
    """Every set of time-varying fields, the constant ones shared between the steps as one array object."""
    from parallel_control import condensing_np
    absent = ("M", "s", "Z")
    for T, Nc in pairs:
        for fields in lqt.field_subsets(part, parts, absent):
            if rec.case("vary", dims, T, Nc, fields):
                rec.group(f"{len(fields)} varying fields")
                q = lqt.varying("C13V", T, *dims, fields, absent=absent)
                xs = run(rec, condensing_np.LQTCondenser(), q, Nc, ("C13V", T))
                rec.ok(outcome=xs[-1])


def units(rec, dims, pairs, feats):
    """Costs, states and inputs measured in other units."""
    from parallel_control import condensing_np
    for T, Nc in pairs:
        for fe in feats:
            for a, b in lqt.UNITS:
                if rec.case("units", dims, T, Nc, tuple(fe), a, b):
                    q = lqt.rescale(lqt.problem("C13U", T, *dims, tuple(fe), pT=dims[2]), a, b)
                    xs = run(rec, condensing_np.LQTCondenser(), q, Nc, ("C13U", T), unit=b)
                    rec.ok(outcome=xs[-1] / b)


def jobs(tier):
    q = tier == "quick"
    js = []
    for d in [(2, 2, 2), (2, 1, 1)] + ([] if q else [(1, 1, 1), (3, 2, 2)]):
        js.append((40, "units", {"dims": d, "pairs": [(4, 2), (5, 2), (5, 3)] if q else
                                 [(T, N) for T in range(1, 10) for N in range(1, T + 2)],
                                 "feats": [FEATS[15], FEATS[0]]}))
    for d in [(2, 2, 2)] + ([] if q else [(1, 1, 1), (2, 1, 3), (3, 2, 2)]):
        pr = [(4, 2), (5, 2), (5, 3)] if q else [(3, 2), (4, 2), (5, 2), (5, 3), (6, 3), (7, 3), (8, 3)]
        js += [(60, "vary", {"dims": d, "pairs": pr, "part": i, "parts": 4}) for i in range(4)]
    Ts = list(range(1, 18)) if q else list(range(1, 31))
    dl = [((1, 1, 1), 1), ((2, 1, 1), 1), ((2, 2, 2), 2), ((3, 2, 2), 3)] + \
        ([] if q else [((1, 2, 1), 2), ((3, 1, 2), 1), ((4, 2, 3), 2)])
    for dims, pT in dl:
        for i in range(2 if q else 6):
            js.append((T_cost(Ts[i::2 if q else 6]), "grid", {"dims": dims, "pT": pT, "Ts": Ts[i::2 if q else 6],
                       "feats": [FEATS[-1], FEATS[0]] if q else [FEATS[-1], FEATS[0], FEATS[10], FEATS[6]],
                       "variants": ["a"] if q else ["a", "b"]}))
        js.append((60, "grid", {"dims": dims, "pT": pT, "Ts": [1, 2, 3, 4, 5],
                                "feats": FEATS[1:-1], "variants": ["b"]}))
        if dims[2] > 1 or dims == (2, 1, 1):       # output dimension changing from step to step
            js.append((60, "grid", {"dims": dims, "pT": pT, "Ts": [1, 2, 3, 5, 6] if q else list(range(1, 13)),
                                    "feats": [("c", "r", "H", "tv", "pv"), ("H", "r", "pv")], "variants": ["b"]}))
    js.append((50, "histories", {"depth": 3 if q else 4}))
    return js


def T_cost(Ts):
    return sum(T * T for T in Ts)
