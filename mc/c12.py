"""C12: construction of problems."""
import itertools
import numpy as np
from mc.core import wit

BOUNDS = ("every way of giving each of the 13 LQT arguments (constant, per-step list, omitted; 93312 combinations) and "
          "of the FSC arguments, for horizons 1..3 (all combinations for each of three dimension triples in the "
          "thorough tier, one per combination in the quick tier); every single inconsistency (list one too long, one "
          "too short, each wrong shape at each step) on top of the combinations with at most two arguments deviating "
          "from all-constant, all-list, or all-omitted (quick) or all combinations over a reduced mode set (thorough)")
ASSUMPTIONS = ["array arguments are NumPy arrays, per-step data are lists (documented)",
               "omitted terminal arguments are sized by the first X (documented default)",
               "the horizon is inferred from F, L, X, U in that order, else from T"]

IDX = ("F", "L", "X", "U", "c", "H", "r", "Z", "s", "M")
TERM = ("XT", "HT", "rT")


def shapes(n, m, p):
    return {"F": (n, n), "L": (n, m), "X": (p, p), "U": (m, m), "c": (n,), "H": (p, n), "r": (p,), "Z": (m, m),
            "s": (m,), "M": (p, m), "XT": (p, p), "HT": (p, n), "rT": (p,)}


def make(modes, T, n, m, p, pv):
    """Arguments for the given modes (c constant, l list, o omitted)."""
    sh = shapes(n, m, p)
    out = {}
    for a in IDX:
        if modes[a] == "c":
            out[a] = wit((a, n, m, p), *sh[a])
        elif modes[a] == "l":
            out[a] = [wit((a, n, m, p, k), *tuple((p + k % 2 if (pv and d == "p") else v)
                                                  for v, d in zip(sh[a], DIMS[a]))) for k in range(T)]
        else:
            out[a] = None
    for a in TERM:
        out[a] = None if modes[a] == "o" else wit((a, n, m, p), *sh[a])
    return out


DIMS = {"F": "nn", "L": "nm", "X": "pp", "U": "mm", "c": "n", "H": "pn", "r": "p", "Z": "mm", "s": "m", "M": "pm"}


def consistent(args, T):
    """Independent statement of when the arguments fit together; returns the expected data or None."""
    lens = {a: len(args[a]) for a in IDX if isinstance(args[a], list)}
    for a in ("F", "L", "X", "U"):
        if a in lens:
            T = lens[a]
            break
    if T is None or T < 1 or any(v != T for v in lens.values()):
        return None
    at = lambda a, k: args[a][k] if isinstance(args[a], list) else args[a]
    n, m = at("F", 0).shape[0], (at("L", 0).shape + (0, 0))[1]
    p0 = at("X", 0).shape[0]
    res = {a: [] for a in IDX}
    for k in range(T):
        p = at("X", k).shape[0]
        dflt = {"c": np.zeros(n), "H": np.eye(p, n), "r": np.zeros(p), "Z": np.eye(m), "s": np.zeros(m),
                "M": np.zeros((p, m))}
        sh = shapes(n, m, p)
        for a in IDX:
            v = at(a, k)
            v = dflt[a] if v is None else v
            if v.shape != sh[a]:
                return None
            res[a].append(v)
    XT = np.eye(p0) if args["XT"] is None else args["XT"]
    HT = np.eye(p0, n) if args["HT"] is None else args["HT"]
    rT = np.zeros(p0) if args["rT"] is None else args["rT"]
    q = XT.shape[0]
    if XT.shape != (q, q) or HT.shape != (q, n) or rT.shape != (q,):
        return None
    res.update(XT=XT, HT=HT, rT=rT)
    return res


def run(rec, args, T):
    from parallel_control import lqt_np
    want = consistent(args, T)
    try:
        o = rec.call(lqt_np.LQT.checkAndExpand, T=T, **args)
    except Exception as e:
        if want is not None:
            raise
        return type(e).__name__
    rec.true("inconsistent arguments were accepted", want is not None,
             shapes={a: [x.shape for x in v] if isinstance(v, list) else None if v is None else v.shape
                     for a, v in args.items()})
    for a in IDX:
        got = getattr(o, a)
        rec.true(f"{a} has {len(got)} entries", len(got) == len(want[a]))
        for k, (g, w) in enumerate(zip(got, want[a])):
            rec.eq(f"{a}[{k}]", g, w)
    for a in TERM:
        rec.eq(a, getattr(o, a), want[a])
    return "accepted"


def all_modes():
    for i, x in enumerate(itertools.product(*(["cl"] * 4 + ["clo"] * 6 + ["co"] * 3))):
        yield i, dict(zip(IDX + TERM, x))


def product(rec, part, parts, every):
    dims = [(2, 1, 1), (1, 2, 2), (3, 2, 2)]
    cfg = [(T, d, pv) for d in dims for T in (1, 2, 3) for pv in (False, True)]
    for i, modes in all_modes():
        if i % parts != part:
            continue
        for j, (T, d, pv) in enumerate(cfg):
            if not every and j != (i // 7) % len(cfg):
                continue
            if pv and modes["X"] != "l":
                continue
            anylist = any(modes[a] == "l" for a in ("F", "L", "X", "U"))
            for Targ in ((None, T) if anylist else (T,)):
                if rec.case("product", "".join(modes.values()), T, d, pv, Targ):
                    args = make(modes, T, *d, pv)
                    if pv and any(modes[a] == "c" for a in ("H", "r", "M")) and T > 1:
                        rec.group("constant data for varying output size")
                    rec.ok(outcome=run(rec, args, Targ))


def wrong(shape):
    """Every wrong shape near the right one."""
    out = set()
    for i in range(len(shape)):
        for d in (-1, 1):
            s = list(shape)
            s[i] += d
            if s[i] >= 1:
                out.add(tuple(s))
    out.add(shape[::-1])
    out.add(shape + (1,))
    out.add(tuple(x + 1 for x in shape))
    if len(shape) == 2:
        out.add((shape[0],))
        out.add((1,) + shape)
    else:
        out.add((1,) + shape)
    out.discard(shape)
    return sorted(out)


def bad(rec, base, pairs, T, n, m, p):
    """Every single inconsistency on top of the base modes and up to two deviating arguments."""
    names = IDX + TERM
    dev = {a: [x for x in ("cl" if a in IDX[:4] else "clo" if a in IDX else "co")] for a in names}
    start = {a: (base if base in dev[a] else "c") for a in names}
    sets = {tuple(start.values())}
    for k in range(1, pairs + 1):
        for comb in itertools.combinations(names, k):
            for vals in itertools.product(*(dev[a] for a in comb)):
                sets.add(tuple(dict(start, **dict(zip(comb, vals))).values()))
    sh = shapes(n, m, p)
    for modes in sorted(sets):
        modes = dict(zip(names, modes))
        for a in names:
            if modes[a] == "o":
                continue
            for ws in ("long", "short") + tuple(wrong(sh[a])):
                for k in (range(T) if modes[a] == "l" and isinstance(ws, tuple) else (0,)):
                    if not isinstance(ws, tuple) and modes[a] != "l":
                        continue
                    if a in TERM and any(modes[b] == "o" for b in TERM):
                        continue
                    if a == "X" and any(modes[b] == "o" for b in TERM) and not all(modes[b] == "o" for b in TERM):
                        continue
                    if ws == "short" and T == 1:
                        continue
                    if not rec.case("bad", base, "".join(modes.values()), T, (n, m, p), a, ws, k):
                        continue
                    args = make(modes, T, n, m, p, False)
                    if ws == "long":
                        args[a] = args[a] + [args[a][0]]
                    elif ws == "short":
                        args[a] = args[a][:-1]
                    elif modes[a] == "l":
                        args[a][k] = wit((a, ws), *ws)
                    else:
                        args[a] = wit((a, ws), *ws)
                    rec.ok(outcome=run(rec, args, T))
    # no horizon at all
    modes = dict(start, F="c", L="c", X="c", U="c")
    if rec.case("no horizon", base):
        rec.ok(outcome=run(rec, make(modes, T, n, m, p, False), None))


def fsc(rec, dims):
    from parallel_control import fsc_np
    for n, m in dims:
        for T in (1, 2, 3):
            f1, L1 = (np.arange(n * m).reshape(n, m) % n), wit(("L", n, m), n, m)
            mk = {"f": {"c": f1, "l": [(f1 + k) % n for k in range(T)]},
                  "L": {"c": L1, "l": [wit(("L", n, m, k), n, m) for k in range(T)]},
                  "LT": {"c": wit(("LT", n), n), "o": None}}
            for mf, mL, mt, Targ in itertools.product("cl", "cl", "co", (None, T)):
                base = {"f": mk["f"][mf], "L": mk["L"][mL], "LT": mk["LT"][mt]}
                muts = [("none", None, 0)]
                for a, mode in (("f", mf), ("L", mL), ("LT", mt)):
                    if mode == "o":
                        continue
                    for ws in wrong((n,) if a == "LT" else (n, m)) + (["long", "short"] if mode == "l" else []):
                        muts += [(a, ws, k) for k in (range(T) if mode == "l" and isinstance(ws, tuple) else (0,))]
                for a, ws, k in muts:
                    args = {x: (list(v) if isinstance(v, list) else v) for x, v in base.items()}
                    if ws == "long":
                        args[a].append(args[a][0])
                    elif ws == "short":
                        if T == 1:
                            continue
                        args[a].pop()
                    elif ws is not None:
                        w = np.zeros(ws, dtype=int) if a == "f" else np.zeros(ws)
                        if isinstance(args[a], list):
                            args[a][k] = w
                        else:
                            args[a] = w
                    if not rec.case("fsc", n, m, T, mf, mL, mt, Targ, a, ws, k):
                        continue
                    rec.ok(outcome=run_fsc(rec, fsc_np.FSC, args, Targ))


def run_fsc(rec, FSC, args, T):
    f, L, LT = args["f"], args["L"], args["LT"]
    H = len(f) if isinstance(f, list) else len(L) if isinstance(L, list) else T
    want = None
    if H is not None and (not isinstance(f, list) or len(f) == H) and (not isinstance(L, list) or len(L) == H):
        fs = f if isinstance(f, list) else [f] * H
        Ls = L if isinstance(L, list) else [L] * H
        sh = fs[0].shape
        lt = np.ones(sh[0]) if LT is None else LT
        if len(sh) == 2 and all(a.shape == sh for a in fs + Ls) and lt.shape == sh[:1]:
            want = fs, Ls, lt
    try:
        o = rec.call(FSC.checkAndExpand, f, L, LT, T)
    except Exception as e:
        if want is not None:
            raise
        return type(e).__name__
    rec.true("inconsistent arguments were accepted", want is not None)
    rec.true("lengths", len(o.f) == len(want[0]) and len(o.L) == len(want[1]))
    for a, b in zip(list(o.f) + list(o.L) + [o.LT], want[0] + want[1] + [want[2]]):
        rec.eq("data", a, b)
    return "accepted"


def jobs(tier):
    q = tier == "quick"
    js = [(20, "product", {"part": i, "parts": 16, "every": not q}) for i in range(16)]
    dims = [(2, 1, 1), (3, 2, 1)] if q else [(2, 1, 1), (3, 2, 1), (1, 1, 1), (1, 2, 2), (2, 2, 3)]
    for base in "clo":
        for d in dims:
            for T in ((2,) if q else (1, 2, 3)):
                js.append((15, "bad", {"base": base, "pairs": 1 if q else 2, "T": T, "n": d[0], "m": d[1], "p": d[2]}))
    js.append((25, "bad", {"base": "l", "pairs": 2, "T": 2, "n": 1, "m": 2, "p": 2}))
    js.append((10, "bad", {"base": "l", "pairs": 2, "T": 1, "n": 2, "m": 1, "p": 1}))
    js.append((2, "fsc", {"dims": [(2, 2), (2, 3), (1, 1)] if q else [(2, 2), (2, 3), (1, 1), (1, 2), (3, 1), (4, 3)]}))
    return js
