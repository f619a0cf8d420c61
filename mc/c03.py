"""C03: finite-state control, NumPy: forward passes and simulation."""
import itertools
import numpy as np
from mc import refs
from mc.core import wint, digits

BOUNDS = ("every 2x2 problem with T=1 and a grid of T=2 problems from every initial state; every policy (also "
          "non-optimal) of 2x2 problems with T<=3; every control sequence for simulation; every horizon 1..34 "
          "(70 thorough) with tie-rich, tie-free, unreachable and negative-cost tables, every initial state; tables shared by all steps, costs down to 1e-12 and up to 1e12")
ASSUMPTIONS = ["under ties a min-plus forward-backward pass may report, at each time, any state lying on some "
               "optimal trajectory (the documented method decides each time independently)"]


def ints(l):
    return [int(a) for a in l]


def check_policy(rec, fsc, f, u_list, x0, sim=True):
    us, xs = refs.fsc_policy(f, u_list, x0)
    for name in ("seqForwardPass", "parForwardPass"):
        gu, gx = rec.call(getattr(fsc, name), x0, u_list)
        rec.true(f"{name}: list lengths", len(gu) == len(us) and len(gx) == len(xs), us=gu, xs=gx)
        rec.true(f"{name}: states", ints(gx) == xs, got=gx, want=xs)
        rec.true(f"{name}: controls", ints(gu) == us, got=gu, want=us)
    if sim:
        gx = rec.call(fsc.seqSimulation, x0, us)
        rec.true("seqSimulation: states", ints(gx) == xs, got=gx, want=xs)
    return xs


def check_all(rec, f, L, LT):
    from parallel_control import fsc_np
    n, m = f[0].shape
    T = len(f)
    fsc = fsc_np.FSC(f, L, LT)
    out = []
    for bw in ("seqBackwardPass", "parBackwardPass"):
        u_list, V_list = rec.call(getattr(fsc, bw))
        for x0 in range(n):
            xs = check_policy(rec, fsc, f, u_list, x0)
            S, V = refs.fsc_optimal_states(f, L, LT, x0)
            for k in range(T + 1):
                rec.true(f"policy trajectory from {bw} is not optimal", xs[k] in S[k], xs=xs)
            for name in ("parFwdBwdPass", "parFwdBwdPass2"):
                gu, gx = rec.call(getattr(fsc, name), x0, u_list, V_list)
                rec.true(f"{name}: list lengths", len(gu) == T and len(gx) == T + 1, us=gu, xs=gx)
                for k in range(T + 1):
                    rec.true(f"{name}: state {k} is on no optimal trajectory", int(gx[k]) in S[k],
                             xs=gx, optimal=[sorted(s) for s in S])
                for k in range(T):
                    rec.true(f"{name}: control is not the policy's", int(gu[k]) == int(u_list[k][int(gx[k])]),
                             us=gu, xs=gx)
            out.append(xs)
    rec.ok(outcome=out, sample={"T": T, "trajectories": out[:3]})


def small(rec, part, parts):
    i = 0
    for fi in range(16):
        f = np.array(digits(fi, 2, 4)).reshape(2, 2)
        for l in itertools.product((0., 1., 2.), repeat=4):
            for lt in itertools.product((0., 1., 3.), repeat=2):
                i += 1
                if i % parts == part and rec.case("T1", fi, l, lt):
                    check_all(rec, [f], [np.array(l).reshape(2, 2)], np.array(lt))


def small2(rec, part, parts, l1s):
    i = 0
    for f0 in range(16):
        for f1 in range(16):
            for l0 in range(16):
                for l1 in l1s:
                    for lt in ((0., 0.), (0., 1.)):
                        i += 1
                        if i % parts == part and rec.case("T2", f0, f1, l0, l1, lt):
                            f = [np.array(digits(a, 2, 4)).reshape(2, 2) for a in (f0, f1)]
                            L = [np.array(digits(a, 2, 4), float).reshape(2, 2) for a in (l0, l1)]
                            check_all(rec, f, L, np.array(lt))


def policies(rec, part, parts):
    """Arbitrary policies (also non-optimal ones), all of them."""
    from parallel_control import fsc_np
    for T in (1, 2, 3):
        for fi in range(16):
            f = [np.array(digits((fi + 5 * k) % 16, 2, 4)).reshape(2, 2) for k in range(T)]
            fsc = fsc_np.FSC(f, [np.zeros((2, 2))] * T, np.zeros(2))
            for pi in range(4 ** T):
                if (fi + pi) % parts != part or not rec.case("pol", T, fi, pi):
                    continue
                pol = np.array(digits(pi, 2, 2 * T)).reshape(T, 2)
                o = []
                for x0 in (0, 1):
                    o.append(check_policy(rec, fsc, f, [pol[k] for k in range(T)], x0))
                    o.append(check_policy(rec, fsc, f, [pol[k] for k in range(T)], np.int64(x0)))
                rec.ok(outcome=o)


def sims(rec):
    """Simulation with every control sequence, 3 states x 3 controls."""
    from parallel_control import fsc_np
    for T in (1, 2, 3, 4, 5):
        f = [wint(("sim", k), 3, 3, 3) for k in range(T)]
        fsc = fsc_np.FSC(f, [np.zeros((3, 3))] * T, np.zeros(3))
        for us in itertools.product(range(3), repeat=T):
            if not rec.case("sim", T, us):
                continue
            for x0 in range(3):
                x, xs = x0, [x0]
                for k, u in enumerate(us):
                    x = int(f[k][x, u])
                    xs.append(x)
                got = rec.call(fsc.seqSimulation, x0, list(us))
                rec.true("seqSimulation: states", ints(got) == xs, got=got, want=xs)
                rec.true("seqSimulation: array controls", ints(rec.call(fsc.seqSimulation, x0, np.array(us))) == xs)
            rec.ok(outcome=xs)


def horizons(rec, lo, hi):
    for T in range(lo, hi):
        for (n, m) in ((1, 1), (1, 2), (2, 1), (3, 2), (4, 3), (2, 4)):
            for mode in ("ties", "distinct", "neg", "unreachable", "big", "fixf", "fixL", "fixed", "tiny", "huge"):
                for ft in (np.int64, np.uint8):
                    if not rec.case("T", T, n, m, mode, ft.__name__):
                        continue
                    f = [wint(("f", k, n, m), n, n, m).astype(ft) for k in range(T)]
                    L = [wint(("L", k, n, m, mode), 3 if mode == "ties" else 9973, n, m).astype(float)
                         for k in range(T)]
                    LT = wint(("LT", n, m, mode), 3 if mode == "ties" else 9973, n).astype(float)
                    if mode in ("fixf", "fixed"):        # one shared array object
                        f = [f[0]] * T
                    if mode in ("fixL", "fixed"):
                        L = [L[0]] * T
                    if mode == "big":                # exact in double precision only
                        L = [2. ** 20 + l % 7 / 1024 for l in L]
                        LT = 2. ** 24 + LT % 7 / 1024
                    if mode == "tiny":
                        L, LT = [l / 2. ** 40 for l in L], LT / 2. ** 40
                    if mode == "huge":
                        L, LT = [l * 2. ** 36 for l in L], LT * 2. ** 37
                    if mode == "neg":
                        L, LT = [l - 9000. for l in L], -LT
                    if mode == "unreachable":
                        f = [np.minimum(a, max(0, n - 2)).astype(ft) for a in f]
                    check_all(rec, f, L, LT)
                    # generic, non-optimal policy
                    from parallel_control import fsc_np
                    pol = [wint(("pol", T, k), m, n) for k in range(T)]
                    for x0 in range(n):
                        check_policy(rec, fsc_np.FSC(f, L, LT), f, pol, x0)


def jobs(tier):
    q = tier == "quick"
    js = [(8, "small", {"part": i, "parts": 4}) for i in range(4)]
    p = 4 if q else 32
    js += [(8, "small2", {"part": i, "parts": p, "l1s": [6] if q else [0, 3, 5, 6, 9, 12, 14]}) for i in range(p)]
    js += [(5, "policies", {"part": i, "parts": 2}) for i in range(2)] + [(2, "sims", {})]
    hs = [1, 8, 14, 19, 24, 28, 32, 35] if q else list(range(1, 71, 5)) + [71]
    js += [(b / 4, "horizons", {"lo": a, "hi": b}) for a, b in zip(hs, hs[1:])]
    return js
