"""C02: finite-state control, NumPy: backward passes, batch solution, cost."""
import itertools
import numpy as np
from mc import refs
from mc.core import wint, digits

BOUNDS = ("every problem with 2 states x 2 controls x T=1 over costs {0,1,2}, terminal {0,1,3}; every "
          "time-invariant and every binary-cost time-varying 2x2 problem with T=2; every 3x2 transition table "
          "with T=1..3; one-state and one-control problems; all horizons 1..34 (70 thorough) with generic "
          "tie-rich and tie-free tables; all number-type combinations of L, LT and f; costs from -1e6 to 1e12; tables shared by all steps (transitions, costs, both); costs that exceed the range of their number type when added")
ASSUMPTIONS = ["costs below 1e17 in magnitude (1e20 stands for infinity in the code)"]


def check_problem(rec, f, L, LT, batch=True, tol=0.0):
    from parallel_control import fsc_np
    T = len(f)
    n, m = f[0].shape
    V = refs.fsc_dp(f, L, LT)
    memo = {}
    own = lambda a: memo.setdefault(id(a), a.copy())       # steps sharing one array keep sharing one
    fsc = fsc_np.FSC([own(a) for a in f], [own(a) for a in L], LT.copy())
    for name in ("seqBackwardPass", "parBackwardPass"):
        u_list, V_list = rec.call(getattr(fsc, name))
        rec.true(f"{name}: wrong list lengths", len(u_list) == T and len(V_list) == T + 1,
                 got=(len(u_list), len(V_list)))
        for k in range(T + 1):
            rec.close(f"{name}: V[{k}]", V_list[k], V[k], tol)
        for k in range(T):
            u = np.asarray(u_list[k])
            rec.true(f"{name}: u[{k}] shape", u.shape == (n,), got=u)
            for x in range(n):
                a = int(u[x])
                rec.true(f"{name}: control out of range", 0 <= a < m, got=u)
                q = float(L[k][x, a]) + V[k + 1][int(f[k][x, a])]
                rec.true(f"{name}: u[{k}][{x}] does not attain the minimum",
                         q <= V[k][x] + tol * max(1, abs(V[k][x])), got=a, cost=q, best=V[k][x])
    if batch:
        for x0 in range(n):
            us, xs, c = rec.call(fsc.batch_solution, x0)
            rec.true("batch: list lengths", len(us) == T and len(xs) == T + 1, us=us, xs=xs)
            rec.close("batch: minimum cost", c, V[0][x0], tol)
            x = x0
            rec.true("batch: initial state", int(xs[0]) == x0)
            for k in range(T):
                x = int(f[k][x, int(us[k])])
                rec.true("batch: states do not follow the transitions", int(xs[k + 1]) == x, us=us, xs=xs)
            rec.close("batch: cost of the returned trajectory", refs.fsc_cost(f, L, LT, us, xs), V[0][x0], tol)
            rec.close("cost()", rec.call(fsc.cost, xs, us), refs.fsc_cost(f, L, LT, us, xs), max(tol, 1e-12))
    rec.ok(outcome=V[0], sample={"V": V, "T": T})


def small22(rec, part, parts):
    """All 2x2 one-step problems; all two-step time-invariant ones with binary costs."""
    Ls = list(itertools.product((0., 1., 2.), repeat=4))
    LTs = list(itertools.product((0., 1., 3.), repeat=2))
    i = 0
    for fi in range(16):
        f = np.array(digits(fi, 2, 4)).reshape(2, 2)
        for li, l in enumerate(Ls):
            for lt in LTs:
                i += 1
                if i % parts != part:
                    continue
                if rec.case("T1", fi, l, lt):
                    check_problem(rec, [f], [np.array(l).reshape(2, 2)], np.array(lt), batch=(i % 3 == 0))


def small22_T2(rec, part, parts):
    i = 0
    for f0 in range(16):
        for f1 in range(16):
            for l0 in range(16):
                for l1 in (0, 5, 6, 11, 12, 14) if parts > 4 else (6, 11):
                    for lt in ((0., 0.), (0., 1.), (2., 0.)):
                        i += 1
                        if i % parts != part or not rec.case("T2", f0, f1, l0, l1, lt):
                            continue
                        f = [np.array(digits(a, 2, 4)).reshape(2, 2) for a in (f0, f1)]
                        L = [np.array(digits(a, 2, 4), float).reshape(2, 2) for a in (l0, l1)]
                        check_problem(rec, f, L, np.array(lt), batch=(i % 5 == 0))


def tables(rec, part, parts):
    """Every 3-state 2-control transition table, horizons 1..3, time-varying tie-rich costs."""
    for fi in range(729):
        if fi % parts != part:
            continue
        f = np.array(digits(fi, 3, 6)).reshape(3, 2)
        for T in (1, 2, 3):
            if rec.case("tab", fi, T):
                L = [np.array([[1., 0.], [0., 2.], [1., 1.]]) + k for k in range(T)]
                check_problem(rec, [f] * T, L, np.array([0., 2., 1.]), batch=True)


def horizons(rec, lo, hi):
    for T in range(lo, hi):
        for (n, m) in ((1, 1), (1, 3), (2, 1), (3, 2), (4, 3), (2, 5)):
            for mode in ("ties", "distinct", "neg", "unreachable", "large", "fixf", "fixL", "fixed", "tiny", "huge"):
                if not rec.case("T", T, n, m, mode):
                    continue
                f = [wint(("f", k, n, m), n, n, m) for k in range(T)]
                L = [wint(("L", k, n, m, mode), 3 if mode == "ties" else 997, n, m).astype(float) for k in range(T)]
                LT = wint(("LT", n, m, mode), 3 if mode == "ties" else 997, n).astype(float)
                if mode in ("fixf", "fixed"):        # one shared array object
                    f = [f[0]] * T
                if mode in ("fixL", "fixed"):
                    L = [L[0]] * T
                if mode == "tiny":
                    L, LT = [l / 2. ** 40 for l in L], LT / 2. ** 40
                if mode == "huge":
                    L, LT = [l * 2. ** 40 for l in L], LT * 2. ** 41
                if mode == "neg":
                    L = [l - 900. for l in L]
                    LT = -LT
                if mode == "unreachable":
                    f = [np.minimum(a, max(0, n - 2)) for a in f]
                if mode == "large":
                    L = [l * 1e9 for l in L]
                    LT = LT * 1e11
                check_problem(rec, f, L, LT, batch=m ** T <= 32)


def dtypes(rec):
    for T in (1, 2, 3, 5):
        for n, m in ((2, 2), (3, 2), (1, 2)):
            f = [wint(("fd", k, n, m), n, n, m) for k in range(T)]
            for ft in (np.int64, np.int32, np.uint8):
                for lt in (np.int64, np.int32, np.int8, np.float32, np.float64):
                    for tt in (np.int64, np.int32, np.int8, np.float32, np.float64):
                        if not rec.case("dt", T, n, m, ft.__name__, lt.__name__, tt.__name__):
                            continue
                        L = [(wint(("Ld", k, n, m), 5, n, m) - 1).astype(lt) for k in range(T)]
                        LT = wint(("LTd", n), 4, n).astype(float)
                        if tt in (np.float32, np.float64):
                            LT = LT + 0.5
                        if lt in (np.float32, np.float64):
                            L = [l + lt(0.25) for l in L]
                        check_problem(rec, [a.astype(ft) for a in f], L, LT.astype(tt), batch=True)


def brute(rec, part, parts):
    """Reference DP itself against enumeration of all control sequences (model validation), with the
    code compared to the enumeration directly."""
    from parallel_control import fsc_np
    for T in (1, 2, 3, 4):
        for fi in range(0, 16):
            for li in range(16):
                if (fi * 16 + li) % parts != part or not rec.case("brute", T, fi, li):
                    continue
                f = [np.array(digits((fi + 3 * k) % 16, 2, 4)).reshape(2, 2) for k in range(T)]
                L = [np.array(digits((li + 5 * k) % 16, 2, 4), float).reshape(2, 2) for k in range(T)]
                LT = np.array([0., 1.])
                fsc = fsc_np.FSC(f, L, LT)
                _, Vs = rec.call(fsc.seqBackwardPass)
                _, Vp = rec.call(fsc.parBackwardPass)
                for x0 in (0, 1):
                    best, arg = refs.fsc_brute(f, L, LT, x0)
                    rec.close("sequential value", Vs[0][x0], best, 0)
                    rec.close("parallel value", Vp[0][x0], best, 0)
                    us, xs, c = rec.call(fsc.batch_solution, x0)
                    rec.true("batch solution is not optimal", (list(map(int, us)), list(map(int, xs))) in arg,
                             us=us, xs=xs)
                    rec.close("batch cost", c, best, 0)
                    for us, xs in ((list(a), None) for a in itertools.product((0, 1), repeat=T)):
                        x, xs = x0, [x0]
                        for k in range(T):
                            x = int(f[k][x, us[k]])
                            xs.append(x)
                        rec.close("cost of arbitrary trajectory", rec.call(fsc.cost, xs, us),
                                  refs.fsc_cost(f, L, LT, us, xs), 0)
                rec.ok(outcome=(best,))


def overflow(rec):
    from mc import c29
    c29.overflow(rec)


def jobs(tier):
    q = tier == "quick"
    js = [(6, "small22", {"part": i, "parts": 4}) for i in range(4)]
    js += [(6, "small22_T2", {"part": i, "parts": p}) for p in ((4,) if q else (24,)) for i in range(p)]
    js += [(4, "tables", {"part": i, "parts": 2}) for i in range(2)]
    hs = [1, 6, 11, 16, 21, 26, 31, 35] if q else list(range(1, 71, 6)) + [71, 127, 129, 131, 257, 259]
    js += [(b / 4, "horizons", {"lo": a, "hi": b}) for a, b in zip(hs, hs[1:]) if b - a < 20]
    js += [(3, "dtypes", {}), (3, "brute", {"part": 0, "parts": 2}), (3, "brute", {"part": 1, "parts": 2})]
    js.append((6, "overflow", {}))
    return js
