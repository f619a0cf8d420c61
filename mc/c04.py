"""C04: finite-state control, TensorFlow."""
import itertools
import numpy as np
from mc import refs
from mc.core import wint, digits

BOUNDS = ("every horizon 1..18, 31..33 (1..40, 63..65, 127..129 thorough), each with limits T, T+1, 2T+1 and the "
          "default, both float types, tie-rich/tie-free/unreachable/negative tables, every initial state; every "
          "2x2 problem with T=1 over {0,1,2} costs and T=2 binary time-varying problems; pipelines of "
          "finite_speedtest for every horizon; tables shared by all steps, costs down to 1e-12 and up to 1e12")
ASSUMPTIONS = ["tfp.math.scan_associative, tf.scan and tf.gather behave as documented",
               "the parallelism limit is at least the horizon (documented use)",
               "under ties the min-plus forward-backward pass may report any state on some optimal trajectory"]


def npy(t):
    return np.asarray(t.numpy() if hasattr(t, "numpy") else t)


def check(rec, f, L, LT, dtype="float64", limits=(None,), pipelines=False, x0s=None, loose=0.0):
    import tensorflow as tf
    from parallel_control import fsc_np, fsc_tf
    n, m = f[0].shape
    T = len(f)
    fsc = fsc_np.FSC(f, L, LT)
    fs, Ls, LTt = rec.call(fsc_tf.fsc_np_to_tf, fsc, dtype=getattr(tf, dtype))
    rec.eq("fsc_np_to_tf fs", npy(fs), np.array(f))
    rec.close("fsc_np_to_tf Ls", npy(Ls), np.array(L), 0)
    rec.close("fsc_np_to_tf LT", npy(LTt), LT, 0)
    rec.true("fsc_np_to_tf dtype", Ls.dtype == getattr(tf, dtype) and LTt.dtype == getattr(tf, dtype))
    V = np.array(refs.fsc_dp(f, L, LT))

    def backward(name, us, Vs):
        us, Vs = npy(us), npy(Vs)
        rec.close(f"{name}: Vs", Vs, V, loose)
        rec.true(f"{name}: us shape", us.shape == (T, n), got=us.shape)
        rec.true(f"{name}: control range", us.min() >= 0 and us.max() < m, got=us)
        for k in range(T):
            q = np.array([float(L[k][x, us[k, x]]) + V[k + 1][f[k][x, us[k, x]]] for x in range(n)])
            rec.close(f"{name}: us[{k}] do not attain the minimum", q, V[k], loose)

    def policy(name, us_got, xs_got, pol, x0):
        us, xs = refs.fsc_policy(f, npy(pol), x0)
        rec.eq(f"{name}: states", npy(xs_got), xs)
        rec.eq(f"{name}: controls", npy(us_got), us)

    def minplus(name, us_got, xs_got, pol, x0):
        S, _ = refs.fsc_optimal_states(f, L, LT, x0)
        xs, us = npy(xs_got), npy(us_got)
        rec.true(f"{name}: shapes", xs.shape == (T + 1,) and us.shape == (T,), us=us, xs=xs)
        for k in range(T + 1):
            rec.true(f"{name}: state {k} is on no optimal trajectory", int(xs[k]) in S[k], xs=xs,
                     optimal=[sorted(s) for s in S])
        for k in range(T):
            rec.true(f"{name}: control is not the policy's", us[k] == npy(pol)[k, xs[k]], us=us, xs=xs)

    us, Vs = rec.call(fsc_tf.fsc_seq_backwardpass, fs, Ls, LTt)
    backward("fsc_seq_backwardpass", us, Vs)
    x0s = range(n) if x0s is None else x0s
    for x0 in x0s:
        xt = tf.constant(x0)
        xs_, us_ = rec.call(fsc_tf.fsc_seq_forwardpass, xt, fs, us)
        policy("fsc_seq_forwardpass", us_, xs_, us, x0)
    for lim in limits:
        kw = {} if lim is None else {"max_parallel": lim}
        us, Vs = rec.call(fsc_tf.fsc_par_backwardpass, fs, Ls, LTt, **kw)
        backward(f"fsc_par_backwardpass({lim})", us, Vs)
        for x0 in x0s:
            xt = tf.constant(x0)
            us_, xs_ = rec.call(fsc_tf.fsc_par_forwardpass, xt, fs, us, **kw)
            policy(f"fsc_par_forwardpass({lim})", us_, xs_, us, x0)
            us_, xs_ = rec.call(fsc_tf.fsc_par_fwdbwdpass, xt, fs, Ls, us, Vs, **kw)
            minplus(f"fsc_par_fwdbwdpass({lim})", us_, xs_, us, x0)
    if pipelines:
        from parallel_control import finite_speedtest as sp
        u1, V1 = rec.call(sp.fsc_seq_bw, fs, Ls, LTt)
        backward("fsc_seq_bw", u1, V1)
        u2, V2 = rec.call(sp.fsc_par_bw, fs, Ls, LTt)
        backward("fsc_par_bw", u2, V2)
        for x0 in x0s:
            xt = tf.constant(x0)
            xs_, us_ = rec.call(sp.fsc_seq_bwfw, xt, fs, Ls, LTt)   # documented: "outputs the wrong way"
            policy("fsc_seq_bwfw", us_, xs_, u1, x0)
            us_, xs_ = rec.call(sp.fsc_par_bwfw_1, xt, fs, Ls, LTt)
            policy("fsc_par_bwfw_1", us_, xs_, u2, x0)
            us_, xs_ = rec.call(sp.fsc_par_bwfw_2, xt, fs, Ls, LTt)
            minplus("fsc_par_bwfw_2", us_, xs_, u2, x0)
    rec.ok(outcome=V[0], sample={"T": T, "V0": V[0]})


def tables(T, n, m, mode):
    f = [wint(("f", k, n, m), n, n, m) for k in range(T)]
    hi = {"ties": 3, "neg": 97, "unreachable": 29}.get(mode, 97)
    L = [wint(("L", k, n, m, mode), hi, n, m).astype(float) for k in range(T)]
    LT = wint(("LT", n, m, mode), hi, n).astype(float)
    if mode in ("fixf", "fixed"):
        f = [f[0]] * T
    if mode in ("fixL", "fixed"):
        L = [L[0]] * T
    if mode == "big":                # exact in double precision only
        L = [2. ** 20 + l % 7 / 1024 for l in L]
        LT = 2. ** 24 + LT % 7 / 1024
    if mode == "tiny":
        L, LT = [l / 2. ** 40 for l in L], LT / 2. ** 40
    if mode == "huge":
        L, LT = [l * 2. ** 40 for l in L], LT * 2. ** 41
    if mode == "neg":
        L, LT = [l - 80. for l in L], -LT
    if mode == "unreachable":
        f = [np.minimum(a, max(0, n - 2)) for a in f]
    return f, L, LT


def horizons(rec, Ts, dims, limits, dtypes, pipelines, modes=("ties", "distinct", "neg", "unreachable")):
    for T in Ts:
        for n, m in dims:
            for dt in dtypes:
                for mode in modes:
                    if not rec.case(T, n, m, dt, mode):
                        continue
                    lims = []
                    for l in limits:
                        lims.append(None if l == 0 else l * T + (l - 1))
                    f, L, LT = tables(T, n, m, mode)
                    check(rec, f, L, LT, dt, lims, pipelines)


def limit_plus(rec, Ts):
    """Limits T, T+1, the next powers of two, and the default."""
    for T in Ts:
        p = 1
        while p < T:
            p *= 2
        for lims in ([T, T + 1, p, 2 * p, None],):
            if rec.case("limits", T):
                f, L, LT = tables(T, 2, 2, "distinct")
                check(rec, f, L, LT, "float64", lims, False, x0s=[1])


def small(rec, T, part, parts):
    i = 0
    if T == 1:
        for fi in range(16):
            for l in itertools.product((0., 1., 2.), repeat=4):
                for lt in itertools.product((0., 1., 3.), repeat=2):
                    i += 1
                    if (i * 7919) % parts == part and rec.case("T1", fi, l, lt):
                        check(rec, [np.array(digits(fi, 2, 4)).reshape(2, 2)], [np.array(l).reshape(2, 2)],
                              np.array(lt), x0s=[i % 2])
    else:
        for f0 in range(16):
            for f1 in range(16):
                for l0 in range(16):
                    i += 1
                    if (i * 7919) % parts == part and rec.case("T2", f0, f1, l0):
                        f = [np.array(digits(a, 2, 4)).reshape(2, 2) for a in (f0, f1)]
                        L = [np.array(digits(a, 2, 4), float).reshape(2, 2) for a in (l0, 6)]
                        check(rec, f, L, np.array([0., 1.]), x0s=[i % 2])


def jobs(tier):
    q = tier == "quick"
    js = []
    Ts = list(range(1, 19)) + [31, 32, 33] if q else list(range(1, 41)) + [63, 64, 65, 127, 128, 129]
    groups = [Ts[i::7] for i in range(7)]
    for g in groups:
        js.append((20, "horizons", {"Ts": g, "dims": [[3, 2]], "limits": [0], "dtypes": ["float64"],
                                    "pipelines": True}))
        if not q:
            js.append((20, "horizons", {"Ts": g, "dims": [[1, 1], [1, 2], [2, 1], [4, 3]], "limits": [0, 1, 2],
                                        "dtypes": ["float64", "float32"], "pipelines": True}))
    js.append((10, "horizons", {"Ts": [1, 2, 3], "dims": [[1, 1], [1, 2], [2, 1], [4, 3]], "limits": [0],
                                "dtypes": ["float64"], "pipelines": True}))
    js.append((10, "horizons", {"Ts": [1, 2, 5, 8], "dims": [[3, 2]], "limits": [0], "dtypes": ["float32"],
                                "pipelines": False}))
    extra = ["big", "fixf", "fixL", "fixed", "tiny", "huge"]
    for T in (2, 3, 5, 8) if q else range(1, 18):
        js.append((8, "horizons", {"Ts": [T], "dims": [[3, 2]], "limits": [0], "dtypes": ["float64"], "pipelines": False,
                                   "modes": extra}))
    lt = list(range(1, 10)) + [15, 16, 17] if q else list(range(1, 34))
    for i in range(4):
        js.append((12, "limit_plus", {"Ts": lt[i::4]}))
    for T in (1, 2):
        if q:   # quick: a fixed residue class of the space, thorough: all of it
            js += [(12, "small", {"T": T, "part": i, "parts": 12}) for i in range(2)]
        else:
            js += [(12, "small", {"T": T, "part": i, "parts": 12}) for i in range(12)]
    return js
