"""C32: TensorFlow routines compute in the precision of their data, compiled or not."""
import functools
import itertools
import numpy as np
from mc.core import wit, wint
from mc import lqt, hjb, hmm
from mc.ct import CT, FEATURES

BOUNDS = ("Every TensorFlow routine in the four combinations of {single, double} x {compiled, eager}, the results of the "
          "three others against the compiled double-precision one, and the type of every result: finite-state control "
          "(horizons 1..6 x 3 sizes), Viterbi (lengths 1..6 x 2 sizes), LQT and partial condensing (horizons 1..4 x "
          "2 sizes x 2 feature sets), continuous LQT and parareal (1x2 in every mode, 3x2 and 2x2 compiled), nonlinear LQT "
          "(3 models x horizons 1..3), grid HJB (3 problems x 2..4 points x 1..3 blocks), SQP (4 problems, batched and "
          "not), direct shooting (eager only: 2 problems x 2 methods, one step), Runge-Kutta, bundled models and "
          "generators; larger horizons and grids in the thorough tier")
ASSUMPTIONS = ["single precision agrees to 2e-3 (Viterbi and finite-state costs: 1e-4), double precision to 1e-9, relative",
               "compiled double precision is right (the other properties)", "no ties in Viterbi models", "definite state weights; references of condensed problems are not unique and compared through the solution",
               "running tf.function bodies eagerly (tf.config.run_functions_eagerly) is supported by TensorFlow"]

MODES = (("float64", False), ("float32", False), ("float64", True), ("float32", True))


def four(rec, name, make, loose=2e-3, modes=MODES, tight=1e-9):
    """make(k, dtype) -> {name: tensor}, computed in every precision and mode."""
    import tensorflow as tf
    ref = None
    for dtype, eager in modes:
        dt = getattr(tf, dtype)

        def k(a):
            return tf.constant(np.asarray(a, dtype=float), dtype=dt)
        tf.config.run_functions_eagerly(eager)
        try:
            out = rec.call(make, k, dt)
        finally:
            tf.config.run_functions_eagerly(False)
        at = f"{dtype}, {'eager' if eager else 'compiled'}"
        for nm, t in out.items():
            rec.true(f"{name}: {nm}: type of the result ({at})", t.dtype == dt or t.dtype.is_integer, got=t.dtype.name)
        vals = {nm: t.numpy() for nm, t in out.items()}
        if ref is None:
            ref = vals
            continue
        for nm, v in vals.items():
            if nm.startswith("~"):      # not unique (minimum-norm solutions of singular systems)
                rec.eq(f"{name}: {nm}: shape ({at})", v.shape, ref[nm].shape)
                continue
            if v.dtype.kind in "iu":
                rec.eq(f"{name}: {nm} ({at})", v, ref[nm])
                continue
            w = ref[nm]
            fin = np.isfinite(w)
            rec.eq(f"{name}: {nm}: shape ({at})", v.shape, w.shape)
            rec.eq(f"{name}: {nm}: finite entries ({at})", np.isfinite(v), fin)
            sc = max(1.0, float(np.max(np.abs(w[fin])))) if fin.any() else 1.0
            rec.close(f"{name}: {nm} ({at})", np.where(fin, v, 0.0), np.where(fin, w, 0.0),
                      loose if dtype == "float32" else tight, sc)
    rec.group(name)
    rec.ok(np.asarray(list(ref.values())[-1]).ravel()[:6], sample={"routine": name})


def named(prefix, names, vals):
    return {f"{prefix} {n}": v for n, v in zip(names, vals)}


def finite_state(rec, Ts, dims):
    from parallel_control import fsc_np, fsc_tf, finite_speedtest as S
    import tensorflow as tf
    for T, (n, m) in itertools.product(Ts, dims):
        if not rec.case("fsc", T, n, m):
            continue
        f = [wint(("32f", T, t), n, n, m) for t in range(T)]
        L = [wint(("32L", T, t), 97, n, m).astype(float) for t in range(T)]
        LT = wint(("32LT", T), 97, n).astype(float)

        def make(k, dt):
            fs, Ls, Lt = fsc_tf.fsc_np_to_tf(fsc_np.FSC(f, L, LT), dtype=dt)
            x0 = tf.constant(n - 1)
            out = {"Ls": Ls, "LT": Lt}
            for nm, bw in (("seq", fsc_tf.fsc_seq_backwardpass(fs, Ls, Lt)), ("par", fsc_tf.fsc_par_backwardpass(fs, Ls, Lt)),
                           ("seq_bw", S.fsc_seq_bw(fs, Ls, Lt)), ("par_bw", S.fsc_par_bw(fs, Ls, Lt))):
                out.update(named(nm, ("us", "Vs"), bw))
            us, Vs = bw
            out.update(named("seq forward", "ab", fsc_tf.fsc_seq_forwardpass(x0, fs, us)))
            out.update(named("par forward", "ab", fsc_tf.fsc_par_forwardpass(x0, fs, us)))
            out.update(named("par forward-backward", "ab", fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs)))
            return out
        four(rec, "finite-state control", make, loose=1e-4)


def viterbi(rec, Ts, dims):
    from parallel_control import viterbi_tf as V
    from mc.c06 import FSC, DIRECT, Model
    import tensorflow as tf
    for T, (n, m) in itertools.product(Ts, dims):
        if not rec.case("viterbi", T, n, m):
            continue
        model = hmm.generic(n, m, "generic")
        ys = hmm.observations(n, m, T, ("32", T))

        def make(k, dt):
            out = {}
            fs, Ls, LT = V.make_viterbi_fsc(Model(*model), ys, dtype=dt)
            out.update(Ls=Ls, LT=LT)
            for nm, _ in FSC:
                out.update(named(nm, ("v", "Vs"), getattr(V, nm)(fs, Ls, LT)))
            a = [k(z) for z in model] + [tf.constant(ys, dtype=tf.int32)]
            for nm, _ in DIRECT:
                out.update(named(nm, ("v", "Vs"), getattr(V, nm)(*a)))
            return out
        four(rec, "Viterbi", make, loose=1e-4)


LQ_NAMES = ("F", "c", "L", "H", "HT", "r", "rT", "X", "XT", "U")


def tracking(rec, dims, Ts, Ncs, feats):
    from parallel_control import lqt_tf as q, condensing_tf as ct, linear_speedtest as S
    for T, fe in itertools.product(Ts, feats):
        p = lqt.problem("C32", T, *dims, fe, pT=dims[2])
        x0 = wit(("C32", T), dims[0], lo=-2, hi=2)
        p.X = [w + 0.25 * np.eye(len(w)) for w in p.X]   # singular weights are C14's
        o = lqt.build(p)
        if rec.case("lqt", dims, T, fe):
            def make(k, dt):
                d = q.lqt_np_to_tf(o, dtype=dt)
                Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = d
                out = named("converted", LQ_NAMES, d)
                xt = k(x0)
                for nm, bw in (("seq", q.lqt_seq_backwardpass(*d)), ("par", q.lqt_par_backwardpass(*d))):
                    out.update(named(nm, ("S", "v", "K", "d"), bw))
                Ss, vs, K, dd = bw
                out.update(named("seq forward", "xu", q.lqt_seq_forwardpass(xt, Fs, cs, Ls, K, dd)))
                out.update(named("par forward", "xu", q.lqt_par_forwardpass(xt, Fs, cs, Ls, K, dd)))
                x, u = q.lqt_par_fwdbwdpass(xt, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, K, dd)
                out.update({"forward-backward x": x, "forward-backward u": u,
                            "cost": q.lqt_cost(x, u, Hs, HT, rs, rT, Xs, XT, Us)})
                for nm in ("lqt_sequential_bwfw", "lqt_parallel_bwfw_1", "lqt_parallel_bwfw_2"):
                    out.update(named(nm, "xu", getattr(S, nm)(xt, *d)))
                return out
            four(rec, "LQT", make)
        for Nc in Ncs:
            if not rec.case("condense", dims, T, Nc, fe):
                continue

            def make(k, dt):
                d = q.lqt_np_to_tf(o, dtype=dt)
                Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = d
                star = ct.condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc)
                out = named("condensed", "FcLH~XUM~abl", star)
                out["~r"], out["~s"] = star[4], star[8]
                out.pop("condensed ~")
                F1, c1, L1, H1, r1, X1, U1, M1, s1, Lam, cb, Lb = star
                F2, c2, X2 = q.lqt_gen_to_canon(F1, c1, L1, H1, r1, X1, U1, M1, s1)
                out.update({"canonical F": F2, "~c": c2, "canonical X": X2})
                _, _, K, dd = q.lqt_par_backwardpass(F2, c2, L1, H1, HT, r1, rT, X2, XT, U1)
                K, dd = q.lqt_canon_to_gen(K, dd, H1, r1, U1, M1, s1)
                out.update(named("general", "Kd", (K, dd)))
                cx, cu = q.lqt_seq_forwardpass(k(x0), F1, c1, L1, K, dd)
                out.update(named("expanded", "ux", ct.convertUX(cu, cx, Lam, cb, Lb, T)))
                for nm in ("lqt_sequential_cond_bwfw", "lqt_parallel_cond_bwfw_1", "lqt_parallel_cond_bwfw_2"):
                    out.update(named(nm, "xu", getattr(S, nm)(k(x0), *d, Nc)))
                return out
            four(rec, "partial condensing", make)
    # general costs
    for T in Ts:
        if rec.case("general", dims, T):
            o2 = lqt.build(lqt.problem("C32g", T, *dims, lqt.FEATURES[:-1], pT=dims[2]))
            four(rec, "general to canonical", lambda k, dt: {f"part {i}": t for i, t in enumerate(q.lqt_np_to_tf_gen(o2, dtype=dt))
                                                            if hasattr(t, "dtype")})


def continuous(rec, dims, splits, eager=True, T=1.0):
    from parallel_control import clqt_tf as c, parareal_clqt_tf as p, contlin_speedtest as S
    from mc.c17 import Env
    q = CT("C32", *dims, FEATURES)
    n, m = q.n, q.m
    x0 = wit(("x0", n), n, lo=-2, hi=2)
    modes = MODES if eager else MODES[:2]
    for B, s in splits:
        N = B * s

        def data(dt):
            e = Env(q, dt.name)
            return e, e.t(q.XT), e.t(q.HT), e.t(q.rT), e.t(T), e.t(x0)

        def block(k, dt):
            e, XT, HT, rT, Tt, xt = data(dt)
            ddt, t0, ST, vT = c.clqt_seq_backwardpass_defaults(N, XT, HT, rT, Tt)
            out = named("defaults", ("dt", "t0", "S", "v"), (ddt, t0, ST, vT))
            out.update(named("par defaults", ("dt", "t0", "S", "v"), c.par_backwardpass_defaults(B, s, XT, HT, rT, Tt)))
            law = named("seq", "SvKd", c.clqt_seq_backwardpass(N, ddt, t0, ST, vT, *e.full))
            Ss, vs, K, d = law.values()
            out.update(law)
            a = c.clqt_seq_fwdbwdpass_defaults(xt, N, Tt)
            out.update(named("fwdbwd defaults", "tzABC", a))
            fb = c.clqt_seq_fwdbwdpass(N, *a, *e.full)
            out.update(named("fwdbwd", "AbC", fb))
            out.update(named("combined", "xu", c.clqt_combine_fwdbwd(K, d, Ss, vs, *fb)))
            pdt, pt0 = c.clqt_par_fwdbwdpass_defaults(B, s, Tt)
            out.update(named("par fwdbwd defaults", "tz", (pdt, pt0)))
            for z in (False, True):
                out.update(named(f"seq forward {z}", "xu", c.clqt_seq_forwardpass(xt, K, d, ddt, t0, *e.dyn, u_zoh=z)))
                out.update(named(f"par forward {z}", "xu", c.clqt_par_forwardpass(B, s, xt, K, d, ddt, t0, *e.dyn, u_zoh=z)))
                out.update(named(f"par backward {z}", "SvKd", c.clqt_par_backwardpass(B, s, ddt, t0, ST, vT, *e.full, forward=z)))
                out.update(named(f"par forward-backward {z}", "xu",
                                 c.clqt_par_fwdbwdpass(B, s, xt, Ss, vs, K, d, pdt, pt0, *e.full, forward=z)))
            return out

        def parareal(k, dt):
            e, XT, HT, rT, Tt, xt = data(dt)
            out = named("backward", "SvKd", p.pclqt_backwardpass(B, s, B, XT, HT, rT, Tt, *e.full))
            Ss, vs, K, d = out.values()
            out.update(named("forward", "xu", p.pclqt_forwardpass(B, s, B, xt, Tt, K, d, *e.dyn)))
            out.update(named("fwdbwd", "AbC", p.pclqt_fwdbwdpass(B, s, B, xt, Tt, *e.full)))
            out.update(named("composite 1", "xu", p.pclqt_backwardforwardpass(B, s, B, xt, XT, HT, rT, Tt, *e.full)))
            out.update(named("composite 2", "xu", p.pclqt_backwardbwdfwdpass(B, s, B, xt, XT, HT, rT, Tt, *e.full)))
            return out
        if rec.case("block", dims, B, s):
            four(rec, "continuous LQT", block, modes=modes)
        if rec.case("parareal", dims, B, s):
            four(rec, "parareal", parareal, modes=modes)


def nonlinear(rec, names, Ts):
    import tensorflow as tf
    from parallel_control import nlqt_tf as N
    from mc import c24
    for name, T in itertools.product(names, Ts):
        if not rec.case("nlqt", name, T):
            continue
        M = c24.MODELS[name]
        q = lqt.problem(("C24", name), T, M.n, M.m, M.n, ("r", "H", "tv"), pT=M.n)
        us, xs = c24.nominal((name, T), "inconsistent", M, T)
        f, Fx, Fu = c24.tf_model(name)

        def make(k, dt):
            data = [k(np.array(a)) for a in (q.H, q.HT, q.r, q.rT, q.X, q.XT, q.U)]
            tu, tx = k(np.array(us)), k(np.array(xs))
            out = named("linearize", "FcL", N.nlqt_linearize(tu, tx[:-1], f, Fx, Fu))
            out.update({"simulate": N.nlqt_simulate(tx[0], tu, f), "cost": N.nlqt_cost(tx[0], tu, f, *data)})
            for fn in ("seq", "par_1", "par_2"):
                out.update(named(fn, "ux", getattr(N, "nlqt_iterate_" + fn)(tu, tx, f, Fx, Fu, *data)))
            return out
        four(rec, "nonlinear LQT", make)


def grid(rec, funs, ns, blocks):
    from parallel_control import hjb_grid_1d_tf as H
    for fun, n, b in itertools.product(funs, ns, blocks):
        if not rec.case("grid", fun, n, b):
            continue
        f, L, LT = hjb.FUNS[fun]
        A, B = wit(("32A", n, b), n, n, lo=0, hi=4), wit(("32B", n, b), n, n, lo=0, hi=4)

        def make(k, dt):
            xs, us = k(np.linspace(-1.5, 1.2, n)), k(np.linspace(-1.0, 1.4, 3))
            T = k(0.3)
            out = {nm: getattr(H, nm)(k(A[None]), k(B[None])) for nm in ("combine_V", "combine_V_interp")}
            out["combine_V_rev"], out["combine_V_interp_rev"] = H.combine_V_rev(k(B[None]), k(A[None])), H.combine_V_interp_rev(k(B[None]), k(A[None]))
            for nm in ("symfd", "upwind"):
                out[nm] = getattr(H, "seq_bw_pass_" + nm)(f, L, LT, T, b, 2, xs, us)
            out["seq_assoc"] = H.seq_bw_pass_assoc(LT, b, xs, k(A))
            if b < 3:    # one bracketing only (C22 for the others)
                out["par_assoc"] = H.par_bw_pass(LT, b, xs, k(A))
            return out
        four(rec, "grid HJB", make)


def shooting(rec, names, method, n):
    """Eager only: compiling the solver takes minutes."""
    from parallel_control import hjb_grid_1d_tf as H
    from mc.c23 import lq, LQ, NONLIN
    for name in names:
        if not rec.case("shooting", name, method, n):
            continue
        g, L = lq(name) if name in LQ else NONLIN[name]

        def make(k, dt):
            xg, fg = k((-0.5, 0.4)), k((0.3, -1.0))
            th = k(wit(("32th", n), 4, 2 * n if method == 1 else n + 1))
            x0, xf = k((-0.5, -0.5, 0.4, 0.4)), k((0.3, -1.0, 0.3, -1.0))
            a = (th[..., 0::2], th[..., 1::2]) if method == 1 else (th,)
            c, v = getattr(H, f"fun_and_con_{method}")(g, L, k(0.4), x0, xf, *a)
            out = {"cost": c, "constraint": v}
            out["values"] = (H.V_eval_1, H.V_eval_2)[method - 1](g, L, k(0.4), n, xg, fg, 2)
            return out
        four(rec, "direct shooting", make, modes=MODES[2:], loose=5e-3)


def sqp(rec, names, batch):
    import tensorflow as tf
    from parallel_control import sqp_tf
    from mc.c25 import PROBLEMS, TFO
    o = TFO()
    for name in names:
        n, m, fun, con, starts, p0 = PROBLEMS[name]
        parts = lambda z, j: [z[..., i] for i in range(j)]
        f = lambda x, par: fun(parts(x, n), parts(par, len(p0)), o)
        c = lambda x, par: tf.stack(con(parts(x, n), parts(par, len(p0)), o), axis=-1)
        for i, x0 in enumerate(starts[:3]):
            if not rec.case("sqp", name, batch, i):
                continue

            def make(k, dt):
                X, P, lam = np.array(x0), np.array(p0), wit(("32lam", name), m)
                if batch:
                    X, P, lam = (np.stack([a, a]) for a in (X, P, lam))
                X, P, lam = k(X), k(P), k(lam)
                out = named("value", "vg", sqp_tf.fun_value_grad(f, X, P, batch=batch))
                out.update(named("constraint", "vJ", sqp_tf.con_value_jac(c, X, P, batch=batch)))
                v, g, Hs = sqp_tf.lag_value_grad_hess(f, c, X, lam, P, batch=batch)
                out.update(named("Lagrangian", "vgH", (v, g, Hs)))
                xs, lams, _ = sqp_tf.local_eq_fast(f, c, X, P, 6, batch=batch)
                out.update({"solution": xs[-1], "multipliers": lams[-1]})
                return out
            four(rec, "SQP", make)
    if rec.case("kkt", batch):
        G, A = np.array([[3.0, 1.0], [1.0, 2.0]]), np.array([[1.0, -1.0]])
        rep = (lambda a: np.stack([a, a])) if batch else (lambda a: a)
        four(rec, "KKT", lambda k, dt: named("kkt", "xl", sqp_tf.lqe_solve(*[k(rep(np.array(a))) for a in (G, [1.0, -2.0], A, [0.5])])))


def models(rec):
    import tensorflow as tf
    from parallel_control import (cnonlin_models_tf as C, linear_model_tf as LM, diffeq_tf, nonlinear_model_tf as NM)
    for name in ("linear_model", "velocity_model", "upwind_model"):
        for nx, nu in ((3, 2), (6, 5)):
            if rec.case("model", name, nx, nu):
                def make(k, dt):
                    f, L, LT, T, xs, us = getattr(C, name)(nx, nu, dtype=dt)
                    x, u = k(wit("mx", 2)), k(wit("mu", 2))
                    out = dict(T=T, xs=xs, us=us, f=f(x, u), L=L(x, u), LT=LT(x))
                    if name == "upwind_model":
                        out["block"] = C.upwind_model_block_V(k(1e3), k(0.25), k(np.linspace(-1, 1, nx)))
                    return out
                four(rec, "bundled model", make)
    if rec.case("continuous model"):
        def make(k, dt):
            out = {}
            for i, t in enumerate(LM.get_clqt(dtype=dt)):
                t = t(k(0.3)) if callable(t) else t
                out[f"part {i}"] = t
            return out
        four(rec, "bundled continuous model", make)
    for lead in (1, 3):
        if rec.case("vehicle", lead):
            four(rec, "vehicle", lambda k, dt: {f.__name__: f(k(wit("vx", lead, 4)), k(wit("vu", lead, 2)))
                                                for f in (NM.nonlinear_model_f, NM.nonlinear_model_Fx, NM.nonlinear_model_Fu)})
    for shape in ((), (2,), (2, 3)):
        if rec.case("rk4", shape):
            four(rec, "rk4", lambda k, dt: {"step": diffeq_tf.rk4(lambda x, t, p: -x * t + p, k(0.1), k(wit(("rk", shape), *shape)), k(0.5), k(0.2)),
                                            "defaults": diffeq_tf.rk4(lambda x, t, p: tf.sin(x) + t + p, k(0.1), k(wit(("rk", shape), *shape)))})


def jobs(tier):
    deep = tier == "thorough"
    out = []
    out += [(6, "finite_state", dict(Ts=[T], dims=[(3, 2), (2, 3), (1, 1)])) for T in range(1, 7 if not deep else 18)]
    out += [(9, "viterbi", dict(Ts=[T], dims=[(3, 2), (2, 2)])) for T in range(1, 7 if not deep else 18)]
    for dims in ((2, 1, 1), (2, 2, 2)) + (((3, 2, 2),) if deep else ()):
        for T in range(1, 5 if not deep else 10):
            out.append((20 + T, "tracking", dict(dims=dims, Ts=[T], Ncs=[2 + T % 2] if not deep else [1, 2, 3, 4, 5],
                                                 feats=[("c", "r", "H", "tv"), ()])))
    for dims, splits in (((2, 1, 1), (((1, 2), True), ((3, 2), False))), ((3, 2, 2), (((2, 2), False),))):
        for (B, s), eager in splits if not deep else [(x, True) for x in itertools.product(range(1, 6), range(1, 4))]:
            out.append((60, "continuous", dict(dims=dims, splits=[(B, s)], eager=eager)))
    for name in ("sine", "cubic", "vehicle") + (("bilinear", "saturated", "exp") if deep else ()):
        out += [(25, "nonlinear", dict(names=[name], Ts=[T])) for T in ((1, 2, 3) if not deep else range(1, 7))]
    for fun in hjb.FUNS:
        out.append((20, "grid", dict(funs=[fun], ns=(2, 3, 4), blocks=(1, 2, 3) if not deep else (1, 2, 3, 4, 5))))
    from mc.c23 import LQ, NONLIN
    for method in (1, 2):
        for n in (1,) if not deep else (1, 2, 3):
            out += [(40, "shooting", dict(names=[nm], method=method, n=n)) for nm in (list(LQ)[0], list(NONLIN)[0])]
    for batch in (False, True):
        out += [(20, "sqp", dict(names=[nm], batch=batch)) for nm in ("circle", "parabola", "exponential", "two constraints")]
    out.append((6, "models", {}))
    return out
