"""C19: parareal (TensorFlow)."""
import itertools
import numpy as np
from mc.core import wit
from mc.ct import CT, FEATURES
from mc.c17 import Env, npy
from mc.c18 import head, tail, variant

BOUNDS = ("blocks and steps 1x2, 2x1, 3x2, 4x1, 5x3 (all of 1..8 x 1..4 thorough), every iteration count 1..blocks+2, feature "
          "sets all (and none, time-varying; dimensions 2/1/1, 3/2/2), horizons 1 and 3, both hold modes, optimal and "
          "arbitrary laws; the parts after every iteration, the composed passes (iteration counts given as numbers and as "
          "tensors), the two composites of passes; the experiment module with 1 and 3 iterations on 3x2; a stationary terminal cost")
ASSUMPTIONS = ["the sequential pass on the fine grid (NumPy, C15/C16) is the reference",
               "tf.scan and tf.vectorized_map behave as documented", "rounding up to 1e-7 relative"]
TOL = 1e-7


def run(rec, dims, feats, T, B, s, ints=(), form=None):
    from parallel_control import parareal_clqt_tf as pt
    q = variant(CT("C18", *dims, feats), form)
    T = T * (form or 1.0) if form != "stationary" else T
    n, m = q.n, q.m
    e = Env(q)
    tf = e.tf
    N = B * s
    lq = q.clqt(T)
    sb = lq.seqBackwardPass(N)
    XT, HT, rT, Tt = e.t(q.XT), e.t(q.HT), e.t(q.rT), e.t(T)
    x0 = wit(("x0", n), n, lo=-2, hi=2)
    xt = e.t(x0)
    laws = [("optimal", sb[0], sb[1]),
            ("arbitrary", [wit(("K", k), m, n) for k in range(N)], [wit(("d", k), m) for k in range(N)])]
    exact = lambda it: B if s == 1 else min(it, B)
    ref = lq.seqFwdBwdPass(x0, N)

    if rec.case(dims, feats, T, B, s, form, "iterates"):
        S, v = rec.call(pt.pclqt_init_backwardpass, B, XT, HT, rT, Tt, *e.full)
        SG, vG = S, v
        for it in range(B + 2):
            ex = exact(it)
            rec.close(f"S at block boundaries after {it} iterations", npy(S)[B - ex:], np.array(sb[2][::s][B - ex:]), TOL)
            rec.close(f"v at block boundaries after {it} iterations", npy(v)[B - ex:], np.array(sb[3][::s][B - ex:]), TOL)
            fS, fv, fK, fd = rec.call(pt.pclqt_final_backwardpass, s, Tt, S, v, *e.full)
            for nm, g, w, ln in zip(("gains", "offsets", "S", "v"), (fK, fd, fS, fv), sb, (N, N, N + 1, N + 1)):
                tail(rec, f"final pass after {it} iterations: {nm}", npy(g), w, min(B, ex + 1), B, s, ln)
            SF, vF = rec.call(pt.pclqt_dense_backwardpass, s, Tt, S, v, *e.full)
            S, v, SG, vG = rec.call(pt.pclqt_coarse_backwardpass, Tt, SF, vF, SG, vG, *e.full)
        for nm, K, d in laws:
            Kt, dt = e.t(K), e.t(d)
            for z in (False, True):
                u, x = lq.seqForwardPass(x0, K, d, u_zoh=z)
                xc = rec.call(pt.pclqt_init_forwardpass, B, s, xt, Tt, Kt, dt, *e.dyn, u_zoh=z)
                xG = xc
                for it in range(B + 1):
                    ex = exact(it)
                    rec.close(f"{nm}: states at block boundaries after {it} iterations (u_zoh={z})",
                              npy(xc)[:ex + 1], np.array(x[::s][:ex + 1]), TOL)
                    fx, fu = rec.call(pt.pclqt_final_forwardpass, s, Tt, xc, Kt, dt, *e.dyn, u_zoh=z)
                    head(rec, f"{nm}: final states after {it} iterations (u_zoh={z})", npy(fx), x, min(B, ex + 1), B, s, N + 1)
                    head(rec, f"{nm}: final controls after {it} iterations (u_zoh={z})", npy(fu), u, min(B, ex + 1), B, s, N)
                    xF = rec.call(pt.pclqt_dense_forwardpass, s, Tt, xc, Kt, dt, *e.dyn, u_zoh=z)
                    xc, xG = rec.call(pt.pclqt_coarse_forwardpass, s, Tt, xF, xG, Kt, dt, *e.dyn, u_zoh=z)
        c = rec.call(pt.pclqt_init_fwdbwdpass, B, xt, Tt, *e.full)
        G = c
        for it in range(B + 1):
            ex = exact(it)
            for nm, g, w in zip("AbC", c, ref):
                rec.close(f"{nm} at block boundaries after {it} iterations", npy(g)[:ex + 1], np.array(w[::s][:ex + 1]), TOL)
            f = rec.call(pt.pclqt_final_fwdbwdpass, s, Tt, *c, *e.full)
            for nm, g, w in zip("AbC", f, ref):
                head(rec, f"final {nm} after {it} iterations", npy(g), w, min(B, ex + 1), B, s, N + 1)
            F = rec.call(pt.pclqt_dense_fwdbwdpass, s, Tt, *c, *e.full)
            out = rec.call(pt.pclqt_coarse_fwdbwdpass, Tt, *F, *G, *e.full)
            c, G = out[:3], out[3:]
        rec.ok(npy(S)[0])

    for it in list(range(1, B + 3)) + [("int", i) for i in ints]:
        if not rec.case(dims, feats, T, B, s, form, it):
            continue
        if isinstance(it, tuple):
            it = k = it[1]
        else:
            k = tf.constant(it)
        done = B if s == 1 else min(B, it + 1)
        fS, fv, fK, fd = rec.call(pt.pclqt_backwardpass, B, s, k, XT, HT, rT, Tt, *e.full)
        for nm, g, w, ln in zip(("gains", "offsets", "S", "v"), (fK, fd, fS, fv), sb, (N, N, N + 1, N + 1)):
            tail(rec, f"pclqt_backwardpass: {nm}", npy(g), w, done, B, s, ln)
        for nm, K, d in laws:
            u, x = lq.seqForwardPass(x0, K, d)
            px, pu = rec.call(pt.pclqt_forwardpass, B, s, k, xt, Tt, e.t(K), e.t(d), *e.dyn)
            head(rec, f"{nm}: pclqt_forwardpass states", npy(px), x, done, B, s, N + 1)
            head(rec, f"{nm}: pclqt_forwardpass controls", npy(pu), u, done, B, s, N)
        # zero-order hold: the law of the last loop
        u, x = lq.seqForwardPass(x0, K, d, u_zoh=True)
        px, pu = rec.call(pt.pclqt_forwardpass, B, s, k, xt, Tt, e.t(K), e.t(d), *e.dyn, u_zoh=True)
        head(rec, "pclqt_forwardpass states (u_zoh)", npy(px), x, done, B, s, N + 1)
        head(rec, "pclqt_forwardpass controls (u_zoh)", npy(pu), u, done, B, s, N)
        f = rec.call(pt.pclqt_fwdbwdpass, B, s, k, xt, Tt, *e.full)
        for nm, g, w in zip("AbC", f, ref):
            head(rec, "pclqt_fwdbwdpass: " + nm, npy(g), w, done, B, s, N + 1)
        # composites equal their parts at any iteration count, and the sequential solution at the end
        px, pu = rec.call(pt.pclqt_forwardpass, B, s, k, xt, Tt, fK, fd, *e.dyn)
        cx, cu = rec.call(pt.pclqt_backwardforwardpass, B, s, k, xt, XT, HT, rT, Tt, *e.full)
        rec.close("pclqt_backwardforwardpass states equal the parts", npy(cx), npy(px), TOL)
        rec.close("pclqt_backwardforwardpass controls equal the parts", npy(cu), npy(pu), TOL)
        from parallel_control import clqt_tf
        px, pu = rec.call(clqt_tf.clqt_combine_fwdbwd, fK, fd, fS, fv, *f)
        bx, bu = rec.call(pt.pclqt_backwardbwdfwdpass, B, s, k, xt, XT, HT, rT, Tt, *e.full)
        rec.close("pclqt_backwardbwdfwdpass states equal the parts", npy(bx), npy(px), TOL)
        rec.close("pclqt_backwardbwdfwdpass controls equal the parts", npy(bu), npy(pu), TOL)
        if done == B:
            u, x = lq.seqForwardPass(x0, sb[0], sb[1])
            rec.close("pclqt_backwardforwardpass states", npy(cx), np.array(x), TOL)
            rec.close("pclqt_backwardforwardpass controls", npy(cu), np.array(u), TOL)
            u, x = lq.combineForwardBackward(*sb, *ref)
            rec.close("pclqt_backwardbwdfwdpass states", npy(bx), np.array(x), TOL)
            rec.close("pclqt_backwardbwdfwdpass controls", npy(bu), np.array(u), TOL)
        rec.ok(npy(fS)[0])


def experiments(rec, dims, feats, T, B, s, its):
    """The composed parareal passes of the experiment module and their reported errors."""
    from parallel_control import contlin_speedtest as sp, parareal_clqt_tf as pt
    q = CT("C19e", *dims, feats)
    n = q.n
    e = Env(q)
    N = B * s
    lq = q.clqt(T)
    sb = lq.seqBackwardPass(N)
    x0 = wit(("x0", n), n, lo=-2, hi=2)
    XT, HT, rT, Tt = e.t(q.XT), e.t(q.HT), e.t(q.rT), e.t(T)
    model = (e.t(x0), XT, HT, rT, Tt, *e.full)
    direct = lq.seqForwardPass(x0, sb[0], sb[1])
    comb = lq.combineForwardBackward(*sb, *lq.seqFwdBwdPass(x0, N))
    gap = lambda a, b: float(np.max(np.abs(npy(a) - np.array(b))))
    for it in its:
        if not rec.case("experiments", dims, feats, T, B, s, it):
            continue
        bw = rec.call(sp.clqt_parareal_bw, B, s, it, *model)
        fw = rec.call(sp.clqt_parareal_bw_fw, B, s, it, *model)
        fb = rec.call(sp.clqt_parareal_bw_fwbw, B, s, it, *model)
        rec.true("number of results", (len(bw), len(fw), len(fb)) == (4, 6, 6))
        done = B if s == 1 else min(B, it + 1)
        for name, out in (("clqt_parareal_bw", bw), ("clqt_parareal_bw_fw", fw), ("clqt_parareal_bw_fwbw", fb)):
            for nm, g, w, ln in zip(("S", "v", "gains", "offsets"), out, (sb[2], sb[3], sb[0], sb[1]), (N + 1, N + 1, N, N)):
                tail(rec, f"{name}: {nm}", npy(g), w, done, B, s, ln)
            for g, w in zip(out[:4], bw):
                rec.close(f"{name}: same backward pass", npy(g), npy(w), TOL)
        px, pu = rec.call(pt.pclqt_forwardpass, B, s, it, e.t(x0), Tt, fw[2], fw[3], *e.dyn)
        rec.close("clqt_parareal_bw_fw: states equal the parts", npy(fw[4]), npy(px), TOL)
        rec.close("clqt_parareal_bw_fw: controls equal the parts", npy(fw[5]), npy(pu), TOL)
        bx, bu = rec.call(pt.pclqt_backwardbwdfwdpass, B, s, it, e.t(x0), XT, HT, rT, Tt, *e.full)
        rec.close("clqt_parareal_bw_fwbw: states equal the parts", npy(fb[4]), npy(bx), TOL)
        rec.close("clqt_parareal_bw_fwbw: controls equal the parts", npy(fb[5]), npy(bu), TOL)
        if done == B:
            for nm, out, (us, xs) in (("bw_fw", fw, direct), ("bw_fwbw", fb, comb)):
                rec.close(f"clqt_parareal_{nm}: states", npy(out[4]), np.array(xs), TOL)
                rec.close(f"clqt_parareal_{nm}: controls", npy(out[5]), np.array(us), TOL)
        for name, want in (("clqt_parareal_bw", gap(bw[0], sb[2])), ("clqt_parareal_bw_fw", gap(fw[4], direct[1])),
                           ("clqt_parareal_bw_fwbw", gap(fb[4], comb[1]))):
            el, err = rec.call(getattr(sp, name + "_speedtest"), model, B, s, parareal_niter=it, n_iter=1)
            rec.true(f"{name}_speedtest: elapsed time", float(el) >= 0.0)
            rec.close(f"{name}_speedtest: error against the reference solution", float(err), want, 1e-7)
        rec.ok(npy(fw[4])[-1])


def jobs(tier):
    out = []
    for it in (1, 3) if tier != "thorough" else (1, 2, 3, 4):
        out.append((6, "experiments", {"dims": (2, 1, 1), "feats": FEATURES, "T": 2.0, "B": 3, "s": 2, "its": [it]}))
    allf = [tuple(f for f, b in zip(FEATURES, bits) if b) for bits in itertools.product((0, 1), repeat=4)]
    ALL = allf[-1]
    if tier != "thorough":
        for B, s, dims, feats, T, ints in ((1, 2, (2, 1, 1), ALL, 1.0, ()), (2, 1, (2, 1, 1), ALL, 3.0, ()),
                                           (3, 2, (2, 1, 1), ALL, 1.0, ()), (4, 1, (3, 2, 2), ("tv",), 1.0, ()),
                                           (3, 3, (3, 2, 2), ALL, 3.0, (3,)), (5, 3, (2, 1, 1), ALL, 3.0, ()),
                                           (2, 2, (1, 1, 1), (), 1.0, ())):
            out.append((B, "run", {"dims": dims, "feats": feats, "T": T, "B": B, "s": s, "ints": list(ints)}))
        out.append((3, "run", {"dims": (2, 1, 1), "feats": ("c", "r", "H", "tv:r", "tv:c"), "T": 3.0, "B": 3, "s": 2,
                               "form": "stationary"}))
        return out
    for B in range(1, 9):
        for s in range(1, 5):
            for j, (dims, feats, T) in enumerate((((2, 1, 1), ALL, 1.0), ((2, 1, 1), ALL, 3.0), ((3, 2, 2), ("tv",), 1.0))):
                out.append((B, "run", {"dims": dims, "feats": feats, "T": T, "B": B, "s": s, "ints": [1, B] if j == 0 else []}))
    for form in ("stationary", 2.0 ** -20, 2.0 ** 10):
        out.append((3, "run", {"dims": (2, 1, 1), "feats": ("c", "r", "H", "tv:r", "tv:c"), "T": 3.0, "B": 3, "s": 2,
                               "form": form}))
    for feats in allf:
        out.append((3, "run", {"dims": (2, 2, 3) if "H" in feats else (2, 2, 2), "feats": feats, "T": 1.0, "B": 3, "s": 2}))
    return out
