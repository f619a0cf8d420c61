"""C17: continuous-time tracking (TensorFlow)."""
import functools
import numpy as np
from mc.core import wit, psd, spd
from mc.ct import CT, held
from mc.c15 import C4
from mc.c16 import zoh_blocks

BOUNDS = ("five splits up to 5 blocks and 3 steps (all of 1..9 x 1..4, with each of the feature sets none, all, "
          "time-varying, thorough) with dimensions 2/1/1; every combination of offset, reference, output matrix and time-varying data "
          "and dimensions 1/1/1, 3/2/2, 2/2/3 on the splits 3x2, 1x2, 2x1 (quick: four of them on 3x2); start "
          "times 0 and 0.7; both integration directions; limits exactly the number of blocks or the default (both thorough); batches "
          "of 1 and 3 start times, terminal conditions, initial states and laws; supplied terminal values and initial "
          "parameters; optimal and arbitrary laws; both hold modes; single precision on one split; step 0.05, time in two units (six thorough); the composed passes and error reports of "
          "the experiment module on 3x2 and 2x3 (1..6 x 1..3 thorough)")
ASSUMPTIONS = ["discretisation error at most 40 dt^4 times the size of the solution (largest observed 8 dt^4)",
               "tfp.math.scan_associative, tf.scan and tf.vectorized_map behave as documented",
               "with u_zoh the block-parallel pass may propagate block starts with either hold",
               "agreement with NumPy to 1e-9 (double), 2e-3 (single) relative"]

DT = 0.05
NAMES = ("F", "L", "X", "U", "c", "H", "r")


def npy(t):
    return np.asarray(t.numpy(), dtype=float)


class Env:
    """The problem in TensorFlow and in NumPy."""

    def __init__(self, q, dtype="float64", tau=1.0):
        import tensorflow as tf
        self.tf, self.q = tf, q
        self.dt = getattr(tf, dtype)
        self.step = DT * tau
        self.single = dtype != "float64"
        cast = lambda fn: (lambda t: tf.cast(fn(tf.cast(t, tf.float64), tf.sin), self.dt))
        fn = {a: cast(getattr(q, "_" + a)) for a in NAMES}
        self.full = [fn[a] for a in NAMES]
        self.dyn = [fn[a] for a in ("F", "L", "c")]

    def t(self, x):
        return self.tf.constant(np.asarray(x, dtype=float), dtype=self.dt)

    def near(self, rec, what, got, want):
        rec.close(what, npy(got), np.array(want, float), C4 * DT ** 4 + (2e-3 if self.single else 1e-10))

    def same(self, rec, what, got, want):
        rec.close(what, npy(got), np.array(want, float), 2e-3 if self.single else 1e-9)

    def law(self, rec, what, got, tr, npres):
        S, v, K, d = got
        Kn, dn, Sn, vn = npres
        for nm, g, w, r in (("S", S, tr.S, Sn), ("v", v, tr.v, vn), ("gains", K, tr.K, Kn), ("offsets", d, tr.d, dn)):
            self.near(rec, f"{what}: {nm}", g, w)
            self.same(rec, f"{what}: {nm}, NumPy", g, r)

    def path(self, rec, what, got, us, xs, npres=None, law=None):
        x, u = got
        self.near(rec, what + ": states", x, xs)
        self.near(rec, what + ": controls", u, us)
        if npres is not None:
            self.same(rec, what + ": states, NumPy", x, npres[1])
            self.same(rec, what + ": controls, NumPy", u, npres[0])
        if law is not None:
            K, d = np.array(law[0]), np.array(law[1])
            x = npy(x)
            self.same(rec, what + ": controls follow the law", u, -np.einsum("kij,kj->ki", K, x[:-1]) + d)


def split(rec, e, t0, B, s, limits=(None,)):
    from parallel_control import clqt_tf
    q, N, n, m = e.q, B * s, e.q.n, e.q.m
    lq = q.clqt(N * e.step)
    tr = q.truth(t0, e.step, N)
    XT, HT, rT, T = e.t(q.XT), e.t(q.HT), e.t(q.rT), e.t(N * e.step)
    ddt, dt0, ST, vT = rec.call(clqt_tf.clqt_seq_backwardpass_defaults, N, XT, HT, rT, T)
    pd = rec.call(clqt_tf.par_backwardpass_defaults, B, s, XT, HT, rT, T)
    for g, w in zip(pd, (e.step, 0.0, q.ST, q.vT)):
        e.same(rec, "par_backwardpass_defaults", g, w)
    for g, w in zip((ddt, dt0, ST, vT), (e.step, 0.0, q.ST, q.vT)):
        e.same(rec, "clqt_seq_backwardpass_defaults", g, w)
    tt = e.t(t0)
    npb = lq.seqBackwardPass(N, e.step, t0)
    seq = rec.call(clqt_tf.clqt_seq_backwardpass, N, ddt, tt, ST, vT, *e.full)
    e.law(rec, "clqt_seq_backwardpass", seq, tr, npb)
    Ss, vs, Kxs, ds = seq
    x0 = wit(("x0", n), n, lo=-2, hi=2)
    xt = e.t(x0)
    us, xs = tr.path(x0)
    aK, ad = [wit(("K", k), m, n) for k in range(N)], [wit(("d", k), m) for k in range(N)]
    laws = [("optimal law", tr.K, tr.d), ("arbitrary law", aK, ad)]
    for nm, K, d in laws:
        Kt, dtn = e.t(K), e.t(d)
        for z in (False, True):
            e.path(rec, f"{nm}, clqt_seq_forwardpass(u_zoh={z})",
                   rec.call(clqt_tf.clqt_seq_forwardpass, xt, Kt, dtn, ddt, tt, *e.dyn, u_zoh=z),
                   *held(q, x0, K, d, t0, e.step, z), lq.seqForwardPass(x0, K, d, e.step, t0, u_zoh=z), (K, d))
    a = rec.call(clqt_tf.clqt_seq_fwdbwdpass_defaults, xt, N, T)
    for g, w in zip(a, (e.step, 0.0, np.zeros((n, n)), x0, np.zeros((n, n)))):
        e.same(rec, "clqt_seq_fwdbwdpass_defaults", g, w)
    A, b, C = rec.call(clqt_tf.clqt_seq_fwdbwdpass, N, ddt, tt, *a[2:], *e.full)
    for nm, g, w in zip("AbC", (A, b, C), zip(*tr.cond(np.zeros((n, n)), x0, np.zeros((n, n))))):
        e.near(rec, "clqt_seq_fwdbwdpass: " + nm, g, w)
    tS, tv, tK, td = e.t(tr.S), e.t(tr.v), e.t(tr.K), e.t(tr.d)
    e.path(rec, "clqt_combine_fwdbwd", rec.call(clqt_tf.clqt_combine_fwdbwd, tK, td, tS, tv, A, b, C), us, xs,
           lq.combineForwardBackward(tr.K, tr.d, tr.S, tr.v, *lq.seqFwdBwdPass(x0, N, e.step, t0)), (tr.K, tr.d))
    pdt, pt0 = rec.call(clqt_tf.clqt_par_fwdbwdpass_defaults, B, s, T)
    e.same(rec, "clqt_par_fwdbwdpass_defaults", pdt, e.step)
    e.same(rec, "clqt_par_fwdbwdpass_defaults", pt0, 0.0)
    for lim in limits:
        kw = {} if lim is None else {"max_parallel": lim}
        for fw in (False, True):
            w = f"(forward={fw}, limit={lim})"
            e.law(rec, "clqt_par_backwardpass" + w,
                  rec.call(clqt_tf.clqt_par_backwardpass, B, s, ddt, tt, ST, vT, *e.full, forward=fw, **kw),
                  tr, lq.parBackwardPass(B, s, e.step, t0, forward=fw))
            for nm, K, d in laws if fw else laws[1:]:
                Kt, dtn = e.t(K), e.t(d)
                e.path(rec, f"{nm}, clqt_par_forwardpass" + w,
                       rec.call(clqt_tf.clqt_par_forwardpass, B, s, xt, Kt, dtn, ddt, tt, *e.dyn, forward=fw, **kw),
                       *held(q, x0, K, d, t0, e.step, False), lq.parForwardPass(x0, K, d, B, s, e.step, t0, forward=fw), (K, d))
            if lim is None or (fw and not e.single):
                x, u = rec.call(clqt_tf.clqt_par_forwardpass, B, s, xt, Kt, dtn, ddt, tt, *e.dyn, forward=fw, u_zoh=True, **kw)
                zoh_blocks(rec, "clqt_par_forwardpass u_zoh" + w, (npy(u), npy(x)), q, x0, aK, ad, t0, e.step, s, e.step / DT)
            e.path(rec, "clqt_par_fwdbwdpass" + w,
                   rec.call(clqt_tf.clqt_par_fwdbwdpass, B, s, xt, tS, tv, tK, td, ddt, tt, *e.full, forward=fw, **kw),
                   us, xs, lq.parFwdBwdPass(x0, tr.K, tr.d, tr.S, tr.v, B, s, e.step, t0, forward=fw), (tr.K, tr.d))
    rec.ok(xs[-1])


def splits(rec, dims, feats, blocks, steps, t0, limits, dtype="float64", tau=1.0):
    q = CT("C17", *dims, feats).retime(tau)
    e = Env(q, dtype, tau)
    for B in blocks:
        for s in steps:
            if rec.case(dims, feats, B, s, t0, dtype, tau):
                split(rec, e, t0 * tau, B, s, [B if l == "blocks" else l for l in limits])


def batch(rec, dims, feats, N, sizes):
    """Batches of start times: element i is the problem that starts at t0s[i] with its own data."""
    from parallel_control import clqt_tf
    q = CT("C17b", *dims, feats)
    e = Env(q)
    n, m = q.n, q.m
    ddt = e.t(DT)
    for nb in sizes:
        if not rec.case(dims, feats, N, nb):
            continue
        t0s = [0.3 * i for i in range(nb)]
        S1 = [0.3 * spd(("S1", i), n) for i in range(nb)]
        v1 = [wit(("v1", i), n) for i in range(nb)]
        trs = [q.truth(t, DT, N, S, v) for t, S, v in zip(t0s, S1, v1)]
        lq = q.clqt(1.0)
        out = rec.call(clqt_tf.clqt_seq_backwardpass, N, ddt, e.t(t0s), e.t(S1), e.t(v1), *e.full)
        for i in range(nb):
            e.law(rec, f"batch element {i}, clqt_seq_backwardpass", [g[i] for g in out], trs[i],
                  lq.seqBackwardPass(N, DT, t0s[i], S1[i], v1[i]))
        x0 = [wit(("x0", i), n, lo=-2, hi=2) for i in range(nb)]
        K = [[wit(("K", k, i), m, n) for k in range(N)] for i in range(nb)]
        d = [[wit(("d", k, i), m) for k in range(N)] for i in range(nb)]
        for z in (False, True):
            x, u = rec.call(clqt_tf.clqt_seq_forwardpass, e.t(x0), e.t(K), e.t(d), ddt, e.t(t0s), *e.dyn, u_zoh=z)
            for i in range(nb):
                e.path(rec, f"batch element {i}, clqt_seq_forwardpass(u_zoh={z})", (x[i], u[i]),
                       *held(q, x0[i], K[i], d[i], t0s[i], DT, z), lq.seqForwardPass(x0[i], K[i], d[i], DT, t0s[i], z))
        A0 = [wit(("A0", i), n, n) for i in range(nb)]
        b0 = [wit(("b0", i), n) for i in range(nb)]
        C0 = [0.3 * psd(("C0", i), n, n) for i in range(nb)]
        out = rec.call(clqt_tf.clqt_seq_fwdbwdpass, N, ddt, e.t(t0s), e.t(A0), e.t(b0), e.t(C0), *e.full)
        for i in range(nb):
            for nm, g, w in zip("AbC", out, zip(*trs[i].cond(A0[i], b0[i], C0[i]))):
                e.near(rec, f"batch element {i}, clqt_seq_fwdbwdpass: " + nm, g[i], w)
        # the combination broadcasts over batches
        Z, z = np.zeros((nb, n, n)), e.t(x0)
        A, b, C = rec.call(clqt_tf.clqt_seq_fwdbwdpass, N, ddt, e.t(t0s), e.t(Z), z, e.t(Z), *e.full)
        x, u = rec.call(clqt_tf.clqt_combine_fwdbwd, e.t([t.K for t in trs]), e.t([t.d for t in trs]),
                        e.t([t.S for t in trs]), e.t([t.v for t in trs]), A, b, C)
        for i in range(nb):
            e.path(rec, f"batch element {i}, clqt_combine_fwdbwd", (x[i], u[i]), *trs[i].path(x0[i]), None,
                   (trs[i].K, trs[i].d))
        rec.ok(trs[-1].S[0])


def experiments(rec, dims, feats, pairs):
    """The composed passes of the experiment module, their reference solutions and reported errors."""
    from parallel_control import contlin_speedtest as sp
    q = CT("C17e", *dims, feats)
    e = Env(q)
    n = q.n
    x0 = wit(("x0", n), n, lo=-2, hi=2)
    for B, s in pairs:
        if not rec.case("experiments", dims, feats, B, s):
            continue
        N = B * s
        model = (e.t(x0), e.t(q.XT), e.t(q.HT), e.t(q.rT), e.t(N * DT), *e.full)
        lq = q.clqt(N * DT)
        sb = lq.seqBackwardPass(N)
        direct = lq.seqForwardPass(x0, sb[0], sb[1])
        comb = lq.combineForwardBackward(*sb, *lq.seqFwdBwdPass(x0, N))
        pb = lq.parBackwardPass(B, s)
        pdirect, pcomb = lq.parForwardPass(x0, pb[0], pb[1], B, s), lq.parFwdBwdPass(x0, *pb, B, s)
        tr = q.truth(0.0, DT, N)
        opt = tr.path(x0)
        for name, law, path in (("clqt_ref_sol_1", sb, direct), ("clqt_ref_sol_2", sb, comb), ("clqt_seq_bw", sb, None),
                                ("clqt_seq_bw_fw", sb, direct), ("clqt_par_bw", pb, None), ("clqt_par_bw_fw", pb, pdirect),
                                ("clqt_par_bw_fwbw", pb, pcomb)):
            out = rec.call(getattr(sp, name), B, s, *model)
            rec.true(f"{name}: number of results", len(out) == (4 if path is None else 6), got=len(out))
            e.law(rec, name, out[:4], tr, law)
            if path is not None:
                e.same(rec, f"{name}: states", out[4], path[1])
                e.same(rec, f"{name}: controls", out[5], path[0])
                if path is comb or path is pcomb:
                    e.path(rec, name, out[4:], *opt)
        gap = lambda a, b: max(float(np.max(np.abs(np.asarray(x) - np.asarray(y)))) for x, y in zip(a, b))
        for name, want in (("clqt_seq_bw", 0.0), ("clqt_seq_bw_fw", 0.0), ("clqt_par_bw", gap(pb[2], sb[2])),
                           ("clqt_par_bw_fw", gap(pdirect[1], direct[1])), ("clqt_par_bw_fwbw", gap(pcomb[1], comb[1]))):
            el, err = rec.call(getattr(sp, name + "_speedtest"), model, B, s, n_iter=1)
            rec.true(f"{name}_speedtest: elapsed time", float(el) >= 0.0)
            rec.close(f"{name}_speedtest: error against the reference solution", float(err), want, 1e-8)
        rec.ok(opt[1][-1])


def jobs(tier):
    from mc.c15 import FEATS
    out = []
    th = tier == "thorough"
    ALL = FEATS[-1]
    if th:
        for feats in ((), ALL, ("tv",)):
            for B in range(1, 10):
                for st in range(1, 5):
                    out.append((B + 3, "splits", {"dims": (2, 1, 1), "feats": feats, "blocks": [B], "steps": [st],
                                                  "t0": 0.7 if feats else 0.0, "limits": ["blocks", None]}))
    else:
        for B, st, feats, lim in ((1, 3, ALL, None), (2, 1, ALL, "blocks"), (3, 2, (), "blocks"), (4, 1, ("tv",), "blocks"),
                                  (5, 2, ALL, "blocks")):
            out.append((B + 3, "splits", {"dims": (2, 1, 1), "feats": feats, "blocks": [B], "steps": [st],
                                          "t0": 0.7 if feats else 0.0, "limits": [lim]}))
    for i, dims in enumerate(((1, 1, 1), (3, 2, 2), (2, 2, 3))):
        for j, feats in enumerate(FEATS):
            if "H" not in feats and dims == (2, 2, 3):
                continue
            if not th and (j % 3 != i or j not in (5, 7, 10, 15)):
                continue
            for B, s in ((3, 2),) + (((1, 2), (2, 1)) if th else ()):
                out.append((3, "splits", {"dims": dims, "feats": feats, "blocks": [B], "steps": [s],
                                          "t0": 0.0 if j % 2 else 0.7, "limits": ["blocks"]}))
    if th:
        from mc.ct import partial
        for feats in partial():
            out.append((4, "splits", {"dims": (2, 1, 1), "feats": feats, "blocks": [2], "steps": [2], "t0": 0.7,
                                      "limits": ["blocks"]}))
    for pairs in ([(3, 2)], [(2, 3)]) if not th else ([(b, s)] for b in range(1, 7) for s in range(1, 4)):
        out.append((6, "experiments", {"dims": (2, 1, 1), "feats": ALL if pairs[0][0] % 2 else ("c", "r"), "pairs": pairs}))
    out.append((4, "splits", {"dims": (2, 1, 1), "feats": ALL, "blocks": [3], "steps": [2], "t0": 0.7,
                              "limits": ["blocks"], "dtype": "float32"}))
    for tau in (2.0 ** -20,) if not th else (2.0 ** -40, 2.0 ** -20, 2.0 ** -10, 2.0 ** 10, 2.0 ** 20):
        out.append((4, "splits", {"dims": (2, 1, 1), "feats": ALL, "blocks": [2], "steps": [2], "t0": 0.7,
                                  "limits": ["blocks"], "tau": tau}))
    for N in (1, 4) if not th else range(1, 9):
        out.append((5, "batch", {"dims": (2, 1, 1), "feats": ALL, "N": N, "sizes": [1, 3]}))
    if th:
        out.append((5, "batch", {"dims": (3, 2, 2), "feats": ALL, "N": 4, "sizes": [1, 2, 3, 4]}))
    return out
