"""C22: HJB grid solver, TensorFlow, and the wrappers of its speed test."""
import itertools
import numpy as np
from mc.core import wit, digits
from mc import hjb

BOUNDS = ("Combination: every pair (row of the first, column of the second cost) over grids of 2..5 points with values "
          "from alphabets of 4/3/2/2 levels at five scalings (1e-12 to 1e20), in batches of 1 and of many, plain, argmin, "
          "interpolated and reversed forms, each entry against the exact minimum and the parabola formula (any minimiser "
          "on ties); generic costs up to 9 points. Passes: two-point cost matrices over {0,1,2} and terminal costs over "
          "{0,1} for 1..5 blocks (1..8 thorough) against brute-force shortest paths; additive and two-state "
          "families for 2..5 grid points, blocks 1..9 x parallelism limits {blocks,10000}; generic costs for 1..4 "
          "blocks with the parallel pass in the set of all bracketings. Finite differences: 6 problems x 2..5 state "
          "points x 1..3 controls x 1..4 blocks x 1..4 steps, both schemes; the passes also with the costs in units of 1e-12 and more. Speed-test wrappers: 1..4 blocks around a stand-in for the shooting solver, results and "
          "reported errors recomputed")
ASSUMPTIONS = ["finite costs between 1e-12 and 1e20 (or zero), the module's own infinity", "uniform grids of at least two points",
               "rounding up to 1e-9 relative",
               "parallelism limits that admit the scan (at least the number of blocks)"]

TINY = 2.0 ** -40
SCALES = ((1.0, 0.0), (0.1, -0.3), (1e6, 1e3), (1e20, 0.0), (TINY, 0.0))


def _tf():
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_tf as H
    return tf, H, lambda a: tf.constant(np.asarray(a, dtype=float), dtype=tf.float64)


def check_batch(rec, As, Bs, unit=1.0):
    tf, H, c = _tf()
    A, B = c(As), c(Bs)
    n = As.shape[1]
    S = As[:, :, :, None] + Bs[:, None, :, :]
    want = S.min(axis=2)
    tol = dict(tol=1e-9, scale=max(unit, float(np.max(np.abs(want)))))
    rec.close("combine_V", rec.call(H.combine_V, A, B).numpy(), want, **tol)
    rec.close("combine_V_rev", rec.call(H.combine_V_rev, B, A).numpy(), want, **tol)
    rec.close("combine_V2", np.asarray(rec.call(H.combine_V2, A, B)).reshape(want.shape), want, **tol)
    # parabola formula at every minimiser
    F = np.moveaxis(S, 2, -1)
    idx = np.arange(n)
    m = F[..., np.abs(idx - 1)]
    p = F[..., n - 1 - np.abs(n - 2 - idx)]
    den = p + m - 2 * F
    R = F - np.where(den == 0, 0.0, (p - m) ** 2 / np.where(den == 0, 1.0, den) / 8.0)
    at = F == F.min(axis=-1, keepdims=True)
    s = 1e-9 * np.maximum(unit, np.abs(F).max(axis=-1))
    for name, V in (("combine_V_interp", rec.call(H.combine_V_interp, A, B)),
                    ("combine_V_interp_rev", rec.call(H.combine_V_interp_rev, B, A))):
        V = V.numpy()
        rec.eq(f"{name}: shape", V.shape, want.shape)
        rec.true(f"{name}: not finite for finite costs", bool(np.all(np.isfinite(V))))
        d = np.where(at, np.abs(R - V[..., None]), np.inf).min(axis=-1)
        bad = np.argwhere(~(d <= s))
        if len(bad):
            b = tuple(bad[0])
            rec.fail(f"{name}: entry {b} is not the parabola-refined minimum", f=F[b], got=V[b], want=R[b][at[b]])
    rec.ok(want, sample={"batch": len(As), "first": want[0]})


def combination(rec, n, m):
    vs = np.array([digits(i, m, n) for i in range(m ** n)], dtype=float)
    vs = np.concatenate([vs, vs[:(-len(vs)) % n]])
    mats = vs.reshape(-1, n, n)
    for si, (sc, off) in enumerate(SCALES):
        for a in range(len(mats)):
            if rec.case("combine", n, m, si, a):
                As = np.repeat(mats[a:a + 1] * sc + off, len(mats), axis=0)
                Bs = np.transpose(mats, (0, 2, 1)) * sc - 2 * off
                check_batch(rec, As, Bs, min(1.0, sc))
            if a % 9 == 0 and rec.case("combine one", n, m, si, a):
                check_batch(rec, mats[a:a + 1] * sc + off, np.transpose(mats[-1 - a:][:1], (0, 2, 1)) * sc - 2 * off, min(1.0, sc))


def generic(rec):
    for n in range(2, 10):
        for v in range(5):
            if rec.case("generic", n, v):
                A, B = wit(("A", n, v), 3, n, n, lo=0, hi=5), wit(("B", n, v), 3, n, n, lo=0, hi=5)
                if v == 2:
                    A, B = np.round(A), np.round(B)
                if v == 3:
                    A[A > 2.5] = 1e20
                if v == 4:
                    A = A * 0 + 1.7
                    B = B * 0 - 0.2
                check_batch(rec, A, B)


def terminal(tf, c, xs, t):
    """A terminal cost function with given values on the grid, on tensors of any shape."""
    def LT(x):
        j = tf.argmin(tf.abs(tf.expand_dims(x, -1) - c(xs)), axis=-1)
        return tf.gather(c(t), j)
    return LT


class Passes:
    """Compiled passes, one trace per number of blocks and limit."""

    def __init__(self, rec, n):
        self.tf, self.H, self.c = _tf()
        self.rec, self.n = rec, n
        self.xs = np.linspace(-1.0, 1.0, n)
        self.fns = {}

    def run(self, V, t, blocks, limits):
        tf, H, c = self.tf, self.H, self.c
        out = {}
        for lim in ["seq"] + list(limits):
            key = (blocks, lim)
            if key not in self.fns:
                def body(V, t, lim=lim):
                    LT = lambda x: tf.gather(t, tf.argmin(tf.abs(tf.expand_dims(x, -1) - c(self.xs)), axis=-1))
                    if lim == "seq":
                        return H.seq_bw_pass_assoc(LT, blocks, c(self.xs), V)
                    kw = {} if lim == 10000 else {"max_parallel": lim}
                    return H.par_bw_pass(LT, blocks, c(self.xs), V, **kw)
                self.fns[key] = tf.function(body, input_signature=[tf.TensorSpec((self.n, self.n), tf.float64),
                                                                   tf.TensorSpec((self.n,), tf.float64)])
            out[lim] = self.rec.call(self.fns[key], c(V), c(t)).numpy()
        return out


def eager(rec, V, t, blocks, lim):
    tf, H, c = _tf()
    xs = np.linspace(-1.0, 1.0, len(V))
    LT = terminal(tf, c, xs, t)
    if lim == "seq":
        return rec.call(H.seq_bw_pass_assoc, LT, blocks, c(xs), c(V)).numpy()
    return rec.call(H.par_bw_pass, LT, blocks, c(xs), c(V), max_parallel=lim).numpy()


def two_point(rec, blocks, m):
    P = Passes(rec, 2)
    for i, (a, t) in enumerate(itertools.product(range(m ** 4), range(4))):
        if not rec.case("two-point", blocks, m, a, t):
            continue
        V = np.array(digits(a, m, 4), dtype=float).reshape(2, 2)
        t = np.array(digits(t, 2, 2), dtype=float)
        want = [t]
        for _ in range(blocks):
            want.append(np.min(V + want[-1][None, :], axis=1))
        want = np.array(want[::-1])
        for unit in (1.0, TINY, 1e10):
            for lim, got in P.run(V * unit, t * unit, blocks, (blocks, 10000)).items():
                rec.close(f"pass {lim}", got, want * unit, tol=1e-12, scale=unit)
        rec.ok(want)


def families(rec, fam, n, blocks, deep=False):
    P = Passes(rec, n)
    for b in blocks:
        for v in range(2):
            if not rec.case(fam, n, b, v):
                continue
            V, t = hjb.block_family(fam, n, (n, v), wit)
            want = [np.repeat(t[:, None], n, axis=1)]
            for _ in range(b):
                want.append(hjb.combine_interp(V, want[-1]))
            want = np.array(want[::-1])[:, :, 0]
            for lim, got in P.run(V, t, b, sorted({b, b + 3, 10000} if deep else {b, 10000})).items():
                rec.close(f"{fam}: pass {lim}", got, want)
            for lim, got in P.run(V * TINY, t * TINY, b, sorted({b, b + 3, 10000} if deep else {b, 10000})).items():
                rec.close(f"{fam}, large unit of cost: pass {lim}", got, want * TINY, scale=TINY * max(1.0, np.max(np.abs(want))))
            if v == 0 and b <= 3:
                for lim in ("seq", b):
                    rec.close(f"{fam}: eager pass {lim}", eager(rec, V, t, b, lim), want)
            rec.ok(want)


def bracketings(rec):
    for n in (3, 4):
        P = Passes(rec, n)
        for blocks in range(1, 5):
            for v in range(4):
                if not rec.case("bracketings", n, blocks, v):
                    continue
                V, t = wit(("bv", n, v), n, n, lo=0, hi=3), wit(("bt", n, v), n, lo=0, hi=2)
                VT = np.repeat(t[:, None], n, axis=1)
                full = hjb.brackets(V, blocks, VT, hjb.combine_interp)
                res = P.run(V, t, blocks, (blocks, 10000))
                W = VT
                for k in range(blocks, -1, -1):
                    m = blocks - k
                    if m:
                        W = hjb.combine_interp(V, W)
                    rec.close(f"seq_bw_pass_assoc, block {k}", res["seq"][k], W[:, 0])
                    for lim in (blocks, 10000):
                        d = min(np.max(np.abs(res[lim][k] - X[:, 0])) for X in full[m])
                        rec.true(f"par_bw_pass ({lim}), block {k}: no bracketing of the combinations gives this", d <= 1e-9)
                rec.ok(res["seq"])


def finite_differences(rec, fun, blocks, top):
    tf, H, c = _tf()
    f, L, LT = hjb.FUNS[fun]
    for nx in (2, 3, 4, 5):
        for nu in (1, 2, 3):
            xs = np.linspace(-1.5, 1.2, nx)
            us = np.linspace(-1.0, 1.4, nu)
            for steps in range(1, top + 1):
                if not rec.case(fun, nx, nu, blocks, steps):
                    continue
                T = 0.2 + 0.1 * blocks
                for name, up in (("symfd", False), ("upwind", True)):
                    got = rec.call(getattr(H, "seq_bw_pass_" + name), f, L, LT, c(T), blocks, steps, c(xs), c(us)).numpy()
                    want = hjb.fd(f, L, LT(xs), T, blocks, steps, xs, us, up)
                    rec.close(f"seq_bw_pass_{name}, {fun}", got, want, tol=1e-9)
                    if steps == 2 and nu == 2:   # the unit of the cost does not matter
                        for unit in (TINY, 2.0 ** 40):
                            got = rec.call(getattr(H, "seq_bw_pass_" + name), f, lambda x, u: unit * L(x, u), lambda x: unit * LT(x), c(T), blocks, steps, c(xs), c(us)).numpy()
                            rec.close(f"seq_bw_pass_{name}, {fun}, another unit of cost", got, unit * want, tol=1e-9, scale=unit * max(1.0, np.max(np.abs(want))))
                rec.ok(want)


def bundled(rec):
    tf, H, c = _tf()
    from parallel_control import cnonlin_models_tf as M
    for name in ("linear_model", "velocity_model", "upwind_model"):
        for nx, nu in ((4, 3), (9, 8)):
            if not rec.case("bundled", name, nx, nu):
                continue
            f, L, LT, T, xs, us = getattr(M, name)(nx, nu)
            k = lambda g: (lambda *a: np.asarray(g(*[c(x) for x in a])))
            for blocks, steps in ((2, 3), (4, 5)):
                for nm, up in (("symfd", False), ("upwind", True)):
                    got = rec.call(getattr(H, "seq_bw_pass_" + nm), f, L, LT, T, blocks, steps, xs, us).numpy()
                    want = hjb.fd(k(f), k(L), LT(xs).numpy(), T.numpy(), blocks, steps, xs.numpy(), us.numpy(), up)
                    rec.close(f"{name}: {nm}", got, want, tol=1e-9)
            rec.ok(got)


def speedtest(rec, blocks):
    """The speed-test wrappers return the passes they time, and report the true deviation from the upwind solution."""
    tf, H, c = _tf()
    from parallel_control import hjb_grid_1d_speedtest as S
    nx, nu, steps, bT = 7 if blocks % 2 else 8, 5, 2, 0.15
    if not rec.case("speedtest", blocks):
        return
    model = S.get_model(nx, nu)
    f, L, LT, T, xs, us = model
    X = xs.numpy()
    bt = c(bT)
    k = lambda g: (lambda *a: np.asarray(g(*[c(x) for x in a])))
    up = hjb.fd(k(f), k(L), LT(xs).numpy(), bT * blocks, blocks, steps, X, us.numpy(), True)
    rec.close("seq_upwind", rec.call(S.seq_upwind, f, L, LT, bt, blocks, steps, xs, us).numpy(), up)
    V = wit(("block", blocks), nx, nx, lo=0.0, hi=4.0)
    seen = []

    def block_value(g, R, T, n, x0, xf, max_iter):
        """Stands for the shooting solver (property C23), whose graph takes minutes to build."""
        ok = g is f and R is L and n == steps and max_iter >= 1
        seen.append(ok and len(x0.shape) == len(xf.shape) == 1)
        return c(V) + (T - bT) * 1e3 + tf.reduce_sum(tf.abs(x0 - xs)) + tf.reduce_sum(tf.abs(xf - xs))

    H.V_eval_1 = H.V_eval_2 = block_value
    VT = np.repeat(LT(xs).numpy()[:, None], nx, axis=1)
    full = hjb.brackets(V, blocks, VT, hjb.combine_interp)
    W = [VT]
    for _ in range(blocks):
        W.append(hjb.combine_interp(V, W[-1]))
    want = np.array(W[::-1])[:, :, 0]
    seq = rec.call(S.seq_assoc, f, L, LT, bt, blocks, steps, xs).numpy()
    rec.close("seq_assoc", seq, want, tol=1e-7)
    par = rec.call(S.par_assoc, f, L, LT, bt, blocks, steps, xs).numpy()
    for b in range(blocks + 1):
        d = min(np.max(np.abs(par[b] - Y[:, 0])) for Y in full[blocks - b])
        rec.true(f"par_assoc, block {b}: no bracketing of the combinations gives this", d <= 1e-7)
    for nm, Vs in (("seq_upwind", up), ("seq_assoc", seq), ("par_assoc", par)):
        _, e1, e2 = rec.call(getattr(S, nm + "_speedtest"), model, blocks, steps=steps, block_T=bT, n_iter=1)
        D = np.abs(Vs - up)
        rec.close(f"{nm}_speedtest: first error", float(e1), D.max(), tol=1e-7)
        rec.close(f"{nm}_speedtest: second error", float(e2), D[:, nx // 3:2 * nx // 3].max(), tol=1e-7)
    rec.true("the wrappers ask for the block value function of their own problem", seen and all(seen))
    rec.ok(par)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n, m in ((2, 4), (3, 3), (4, 2), (5, 2)) if not deep else ((2, 6), (3, 4), (4, 3), (5, 2), (6, 2)):
        out.append((10, "combination", dict(n=n, m=m)))
    out.append((3, "generic", {}))
    for b in range(1, 6 if not deep else 9):
        out.append((8 + b, "two_point", dict(blocks=b, m=3)))
    for fam in ("additive", "two-state"):
        for n in (2, 3, 5) if not deep else range(2, 8):
            for bl in ((1, 2, 3, 4), (5, 6, 7), (8, 9)) + (((12, 15), (16, 17)) if deep else ()):
                out.append((8 + bl[-1], "families", dict(fam=fam, n=n, blocks=bl, deep=deep)))
    out.append((12, "bracketings", {}))
    top = 4 if not deep else 6
    out += [(12, "finite_differences", dict(fun=k, blocks=b, top=top)) for k in hjb.FUNS for b in range(1, top + 1)]
    out.append((6, "bundled", {}))
    out += [(20, "speedtest", dict(blocks=b)) for b in ((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 8))]
    return out
