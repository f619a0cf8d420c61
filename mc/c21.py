"""C21: HJB grid solver, NumPy/JAX."""
import itertools
import numpy as np
from mc.core import wit, digits
from mc import hjb

BOUNDS = ("Combination: every pair (row of the first, column of the second cost) over grids of 2..5 points with values "
          "from alphabets of 4/3/2/2 levels at five scalings (1e-12 to 1e20), each entry against the exact minimum and the "
          "parabola formula (any minimiser on ties), generic costs up to 9 points. Passes: every two-point cost matrix "
          "over {0,1,2} and every terminal cost over {0,1} for 1..5 blocks against brute-force shortest paths; additive and two-state cost "
          "families for 2..5 grid points and every number of blocks 1..9 (17 thorough); generic costs for 1..4 blocks "
          "with the parallel pass in the set of all bracketings. Finite differences: 6 problems x 2..6 state points x "
          "{1,2,4} controls x 1..3 blocks x 1..3 steps (1..5, 1..4, 1..4 thorough), both schemes; the passes also with the costs in units of 1e-12 and more")
ASSUMPTIONS = ["finite costs between 1e-12 and 1e20 (or zero), the module's own infinity", "uniform grids of at least two points",
               "rounding up to 1e-9 relative"]

TINY = 2.0 ** -40
SCALES = ((1.0, 0.0), (0.1, -0.3), (1e6, 1e3), (1e20, 0.0), (TINY, 0.0))


def _vectors(n, m):
    return np.array([digits(i, m, n) for i in range(m ** n)], dtype=float)


def combination(rec, n, m, part, parts):
    from parallel_control import hjb_grid_1d_np as H
    vs = _vectors(n, m)
    pad = (-len(vs)) % n
    vs = np.concatenate([vs, vs[:pad]])
    mats = vs.reshape(-1, n, n)
    for si, (sc, off) in enumerate(SCALES):
        for a, b in itertools.product(range(len(mats)), repeat=2):
            if (a * len(mats) + b) % parts != part or not rec.case("combine", n, m, si, a, b):
                continue
            A, B = mats[a] * sc + off, mats[b].T * sc - 2 * off
            check_pair(rec, H, A, B, loop=(a + b) % 16 == 0, unit=min(1.0, sc))


def check_pair(rec, H, A, B, loop=True, unit=1.0):
    n = len(A)
    A0, B0 = A.copy(), B.copy()
    want = hjb.combine(A, B)
    tol = dict(tol=1e-9, scale=max(unit, float(np.max(np.abs(want)))))
    rec.close("combine_V", rec.call(H.combine_V, A, B), want, **tol)
    rec.close("combine_V2", rec.call(H.combine_V2, A, B), want, **tol)
    got = [("combine_V_interp", np.asarray(rec.call(H.combine_V_interp, A, B)))]
    if loop:
        got.append(("combine_V_interp2", np.asarray(rec.call(H.combine_V_interp2, A, B))))
    S = A[:, :, None] + B[None, :, :]
    for name, V in got:
        rec.eq(f"{name}: shape", V.shape, want.shape)
        rec.true(f"{name}: not finite for finite costs", bool(np.all(np.isfinite(V))), got=V, A=A, B=B)
        for i in range(n):
            for k in range(n):
                f = S[i, :, k]
                r = hjb.refinements(f)
                s = 1e-9 * max(unit, np.max(np.abs(f)))
                rec.true(f"{name}: entry ({i},{k}) is not the parabola-refined minimum",
                         min(abs(V[i, k] - x) for x in r) <= s, f=f, got=V[i, k], want=r)
    rec.eq("combine_*: first argument modified", A, A0)
    rec.eq("combine_*: second argument modified", B, B0)
    rec.ok(want)


def generic(rec):
    from parallel_control import hjb_grid_1d_np as H
    for n in range(2, 10):
        for v in range(6):
            if rec.case("generic", n, v):
                A, B = wit(("A", n, v), n, n, lo=0, hi=5), wit(("B", n, v), n, n, lo=0, hi=5)
                if v == 3:
                    A, B = np.round(A), np.round(B)
                if v == 4:
                    A[A > 2.5] = 1e20
                if v == 5:
                    A = A * 0 + 1.7
                    B = B * 0 - 0.2
                check_pair(rec, H, A, B)


def solver(H, V, LT, blocks, steps=1, f=None, L=None, T=1.0, xs=None):
    n = len(V) if V is not None else len(xs)
    xs = np.linspace(-1.0, 1.0, n) if xs is None else xs
    vals = np.asarray(LT) if not callable(LT) else None

    def terminal(x):
        return vals[int(np.argmin(np.abs(xs - x)))]

    return H.HJB_Grid_1d(f, L, LT if callable(LT) else terminal, T, blocks, steps, xs)


def both(rec, H, V, LT, blocks):
    s = solver(H, V, LT, blocks)
    seq = np.array([np.asarray(v) for v in rec.call(s.seqBackwardPass_assoc, V)])
    par = np.array([np.asarray(v) for v in rec.call(s.parBackwardPass, V)])
    return seq, par


def two_point(rec, blocks, part, parts):
    from parallel_control import hjb_grid_1d_np as H
    for c in range(3 ** 4 * 4):
        if c % parts != part or not rec.case("two-point", blocks, c):
            continue
        V = np.array(digits(c % 81, 3, 4), dtype=float).reshape(2, 2)
        t = np.array(digits(c // 81, 2, 2), dtype=float)
        want = [t]
        for _ in range(blocks):
            want.append(np.min(V + want[-1][None, :], axis=1))
        want = np.array(want[::-1])
        if blocks <= 3:  # brute force over all paths
            for k in range(blocks + 1):
                m = blocks - k
                for i in range(2):
                    best = min(sum(V[p, q] for p, q in zip((i,) + w, w)) + t[(i,) [0] if not w else w[-1]]
                               for w in itertools.product(range(2), repeat=m))
                    rec.true("reference recursion equals brute force", best == want[k, i])
        for unit in (1.0, TINY, 1e10):
            seq, par = both(rec, H, V * unit, t * unit, blocks)
            rec.close("seqBackwardPass_assoc", seq, want * unit, tol=1e-12, scale=unit)
            rec.close("parBackwardPass", par, want * unit, tol=1e-12, scale=unit)
        rec.ok(want)


def families(rec, fam, n, top):
    from parallel_control import hjb_grid_1d_np as H
    for blocks in range(1, top + 1):
        for v in range(2):
            if not rec.case(fam, n, blocks, v):
                continue
            V, t = hjb.block_family(fam, n, (n, v), wit)
            V0 = V.copy()
            want = [np.repeat(t[:, None], n, axis=1)]
            for _ in range(blocks):
                want.append(hjb.combine_interp(V, want[-1]))
            want = np.array(want[::-1])[:, :, 0]
            seq, par = both(rec, H, V * TINY, t * TINY, blocks)
            rec.close(f"{fam}, large unit of cost: seqBackwardPass_assoc", seq, want * TINY, scale=TINY * max(1.0, np.max(np.abs(want))))
            rec.close(f"{fam}, large unit of cost: parBackwardPass", par, want * TINY, scale=TINY * max(1.0, np.max(np.abs(want))))
            seq, par = both(rec, H, V, t, blocks)
            rec.close(f"{fam}: seqBackwardPass_assoc", seq, want)
            rec.close(f"{fam}: parBackwardPass", par, want)
            rec.eq(f"{fam}: terminal value", seq[-1], t)
            rec.eq(f"{fam}: terminal value (parallel)", par[-1], t)
            rec.eq("block cost modified", V, V0)
            rec.ok(want)


def bracketings(rec):
    from parallel_control import hjb_grid_1d_np as H
    for n in (3, 4, 5):
        for blocks in range(1, 5):
            for v in range(4):
                if not rec.case("bracketings", n, blocks, v):
                    continue
                V, t = wit(("bv", n, v), n, n, lo=0, hi=3), wit(("bt", n, v), n, lo=0, hi=2)
                VT = np.repeat(t[:, None], n, axis=1)
                full = hjb.brackets(V, blocks, VT, hjb.combine_interp)
                seq, par = both(rec, H, V, t, blocks)
                W = VT
                for k in range(blocks, -1, -1):
                    m = blocks - k
                    if m:
                        W = hjb.combine_interp(V, W)
                    rec.close(f"seqBackwardPass_assoc, block {k}", seq[k], W[:, 0])
                    d = min(np.max(np.abs(par[k] - X[:, 0])) for X in full[m])
                    rec.true(f"parBackwardPass, block {k}: no bracketing of the combinations gives this", d <= 1e-9, got=par[k])
                rec.ok(seq)


def finite_differences(rec, fun, top):
    import jax.numpy as jnp
    from parallel_control import hjb_grid_1d_np as H
    f, L, LT = hjb.FUNS[fun]
    for nx in range(2, 7):
        for nu in (1, 2, 4) if top < 4 else range(1, 6):
            xs = np.linspace(-1.5, 1.2, nx)
            us = np.linspace(-1.0, 1.4, nu)
            for blocks in range(1, top + 1):
                for steps in range(1, top + 1):
                    if not rec.case(fun, nx, nu, blocks, steps):
                        continue
                    T = 0.2 + 0.1 * blocks
                    s = solver(H, None, LT, blocks, steps, f, L, T, jnp.asarray(xs))
                    for name, up in (("symfd", False), ("upwind", True)):
                        got = rec.call(getattr(s, "seqBackwardPass_" + name), jnp.asarray(us))
                        want = hjb.fd(f, L, LT(xs), T, blocks, steps, xs, us, up)
                        rec.close(f"seqBackwardPass_{name}, {fun}", np.array([np.asarray(v) for v in got]), want, tol=1e-9)
                        if steps == top and nu == 2:   # the unit of the cost does not matter
                            for unit in (TINY, 2.0 ** 40):
                                s2 = solver(H, None, lambda x: unit * LT(x), blocks, steps, f, lambda x, u: unit * L(x, u), T, jnp.asarray(xs))
                                got = rec.call(getattr(s2, "seqBackwardPass_" + name), jnp.asarray(us))
                                rec.close(f"seqBackwardPass_{name}, {fun}, another unit of cost", np.array([np.asarray(v) for v in got]), unit * want,
                                          tol=1e-9, scale=unit * max(1.0, np.max(np.abs(want))))
                    rec.ok(want)


def bundled(rec):
    """The bundled problems: the schemes agree with the reference and converge to the same value function."""
    from parallel_control import hjb_grid_1d_np as H, cnonlin_models_np as M
    for name in ("linear_model", "velocity_model", "upwind_model"):
        for nx, nu in ((4, 3), (9, 8), (16, 5)):
            if not rec.case("bundled", name, nx, nu):
                continue
            f, L, LT, T, xs, us = getattr(M, name)(nx, nu)
            for blocks, steps in ((2, 3), (4, 5)):
                s = H.HJB_Grid_1d(f, L, LT, T, blocks, steps, xs)
                for nm, up in (("symfd", False), ("upwind", True)):
                    got = np.array([np.asarray(v) for v in rec.call(getattr(s, "seqBackwardPass_" + nm), us)])
                    want = hjb.fd(f, L, np.asarray(LT(xs)), T, blocks, steps, np.asarray(xs), np.asarray(us), up)
                    rec.close(f"{name}: {nm}", got, want, tol=1e-9)
            rec.ok(got)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n, m, parts in ((2, 4, 1), (3, 3, 1), (4, 2, 1), (5, 2, 1)) if not deep else ((2, 6, 1), (3, 4, 4), (4, 3, 4), (5, 2, 1), (6, 2, 2)):
        out += [(10, "combination", dict(n=n, m=m, part=p, parts=parts)) for p in range(parts)]
    out.append((4, "generic", {}))
    for b in range(1, 6 if not deep else 9):
        parts = 2 if not deep else 1
        out += [(6 + b, "two_point", dict(blocks=b, part=p, parts=2)) for p in range(2)]
    for fam in ("additive", "two-state"):
        for n in range(2, 6 if not deep else 8):
            out.append((6, "families", dict(fam=fam, n=n, top=9 if not deep else 17)))
    out.append((6, "bracketings", {}))
    out += [(12, "finite_differences", dict(fun=k, top=3 if not deep else 4)) for k in hjb.FUNS]
    out.append((6, "bundled", {}))
    return out
