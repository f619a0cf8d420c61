"""C29: results depend on the values of the data only, not on number types, memory layout or writability."""
import numpy as np
from mc import c28

BOUNDS = ("LQR, LQT, condensing, iterated LQT, FSC, Viterbi, CLQR, CLQT, parareal, discretisation, grid solver and KKT problems "
          "of 1..3 states and horizons 1..4, every method: every data item and argument in turn, all together, first step only and "
          "all but the first step of per-step lists, stored as int64 / int32 (also with all other data fractional, or one item fractional) / (tables, observations) int8 and uint8 with integer values, "
          "Fortran-ordered, as reversed views, as every other element of a larger array, and read-only; costs that exceed the "
          "range of their number type when added, Viterbi with more states than the number type of the observations can count")
ASSUMPTIONS = ["linear-quadratic data in narrow integer types (below 32 bits) are outside the property", "rounding up to 1e-10 relative"]

KINDS = dict(fsc=(None, False), viterbi=(False,), lqr=(False,), lqt=(False, True), condense=(False,), nlqt=(False,), clqr=(False,), clqt=(True,), parareal=(True,),
             disc=(False,), hjb=(False,), sqp=(False,))
DEFINITE = ("X", "U", "XT", "Xc", "Uc", "G")


def integers(kind, name, v):
    if v.dtype.kind != "f":
        return v
    if name in DEFINITE:
        return np.round(v) + 3.0 * np.eye(len(v))
    if name in ("prior", "Pi", "Po", "u1", "u2", "x1", "x2", "xy", "x"):
        return v
    return np.round(v * (40 if name == "LT" else 1 if kind in ("clqr", "clqt", "parareal") else 3))


def cast(v, dtype):
    if v.size and np.all(v == np.round(v)) and np.all(v == v.astype(dtype)):
        return v.astype(dtype)
    return v


def strided(v):
    big = np.full([2 * d for d in v.shape], 77, dtype=v.dtype)
    big[tuple(slice(0, None, 2) for _ in v.shape)] = v
    return big[tuple(slice(0, None, 2) for _ in v.shape)]


def backwards(v):
    i = tuple(slice(None, None, -1) for _ in v.shape)
    return np.ascontiguousarray(v[i])[i]


def readonly(v):
    v = v.copy()
    v.flags.writeable = False
    return v


FORMS = dict(int64=lambda v: cast(v, np.int64), int32=lambda v: cast(v, np.int32), int8=lambda v: cast(v, np.int8), uint8=lambda v: cast(v, np.uint8),
             fortran=np.asfortranarray, strided=strided, backwards=backwards, readonly=readonly)
NARROW = ("fsc", "viterbi")


def run(kind, size, on, vals, store, name=None):
    """Values returned by every method (or one method) of a fresh object with the data stored by `store`."""
    sel = (lambda name, k: vals) if isinstance(vals, bool) else vals
    c28.VALUES = (lambda name, k, v: integers(kind, name, v) if sel(name, k) else v) if vals else None
    c28.STORE = None
    try:
        make = c28.MAKERS[kind](*size, on)
        c28.STORE = store
        s = make()
    finally:
        c28.VALUES = c28.STORE = None
    return s


def items(kind, size, on, vals):
    """Names of the stored data, and whether they are per-step lists."""
    seen = {}

    def spy(name, k, v):
        seen.setdefault(name, set()).add(k)
        return v
    run(kind, size, on, vals, spy)
    return seen


def patterns(seen):
    yield "all", lambda name, k: True
    for n in seen:
        yield f"only {n}", lambda name, k, n=n: name == n
        if len(seen) > 2:
            yield f"all but {n}", lambda name, k, n=n: name != n
    if any(len(ks) > 1 for ks in seen.values()):
        yield "first step", lambda name, k: k == 0
        yield "all but first step", lambda name, k: k != 0
        for n, ks in seen.items():
            if len(ks) > 1:
                yield f"first step of {n}", lambda name, k, n=n: name == n and k == 0


def stored(rec, kind, size, on, form):
    vals = "int" in form
    conv = FORMS[form]
    base = {n: c28.shot(rec.call(f)) for n, f in run(kind, size, on, vals, lambda name, k, v: v).ops.items()}
    for tag, sel in patterns(items(kind, size, on, vals)):
        if form not in ("int64", "readonly", "uint8") and tag.startswith(("all but", "only")):
            continue
        if not rec.case(kind, size, on, form, tag):
            continue
        s = run(kind, size, on, vals, lambda name, k, v: conv(v) if sel(name, k) else v)
        for n, f in s.ops.items():
            same(rec, f"{n}, data {form} ({tag})", c28.shot(rec.call(f)), base[n])
        rec.ok([len(base)] + [len(v) for v in base.values()])
    rec.group(f"stored as {form}", 1)


def mixed(rec, kind, size, on):
    """One item has integer values and is stored as integers, all others have fractions."""
    conv = FORMS["int64"]
    for name, ks in items(kind, size, on, False).items():
        lists = len(ks) > 1
        for tag, sel in (("", lambda k: True), ("first step", lambda k: k == 0), ("all but the first step", lambda k: k != 0)):
            if tag and not lists:
                continue
            for rest in (False, True):
                # rest: the other way round, this item is the only one with fractions
                pick = lambda n, k: (n == name and sel(k)) != rest
                if not rec.case("mixed", kind, size, on, name, tag, rest):
                    continue
                try:
                    base = run(kind, size, on, pick, lambda n, k, v: v)
                    want = {n: c28.shot(f()) for n, f in base.ops.items()}
                except np.linalg.LinAlgError:
                    rec.group("not a problem: the cost is not definite")
                    continue
                s = run(kind, size, on, pick, lambda n, k, v: conv(v) if pick(n, k) else v)
                for n in s.ops:
                    same(rec, f"{n}, {'all but ' if rest else ''}{name} {tag} integers", c28.shot(rec.call(s.ops[n])), want[n])
                rec.ok([len(s.ops)])
    rec.group("integers among fractions", 1)


def same(rec, what, got, want):
    rec.true(f"{what}: structure", [(p, a.shape) for p, a, d in got] == [(p, a.shape) for p, a, d in want],
             got=[(p, a.shape) for p, a, d in got][:20], want=[(p, a.shape) for p, a, d in want][:20])
    for (p, a, _), (_, b, _) in zip(got, want):
        if a.size:
            g, w = a.astype(float), b.astype(float)
            s = max(1.0, float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)))
            rec.true(f"{what}: {'.'.join(map(str, p))}", np.allclose(g, w, rtol=0, atol=1e-10 * s, equal_nan=True), got=g, want=w)


def overflow(rec):
    """Costs whose sum leaves the range of their number type."""
    from parallel_control.fsc_np import FSC
    f = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.bool_):
        top = 1 if dt is np.bool_ else int(np.iinfo(dt).max)
        low = 0 if dt is np.bool_ else max(int(np.iinfo(dt).min), -top)
        for what in ("L", "LT", "both"):
            for T in (1, 2, 3):
                for sign in (0, 1):
                    if sign and not low:
                        continue
                    if not rec.case("overflow", dt.__name__, what, T, sign):
                        continue
                    e = low if sign else top
                    L, LT = np.array([[e, e - e // 8, e], [e - e // 3, e, e - e // 2], [e, e, e - e // 5]]), np.array([e, e - e // 9, e - e // 7])
                    a = FSC.checkAndExpand(f, L.astype(float), LT.astype(float), T=T)
                    b = FSC.checkAndExpand(f, L.astype(dt) if what != "LT" else L.astype(float), LT.astype(dt) if what != "L" else LT.astype(float), T=T)
                    for m in ("seqBackwardPass", "parBackwardPass"):
                        (ua, Va), (ub, Vb) = rec.call(getattr(a, m)), rec.call(getattr(b, m))
                        for k in range(T + 1):
                            rec.close(f"{m}: V[{k}]", np.asarray(Vb[k], dtype=float), Va[k])
                        for x0 in range(3):
                            us, xs = rec.call(a.seqForwardPass, x0, ua)
                            rec.eq("cost of a trajectory", float(rec.call(b.cost, xs, us)), float(rec.call(a.cost, xs, us)))
                            vs, ys = rec.call(b.seqForwardPass, x0, ub)
                            rec.eq("cost of the policy", float(a.cost([int(y) for y in ys], [int(v) for v in vs])), float(Va[0][x0]))
                            for w in ("parFwdBwdPass", "parFwdBwdPass2"):
                                vs, ys = rec.call(getattr(b, w), x0, ub, Vb)
                                V = np.asarray(Va[0], dtype=float)[x0]
                                if T == 1:
                                    rec.eq(f"{w}: cost", float(a.cost([int(y) for y in ys], [int(v) for v in vs])), float(V))
                    for x0 in range(3):
                        rec.close("batch cost", float(rec.call(b.batch_solution, x0)[2]), float(a.batch_solution(x0)[2]))
                    rec.ok(len(Va))
    rec.group("costs beyond the range of their type", 1)


def combinations(rec):
    """The combination functions on elements of different number types."""
    import itertools
    from parallel_control import fsc_np, hjb_grid_1d_np as H
    fs = dict(fsc=fsc_np.combine_V, combine_V=H.combine_V, combine_V2=H.combine_V2, combine_V_interp=H.combine_V_interp, combine_V_interp2=H.combine_V_interp2)
    for name, f in fs.items():
        for n in (3, 4):
            A, B = (np.round(20 * c28.wit((t, n), n, n, lo=0, hi=3)) for t in "AB")
            types = [np.float64, np.float32, np.int64, np.int32] + [np.int8] * (name == "fsc")
            for a, b in itertools.product(types, types):
                for half in (0, 1):
                    if not rec.case(name, n, a.__name__, b.__name__, half):
                        continue
                    E = B + 0.5 if half and np.issubdtype(b, np.floating) else B
                    D = A + 0.5 if half and np.issubdtype(a, np.floating) else A
                    rec.close(f"{name}({a.__name__}, {b.__name__})", np.asarray(rec.call(f, D.astype(a), E.astype(b)), dtype=float), np.asarray(f(D, E), dtype=float), tol=1e-6)
                    rec.ok(n)
    rec.group("combination of different number types", 1)


def many_states(rec):
    """More states than the number type of the observations can count."""
    from parallel_control.viterbi_np import Viterbi_np
    for D, types in ((140, (np.int8, np.uint8, np.int16, np.int32, np.int64)), (300, (np.int8, np.uint8, np.int16))):
        rows = np.full((D, D), 1e-3)
        rows[np.arange(D), (np.arange(D) + 7) % D] = 1.0
        Po = np.full((D, 2), 0.01)
        Po[np.arange(D), np.arange(D) % 2] = 1.0
        prior = np.full(D, 0.01)
        prior[D - 25] = 1.0
        v = Viterbi_np(prior / prior.sum(), rows / rows.sum(1, keepdims=True), Po / Po.sum(1, keepdims=True))
        path = [(D - 25 + 7 * k) % D for k in range(4)]
        for dt in types:
            for T in (1, 2, 3):
                ys = np.array([x % 2 for x in path[1:T + 1]], dtype=dt)
                for m in ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2") + (("seqViterbi",) if D == 140 else ()):
                    if not rec.case("states", D, dt.__name__, T, m):
                        continue
                    xs = rec.call(getattr(v, m), ys)[0]
                    rec.eq(f"{m}: states with observations of type {dt.__name__}", [int(x) for x in xs], path[:T + 1])
                    rec.ok(path[:T + 1])
    rec.group("more states than the observation type counts", 1)


def tensors(rec):
    """Conversion to tensors and the TensorFlow solvers."""
    import tensorflow as tf
    from parallel_control import fsc_tf, lqt_tf, viterbi_tf
    from parallel_control.fsc_np import FSC
    from parallel_control.lqt_np import LQT
    from parallel_control.viterbi_np import Viterbi_np
    for form in FORMS:
        conv = FORMS[form]
        for kind, size in (("fsc", (3, 2, 3)), ("lqt", (2, 1, 1, 3)), ("viterbi", (3, 2, 3))):
            if form in ("int8", "uint8") and kind == "lqt":
                continue
            if not rec.case("tensors", form, kind):
                continue
            a = run(kind, size, False, True, lambda name, k, v: v).roots
            b = run(kind, size, False, True, lambda name, k, v: conv(v)).roots
            out = []
            for o in (a, b):
                if kind == "fsc":
                    f, L, LT = rec.call(fsc_tf.fsc_np_to_tf, o["object"])
                    r = [f, L, LT, rec.call(fsc_tf.fsc_seq_backwardpass, f, L, LT)]
                elif kind == "lqt":
                    t = rec.call(lqt_tf.lqt_np_to_tf, o["object"])
                    r = [t, rec.call(lqt_tf.lqt_np_to_tf, o["object"], dtype=tf.float64)]
                else:
                    r = [rec.call(viterbi_tf.make_viterbi_fsc, o["object"], o["args"]["ys"])]
                out.append(c28.shot(r))
            same(rec, f"{kind} to tensors, data {form}", out[1], out[0])
            rec.ok(len(out[0]))
    rec.group("conversions to tensors", 1)


def jobs(tier):
    deep = tier == "thorough"
    out = [(10, "overflow", {}), (15, "combinations", {}), (20, "many_states", {}), (15, "tensors", {})]
    for kind, ons in KINDS.items():
        for on in ons:
            for size in c28.SIZES[kind] if deep or kind != "sqp" else c28.SIZES[kind][:1]:
                if kind != "sqp" or deep:
                    out.append((60 if kind == "sqp" else 8, "mixed", dict(kind=kind, size=size, on=on)))
                for form in FORMS:
                    if form in ("int8", "uint8") and kind not in NARROW:
                        continue
                    if kind == "sqp" and form in ("int32", "strided", "backwards") and not deep:
                        continue
                    out.append((40 if kind == "sqp" else 5, "stored", dict(kind=kind, size=size, on=on, form=form)))
    return out
