"""C28: solvers do not modify their inputs and do not depend on the call history."""
import copy
import itertools
import numpy as np
from mc.core import wit, wint, spd

BOUNDS = ("every sequence of method calls up to length 3 (LQR, FSC, Viterbi, condensing, iterated LQT; 4 when thorough) or 2 "
          "(LQT, CLQR, CLQT, parareal, grid solver, quadratic programming, 19 calls of the discretisation and integration functions "
          "on systems with permuted entries; 3 when thorough) on one object, every pair of calls on two objects of different "
          "size, 6-fold repetition of each call; problem data given as separate arrays, as shared ones, and with "
          "rounding-sized asymmetries and tiny entries; horizons 1..5; after every "
          "call: problem data and all arguments, the value returned against the first call of a new process, and all values "
          "returned earlier")
ASSUMPTIONS = ["NumPy arithmetic is repeatable up to 1e-10", "NLQT overwrites its working LQT (F, L, c) by design"]


# ---------------------------------------------------------------------------
# observation of a system
# ---------------------------------------------------------------------------

def walk(o, path=(), skip=(), seen=()):
    """All numbers reachable from o, in a fixed order: (path, array)."""
    if path and path[-1] in skip:
        return
    if isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from walk(o[k], path + (str(k),), skip, seen)
    elif isinstance(o, (list, tuple)):
        yield path, np.array([len(o)])
        for i, v in enumerate(o):
            yield from walk(v, path + (i,), skip, seen)
    elif isinstance(o, (np.ndarray, np.generic, int, float, bool)) or hasattr(o, "__array__"):
        yield path, np.asarray(o)
    elif o is None:
        yield path, np.array([])
    elif hasattr(o, "__dict__") and type(o).__module__.startswith("parallel_control") and id(o) not in seen:
        yield from walk({k: v for k, v in vars(o).items() if not k.startswith("_")}, path, skip, seen + (id(o),))


def shot(o, skip=()):
    return [(p, np.array(a), a.dtype.str) for p, a in walk(o, skip=skip)]


def same(rec, what, got, want, exact):
    rec.true(f"{what}: structure", [(p, a.shape) for p, a, d in got] == [(p, a.shape) for p, a, d in want],
             got=[(p, a.shape) for p, a, d in got][:20], want=[(p, a.shape) for p, a, d in want][:20])
    for (p, a, d), (_, b, e) in zip(got, want):
        if exact:
            rec.true(f"{what}: {'.'.join(map(str, p))} has changed", d == e and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), now=a, before=b)
        elif a.size:
            g, w = a.astype(float), b.astype(float)
            s = max(1.0, float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)))
            rec.true(f"{what}: {'.'.join(map(str, p))} differs", np.allclose(g, w, rtol=0, atol=1e-10 * s, equal_nan=True), got=g, want=w)


class System:
    """roots: everything that no call may change; ops: name -> callable."""

    def __init__(self, roots, ops, skip=()):
        self.roots, self.ops, self.skip = roots, ops, skip


def merge(a, b):
    return System({"first": a.roots, "second": b.roots}, {**{"1." + k: f for k, f in a.ops.items()}, **{"2." + k: f for k, f in b.ops.items()}}, a.skip)


def rough(s):
    """The same system with rounding-sized asymmetries in its matrices and tiny entries in the vectors passed to it."""
    done = set()

    def go(o, args):
        if isinstance(o, dict):
            o = list(o.values())
        if isinstance(o, (list, tuple)):
            for v in o:
                go(v, args)
        elif isinstance(o, np.ndarray) and o.dtype.kind == "f" and id(o) not in done and o.size:
            done.add(id(o))
            if o.ndim == 2 and o.shape[1] > 1:
                o[0, -1] *= 1.0 + 2.0 ** -50
            if o.ndim == 1 and args:
                o[0] *= 1e-16
    for k in ("data", "args"):
        go(s.roots.get(k, {}), k == "args")
    return s


def system(kind, size, on, shape="as is"):
    make = MAKERS[kind](*size, on)
    return (lambda: rough(make())) if shape == "rough" else make


def pristine(rec, kind, size, on, shape="as is"):
    """What every call returns when it is the first one made in its process."""
    import pickle, subprocess, sys
    r = subprocess.run([sys.executable, "-c", "import sys; sys.path[:0] = %r\nfrom mc import c28; c28.serve(%r, %r, %r, %r)" % (sys.path, kind, tuple(size), on, shape)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode:
        rec.fail("a call on a fresh object fails", error=r.stderr.decode()[-1500:])
    out = pickle.loads(r.stdout)
    rec.transitions += len(out)
    return out


def serve(kind, size, on, shape):
    import os, pickle, sys
    make = system(kind, size, on, shape)
    out = {}
    for name in make().ops:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(shot(make().ops[name]()), f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        if os.waitpid(pid, 0)[1]:
            sys.exit(f"{name} failed")
        out[name] = pickle.loads(data)
    sys.stdout.buffer.write(pickle.dumps(out))


def explore(rec, tag, make, depth, fresh, only=None):
    names = list(fresh)
    seqs = [t for d in range(1, depth + 1) for t in itertools.product(names, repeat=d)] + [(n,) * 6 for n in names]
    for seq in seqs:
        if only and not only(seq):
            continue
        if not rec.case(tag, seq):
            continue
        s = make()
        before = shot(s.roots, s.skip)
        kept = []
        for i, name in enumerate(seq):
            r = rec.call(s.ops[name])
            now = shot(r)
            paths = {p for p, _, _ in before}     # an object may acquire further attributes
            same(rec, f"{name} (call {i + 1}): problem data and arguments", [e for e in shot(s.roots, s.skip) if e[0] in paths], before, True)
            same(rec, f"{name} (call {i + 1}) against the first call of a new process", now, fresh[name], False)
            for (n0, r0, s0) in kept:
                same(rec, f"value returned earlier by {n0}, after {name}", shot(r0), s0, True)
            kept.append((name, r, now))
        rec.ok([len(seq)] + [len(k[2]) for k in kept])
    rec.group("sequences of calls", len(seqs))
    return fresh


STORE = None      # C29: (name, step or None, array) -> the same values stored in another way
VALUES = None     # C29: (name, step or None, array) -> array, changes the data before anything is computed from it


def share(o, on):
    """Equal arrays become one array (lists stay separate)."""
    pool = {}

    def f(v, name, k):
        if isinstance(v, list):
            return [f(w, name, i) for i, w in enumerate(v)]
        if isinstance(v, dict):
            return {i: f(w, f"{name}.{i}", None) for i, w in v.items()}
        if isinstance(v, np.ndarray):
            if STORE is not None:
                return STORE(name, k, v.copy())
            k = (v.shape, v.dtype.str, v.tobytes())
            return pool.setdefault(k, v.copy()) if on else v.copy()
        return v
    return {k: f(v, k, None) for k, v in o.items()}


def values(o):
    def f(v, name, k):
        if isinstance(v, list):
            return [f(w, name, i) for i, w in enumerate(v)]
        if isinstance(v, dict):
            return {i: f(w, f"{name}.{i}", None) for i, w in v.items()}
        return VALUES(name, k, v) if isinstance(v, np.ndarray) else v
    return o if VALUES is None else {k: f(v, k, None) for k, v in o.items()}


def start(*name):
    return values(dict(x0=wit(*name)))["x0"]


# ---------------------------------------------------------------------------
# systems
# ---------------------------------------------------------------------------

def make_fsc(n, m, T, on, tag="fsc"):
    from parallel_control.fsc_np import FSC
    data = dict(f=[wint((tag, "f", n, m), n, n, m)] * T, L=[wit((tag, "L", n, m), n, m, lo=0, hi=2)] * T, LT=wit((tag, "LT", n), n, lo=0, hi=2))
    if on is None:
        data.update(f=[wint((tag, "f", n, m, k), n, n, m) for k in range(T)], L=[wit((tag, "L", n, m, k), n, m, lo=0, hi=2) for k in range(T)])
    data = values(data)
    u, V = FSC.checkAndExpand(**share(data, False), T=T).seqBackwardPass()
    us, xs = FSC.checkAndExpand(**share(data, False), T=T).seqForwardPass(1 % n, u)

    def make():
        a = share(data, bool(on))
        o = FSC.checkAndExpand(a["f"], a["L"], a["LT"], T=T)
        g = share(dict(u=list(u), V=list(V), us=list(us), xs=list(xs)), False)
        x0 = 1 % n
        ops = {"seqBackwardPass": o.seqBackwardPass, "parBackwardPass": o.parBackwardPass,
               "seqForwardPass": lambda: o.seqForwardPass(x0, g["u"]), "parForwardPass": lambda: o.parForwardPass(x0, g["u"]),
               "parFwdBwdPass": lambda: o.parFwdBwdPass(x0, g["u"], g["V"]), "parFwdBwdPass2": lambda: o.parFwdBwdPass2(x0, g["u"], g["V"]),
               "seqSimulation": lambda: o.seqSimulation(x0, g["us"]), "cost": lambda: o.cost(g["xs"], g["us"]),
               "batch_solution": lambda: o.batch_solution(x0), "checkAndExpand": lambda: FSC.checkAndExpand(a["f"], a["L"], a["LT"])}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def make_viterbi(n, m, T, on, tag="vit"):
    from parallel_control.viterbi_np import Viterbi_np
    nrm = lambda a: a / a.sum(axis=-1, keepdims=True)
    data = dict(prior=nrm(wit((tag, "p", n), n, lo=0.1, hi=1)), Pi=nrm(wit((tag, "Pi", n), n, n, lo=0.1, hi=1)), Po=nrm(wit((tag, "Po", n, m), n, m, lo=0.1, hi=1)))
    data = values(data)
    if on:
        data = dict(prior=np.full(n, 1.0 / n), Pi=nrm(np.eye(n) + 0.5), Po=nrm(np.eye(n) + 0.5))
        m = n
    ys, zs = wint((tag, "y", n, m, T), m, T), wint((tag, "z", n, m, T), m, T + 2)

    def make():
        a = share(data, bool(on))
        o = Viterbi_np(a["prior"], a["Pi"], a["Po"])
        g = share(dict(ys=ys, zs=zs), False)
        ops = {f"{name}({k})": (lambda name=name, k=k: getattr(o, name)(g[k])) for name in
               ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi") for k in ("ys", "zs")}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def make_lqr(n, m, T, on, tag="lqr"):
    from parallel_control.lqt_np import LQR
    X = spd((tag, "X", n), n)
    data = dict(F=np.round(0.9 * wit((tag, "F", n), n, n), 4), L=wit((tag, "L", n, m), n, m), X=X, U=spd((tag, "U", m), m), XT=X if on else spd((tag, "XT", n), n))
    if on and n == m:
        data.update(F=np.eye(n), L=np.eye(n), U=np.eye(n), X=np.eye(n), XT=np.eye(n))
    data = values(data)
    K = LQR(**share(data, False)).seqBackwardPass(T)[0]

    def make():
        a = share(data, bool(on))
        o = LQR(a["F"], a["L"], a["X"], a["U"], a["XT"])
        g = share(dict(K=list(K), x0=start((tag, "x0", n), n)), False)
        ops = {"seqBackwardPass": lambda: o.seqBackwardPass(T), "seqBackwardPass+2": lambda: o.seqBackwardPass(T + 2), "parBackwardPass": lambda: o.parBackwardPass(T),
               "seqForwardPass": lambda: o.seqForwardPass(g["x0"], g["K"]), "parForwardPass": lambda: o.parForwardPass(g["x0"], g["K"]),
               "lqrDare": o.lqrDare, "lqrIter": lambda: o.lqrIter(5), "lqrDouble": lambda: o.lqrDouble(3), "lqrDouble0": lambda: o.lqrDouble(0)}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def lqt_data(n, m, p, T, on):
    from mc import lqt
    q = lqt.problem("C28", T, n, m, p, lqt.FEATURES[:6] + (() if on else ("tv",)))
    return values(dict(F=q.F, L=q.L, X=q.X, U=q.U, XT=q.XT, c=q.c, H=q.H, r=q.r, HT=q.HT, rT=q.rT, Z=q.Z, s=q.s, M=q.M))


def make_lqt(n, m, p, T, on):
    from parallel_control.lqt_np import LQT
    data = lqt_data(n, m, p, T, on)
    ref = LQT.checkAndExpand(**share(data, False), T=T)
    K, d, S, v = ref.seqBackwardPass()
    x0 = start("x0", n)
    us, xs = ref.seqForwardPass(x0, K, d)

    def make():
        a = share(data, bool(on))
        o = LQT.checkAndExpand(**a, T=T)
        g = share(dict(K=list(K), d=list(d), S=list(S), v=list(v), us=list(us), xs=list(xs), x0=x0), False)
        ops = {"seqBackwardPass": o.seqBackwardPass, "parBackwardPass": o.parBackwardPass, "seqTransformedBackwardPass": o.seqTransformedBackwardPass,
               "seqForwardPass": lambda: o.seqForwardPass(g["x0"], g["K"], g["d"]), "parForwardPass": lambda: o.parForwardPass(g["x0"], g["K"], g["d"]),
               "parFwdBwdPass": lambda: o.parFwdBwdPass(g["x0"], g["K"], g["d"], g["S"], g["v"]),
               "parFwdBwdPass2": lambda: o.parFwdBwdPass2(g["x0"], g["K"], g["d"], g["S"], g["v"]),
               "batchSolution": lambda: o.batchSolution(g["x0"]), "cost": lambda: o.cost(g["us"], g["xs"]),
               "seqSimulation": lambda: o.seqSimulation(g["x0"], g["us"]),
               "checkAndExpand": lambda: LQT.checkAndExpand(a["F"], a["L"], a["X"], a["U"], a["XT"], T=T)}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def make_condense(n, m, p, T, on):
    from parallel_control.lqt_np import LQT
    from parallel_control.condensing_np import LQTCondenser
    from mc import lqt
    q = lqt.problem("C28c", T, n, m, p, ("c", "r", "H") + (() if on else ("tv",)))
    data = values(dict(F=q.F, L=q.L, X=q.X, U=q.U, XT=q.XT, c=q.c, H=q.H, r=q.r, HT=q.HT, rT=q.rT))

    def make():
        a = share(data, bool(on))
        o = LQT.checkAndExpand(**a, T=T)
        con = LQTCondenser()
        g = share(dict(x0=start("x0", n)), False)

        def run(Nc):
            c = con.condense(o, Nc)
            K, d, S, v = c.seqBackwardPass()
            cu, cx = c.seqForwardPass(g["x0"], K, d)
            keep = shot([cu, cx])
            u, x = con.convertUX(cu, cx)
            return dict(clqt=c, K=K, S=S, cu=cu, cx=cx, u=u, x=x, again=con.convertUX(cu, cx), intact=all(np.array_equal(b[1], e[1]) for b, e in zip(shot([cu, cx]), keep)))
        ops = {f"condense({k})": (lambda k=k: run(k)) for k in range(1, T + 2)}
        ops["seqBackwardPass"] = o.seqBackwardPass
        ops["new condenser"] = lambda: LQTCondenser().condense(o, 2)
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def make_nlqt(n, m, p, T, on):
    from parallel_control.nonlinear_model_np import NonlinearModel
    from parallel_control.nlqt_np import NLQT
    model = NonlinearModel(0.1)
    xyt, _ = model.genData(20, 20 // max(1, T))
    xyt = xyt[:, :T]

    def make():
        xy = share(dict(xy=xyt), False)["xy"]
        o, x0 = model.getLQT(xy, steps=2)
        N = len(o.F)
        it = NLQT(o, model)
        g = share(dict(x0=x0, u1=[np.zeros(2) for _ in range(N)], x1=[x0.copy() for _ in range(N + 1)],
                 u2=[wit(("u", k), 2, lo=-0.3, hi=0.3) for k in range(N)], x2=[x0 + wit(("x", k), 4, lo=-0.2, hi=0.2) for k in range(N + 1)]), False)

        def twice(me):
            u, x = it.iterate(g["u1"], g["x1"], me)
            return it.iterate(u, x, me)
        ops = {f"iterate({i},{me})": (lambda i=i, me=me: it.iterate(g[f"u{i}"], g[f"x{i}"], me)) for i in (1, 2) for me in (0, 1, 2)}
        ops.update({"iterate twice": lambda: twice(0), "simulate": lambda: it.simulate(g["x0"], g["u2"]), "cost": lambda: it.cost(g["x0"], g["u2"]),
                    "linearize": lambda: it.linearize(g["u2"], g["x2"])})
        rest = {k: v for k, v in vars(o).items() if k not in ("F", "L", "c")}
        return System({"points": xy, "working problem": rest, "args": g, "model": model}, ops)
    return make


def constant(v):
    return lambda t: v           # always the same array


def make_clqr(n, m, p, T, on):
    from parallel_control.clqt_np import CLQR
    from mc.ct import CT
    q = CT("C28", n, m, p, ())
    data = values(dict(F=q.F(0.0), L=q.L(0.0), X=q.X(0.0), U=q.U(0.0), XT=q.X(0.0) if on else q.XT))
    N = 2 * T
    build = lambda a: CLQR(a["F"], a["L"], a["X"], a["U"], a["XT"], 1.0)
    ref = build(share(data, False))
    x0 = start("x0", n)
    K, S = ref.seqBackwardPass(N)[:2]
    A, b, C = ref.seqFwdBwdPass(x0, N)

    def make():
        a = share(data, bool(on))
        o = build(a)
        g = share(dict(K=list(K), S=list(S), A=list(A), b=list(b), C=list(C), x0=x0), False)
        ops = {"seqBackwardPass": lambda: o.seqBackwardPass(N), "seqBackwardPass(S)": lambda: o.seqBackwardPass(N, S=g["S"][0]), "seqBackwardPass exact": lambda: o.seqBackwardPass(N, method="exact"),
               "seqForwardPass": lambda: o.seqForwardPass(g["x0"], g["K"]), "seqForwardPass zoh": lambda: o.seqForwardPass(g["x0"], g["K"], u_zoh=True),
               "seqFwdBwdPass": lambda: o.seqFwdBwdPass(g["x0"], N), "combine": lambda: o.combineForwardBackward(g["K"], g["S"], g["A"], g["b"], g["C"]),
               "parBackwardPass": lambda: o.parBackwardPass(T, 2), "parForwardPass": lambda: o.parForwardPass(g["x0"], g["K"], T, 2),
               "parFwdBwdPass": lambda: o.parFwdBwdPass(g["x0"], g["K"], g["S"], T, 2)}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def ct_data(n, m, p, on):
    from mc.ct import CT
    q = CT("C28", n, m, p, ("c", "r", "H") if on else ("c", "r", "H", "tv"))
    a = dict(XT=q.XT, HT=q.HT, rT=q.rT)
    if on:
        a.update({k + "c": getattr(q, k)(0.0) for k in "FLXUcHr"})
    return q, values(a)


def ct_build(q, a, on):
    from parallel_control.clqt_np import CLQT
    f = {k: constant(a[k + "c"]) if on else getattr(q, k) for k in "FLXUcHr"}
    return CLQT(f["F"], f["L"], f["X"], f["U"], a["XT"], f["c"], f["H"], f["r"], a["HT"], a["rT"], 1.0)


def make_clqt(n, m, p, T, on):
    q, data = ct_data(n, m, p, on)
    N = 2 * T
    x0 = start("x0", n)
    ref = ct_build(q, share(data, False), on)
    K, d, S, v = ref.seqBackwardPass(N)
    A, b, C = ref.seqFwdBwdPass(x0, N)

    def make():
        a = share(data, bool(on))
        o = ct_build(q, a, on)
        g = share(dict(K=list(K), d=list(d), S=list(S), v=list(v), A=list(A), b=list(b), C=list(C), x0=x0), False)
        ops = {"seqBackwardPass": lambda: o.seqBackwardPass(N), "seqBackwardPass(S, v)": lambda: o.seqBackwardPass(T, dt=0.1, t0=0.2, S=g["S"][0], v=g["v"][0]),
               "seqForwardPass": lambda: o.seqForwardPass(g["x0"], g["K"], g["d"]), "seqForwardPass zoh": lambda: o.seqForwardPass(g["x0"], g["K"], g["d"], u_zoh=True),
               "seqFwdBwdPass": lambda: o.seqFwdBwdPass(g["x0"], N), "seqFwdBwdPass(A, b, C)": lambda: o.seqFwdBwdPass(g["x0"], T, A=g["A"][1], b=g["b"][1], C=g["C"][1]),
               "combine": lambda: o.combineForwardBackward(g["K"], g["d"], g["S"], g["v"], g["A"], g["b"], g["C"]),
               "parBackwardPass": lambda: o.parBackwardPass(T, 2), "parBackwardPass fw": lambda: o.parBackwardPass(T, 2, forward=True),
               "parForwardPass": lambda: o.parForwardPass(g["x0"], g["K"], g["d"], T, 2), "parForwardPass bw": lambda: o.parForwardPass(g["x0"], g["K"], g["d"], T, 2, forward=False),
               "parFwdBwdPass": lambda: o.parFwdBwdPass(g["x0"], g["K"], g["d"], g["S"], g["v"], T, 2)}
        return System({"data": a, "object": o, "args": g}, ops)
    return make


def make_parareal(n, m, p, T, on):
    from parallel_control.parareal_clqt_np import Parareal_CLQT_np
    q, data = ct_data(n, m, p, on)
    x0 = start("x0", n)
    N = 2 * T
    K, d, S, v = ct_build(q, share(data, False), on).seqBackwardPass(N)

    def make():
        a = share(data, bool(on))
        lq = ct_build(q, a, on)
        o = Parareal_CLQT_np(lq)
        g = share(dict(K=list(K), d=list(d), S=list(S), v=list(v), x0=x0), False)
        ops = {}
        for it in (1, T):
            ops[f"backwardPass({it})"] = lambda it=it: o.backwardPass(T, 2, niter=it)
            ops[f"forwardPass({it})"] = lambda it=it: o.forwardPass(T, 2, g["x0"], g["K"], g["d"], niter=it)
            ops[f"fwdBwdPass({it})"] = lambda it=it: o.fwdBwdPass(T, 2, g["x0"], niter=it)
        ops["forwardPass zoh"] = lambda: o.forwardPass(T, 2, g["x0"], g["K"], g["d"], u_zoh=True, niter=1)
        ops["backwardPass"] = lambda: o.backwardPass(T, 2)
        ops["initBackwardPass"] = lambda: o.initBackwardPass(T)
        ops["denseBackwardPass"] = lambda: o.denseBackwardPass(2, g["S"][::2], g["v"][::2])
        ops["finalBackwardPass"] = lambda: o.finalBackwardPass(2, g["S"][::2], g["v"][::2])
        ops["initForwardPass"] = lambda: o.initForwardPass(T, g["x0"], g["K"], g["d"])
        return System({"data": a, "problem": lq, "args": g}, ops)
    return make


def make_disc(n, on):
    """Discretisation and integration functions of many systems of one size (permuted, transposed, negated entries)."""
    from parallel_control import disc, diffeq_np
    base = wit(("disc", n), n, n)
    Fs = dict(plain=base, transposed=base.T.copy(), reversed=base[::-1, ::-1].copy(), shuffled=base[::-1].copy(), negated=-base,
              nilpotent=np.diag(np.ones(n - 1), 1), zero=np.zeros((n, n)))
    Ls = dict(a=wit(("discL", n), n, 1), b=wit(("discL", n), n, 1)[::-1].copy())

    def make():
        g = share(values(dict(F=Fs, L=Ls, x=wit("dx", n), Q=np.array([[0.7]]))), False)
        ops = {}
        for i, k in enumerate(g["F"]):
            ops[f"lti_disc({k})"] = lambda k=k: disc.lti_disc(g["F"][k], g["L"]["a"], g["Q"], 0.5)
            if i < 3:
                ops[f"lti_disc({k}, dt)"] = lambda k=k: disc.lti_disc(g["F"][k], g["L"]["b"], dt=0.25)
                ops[f"lti_disc_u({k})"] = lambda k=k: disc.lti_disc_u(g["F"][k], g["L"]["a"], G=g["L"]["b"], dt=0.5)
                ops[f"lti_disc_u({k}, Qc)"] = lambda k=k: disc.lti_disc_u(g["F"][k], g["L"]["b"], Qc=2.0, dt=0.5)
                ops[f"rk4({k})"] = lambda k=k: diffeq_np.rk4(lambda x, t, p: p @ x + t, 0.1, g["x"], 0.3, g["F"][k])
        return System({"args": g}, ops)
    return make


def make_hjb(n, blocks, on):
    from parallel_control import hjb_grid_1d_np as H

    def make():
        xs, us = np.linspace(-1.0, 1.2, n), np.linspace(-1.0, 1.0, 3)
        g = share(values(dict(xs=xs, us=us, V=wit(("hV", n), n, n, lo=0, hi=3), A=wit(("hA", n), n, n, lo=0, hi=3), B=wit(("hB", n), n, n, lo=0, hi=3))), False)
        o = H.HJB_Grid_1d(lambda x, u: u - 0.3 * x, lambda x, u: 0.5 * (x * x + u * u), lambda x: x * x, 0.5, blocks, 2, g["xs"])
        ops = {"assoc": lambda: o.seqBackwardPass_assoc(g["V"]), "par": lambda: o.parBackwardPass(g["V"]), "symfd": lambda: o.seqBackwardPass_symfd(g["us"]),
               "upwind": lambda: o.seqBackwardPass_upwind(g["us"]), "assoc(A)": lambda: o.seqBackwardPass_assoc(g["A"])}
        for f in ("combine_V", "combine_V2", "combine_V_interp", "combine_V_interp2"):
            ops[f] = lambda f=f: getattr(H, f)(g["A"], g["B"])
        return System({"args": g, "object": {k: v for k, v in vars(o).items() if not callable(v) and not k.startswith("_")}}, ops)
    return make


def make_sqp(n, on):
    from parallel_control import sqp_np

    def make():
        import jax.numpy as jnp
        jnp.zeros(1)
        g = share(values(dict(x=wit(("sx", n), n), c=wit(("sc", n), n), a=wit(("sa", n), n, lo=0.5, hi=1.0), G=spd(("sG", n), n), A=wit(("sA", n), 1, n, lo=0.4, hi=1.0), b=np.array([0.7]))), False)
        one = lambda x: jnp.sum((x - g["c"]) ** 2) + 0.1 * jnp.sum(x ** 4)
        two = lambda x: jnp.sum((x + g["c"]) ** 2) + 0.1 * jnp.sum(x ** 4)
        lin, cur = (lambda x: jnp.array([jnp.dot(g["a"], x) - 1.0])), (lambda x: jnp.array([jnp.dot(g["a"], x) + 0.1 * jnp.sum(x * x) - 1.0]))
        ops = {"lqe_solve": lambda: sqp_np.lqe_solve(g["G"], g["c"], g["A"], g["b"])}
        for i, f in enumerate((one, two)):
            for j, c in enumerate((lin, cur)):
                ops[f"local_eq_fast({i},{j})"] = lambda f=f, c=c: sqp_np.local_eq_fast(f, c, g["x"], 3)
                if i == j:
                    ops[f"local_eq({i},{j})"] = lambda f=f, c=c: sqp_np.local_eq(f, c, g["x"], 2, quiet=True)
                    ops[f"bfgs_eq_bt({i},{j})"] = lambda f=f, c=c: sqp_np.bfgs_eq_bt(f, c, g["x"], max_iter=3, quiet=True)
        return System({"args": g}, ops)
    return make


FUNCTIONS = ("disc", "hjb", "sqp")
MAKERS = dict(disc=make_disc, hjb=make_hjb, sqp=make_sqp, fsc=make_fsc, viterbi=make_viterbi, lqr=make_lqr, lqt=make_lqt, condense=make_condense, nlqt=make_nlqt, clqr=make_clqr, clqt=make_clqt, parareal=make_parareal)
SIZES = dict(disc=[(1,), (2,), (3,)], hjb=[(3, 2), (4, 3)], sqp=[(2,)], fsc=[(3, 2, 1), (3, 2, 3), (2, 3, 4)], viterbi=[(2, 2, 1), (3, 2, 3)], lqr=[(1, 1, 2), (2, 2, 3), (3, 2, 4)],
             lqt=[(2, 1, 1, 1), (2, 1, 1, 3), (3, 2, 2, 4)], condense=[(2, 1, 1, 3), (2, 2, 2, 4)], nlqt=[(4, 2, 3, 1), (4, 2, 3, 2)],
             clqr=[(2, 1, 1, 2), (2, 2, 2, 3)], clqt=[(2, 1, 1, 1), (2, 1, 1, 2)], parareal=[(2, 1, 1, 2), (2, 2, 1, 3)])
DEPTH = dict(disc=2, hjb=2, sqp=2, fsc=3, viterbi=2, lqr=3, lqt=2, condense=3, nlqt=2, clqr=2, clqt=2, parareal=2)


def single(rec, kind, size, on, shape, depth):
    explore(rec, (kind, size, on, shape), system(kind, size, on, shape), depth, pristine(rec, kind, size, on, shape))


def shared(rec, kind, size):
    if rec.case("shared arrays", kind, size):   # shared and separate arrays hold the same problem
        a, b = pristine(rec, kind, size, False), pristine(rec, kind, size, True)
        for k in a:
            same(rec, f"{k}: shared arrays", b[k], a[k], False)
        rec.ok(1)


def pairs(rec, kind, a, b):
    ma, mb = MAKERS[kind](*a, False), MAKERS[kind](*b, True)
    make = lambda: merge(ma(), mb())
    fresh = {**{"1." + k: v for k, v in pristine(rec, kind, a, False).items()}, **{"2." + k: v for k, v in pristine(rec, kind, b, True).items()}}
    explore(rec, ("two objects", kind, a, b), make, 2, fresh, only=lambda seq: len(seq) == 2 and seq[0][0] != seq[1][0])


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for kind, sizes in SIZES.items():
        for s in sizes:
            d = DEPTH[kind] + deep
            forms = [(False, "as is", d)] + ([] if kind in FUNCTIONS else [(True, "as is", min(d, 2)), (False, "rough", min(d, 2))])
            w = 60 if kind == "sqp" else 9
            for on, shape, depth in forms + ([(None, "as is", min(d, 2))] if kind == "fsc" else []):
                out.append((w, "single", dict(kind=kind, size=s, on=on, shape=shape, depth=depth)))
            if kind == "fsc":
                out.append((3, "shared", dict(kind=kind, size=s)))
        if len(sizes) > 1:
            out.append((8, "pairs", dict(kind=kind, a=sizes[0], b=sizes[-1])))
    return out
