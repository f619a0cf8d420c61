"""C30: a speed test measures what it says it measures.

Every benchmark runner of the package is executed with a virtual clock.  The passes of the library
are replaced by stand-ins which write an event into a history and advance the clock by an amount of
their own; so do the problem generator and the data simulation.  The history is then compared with
the protocol a runner promises: a warm-up run, n_iter measured runs of exactly the passes that make
up the named method, on the named device, on the problem of the row; the reported time is the mean
over the measured runs and nothing else; the reported error is the largest deviation, wherever in
the result it sits.
"""
import contextlib, inspect, io, itertools, re, sys, time, types
import numpy as np
from mc.core import wit

LEVEL = "model"
BOUNDS = ("all 29 runners of finite_speedtest, linear_speedtest, nonlinear_speedtest, contlin_speedtest, "
          "hjb_grid_1d_speedtest and viterbi_tf; n_iter 1..3 (thorough 1..6); every sequence of 0..2 problems (thorough "
          "0..3) out of three different sizes and 1..2 devices; every clock event with a cost of its own; every position "
          "of the result deviating from the reference, in both directions, for the runners which report an error; the "
          "Viterbi runners also on their real passes, 1..4 steps")
ASSUMPTIONS = ["The stand-ins are installed by identity in every module of the package, so it does not matter through "
               "which name a pass is called; tf.function runs eagerly meanwhile, so that every run is a run of the Python code.",
               "The order of the passes inside one run and additional runs outside the measured interval are left free."]

CLOCKS = ("time", "perf_counter", "monotonic", "process_time", "thread_time")


def parts(table):
    """The functions in a table of the module, however it is nested."""
    for u in table.values() if type(table) is dict else table:
        if type(u) in (dict, list, tuple):
            yield from parts(u)
        elif callable(u):
            yield u


def exchange(table, orig, new):
    f = lambda u: new if u is orig else exchange(u, orig, new) if type(u) in (dict, list, tuple) else u
    return {k: f(u) for k, u in table.items()} if type(table) is dict else type(table)(f(u) for u in table)


class World:
    """History, virtual clock and stand-ins."""

    def __init__(self):
        self.now = 0
        self.events = []            # (kind, name, cost, device, details)
        self.device = [None]
        self.undo = []
        self.counts = {}
        self.known, self.index = None, {}

    def tick(self):
        n = len(self.events)
        c = (n + 2) ** 3 + 7 * n + 5
        self.now += c
        return c

    def event(self, kind, name, **details):
        c = self.tick()
        self.events.append((kind, name, c, self.device[-1], details))

    # -- installation --------------------------------------------------------
    def put(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def everywhere(self, orig, new):
        if self.known != len(sys.modules):      # where every object of the package is known under which name
            self.known, self.index = len(sys.modules), {}
            for mname, mod in list(sys.modules.items()):
                if mname.split(".")[0] == "parallel_control" and mod is not None:
                    for k, v in list(vars(mod).items()):
                        self.index.setdefault(id(v), []).append((mod, k))
                        if type(v) in (dict, list, tuple) and not k.startswith("__"):
                            for u in parts(v):
                                self.index.setdefault(id(u), []).append((mod, k))
        for mod, k in self.index.get(id(orig), ()):
            v = vars(mod).get(k)
            if v is orig:
                self.put(mod, k, new)
            elif type(v) in (dict, list, tuple):
                self.put(mod, k, exchange(v, orig, new))

    def stand_in(self, mod, name, result):
        orig = getattr(mod, name)
        sig = inspect.signature(getattr(orig, "python_function", orig))

        def fake(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            n = self.counts[name] = self.counts.get(name, 0) + 1
            self.event("pass", name, args=b.arguments)
            return result(b.arguments, n)
        self.everywhere(orig, fake)

    def __enter__(self):
        import tensorflow as tf
        tf.config.run_functions_eagerly(True)
        for c in CLOCKS:
            orig = getattr(time, c)
            f = lambda: float(self.now)
            self.everywhere(orig, f)
            self.put(time, c, f)
            orig = getattr(time, c + "_ns")
            f = lambda: int(self.now) * 10 ** 9
            self.everywhere(orig, f)
            self.put(time, c + "_ns", f)
        real = tf.device

        @contextlib.contextmanager
        def device(name):
            with real(name):
                self.device.append(str(name))
                try:
                    yield
                finally:
                    self.device.pop()
        self.put(tf, "device", device)
        return self

    def __exit__(self, *exc):
        import tensorflow as tf
        for obj, name, value in reversed(self.undo):
            setattr(obj, name, value)
        self.undo = []
        tf.config.run_functions_eagerly(False)


def measured(rec, what, events, method, n_iter, device, seconds):
    """There is an interval of exactly n_iter runs of the method, after at least one warm-up run, which took
    the reported time."""
    p = len(method)
    names = [e[1] for e in events]
    want = sorted(method)
    total = float(seconds) * n_iter
    best = None
    for s in range(p, len(events) - n_iter * p + 1):
        win = events[s:s + n_iter * p]
        runs = [sorted(e[1] for e in win[i * p:(i + 1) * p]) for i in range(n_iter)]
        if any(e[0] != "pass" for e in win) or any(r != want for r in runs):
            continue
        before = [sorted(names[i:i + p]) for i in range(0, s - p + 1)]
        if want not in before:
            continue
        best = sum(e[2] for e in win)
        if abs(best - total) <= 1e-9 * max(1.0, best):
            rec.true(f"{what}: a measured run is not on the requested device",
                     all(e[3] == device for e in win), got=[e[3] for e in win], want=device)
            return win
    rec.fail(f"{what}: the reported time is not the mean of {n_iter} runs of the named method after a warm-up run",
             reported=float(seconds), history=[(e[0], e[1], e[2]) for e in events], method=method,
             last_candidate=None if best is None else best / n_iter)


def printed(rec, what, text, seconds):
    for m, s in zip(re.findall(r"took\s+([-+0-9.eE]+)\s*ms", text), seconds):
        rec.true(f"{what}: the printed time is not the reported one", abs(float(m) - 1000.0 * float(s)) <= 1e-5 * max(1.0, 1000.0 * float(s)),
                 printed=m, reported=float(s))


def capture(rec, fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = rec.call(fn, *a, **k)
    return r, out.getvalue()


# ---------------------------------------------------------------------------
# runners over a sequence of problems
# ---------------------------------------------------------------------------

def tensors(args):
    """All numbers that reach a pass."""
    import tensorflow as tf
    return [v for v in args.values() if isinstance(v, tf.Tensor)]


SIZES = ((1, 2), (3, 1), (2, 3))


def fsc_problem(k):
    import tensorflow as tf
    T, D = SIZES[k]
    i = tf.fill((T, D, 2), k)
    return (tf.constant(k), i, tf.fill((T, D, 2), float(k)), tf.fill((D,), float(k))), T, D


def lqt_problem(k):
    import tensorflow as tf
    T, n = SIZES[k]
    f = lambda *s: tf.fill(s, tf.constant(float(k), tf.float64))
    return (f(n), f(T, n, n), f(T, n), f(T, n, 1), f(T, n, n), f(n, n), f(T, n), f(n), f(T, n, n), f(n, n), f(T, 1, 1)), T, n


def nlqt_problem(k):
    x0, F, c, L, H, HT, r, rT, X, XT, U = lqt_problem(k)[0]
    import tensorflow as tf
    T, n = SIZES[k]
    f = lambda *s: tf.fill(s, tf.constant(float(k), tf.float64))
    fun = lambda *a: None
    return (f(T, 1), f(T + 1, n), fun, fun, fun, H, HT, r, rT, X, XT, U), T, n


def same(k):
    """Result of a stand-in: tensors carrying the number of the problem it was called with."""
    import tensorflow as tf

    def result(args, n):
        v = tensors(args)
        tag = float(tf.reduce_max(tf.cast(v[0], tf.float64)))
        T = max([int(t.shape[0]) for t in v if t.shape.rank] + [1])
        one = tf.fill((T, 1), tf.constant(tag, tf.float64))
        return (one,) * k
    return result


def listed(rec, family, part=0, of=1, deep=False):
    import importlib
    import tensorflow as tf
    sp = importlib.import_module("parallel_control." + dict(fsc="finite", lqt="linear", nlqt="nonlinear")[family] + "_speedtest")
    from parallel_control import fsc_tf, lqt_tf, condensing_tf, nlqt_tf
    cond = ["condense", "lqt_gen_to_canon", "lqt_canon_to_gen", "convertUX"]
    if family == "fsc":
        maker, lib = fsc_problem, {fsc_tf: dict(fsc_seq_backwardpass=2, fsc_seq_forwardpass=2, fsc_par_backwardpass=2,
                                                 fsc_par_forwardpass=2, fsc_par_fwdbwdpass=2)}
        s, p = "fsc_seq_backwardpass", "fsc_par_backwardpass"
        methods = dict(fsc_seq_bw=[s], fsc_par_bw=[p], fsc_seq_bwfw=[s, "fsc_seq_forwardpass"],
                       fsc_par_bwfw_1=[p, "fsc_par_forwardpass"], fsc_par_bwfw_2=[p, "fsc_par_fwdbwdpass"])
    elif family == "lqt":
        maker, lib = lqt_problem, {lqt_tf: dict(lqt_seq_backwardpass=4, lqt_seq_forwardpass=2, lqt_par_backwardpass=4,
                                                lqt_par_forwardpass=2, lqt_par_fwdbwdpass=2, lqt_gen_to_canon=3, lqt_canon_to_gen=2),
                                   condensing_tf: dict(condense=12, convertUX=2)}
        s, p = "lqt_seq_backwardpass", "lqt_par_backwardpass"
        sf, pf, pfb = "lqt_seq_forwardpass", "lqt_par_forwardpass", "lqt_par_fwdbwdpass"
        methods = dict(lqt_sequential_bw=[s], lqt_parallel_bw=[p], lqt_sequential_bwfw=[s, sf], lqt_parallel_bwfw_1=[p, pf],
                       lqt_parallel_bwfw_2=[p, pfb], lqt_sequential_cond_bwfw=[s, sf] + cond,
                       lqt_parallel_cond_bwfw_1=[p, pf] + cond, lqt_parallel_cond_bwfw_2=[p, pfb] + cond)
    else:
        maker, lib = nlqt_problem, {nlqt_tf: dict(nlqt_iterate_seq=2, nlqt_iterate_par_1=2, nlqt_iterate_par_2=2)}
        methods = {f"nlqt_iter_{v}": [f"nlqt_iterate_{v}"] * 10 for v in ("seq", "par_1", "par_2")}
    words = [w for L in range(0, 4 if deep else 3) for w in itertools.product(range(3), repeat=L)]
    for name, method in list(methods.items())[part::of]:
        for word in words:
            for n_iter in range(1, 7 if deep else 4):
                for device in ("/CPU:0", "/device:CPU:0"):
                    if device != "/CPU:0" and n_iter != 2:
                        continue
                    kw = {}
                    for Nc in ((1, 3) if "cond" in name else (None,)):
                        if not rec.case(name, word, n_iter, device, Nc):
                            continue
                        if Nc is not None:
                            kw["Nc"] = Nc
                        what = f"{name}_speedtest"
                        with World() as w:
                            for mod, fns in lib.items():
                                for fn, k in fns.items():
                                    w.stand_in(mod, fn, same(k))

                            def problems():
                                for j, k in enumerate(word):
                                    w.event("problem", j)
                                    yield maker(k)[0]
                                w.event("end", None)
                            (Ts, Ds, times), text = capture(rec, getattr(sp, what), problems(), n_iter=n_iter, device=device, **kw)
                        rec.true(f"{what}: one row per problem", len(Ts) == len(Ds) == len(times) == len(word),
                                 T=Ts, D=Ds, times=times)
                        rec.eq(f"{what}: column T", [int(t) for t in Ts], [SIZES[k][0] for k in word])
                        rec.eq(f"{what}: column D", [int(d) for d in Ds], [SIZES[k][1] for k in word])
                        rows, cur = [], None
                        for e in w.events:
                            if e[0] == "problem":
                                cur = []
                                rows.append(cur)
                            elif e[0] == "end":
                                cur = []
                            else:
                                cur.append(e)
                        for j, k in enumerate(word):
                            win = measured(rec, f"{what}, row {j}", rows[j], method, n_iter, device, times[j])
                            for e in win:
                                a = e[4]["args"]
                                rec.true(f"{what}, row {j}: {e[1]} runs on the data of another problem",
                                         all(bool(tf.reduce_all(tf.cast(v, tf.float64) == float(k))) for v in tensors(a)))
                                if a.get("max_parallel") is not None:
                                    rec.true(f"{what}, row {j}: {e[1]} may use {a['max_parallel']} parallel operations for "
                                             f"a horizon of {SIZES[k][0]}", int(a["max_parallel"]) >= (1 if Nc else SIZES[k][0]))
                                if e[1] == "condense":
                                    rec.true(f"{what}: length of the condensed blocks", int(a["Nc"]) == Nc, got=a["Nc"])
                                if e[1] == "convertUX":
                                    rec.true(f"{what}: horizon after condensing", int(a["T"]) == SIZES[k][0], got=a["T"])
                        printed(rec, what, text, times)
                        rec.group(name)
                        rec.ok([float(t) for t in times])


# ---------------------------------------------------------------------------
# runners which report an error against a reference solution
# ---------------------------------------------------------------------------

def bump(shape, pos, amount):
    a = np.zeros(shape)
    if pos is not None:
        a[np.unravel_index(pos, shape)] = amount
    return a


def deviations(size, deep):
    """No deviation, and a deviation at every position, up and down."""
    yield None, 0.0
    for p in range(size):
        yield p, 0.375
        yield p, -0.625


def contlin(rec, B, s, deep=False):
    import tensorflow as tf
    from parallel_control import contlin_speedtest as sp, clqt_tf, parareal_clqt_tf as para
    n, N, T = 2, B * s, 1.5
    c = lambda a: tf.constant(a, tf.float64)
    base = {"Ss": wit("S", N + 1, n, n), "xs": wit("x", N + 1, n)}
    zero = c(np.zeros((N + 1, n)))
    fun = lambda *a: None
    model = (c(np.zeros(n)), c(np.eye(n)), c(np.eye(n)), c(np.zeros(n)), c(T)) + (fun,) * 7
    sb, sf = "clqt_seq_backwardpass", "clqt_seq_forwardpass"
    pb, pf, pfb = "clqt_par_backwardpass", "clqt_par_forwardpass", "clqt_par_fwdbwdpass"
    qb, qf, qfb, comb, sfb = "pclqt_backwardpass", "pclqt_forwardpass", "pclqt_fwdbwdpass", "clqt_combine_fwdbwd", "clqt_seq_fwdbwdpass"
    # method: passes, the pass which delivers the compared result
    methods = dict(clqt_seq_bw=([sb], sb), clqt_seq_bw_fw=([sb, sf], sf), clqt_par_bw=([pb], pb), clqt_par_bw_fw=([pb, pf], pf),
                   clqt_par_bw_fwbw=([pb, pfb], pfb), clqt_parareal_bw=([qb], qb), clqt_parareal_bw_fw=([qb, qf], qf),
                   clqt_parareal_bw_fwbw=([qb, qfb, comb], comb))
    laws, paths = (sb, pb, qb), (sf, pf, pfb, qf, comb)
    for name, (method, source) in methods.items():
        key = "Ss" if source in laws else "xs"
        for n_iter in range(1, 5 if deep else 3):
            for niter in ((1, 3) if "parareal" in name else (None,)):
                for pos, amount in deviations(base[key].size, deep):
                    device = "/CPU:0" if n_iter % 2 else "/device:CPU:0"
                    if not rec.case(name, B, s, n_iter, niter, pos, amount):
                        continue
                    what = f"{name}_speedtest"
                    delta = bump(base[key].shape, pos, amount)

                    def result(fn, key=key, source=source, delta=delta, n_iter=n_iter):
                        def r(args, i):
                            d = delta if fn == source and i <= n_iter + 1 else 0.0
                            if fn in laws:
                                return c(base["Ss"] + (d if key == "Ss" else 0.0)), zero, c(np.zeros((N, 1, n))), c(np.zeros((N, 1)))
                            if fn in paths:
                                return c(base["xs"] + (d if key == "xs" else 0.0)), c(np.zeros((N, 1)))
                            return c(np.zeros((N + 1, n, n))), zero, c(np.zeros((N + 1, n, n)))
                        return r
                    with World() as w:
                        for fn in (sb, sf, sfb, comb, pb, pf, pfb):
                            w.stand_in(clqt_tf, fn, result(fn))
                        for fn in (qb, qf, qfb):
                            w.stand_in(para, fn, result(fn))
                        kw = {} if niter is None else dict(parareal_niter=niter)
                        (el, err), text = capture(rec, getattr(sp, what), model, B, s, n_iter=n_iter, device=device, **kw)
                    win = measured(rec, what, w.events, method, n_iter, device, el)
                    for e in win:
                        a = e[4]["args"]
                        if "blocks" in a:
                            rec.true(f"{what}: {e[1]} gets other blocks or steps", (int(a["blocks"]), int(a["steps"])) == (B, s),
                                     got=(a["blocks"], a["steps"]))
                        elif "steps" in a:
                            rec.true(f"{what}: {e[1]} gets another number of steps", int(a["steps"]) == N, got=a["steps"])
                        if "niter" in a:
                            rec.true(f"{what}: {e[1]} gets another number of Parareal iterations", int(a["niter"]) == niter, got=a["niter"])
                        if "max_parallel" in a:
                            rec.true(f"{what}: {e[1]} may use too few parallel operations", int(a["max_parallel"]) >= B)
                    rec.close(f"{what}: error when result {key} deviates at position {pos} by {amount}", float(err), abs(amount), 1e-12)
                    printed(rec, what, text, [el])
                    rec.group(name)
                    rec.ok(float(el))


def hjb(rec, nx, blocks, deep=False):
    import tensorflow as tf
    from parallel_control import hjb_grid_1d_speedtest as sp, hjb_grid_1d_tf as H
    c = lambda a: tf.constant(a, tf.float64)
    base = wit("V", blocks + 1, nx)
    fun = lambda *a: None
    model = (fun, fun, fun, c(7.0), c(np.linspace(0, 1, nx)), c(np.linspace(-1, 1, 4)))
    up, sh, sa, pa = "seq_bw_pass_upwind", "direct_shooting_block_V", "seq_bw_pass_assoc", "par_bw_pass"
    methods = dict(seq_upwind=([up], up), seq_assoc=([sh, sa], sa), par_assoc=([sh, pa], pa))
    for name, (method, source) in methods.items():
        for n_iter in range(1, 5 if deep else 3):
            for pos, amount in deviations(base.size, deep):
                device = "/CPU:0" if n_iter % 2 else "/device:CPU:0"
                steps, bT = (3, 0.25) if n_iter % 2 else (2, 0.125)
                if not rec.case(name, nx, blocks, n_iter, pos, amount):
                    continue
                what = f"{name}_speedtest"
                delta = bump(base.shape, pos, amount)

                def result(fn):
                    def r(args, i):
                        if fn == sh:
                            return c(np.zeros((nx, nx)))
                        return c(base + (delta if fn == source and i <= n_iter + 1 else 0.0))
                    return r
                with World() as w:
                    for fn in (up, sh, sa, pa):
                        w.stand_in(H, fn, result(fn))
                    (el, e1, e2), text = capture(rec, getattr(sp, what), model, blocks, steps=steps, block_T=bT, n_iter=n_iter, device=device)
                measured(rec, what, w.events, method, n_iter, device, el)
                for e in w.events:
                    a = e[4]["args"]
                    if "T" in a:
                        rec.close(f"{what}: horizon given to {e[1]}", float(a["T"]), bT * blocks, 1e-12)
                    if "block_T" in a:
                        rec.close(f"{what}: block length given to {e[1]}", float(a["block_T"]), bT, 1e-12)
                    if "blocks" in a:
                        rec.true(f"{what}: number of blocks given to {e[1]}", int(a["blocks"]) == blocks, got=a["blocks"])
                    if "steps" in a:
                        rec.true(f"{what}: number of steps given to {e[1]}", int(a["steps"]) == steps, got=a["steps"])
                    if "max_parallel" in a:
                        rec.true(f"{what}: parallel operations given to {e[1]}", int(a["max_parallel"]) >= blocks, got=a["max_parallel"])
                inside = pos is not None and nx // 3 <= pos % nx < 2 * nx // 3
                rec.close(f"{what}: first error, deviation {amount} at {pos}", float(e1), abs(amount), 1e-12)
                rec.close(f"{what}: second error, deviation {amount} at {pos}", float(e2), abs(amount) if inside else 0.0, 1e-12)
                printed(rec, what, text, [el])
                rec.group(name)
                rec.ok([float(el), float(e1), float(e2)])


class Chain:
    """A hidden Markov model with fixed data, simulated at a price."""

    def __init__(self, D, ys, w=None):
        self.prior = np.round(wit(("p", D), D, lo=0.2, hi=1.0), 3)
        self.Pi = np.round(wit(("P", D), D, D, lo=0.2, hi=1.0), 3)
        self.Po = np.round(wit(("O", D), D, 3, lo=0.2, hi=1.0), 3)
        self.prior, self.Pi, self.Po = (a / a.sum(axis=-1, keepdims=True) for a in (self.prior, self.Pi, self.Po))
        self.ys, self.w, self.asked = list(ys), w, []

    def genData(self, steps):
        self.asked.append(steps)
        if self.w is not None:
            self.w.event("data", "genData")
        return np.zeros(len(self.ys), dtype=int), np.array(self.ys)


def viterbi(rec, D, deep=False):
    import tensorflow as tf
    from parallel_control import viterbi_tf as V, viterbi_np, fsc_tf
    c = lambda a: tf.constant(a, tf.float64)
    fs, fp = "fsc_seq_backwardpass", "fsc_par_backwardpass"
    vs, vp = "viterbi_seq_forwardpass", "viterbi_par_forwardpass"
    methods = dict(viterbi_fsc_seq_bwfw=([fs, "fsc_seq_forwardpass"], fs), viterbi_fsc_par_bwfw=([fp, "fsc_par_forwardpass"], fp),
                   viterbi_fsc_par_bwfwbw=([fp, "fsc_par_fwdbwdpass"], fp), viterbi_seq_fwbw=([vs, "viterbi_seq_backwardpass"], vs),
                   viterbi_par_fwbw=([vp, "viterbi_par_backwardpass"], vp), viterbi_seqpar_fwbw=([vs, "viterbi_par_backwardpass"], vs),
                   viterbi_par_fwbwfw=([vp, "viterbi_par_bwfwpass"], vp))
    for T in (1, 2) if not deep else (1, 2, 3):
        ys = [(2 * i + T) % 3 for i in range(T)]
        ref = Chain(D, ys)
        base = np.asarray(viterbi_np.Viterbi_np(ref.prior, ref.Pi, ref.Po).seqViterbi(np.array(ys))[1], dtype=float)
        for name, (method, source) in methods.items():
            for n_iter in range(1, 5 if deep else 3):
                for pos, amount in deviations(base.size, deep):
                    device = "/CPU:0" if n_iter % 2 else "/device:CPU:0"
                    if not rec.case(name, D, T, n_iter, pos, amount):
                        continue
                    what = f"{name}_speedtest"
                    vals = base + bump(base.shape, pos, amount)

                    def result(fn):
                        def r(args, i):
                            x = tf.zeros((len(base),), tf.int32)
                            if fn in (fs, fp):
                                return tf.zeros((T, D), tf.int32), c(vals[::-1])
                            if fn in (vs, vp):
                                return tf.zeros((T, D), tf.int32), c(vals)
                            if fn in ("viterbi_seq_backwardpass", "viterbi_par_backwardpass"):
                                return x
                            return x, x
                        return r
                    with World() as w:
                        model = Chain(D, ys, w)
                        for fn in ("fsc_seq_backwardpass", "fsc_seq_forwardpass", "fsc_par_backwardpass", "fsc_par_forwardpass",
                                   "fsc_par_fwdbwdpass"):
                            w.stand_in(fsc_tf, fn, result(fn))
                        for fn in (vs, vp, "viterbi_seq_backwardpass", "viterbi_par_backwardpass", "viterbi_par_bwfwpass"):
                            w.stand_in(V, fn, result(fn))
                        (el, err), text = capture(rec, getattr(V, what), model, T, n_iter=n_iter, device=device)
                    rec.true(f"{what}: simulates {model.asked} steps", model.asked == [T])
                    win = measured(rec, what, w.events, method, n_iter, device, el)
                    for e in win:
                        mp = e[4]["args"].get("max_parallel")
                        rec.true(f"{what}: {e[1]} may use {mp} parallel operations", mp is None or int(mp) >= T)
                    rec.close(f"{what}: error, deviation {amount} at {pos}", float(err), abs(amount), 1e-9)
                    printed(rec, what, text, [el])
                    rec.group(name)
                    rec.ok(float(el))


def real(rec, name, lengths):
    """The Viterbi runners on their real passes: the methods agree with the NumPy reference."""
    from parallel_control import viterbi_tf as V, ge_model_np
    for D in (2, 3, 4):
        for T in lengths:
            words = [[0] * T, [(2 * i + D) % 3 for i in range(T)]]
            for ys in words:
                if not rec.case("real", name, D, T, ys):
                    continue
                (el, err), _ = capture(rec, getattr(V, name + "_speedtest"), Chain(D, ys), T, n_iter=1)
                rec.true(f"{name}_speedtest: time", float(el) >= 0.0)
                rec.close(f"{name}_speedtest: error", float(err), 0.0, 1e-9)
                rec.group("real " + name)
                rec.ok(float(err))
    if rec.case("real", name, "GE model"):
        (el, err), _ = capture(rec, getattr(V, name + "_speedtest"), ge_model_np.GEModel(), 6, n_iter=1)
        rec.close(f"{name}_speedtest: error on the GE model", float(err), 0.0, 1e-9)
        rec.ok()


def jobs(tier):
    deep = tier == "thorough"
    out = [(9, "listed", dict(family=f, part=i, of=n, deep=deep)) for f, n in (("lqt", 4), ("fsc", 2), ("nlqt", 1)) for i in range(n)]
    for B, s in ((1, 1), (2, 2), (3, 1)) if not deep else ((1, 1), (2, 2), (3, 1), (4, 3), (5, 1)):
        out.append((8, "contlin", dict(B=B, s=s, deep=deep)))
    for nx, b in ((3, 1), (5, 2), (7, 3)) if not deep else ((3, 1), (4, 2), (5, 2), (6, 3), (7, 3), (8, 4), (10, 2)):
        out.append((6, "hjb", dict(nx=nx, blocks=b, deep=deep)))
    for D in (2, 3) if not deep else (2, 3, 4):
        out.append((6, "viterbi", dict(D=D, deep=deep)))
    for m in ("viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw", "viterbi_seq_fwbw", "viterbi_par_fwbw",
              "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"):
        out.append((7, "real", dict(name=m, lengths=[1, 2, 4] if not deep else [1, 2, 3, 4, 5, 8])))
    return out
