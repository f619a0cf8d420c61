"""C31: an experiment script runs what it was asked for and saves every result under its own configuration.

The eight scripts are executed as programs (run_name __main__) inside a scratch directory, with the
benchmark runners, problem generators and decoders replaced by stand-ins which record how they are
called and return numbers of their own.  Every mask, every option, pairs of options, refused command
lines and histories of two invocations in one directory are enumerated; the calls and the directory
left behind are compared with a model of the documented behaviour.  The shipped shell recipes are run
with a recording interpreter and every command line they contain is put through the same comparison.
"""
import ast, contextlib, io, itertools, os, re, runpy, subprocess, sys, tempfile
import numpy as np
from mc.c30 import World, measured
from mc.core import VERIF

LEVEL = "model"
BOUNDS = ("all 8 scripts; all masks 0..2^bits-1 (plus one undefined bit), each with single core or not and two devices; every option alone "
          "with 2-3 values and every ordered pair of them (thorough: also triples); the same option twice; stale results of an earlier session; every ordered "
          "pair of 6-11 invocations in one directory; every command line of 1..2 (thorough 1..3) words with an unknown, malformed or unconvertible word; "
          "unknown models; every command of all 25 shell recipes; the finite-state, Viterbi and text scripts also for real on their smallest sizes")
ASSUMPTIONS = ["Runners, generators, decoders and the probability tables of the text model are stand-ins bound to the real signatures; "
               "what they do themselves is the subject of C30, C17 and C26.",
               "The res directory exists, as the README asks; the two text files, which are not in the repository, are supplied by the check."]

REPO = os.environ.get("VERIF_REPO", "/repo")
TEXT1 = "the cat sat on the mat and the rat ran"
TEXT2 = "a rat sat on that cat"

# script: directory, options in order with default and kind, model choices
S, I, F = str, int, float
SCRIPTS = {
    "finite": ("experiments-bellman", dict(start=(2, F), stop=(5, F), num=(20, I), nx=(21, I), single=(0, I), device=("/CPU:0", S), mask=(31, I))),
    "linear": ("experiments-bellman", dict(model=("tracking", S), start=(2, F), stop=(5, F), num=(20, I), n=(4, I), nc=(4, I), single=(0, I),
                                           device=("/CPU:0", S), mask=(65535, I))),
    "nonlinear": ("experiments-bellman", dict(start=(2, F), stop=(5, F), num=(20, I), single=(0, I), device=("/CPU:0", S), mask=(7, I))),
    "contlin": ("experiments-hjb", dict(model=("tracking", S), start=(2, F), stop=(3, F), num=(5, I), steps=(10, I), n=(4, I), niter=(2, I),
                                        single=(0, I), device=("/CPU:0", S), mask=(65535, I))),
    "nonlin": ("experiments-hjb", dict(model=("velocity", S), start=(2, F), stop=(3, F), num=(5, I), steps=(10, I), n=(20, I), single=(0, I),
                                       device=("/CPU:0", S), mask=(65535, I))),
    "viterbi": ("experiments-viterbi", dict(model=("ge", S), start=(2, F), stop=(3, F), num=(5, I), steps=(10, I), single=(0, I),
                                            device=("/CPU:0", S), mask=(65535, I))),
    "text": ("experiments-viterbi", dict(order=(1, I), single=(0, I), device=("/CPU:0", S), mask=(65535, I))),
    "text_2": ("experiments-viterbi", dict(order=(1, I), single=(0, I), steps=(-1, I), device=("/CPU:0", S), mask=(65535, I))),
}
FILES = {k: "run_%s_experiments.py" % k for k in SCRIPTS}
FILES["text_2"] = "run_text_experiments_2.py"

VALUES = dict(start=["1", "0.5"], stop=["4", "3.25"], num=["1", "3"], nx=["5", "2"], n=["2", "7"], nc=["2", "16"], steps=["3", "7"],
              niter=["1", "5"], single=["1", "2"], device=["/GPU:0", "/device:CPU:1", "cpu"], mask=["1", "6"], order=["2", "3"], model=[])

# name of the result (a format of the options), runner, in the order of the bits of the mask
RUNNERS = {
    "finite": [("finite_seq_bw_{nx}", "fsc_seq_bw"), ("finite_par_bw_{nx}", "fsc_par_bw"), ("finite_seq_bwfw_{nx}", "fsc_seq_bwfw"),
               ("finite_par_bwfw_1_{nx}", "fsc_par_bwfw_1"), ("finite_par_bwfw_2_{nx}", "fsc_par_bwfw_2")],
    "linear": [("{model}_{n}_sequential_bw", "lqt_sequential_bw"), ("{model}_{n}_parallel_bw", "lqt_parallel_bw"),
               ("{model}_{n}_sequential_bwfw", "lqt_sequential_bwfw"), ("{model}_{n}_parallel_bwfw_1", "lqt_parallel_bwfw_1"),
               ("{model}_{n}_parallel_bwfw_2", "lqt_parallel_bwfw_2"), ("{model}_{n}_sequential_cond{nc}_bwfw", "lqt_sequential_cond_bwfw"),
               ("{model}_{n}_parallel_cond{nc}_bwfw_1", "lqt_parallel_cond_bwfw_1"),
               ("{model}_{n}_parallel_cond{nc}_bwfw_2", "lqt_parallel_cond_bwfw_2")],
    "nonlinear": [("nonlinear_" + v, "nlqt_iter_" + v) for v in ("seq", "par_1", "par_2")],
    "contlin": [("{model}_{n}_" + v, "clqt_" + v) for v in ("seq_bw", "seq_bw_fw", "par_bw", "par_bw_fw", "par_bw_fwbw")]
    + [("{model}_{n}_parareal_{niter}_" + v, "clqt_parareal_" + v) for v in ("bw", "bw_fw", "bw_fwbw")],
    "nonlin": [("{model}_{n}_" + v, v) for v in ("seq_upwind", "seq_assoc", "par_assoc")],
    "viterbi": [("{model}_" + v, v) for v in ("viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw")],
}
DECODERS = ["viterbi_seq_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbw", "viterbi_par_fwbwfw"]
BITS = dict({k: len(v) for k, v in RUNNERS.items()}, text=4, text_2=4)


def options(script, words):
    cfg = {k: v for k, (v, _) in SCRIPTS[script][1].items()}
    for w in words:
        k, v = w.split("=")
        cfg[k] = SCRIPTS[script][1][k][1](v)
    return cfg


def device_text(cfg):
    return "".join(ch.lower() for ch in cfg["device"] if ch.isalpha()) + ("_sc" if cfg["single"] else "_mc")


def number(*key):
    """A positive number with six decimals, of its own for every key."""
    import zlib
    h = zlib.crc32(repr(key).encode())
    return (h % 9999991) * 1e-6 + 0.000001


# ---------------------------------------------------------------------------
# the world a script runs in
# ---------------------------------------------------------------------------

class Exhausted(list):
    pass


class Lab(World):
    """Stand-ins for everything a script calls."""

    def __enter__(self):
        super().__enter__()
        import tensorflow as tf
        from parallel_control import (finite_speedtest, linear_speedtest, nonlinear_speedtest, contlin_speedtest,
                                      hjb_grid_1d_speedtest, viterbi_tf, text_model)
        tf.config.run_functions_eagerly(False)
        self.calls = []
        self.threads = []
        self.put(tf.config.threading, "set_intra_op_parallelism_threads", lambda k: self.threads.append(("intra", k, len(self.calls))))
        self.put(tf.config.threading, "set_inter_op_parallelism_threads", lambda k: self.threads.append(("inter", k, len(self.calls))))
        for mod, names in ((finite_speedtest, ["finite_generator"]), (linear_speedtest, ["tracking_generator", "mass_generator"]),
                           (nonlinear_speedtest, ["nonlinear_generator"])):
            for n in names:
                self.wrap(mod, n, self.generator)
        for mod, script in ((finite_speedtest, "finite"), (linear_speedtest, "linear"), (nonlinear_speedtest, "nonlinear")):
            for _, n in RUNNERS[script]:
                self.wrap(mod, n + "_speedtest", self.over_problems)
        self.wrap(contlin_speedtest, "clqr_get_tracking_model", lambda name, a: ("model", name, dict(a)))
        self.wrap(hjb_grid_1d_speedtest, "get_model", lambda name, a: ("model", name, dict(a)))
        for _, n in RUNNERS["contlin"]:
            self.wrap(contlin_speedtest, n + "_speedtest", self.one_problem)
        for _, n in RUNNERS["nonlin"]:
            self.wrap(hjb_grid_1d_speedtest, n + "_speedtest", self.one_problem)
        for _, n in RUNNERS["viterbi"]:
            self.wrap(viterbi_tf, n + "_speedtest", self.one_problem)
        return self

    def wrap(self, mod, name, fn):
        import inspect
        orig = getattr(mod, name)
        sig = inspect.signature(getattr(orig, "python_function", orig))

        def fake(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return fn(name, b.arguments)
        self.everywhere(orig, fake)

    def generator(self, name, a):
        kind = (name, tuple(sorted((k, getattr(v, "name", v)) for k, v in a.items())))
        return iter([(kind, i) for i in range(a["num"])])

    def over_problems(self, name, a):
        gen = next(v for k, v in a.items() if k.endswith("gen"))
        items = list(gen)
        rest = {k: v for k, v in a.items() if not k.endswith("gen")}
        self.calls.append((name, [k for k, _ in items], rest))
        T, D, t = row_numbers(name, len(items))
        return T, D, t

    def one_problem(self, name, a):
        a = dict(a)
        size = a["steps"] if "blocks" not in a else a["blocks"]
        self.calls.append((name, type(size), a))
        return tuple(number(name, int(size), j) for j in range(3 if name in ("seq_upwind_speedtest", "seq_assoc_speedtest", "par_assoc_speedtest") else 2))


def row_numbers(name, n):
    import zlib
    b = zlib.crc32(name.encode()) % 1000
    return [100 * b + i for i in range(n)], [b + 3 + 2 * i for i in range(n)], [number(name, i) for i in range(n)]


@contextlib.contextmanager
def scratch():
    """The layout the scripts expect: <root>/notebooks/text*.txt and <root>/exp/res, with <root>/exp current."""
    with tempfile.TemporaryDirectory(prefix="c31_") as root:
        os.makedirs(os.path.join(root, "notebooks"))
        os.makedirs(os.path.join(root, "exp", "res"))
        for name, text in (("text1.txt", TEXT1), ("text2.txt", TEXT2)):
            with open(os.path.join(root, "notebooks", name), "w") as f:
                f.write(text)
        old = os.getcwd()
        os.chdir(os.path.join(root, "exp"))
        try:
            yield os.path.join(root, "exp", "res")
        finally:
            os.chdir(old)


def read(res):
    out = {}
    for base, _, names in os.walk(res):
        for n in names:
            p = os.path.join(base, n)
            with open(p) as f:
                out[os.path.relpath(p, res)] = f.read()
    return out


def execute(script, words):
    """Run the script as a program; returns (exit code or None, output)."""
    path = os.path.join(REPO, SCRIPTS[script][0], FILES[script])
    here = os.path.dirname(path)
    keep = (list(sys.argv), list(sys.path), dict(os.environ), sys.dont_write_bytecode, set(sys.modules))
    sys.argv = [path] + list(words)
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    out, code = io.StringIO(), None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_path(path, run_name="__main__")
            except SystemExit as e:
                code = e.code if e.code is not None else 0
    finally:
        sys.argv, sys.path = keep[0], keep[1]
        sys.dont_write_bytecode = keep[3]
        for k in set(os.environ) - set(keep[2]):
            del os.environ[k]
        os.environ.update(keep[2])
        for m in set(sys.modules) - keep[4]:
            f = getattr(sys.modules[m], "__file__", None)
            if f and os.path.dirname(os.path.abspath(f)) == here:
                del sys.modules[m]
    return code, out.getvalue()


# ---------------------------------------------------------------------------
# the model
# ---------------------------------------------------------------------------

def sizes(cfg):
    return [int(v) for v in np.logspace(cfg["start"], cfg["stop"], num=cfg["num"], base=10).astype(int)]


def expected(script, cfg):
    """{file: rows} and {config file: configuration}, and the calls in terms of the stand-ins."""
    data, conf, calls = {}, {}, []
    dev = device_text(cfg)
    for bit, (fmt, runner) in enumerate(RUNNERS[script]):
        if not cfg["mask"] & (1 << bit):
            continue
        name = fmt.format(**cfg) + "_" + dev
        fn = runner + "_speedtest"
        if script in ("finite", "linear", "nonlinear"):
            g = dict(start=cfg["start"], stop=cfg["stop"], num=cfg["num"], dtype="float64")
            if script == "finite":
                gen = "finite_generator"
                g.update(nx=cfg["nx"], dtype="float32")
            elif script == "nonlinear":
                gen = "nonlinear_generator"
            elif cfg["model"] == "tracking":
                gen = "tracking_generator"
            else:
                gen = "mass_generator"
                g.update(N=cfg["n"])
            kind = (gen, tuple(sorted(g.items())))
            rest = dict(n_iter=10, device=cfg["device"])
            if "cond" in runner:
                rest["Nc"] = cfg["nc"]
            calls.append((fn, [kind] * cfg["num"], rest))
            data[name + ".txt"] = [list(r) for r in zip(*row_numbers(fn, cfg["num"]))]
        else:
            rows = []
            for s in sizes(cfg):
                rest = dict(n_iter=10, device=cfg["device"])
                if script == "viterbi":
                    rest.update(model="GEModel", steps=s)
                    rows.append([s, number(fn, s, 0), number(fn, s, 1)])
                elif script == "contlin":
                    rest.update(model=("model", "clqr_get_tracking_model", {"dtype": "float64"}), blocks=s, steps=cfg["steps"])
                    if "parareal" in runner:
                        rest["parareal_niter"] = cfg["niter"]
                    rows.append([s, 4, number(fn, s, 0), number(fn, s, 1)])
                else:
                    rest.update(model=("model", "get_model", {"x_grid_steps": cfg["n"], "u_grid_steps": cfg["n"]}), blocks=s,
                                steps=cfg["steps"], block_T=0.1)
                    rows.append([s, cfg["n"]] + [number(fn, s, j) for j in range(3)])
                calls.append((fn, int, rest))
            data[name + ".txt"] = rows
            conf[name + "_config.txt"] = cfg
    return data, conf, calls


def tidy(call):
    """A recorded call in the terms of the model."""
    name, what, a = call
    a = dict(a)
    if "model" in a:
        m = a["model"]
        a["model"] = (m[0], m[1], {k: getattr(v, "name", v) for k, v in m[2].items()}) if isinstance(m, tuple) else type(m).__name__
    return (name, what, a)


def table(text):
    return [[float(v) for v in line.split()] for line in text.splitlines()]


def compare_files(rec, what, got, data, conf, others=()):
    want = set(data) | set(conf) | set(others)
    rec.true(f"{what}: the result files are not the ones of the selected benchmarks", set(got) == want,
             missing=sorted(want - set(got)), unexpected=sorted(set(got) - want))
    for name, rows in data.items():
        rec.true(f"{what}: {name} does not hold the results of that benchmark", same_table(table(got[name]), rows), got=got[name], want=rows)
    for name, cfg in conf.items():
        try:
            c = ast.literal_eval(got[name])
        except (ValueError, SyntaxError):
            c = got[name]
        rec.true(f"{what}: {name} is not the configuration the results were made with", c == cfg, got=got[name], want=cfg)


def same_table(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= 1.1e-6 * max(1.0, abs(v)) for u, v in zip(x, y)) for x, y in zip(a, b))


def compare_threads(rec, what, lab, cfg):
    want = {("intra", 1), ("inter", 1)} if cfg["single"] else set()
    rec.true(f"{what}: single core mode", {t[:2] for t in lab.threads} == want and all(t[2] == 0 for t in lab.threads),
             got=lab.threads, single=cfg["single"])


def invoke(rec, script, words, res, before=None):
    """One invocation under the stand-ins, compared with the model."""
    cfg = options(script, words)
    what = f"{FILES[script]} {' '.join(words)}".strip()
    if script.startswith("text"):
        return invoke_text(rec, script, words, cfg, what, res, before)
    data, conf, calls = expected(script, cfg)
    with Lab() as lab:
        code, out = rec.call(execute, script, words)
    rec.true(f"{what}: stops with {code!r}", not code, output=out[-400:])
    got = [tidy(c) for c in lab.calls]
    rec.true(f"{what}: the benchmarks run are not the selected ones", sorted(c[0] for c in got) == sorted(c[0] for c in calls),
             got=[c[0] for c in got], want=[c[0] for c in calls])
    for g, w in zip(sorted(got, key=lambda c: c[0]), sorted(calls, key=lambda c: c[0])):
        rec.true(f"{what}: {g[0]} runs on other problems than requested", g[1] == w[1], got=g[1], want=w[1])
        rec.true(f"{what}: {g[0]} runs with other settings than requested", g[2] == w[2], got=g[2], want=w[2])
    compare_threads(rec, what, lab, cfg)
    compare_files(rec, what, read(res), data, conf, before or ())
    return data, conf


def decoded(method, text):
    """What the stand-in of a decoder returns: the text with some letters, in places of its own, replaced."""
    wrong = {(3 * j + 2 * method) % len(text) for j in range(method + 1)}
    return "".join(("b" if c != "b" else "c") if i in wrong else c for i, c in enumerate(text))


def invoke_text(rec, script, words, cfg, what, res, before):
    import tensorflow as tf
    from parallel_control import viterbi_tf, text_model
    steps = cfg.get("steps", -1)
    text = TEXT2 if steps < 0 or steps > len(TEXT2) else TEXT2[:steps]
    noisy = "".join("z" if i % 4 == 1 else c for i, c in enumerate(text))
    order, dev = cfg["order"], device_text(cfg)
    tags = {("Po", TEXT1): 1.0}

    def tag(kind, o, t):
        return float(sum(map(ord, t)) + 1000 * len(kind) + o)
    with Lab() as lab:
        TM = text_model.TextModel
        lab.put(TM, "getNthOrderPo", lambda self: np.full((2, 2), tag("Po", self.order, "")))
        lab.put(TM, "getNthOrderPi", lambda self, t: np.full((2, 2), tag("Pi_", self.order, t)))
        lab.put(TM, "getNthOrderPrior", lambda self, t: np.full((2,), tag("prior", self.order, t)))
        lab.put(TM, "makeNoisyText", lambda self, t: "".join("z" if i % 4 == 1 else c for i, c in enumerate(t)))
        small = TM(order=1)
        paths = {}
        for m, name in enumerate(DECODERS):
            idx = [0] + [int(i) + (27 * 5 if order > 1 else 0) for i in small.textToIndex(decoded(m + 1, text))]
            paths[name] = (tf.constant(idx, tf.int32), tf.constant([0.0], tf.float64))
            lab.stand_in(viterbi_tf, name, lambda args, n, name=name: paths[name])
        code, out = rec.call(execute, script, words)
    rec.true(f"{what}: stops with {code!r}", not code, output=out[-400:])
    base = f"text_{order}_{dev}" if script == "text" else f"text_steps_{order}_{len(text)}_{dev}"
    got = read(res)
    rows = []
    chosen = [(m + 1, n) for m, n in enumerate(DECODERS) if cfg["mask"] & (1 << m)]
    seen = [e for e in lab.events if e[0] == "pass"]
    rec.true(f"{what}: the decoders run are not the selected ones", {e[1] for e in seen} == {n for _, n in chosen},
             got=sorted({e[1] for e in seen}), want=sorted(n for _, n in chosen))
    rec.true(f"{what}: no file {base}.txt with a row for every selected method", base + ".txt" in got
             and [r[0] for r in table(got[base + ".txt"])] == [m for m, _ in chosen], got=got, want=[m for m, _ in chosen])
    for (m, name), row in zip(chosen, table(got[base + ".txt"])):
        measured(rec, f"{what}, method {m}", [e for e in seen if e[1] == name], [name], 10, cfg["device"], row[-2])
        for e in seen:
            if e[1] == name:
                a = [np.asarray(v) for v in e[4]["args"].values() if isinstance(v, tf.Tensor)]
                ok = (len(a) == 4 and float(a[0].max()) == tag("prior", order, TEXT1) and float(a[1].max()) == tag("Pi_", order, TEXT1)
                      and float(a[2].max()) == tag("Po", order, "") and a[3].tolist() == small.textToIndex(noisy).tolist())
                rec.true(f"{what}: {name} decodes something else than the noisy text with the trained model", ok, got=e[4]["args"])
        d = decoded(m, text)
        err = sum(x != y for x, y in zip(d, text)) / len(text)
        rows.append([m, order] + ([len(text)] if script == "text_2" else []) + [row[-2], err])
    compare_threads(rec, what, lab, cfg)
    data, conf = {base + ".txt": rows}, {base + "_config.txt": cfg}
    compare_files(rec, what, got, data, conf, before or ())
    return data, conf


# ---------------------------------------------------------------------------
# jobs
# ---------------------------------------------------------------------------

def single_run(rec, script, words, stale=False):
    if not rec.case(script, words, stale):
        return
    with scratch() as res:
        if stale:
            cfg = options(script, words)
            if script.startswith("text"):
                steps = cfg.get("steps", -1)
                n = len(TEXT2) if steps < 0 or steps > len(TEXT2) else steps
                base = f"text_{cfg['order']}_{device_text(cfg)}" if script == "text" else f"text_steps_{cfg['order']}_{n}_{device_text(cfg)}"
                names = [base + ".txt", base + "_config.txt"]
            else:
                data, conf, _ = expected(script, cfg)
                names = list(data) + list(conf)
            for n in names:
                with open(os.path.join(res, n), "w") as f:
                    f.write("9 9 9 9 9\n" * 200)
        invoke(rec, script, words, res)
    rec.group(script)
    rec.ok((script, words))


def choices(script):
    for k in SCRIPTS[script][1]:
        vals = list(VALUES[k])
        if k == "model":
            vals = dict(linear=["tracking", "mass"], contlin=["tracking"], nonlin=["velocity"], viterbi=["ge"])[script]
        if script == "text_2" and k == "steps":
            vals = ["3", "7", "1", "20", "21", "22", "-5"]
        yield k, vals


def masks(rec, script, part=0, of=1, deep=False):
    every = list(range(1 << BITS[script])) + [1 << BITS[script], (1 << BITS[script]) + 1]
    for mask in every[part::of]:
        for extra in ([], ["single=1"], ["device=/GPU:0"], ["single=1", "device=/GPU:0"]):
            single_run(rec, script, [f"mask={mask}"] + extra)
            if script == "linear":
                single_run(rec, script, ["model=mass", f"mask={mask}"] + extra)


def opts(rec, script, deep=False):
    full = f"mask={(1 << BITS[script]) - 1}"
    alone = [(k, f"{k}={v}") for k, vals in choices(script) for v in vals]
    for stale in (False, True):
        single_run(rec, script, [], stale)
        single_run(rec, script, [full], stale)
        for k, w in alone:
            single_run(rec, script, [w], stale)
    for (k1, a), (k2, b) in itertools.permutations(alone, 2):
        if k1 == k2 and a == b:
            continue
        single_run(rec, script, [a, b])
    if deep:
        for (k1, a), (k2, b), (k3, c) in itertools.combinations(alone, 3):
            single_run(rec, script, [c, a, b])
    for k, v in SCRIPTS[script][1].items():
        if v[1] is F:
            single_run(rec, script, [f"{k}={v[0]}.0"])
            single_run(rec, script, [f"{k}=0.75", "num=2"])


def history(rec, script, deep=False):
    """Two invocations in one directory: what the second does not replace stays, under its own configuration."""
    cfgs = [[]]
    for k, vals in choices(script):
        for v in vals[:2 if deep or k in ("model", "steps", "order") else 1]:
            if [f"{k}={v}"] not in cfgs:
                cfgs.append([f"{k}={v}"])
    for a, b in itertools.product(cfgs, repeat=2):
        if not rec.case(script, a, b):
            continue
        with scratch() as res:
            da, ca = invoke(rec, script, a, res)
            first = read(res)
            db, cb = invoke(rec, script, b, res, before=list(first))
            got = read(res)
            for name in first:
                if name not in db and name not in cb:
                    rec.true(f"{FILES[script]} {' '.join(b)} changes {name}, a result of '{' '.join(a)}'", got[name] == first[name],
                             got=got[name], before=first[name])
            for name, rows in da.items():
                if name not in db and ca:
                    cname = name[:-4] + "_config.txt"
                    rec.true(f"{name} of '{' '.join(a)}' lies beside another configuration after '{' '.join(b)}'",
                             ast.literal_eval(got[cname]) == ca[cname], got=got[cname], want=ca[cname])
        rec.group(script)
        rec.ok((script, a, b))


BAD = ["num", "=", "", "num=1=2", "foo=1", "Num=1", "--help", "=3", "num=x", "mask=", "single=1.5"]


def refuse(rec, script, deep=False):
    """A command line with a word the script does not know: usage, failure, nothing run, nothing written."""
    opt = SCRIPTS[script][1]
    good = ["mask=1", "single=0"]
    lines = []
    for n in range(1, 4 if deep else 3):
        for line in itertools.product(BAD + good, repeat=n):
            if any(w in BAD for w in line) and (n < 3 or sum(w in BAD for w in line) == 1):
                lines.append(list(line))
    for k in sorted(set().union(*[s[1] for s in SCRIPTS.values()]) - set(opt)):
        lines.append([f"{k}=1"])
    for line in lines:
        if not rec.case(script, line):
            continue
        what = f"{FILES[script]} {line}"
        with scratch() as res, Lab() as lab:
            try:
                code, out = rec.call(execute, script, line)
            except ValueError:
                code, out = "ValueError", None
            rec.true(f"{what}: a refused command line still runs or writes something", lab.calls == [] and lab.events == [] and read(res) == {},
                     calls=[c[0] for c in lab.calls], files=sorted(read(res)))
        rec.true(f"{what}: accepted", bool(code), code=code)
        first = [w for w in line if w in BAD or w not in good][0]
        if first not in ("num=x", "mask=", "single=1.5") or "num" not in opt and first == "num=x":
            rec.true(f"{what}: refused without the usage", out is not None and FILES[script] in out and all(f"[{k}={v[0]}]" in out for k, v in opt.items()),
                     code=code, output=out)
        rec.group(script)
        rec.ok((script, line))
    # what the usage offers is accepted, literally
    if rec.case(script, "usage"):
        with Lab():
            code, out = rec.call(execute, script, ["?"])
        offered = re.findall(r"\[(\w+=[^\]]*)\]", out)
        rec.eq(f"{FILES[script]}: options offered", sorted(w.split("=")[0] for w in offered), sorted(opt))
        for n in (1, len(offered)):
            for part in ([[w] for w in offered] if n == 1 else [offered]):
                with scratch() as res:
                    invoke(rec, script, part, res)
        rec.ok("usage")
    bad_models = dict(linear=["", "ge", "Tracking"], contlin=["mass", "", "x"]).get(script, [])
    for m in bad_models:
        for mask in ("255", "1"):
            if not rec.case(script, "model", m, mask):
                continue
            with scratch() as res, Lab() as lab:
                code, out = rec.call(execute, script, [f"model={m}", f"mask={mask}"])
                rec.true(f"{FILES[script]} model={m}: an unknown model must be refused", bool(code) and lab.calls == [] and read(res) == {},
                         code=code, calls=[c[0] for c in lab.calls])
            rec.ok(m)


def recipes(rec, directory, part=0, of=1, deep=False):
    """Every command of the shipped shell recipes is one the script accepts and does what its options say."""
    folder = os.path.join(REPO, directory)
    names = sorted(n for n in os.listdir(folder) if n.endswith(".sh"))
    rec.true(f"{directory}: shell recipes", len(names) >= 4, got=names)
    for name in names[part::of]:
        with tempfile.TemporaryDirectory(prefix="c31_") as d:
            bin_ = os.path.join(d, "bin")
            os.makedirs(bin_)
            for p in ("python", "python3"):
                with open(os.path.join(bin_, p), "w") as f:
                    f.write("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\t' \"$a\"; done >> log\nprintf '\\n' >> log\n")
                os.chmod(os.path.join(bin_, p), 0o755)
            r = rec.call(subprocess.run, ["/bin/sh", os.path.join(folder, name)], cwd=d, env={"PATH": bin_}, capture_output=True, text=True, timeout=60)
            rec.true(f"{name}: fails", r.returncode == 0, err=r.stderr)
            with open(os.path.join(d, "log")) as f:
                lines = [l.rstrip("\n").rstrip("\t").split("\t") for l in f]
        rec.true(f"{name}: runs nothing", lines != [])
        for line in lines:
            if not rec.case(name, line):
                continue
            script = [k for k, v in FILES.items() if v == os.path.basename(line[0])]
            rec.true(f"{name}: {line[0]} is not a script of {directory}", len(script) == 1 and SCRIPTS[script[0]][0] == directory
                     and os.path.exists(os.path.join(folder, line[0])))
            with scratch() as res:
                invoke(rec, script[0], line[1:], res)
            rec.group(directory)
            rec.ok((name, line))


def real(rec, script, deep=False):
    """The smallest experiment, on the real code."""
    lines = dict(finite=[["start=0.31", "stop=0.5", "num=2", "nx=2", "mask=%d" % m] for m in (5, 26)],
                 viterbi=[["start=0.31", "stop=0.31", "num=1", "mask=%d" % m] for m in (5, 10)],
                 text=[["order=1", "mask=%d" % m] for m in (1, 2)],
                 text_2=[["order=1", "steps=2", "mask=1"]],
                 nonlinear=[["start=0.31", "stop=0.31", "num=1", "mask=1"]],
                 linear=[["start=0.31", "stop=0.5", "num=1", "nc=2", "mask=37"]],
                 contlin=[["start=0.31", "stop=0.31", "num=1", "steps=2", "mask=2"]],
                 nonlin=[["start=0.31", "stop=0.31", "num=1", "steps=2", "n=5", "mask=2"]])[script]
    columns = dict(finite=3, linear=3, nonlinear=3, contlin=4, nonlin=5, viterbi=3, text=4, text_2=5)[script]
    for line in lines:
        if not rec.case(script, line):
            continue
        cfg = options(script, line)
        what = f"{FILES[script]} {' '.join(line)}"
        with scratch() as res:
            code, out = rec.call(execute, script, line)
            got = read(res)
        rec.true(f"{what}: stops with {code!r}", not code, output=out[-400:])
        tables = {k: table(v) for k, v in got.items() if not k.endswith("_config.txt")}
        if script.startswith("text"):
            rec.true(f"{what}: one file", len(tables) == 1, got=sorted(got))
            n = bin(cfg["mask"] & 15).count("1")
        else:
            data, conf, _ = expected(script, cfg)
            rec.eq(f"{what}: files", sorted(got), sorted(list(data) + list(conf)))
            n = cfg["num"]
        for k, t in tables.items():
            rec.true(f"{what}: {k} has {n} rows of {columns} finite numbers and positive times", len(t) == n and all(len(r) == columns for r in t)
                     and np.isfinite(np.array(t)).all(), got=t)
            if not script.startswith("text"):
                rec.eq(f"{what}: {k}, horizons", [int(r[0]) for r in t], [int(v) for v in np.logspace(cfg["start"], cfg["stop"], num=cfg["num"], base=10).astype(int)])
        rec.group(script)
        rec.ok((script, line))


def jobs(tier):
    deep = tier == "thorough"
    j = []
    for s in SCRIPTS:
        of = 4 if BITS[s] == 8 else 1
        for p in range(of):
            j.append((10, "masks", dict(script=s, part=p, of=of, deep=deep)))
        j.append((12, "opts", dict(script=s, deep=deep)))
        j.append((6, "history", dict(script=s, deep=deep)))
        j.append((6, "refuse", dict(script=s, deep=deep)))
    for d, of in (("experiments-bellman", 2), ("experiments-hjb", 1), ("experiments-viterbi", 1)):
        for p in range(of):
            j.append((5, "recipes", dict(directory=d, part=p, of=of, deep=deep)))
    for s in ("finite", "viterbi", "text", "text_2") + (("nonlinear", "linear", "contlin", "nonlin") if deep else ()):
        j.append((20, "real", dict(script=s, deep=deep)))
    return j
