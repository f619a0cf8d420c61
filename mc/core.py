"""Exploration framework.

A check is a module mc/cXX.py with

    LEVEL, ASSUMPTIONS, BOUNDS
    def jobs(tier) -> list of (weight, function name, kwargs)

Every job function gets a Recorder and enumerates *all* cases of a bounded space.  For each case it
drives the real code of /repo and compares every observable with a reference model.  Three
independent counters are kept:

    states       distinct cases (input structure x data x configuration), deduplicated by their key
    transitions  executions of an operation of the real code
    validated    complete executions whose observables were all compared with the reference model

Jobs run in spawned worker processes.  A case that fails (or in which the code under test raises)
is written to a replay file, which `check.py --replay FILE` runs again, alone.
"""
import hashlib, json, os, sys, time, traceback, zlib
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


def plain(o):
    """JSON-able rendering of a case or observation."""
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, (str, bool, int, float)) or o is None:
        return o
    if isinstance(o, np.generic):
        return o.item()
    if hasattr(o, "numpy"):
        o = o.numpy()
    if hasattr(o, "__array__"):
        return np.asarray(o).tolist()
    return repr(o)


class Recorder:
    def __init__(self, only=None, job="", deadline=None, known=()):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = set()
        self.samples = []
        self.groups = {}
        self.key = None
        self.only = only
        self.job = job
        self.deadline = deadline
        self.capped = False
        self.known = known
        self.known_hits = []

    # -- cases ---------------------------------------------------------------
    def case(self, *key):
        """Enter a case; False if it is to be skipped (replay of another one)."""
        s = repr(key)
        if self.only is not None and s != self.only:
            return False
        self.key = s
        h = hashlib.blake2b(s.encode(), digest_size=8).digest()
        self.states.add(h)
        return True

    def group(self, name, n=1):
        self.groups[name] = self.groups.get(name, 0) + n

    def call(self, fn, *a, **k):
        self.transitions += 1
        return fn(*a, **k)

    def ok(self, outcome=None, sample=None):
        """The current case agreed with the reference model on every observable."""
        self.validated += 1
        if outcome is not None:
            try:
                b = np.round(np.asarray(outcome, dtype=float), 6).tobytes()
            except Exception:
                b = repr(outcome).encode()
            self.outcomes.add(zlib.crc32(b))
        n = self.validated
        if len(self.samples) < 2 and (n == 1 or n == 7):
            self.samples.append({"case": self.key, "observed": plain(sample if sample is not None else outcome)})

    def fail(self, msg, **data):
        raise Violation(msg, **data)

    # -- comparisons -----------------------------------------------------------
    def eq(self, what, got, want):
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape}, expected {want.shape}", got=got, want=want)
        if not np.array_equal(got, want):
            self.fail(f"{what}: differs from the reference model", got=got, want=want)

    def close(self, what, got, want, tol=1e-8, scale=None):
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape}, expected {want.shape}", got=got, want=want)
        if got.size == 0:
            return 0.0
        if not np.all(np.isfinite(got)):
            self.fail(f"{what}: not finite", got=got, want=want)
        s = max(1.0, float(np.max(np.abs(want)))) if scale is None else scale
        e = float(np.max(np.abs(got - want))) / s
        if not e <= tol:
            self.fail(f"{what}: differs from the reference model by {e:.3g} (relative), tolerance {tol:g}",
                      got=got, want=want)
        return e

    def true(self, what, cond, **data):
        if not cond:
            self.fail(what, **data)


# ---------------------------------------------------------------------------
# deterministic generic witnesses
# ---------------------------------------------------------------------------

def wit(tag, *shape, lo=-1.0, hi=1.0):
    """Fixed generic numbers in [lo, hi] with four decimals, a function of the tag only."""
    n = int(np.prod(shape)) if shape else 1
    h = hashlib.shake_256(repr(tag).encode()).digest(4 * n)
    v = np.frombuffer(h, dtype="<u4").astype(float) / 2.0 ** 32
    v = np.round(lo + (hi - lo) * v, 4)
    return v.reshape(shape) if shape else float(v[0])


def wint(tag, n, *shape):
    """Fixed generic integers in 0..n-1."""
    m = int(np.prod(shape)) if shape else 1
    h = hashlib.shake_256(("i" + repr(tag)).encode()).digest(4 * m)
    v = (np.frombuffer(h, dtype="<u4").astype(np.int64)) % n
    return v.reshape(shape) if shape else int(v[0])


def spd(tag, n, lo=0.5):
    a = wit(("spd", tag), n, n)
    return np.round(a @ a.T + lo * np.eye(n), 6)


def psd(tag, n, rank):
    a = wit(("psd", tag), n, max(rank, 0))
    return np.round(a @ a.T, 6) if rank > 0 else np.zeros((n, n))


def digits(i, base, n):
    out = []
    for _ in range(n):
        out.append(i % base)
        i //= base
    return out


# ---------------------------------------------------------------------------
# driver
# ---------------------------------------------------------------------------

def setup_env(scratch):
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch,
                      CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", JAX_PLATFORMS="cpu",
                      OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                      TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0",
                      PYTHONHASHSEED="0", JAX_ENABLE_X64="1", PYTHONWARNINGS="ignore",
                      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")


def run_job(prop, fname, kwargs, only=None):
    """Run one job (in a worker); returns a result dict."""
    import importlib, contextlib, io, warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rec = Recorder(only=only, job=f"{fname}{kwargs!r}")
    t0 = time.time()
    viol = None
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            mod = importlib.import_module("mc." + prop.lower())
            getattr(mod, fname)(rec, **kwargs)
    except Violation as v:
        viol = {"msg": v.msg, "data": plain(v.data)}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        viol = {"msg": f"exception {type(e).__name__}: {str(e)[:500]}",
                "data": {"traceback": traceback.format_exc()[-3000:]}}
    if viol is not None:
        viol.update(property=prop, job=fname, kwargs=kwargs, case=rec.key)
    return {"job": f"{fname}{kwargs!r}", "states": list(rec.states), "transitions": rec.transitions,
            "validated": rec.validated, "outcomes": list(rec.outcomes), "samples": rec.samples,
            "groups": rec.groups, "known": rec.known_hits, "violation": viol, "wall": time.time() - t0}
