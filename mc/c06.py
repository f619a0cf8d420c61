"""C06: Viterbi, TensorFlow."""
import itertools
import numpy as np
from mc import refs, hmm

BOUNDS = ("every length 1..18, 31..33 (1..40, 63..65, 127..129 thorough) with generic, sparse, uniform and extreme "
          "models of several sizes; every observation sequence up to length 3 (5 thorough) for 2- and 3-state "
          "models; 2-state 2-symbol row-alphabet models with every sequence of length 1 and 2 (a sixth of the "
          "models in the quick tier, all in the thorough one); models whose best two sequences differ by little")
ASSUMPTIONS = ["observation sequences of positive probability", "costs of 1e19 or more stand for zero probability",
               "tfp.math.scan_associative, tf.scan and tf.gather behave as documented",
               "min-plus variants may report, under ties, any state on some most probable sequence"]

FSC = (("viterbi_fsc_seq_bwfw", True), ("viterbi_fsc_par_bwfw", True), ("viterbi_fsc_par_bwfwbw", False))
DIRECT = (("viterbi_seq_fwbw", True), ("viterbi_par_fwbw", True), ("viterbi_seqpar_fwbw", True),
          ("viterbi_par_fwbwfw", False))


class Model:
    def __init__(self, prior, Pi, Po):
        self.prior, self.Pi, self.Po = prior, Pi, Po


def one(rec, key, model, ys, dtype="float64", limits=(), tie=None):
    import tensorflow as tf
    from parallel_control import viterbi_tf
    prior, Pi, Po = model
    V, best, S = refs.hmm_optimal_states(prior, Pi, Po, ys, tie or (1e-9 if dtype == "float64" else 1e-4))
    if not np.isfinite(best) or not rec.case(*key):
        return
    tol = 1e-9 if dtype == "float64" else 1e-4
    dt = getattr(tf, dtype)
    fs, Ls, LT = rec.call(viterbi_tf.make_viterbi_fsc, Model(*model), ys, dtype=dt)
    for name, path in FSC:
        v, Vs = rec.call(getattr(viterbi_tf, name), fs, Ls, LT)
        hmm.compare(rec, name, v.numpy(), Vs.numpy(), prior, Pi, Po, ys, V, best, S, path, tol=tol, tie=tie)
    a = [tf.constant(z, dtype=dt) for z in (prior, Pi, Po)] + [tf.constant(ys, dtype=tf.int32)]
    for name, path in DIRECT:
        v, Vs = rec.call(getattr(viterbi_tf, name), *a)
        hmm.compare(rec, name, v.numpy(), Vs.numpy(), prior, Pi, Po, ys, V, best, S, path, tol=tol, tie=tie)
    for lim in limits:
        us, Vs = rec.call(viterbi_tf.viterbi_par_forwardpass, *a, max_parallel=lim)
        xs = rec.call(viterbi_tf.viterbi_par_backwardpass, us, Vs[-1, :], max_parallel=lim)
        hmm.compare(rec, f"par forward/backward, limit {lim}", xs.numpy(), Vs.numpy(), prior, Pi, Po, ys, V, best, S,
                    True, tol=tol, tie=tie)
    rec.group("unique maximiser" if all(len(s) == 1 for s in S) else "ties")
    rec.ok(outcome=[s[0] for s in S], sample={"ys": ys, "logp": best})


def grid(rec, T, part, parts):
    for key, m, ys in hmm.grid22(T, parts, part):
        if len(ys) == T:
            one(rec, key, m, ys)


def seqs(rec, n, m, modes, maxlen):
    for mode in modes:
        for T in range(1, maxlen + 1):
            for ys in itertools.product(range(m), repeat=T):
                one(rec, ("seq", n, m, mode, ys), hmm.generic(n, m, mode), np.array(ys),
                    tie=1e-12 if mode == "near" else None)


def lengths(rec, Ts, dims, dtype):
    for T in Ts:
        for n, m in dims:
            for mode in ("generic", "sparse", "uniform") + (("tiny",) if dtype == "float64" else ()):
                for v in ("a", "b", "c"):
                    one(rec, ("len", T, n, m, mode, dtype, v), hmm.generic(n, m, mode),
                        hmm.observations(n, m, T, (mode, v)), dtype,
                        (T + 1,) if T % 4 == 1 and v == "a" and mode == "generic" else ())


def jobs(tier):
    q = tier == "quick"
    Ts = list(range(1, 19)) + [31, 32, 33] if q else list(range(1, 41)) + [63, 64, 65, 127, 128, 129]
    js = []
    for i in range(8):
        js.append((20, "lengths", {"Ts": Ts[i::8], "dims": [[3, 2]], "dtype": "float64"}))
    js.append((8, "lengths", {"Ts": [1, 2, 3], "dims": [[1, 1], [1, 2], [2, 1], [4, 3]], "dtype": "float64"}))
    js.append((8, "lengths", {"Ts": [1, 4, 7], "dims": [[2, 3]], "dtype": "float32"}))
    if not q:
        for i in range(8):
            js.append((20, "lengths", {"Ts": Ts[i:40:8], "dims": [[1, 2], [2, 2], [4, 3]], "dtype": "float64"}))
            js.append((20, "lengths", {"Ts": Ts[i:40:8], "dims": [[3, 3]], "dtype": "float32"}))
    for n, m in ((2, 2), (3, 2)):
        for modes in (["generic", "uniform"], ["sparse", "tiny"], ["near"]):
            js.append((8, "seqs", {"n": n, "m": m, "modes": modes, "maxlen": 3 if q else 5}))
    for T in (1, 2) if q else (1, 2, 3):
        js += [(10, "grid", {"T": T, "part": i, "parts": 12}) for i in (range(2) if q else range(12))]
    return js
