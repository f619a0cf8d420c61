"""C05: Viterbi, NumPy."""
import itertools
import numpy as np
from mc import refs, hmm
from mc.core import wint

BOUNDS = ("every 2-state 2-symbol model with rows from {(1/2,1/2),(1/4,3/4),(1,0),(0,1)} and every observation "
          "sequence of length 1..3 (5 thorough); generic, uniform, sparse and extreme models with 1..4 states, "
          "1..4 symbols: every sequence up to length 4 and every length 1..34 (130 thorough); observation dtypes, also with more states than they count; models whose best two sequences differ by little")
ASSUMPTIONS = ["observation sequences of positive probability", "costs of 1e19 or more stand for zero probability"]

PATH = ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi")


def one(rec, key, model, ys, tie=None):
    from parallel_control import viterbi_np
    prior, Pi, Po = model
    V, best, S = refs.hmm_optimal_states(prior, Pi, Po, ys, *([] if tie is None else [tie]))
    if not np.isfinite(best):
        return
    if not rec.case(*key):
        return
    vit = viterbi_np.Viterbi_np(prior, Pi, Po)
    for name in PATH + ("parBwdFwdBwdViterbi",):
        v_map, V_list = rec.call(getattr(vit, name), ys)
        hmm.compare(rec, name, v_map, V_list, prior, Pi, Po, ys, V, best, S, name in PATH,
                    logs=name != "ref_viterbi", tie=tie)
    uniq = all(len(s) == 1 for s in S)
    rec.group("unique maximiser" if uniq else "ties")
    rec.ok(outcome=[s[0] for s in S], sample={"ys": ys, "states": [s[0] for s in S], "logp": best})


def grid(rec, maxlen, part, parts):
    for key, m, ys in hmm.grid22(maxlen, parts, part):
        one(rec, key, m, ys)


def seqs(rec, dims, maxlen):
    for n, m in dims:
        for mode in ("generic", "uniform", "sparse", "tiny", "near"):
            model = hmm.generic(n, m, mode)
            for T in range(1, maxlen + 1):
                for ys in itertools.product(range(m), repeat=T):
                    one(rec, ("seq", n, m, mode, ys), model, np.array(ys), 1e-12 if mode == "near" else None)


def lengths(rec, lo, hi):
    for T in range(lo, hi):
        for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 1), (3, 2), (4, 4)):
            for mode in ("generic", "sparse", "uniform"):
                for dt in (np.int64, np.int32, np.uint8):
                    one(rec, ("len", T, n, m, mode, dt.__name__), hmm.generic(n, m, mode),
                        hmm.observations(n, m, T, mode).astype(dt))


def brute(rec):
    """The reference itself against enumeration of every state path (model validation)."""
    for n, m in ((2, 2), (3, 2), (2, 3)):
        for mode in ("generic", "uniform", "sparse"):
            prior, Pi, Po = hmm.generic(n, m, mode)
            for T in (1, 2, 3, 4):
                for ys in itertools.product(range(m), repeat=T):
                    best, arg, Vb = refs.hmm_brute(prior, Pi, Po, ys)
                    if best <= 0 or not rec.case("brute", n, m, mode, ys):
                        continue
                    V, b, S = refs.hmm_optimal_states(prior, Pi, Po, ys)
                    rec.close("reference: best", np.exp(b), best, 1e-12, scale=best)
                    for k in range(T + 1):
                        rec.true("reference: optimal states", set(S[k]) == {a[k] for a in arg})
                        rec.close("reference: V", np.exp(V[k]), Vb[k], 1e-12)
                    rec.ok(outcome=best)


def many_states(rec):
    from mc import c29
    c29.many_states(rec)


def jobs(tier):
    q = tier == "quick"
    p = 8 if q else 32
    js = [(10, "grid", {"maxlen": 3 if q else 5, "part": i, "parts": p}) for i in range(p)]
    dims = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)]
    js += [(6, "seqs", {"dims": [d], "maxlen": (4 if d[1] < 4 else 3) + (0 if q else 2)}) for d in dims]
    hs = [1, 12, 20, 27, 31, 35] if q else list(range(1, 131, 8)) + [131]
    js += [(b / 3, "lengths", {"lo": a, "hi": b}) for a, b in zip(hs, hs[1:])]
    js += [(2, "brute", {})]
    js.append((6, "many_states", {}))
    return js
