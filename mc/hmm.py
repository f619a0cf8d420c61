"""Shared by C05 and C06: spaces of hidden Markov models and comparison with the reference."""
import itertools
import numpy as np
from mc import refs
from mc.core import wit, wint

ROWS = [(0.5, 0.5), (0.25, 0.75), (1.0, 0.0), (0.0, 1.0)]


def zero(v):
    return v >= 1e19


def compare(rec, name, v_map, V_list, prior, Pi, Po, ys, V, best, S, path_following, logs=True, tol=1e-9, tie=None):
    """V: reference log values; v_map/V_list: results."""
    T = len(ys)
    vm = np.asarray(v_map)
    rec.true(f"{name}: length of the state sequence", vm.shape == (T + 1,), got=vm)
    Vl = np.asarray(V_list, float)
    rec.true(f"{name}: shape of the value functions", Vl.shape == (T + 1, len(prior)), got=Vl.shape)
    with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
        for k in range(T + 1):
            for j in range(len(prior)):
                ref = -V[k][j]
                got = Vl[k, j] if logs else -np.log(Vl[k, j])
                if np.isinf(ref):
                    good = zero(got)
                else:
                    good = abs(got - ref) <= tol * max(1.0, abs(ref))
                rec.true(f"{name}: V[{k}][{j}]", bool(good), got=got, want=ref)
    for k in range(T + 1):
        rec.true(f"{name}: state {k} out of range", 0 <= int(vm[k]) < len(prior), got=vm)
        rec.true(f"{name}: state {k} is on no most probable sequence", int(vm[k]) in S[k], got=vm, optimal=S)
    if path_following:
        p = refs.hmm_logp(prior, Pi, Po, ys, [int(x) for x in vm])
        slack = tol if tie is None else tie
        rec.true(f"{name}: the sequence is not a maximiser", p >= best - slack, got=vm, logp=p, best=best)


def grid22(maxlen, parts, part, rows=ROWS):
    """Every 2-state 2-symbol model over the row alphabet, every observation sequence up to maxlen."""
    i = 0
    for pr in rows:
        for a, b in itertools.product(rows, repeat=2):
            for c, d in itertools.product(rows, repeat=2):
                i += 1
                if i % parts != part:
                    continue
                m = (np.array(pr), np.array([a, b]), np.array([c, d]))
                for T in range(1, maxlen + 1):
                    for ys in itertools.product((0, 1), repeat=T):
                        yield ("22", pr, a, b, c, d, ys), m, np.array(ys)


def generic(n, m, mode):
    w = lambda t, *s: wit((t, n, m, mode), *s, lo=0.05, hi=1.0)
    prior, Pi, Po = w("prior", n), w("Pi", n, n), w("Po", n, m)
    if mode == "uniform":
        prior, Pi, Po = np.ones(n), np.ones((n, n)), np.ones((n, m))
    if mode == "sparse":
        Pi = Pi * (wint(("z", n), 3, n, n) > 0) + np.eye(n) * 0.2
        Po = Po * (wint(("zo", n, m), 3, n, m) > 0)
        Po[0] = Po[0] + 0.1
        Pi[:, 0] += 0.1
        prior[1:] = prior[1:] * (wint(("zp", n), 2, n - 1) > 0)
    if mode == "near":               # paths whose log probabilities differ by about 1e-10
        prior, Pi, Po = (1 + 2e-10 * np.round(8 * (a - 0.5)) for a in (prior, Pi, Po))
    if mode == "tiny":
        Po = Po ** 12
        Pi = Pi ** 8
    return prior / prior.sum(), Pi / Pi.sum(axis=1, keepdims=True), Po / Po.sum(axis=1, keepdims=True)


def observations(n, m, T, mode):
    return wint(("y", n, m, T, mode), m, T)
