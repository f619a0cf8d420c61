"""Shared generator of linear-quadratic tracking problems (C07, C08, C10, C11, C13, C14, C28)."""
import numpy as np
from mc.core import wit, psd
from mc.refs import LQ

FEATURES = ("c", "r", "H", "M", "s", "Z", "tv", "pv")
# c offset, r references, H output matrices (p != n), M cross terms, s input offsets, Z input scaling,
# tv per-step data, pv output dimension varies over time


def problem(tag, T, n, m, p, feats=FEATURES, pT=None):
    """A well-posed problem (joint stage weight positive semidefinite, input weight positive definite)."""
    feats = set(feats)
    if "H" not in feats:
        p = n
    tv = "tv" in feats
    pv = "pv" in feats and "H" in feats

    def per(f):
        return [f(k) for k in range(T)] if tv else [f(0)] * T

    def dim(k):
        return 1 + (p - 1 + k) % (p + 1) if pv else p

    def per_p(f):
        return [f(k) for k in range(T)] if (tv or pv) else [f(0)] * T

    t = (tag, n, m, p)
    F = per(lambda k: np.round(0.9 * wit((t, "F", k), n, n), 4) if n > 1 else wit((t, "F", k), 1, 1, lo=0.3, hi=1.2))
    L = per(lambda k: wit((t, "L", k), n, m))
    c = per(lambda k: wit((t, "c", k), n) if "c" in feats else np.zeros(n))
    H = per_p(lambda k: wit((t, "H", k), dim(k), n) if "H" in feats else np.eye(n))
    r = per_p(lambda k: wit((t, "r", k), dim(k), lo=-2, hi=2) if "r" in feats else np.zeros(dim(k)))
    Z = per(lambda k: (np.eye(m) + 0.6 * wit((t, "Z", k), m, m)) if "Z" in feats else np.eye(m))
    s = per(lambda k: wit((t, "s", k), m) if "s" in feats else np.zeros(m))

    def weight(k):
        q = dim(k)
        a = wit((t, "W", k), q + m, q + m)
        W = np.round(a @ a.T, 6)
        W[q:, q:] += 0.3 * np.eye(m)
        if k % 3 == 2 and "M" not in feats:
            W[:q, :q] = psd((t, "X", k), q, q - 1)          # rank-deficient or zero state weight
        return W
    Ws = per_p(weight)
    ds = [h.shape[0] for h in H]
    X = [W[:q, :q].copy() for W, q in zip(Ws, ds)]
    U = [W[q:, q:].copy() for W, q in zip(Ws, ds)]
    M = [W[:q, q:].copy() if "M" in feats else np.zeros((q, m)) for W, q in zip(Ws, ds)]
    pT = dim(T) if pv else p if pT is None or "H" not in feats else pT
    HT = wit((t, "HT"), pT, n) if "H" in feats else np.eye(n)
    rT = wit((t, "rT"), pT, lo=-2, hi=2) if "r" in feats else np.zeros(pT)
    XT = psd((t, "XT"), pT, pT)
    return LQ(F=F, L=L, c=c, H=H, r=r, X=X, U=U, M=M, Z=Z, s=s, HT=HT, rT=rT, XT=XT)


UNITS = [(a, b) for a in (1.0, 1e-12, 1e10) for b in (1.0, 1e-8, 1e7) if (a, b) != (1.0, 1.0)]


def rescale(q, a, b):
    """The same problem with costs in units of a and states, inputs in units of b: S, v, K, d, x, u and the cost scale
    with a, ab, 1, b, b, b and ab^2."""
    m = lambda l, k: [k * x for x in l]
    return LQ(F=q.F, L=q.L, c=m(q.c, b), H=q.H, r=m(q.r, b), X=m(q.X, a), U=m(q.U, a), M=m(q.M, a), Z=q.Z, s=m(q.s, b),
              HT=q.HT, rT=q.rT * b, XT=q.XT * a)


FIELDS = ("F", "L", "c", "H", "r", "X", "U", "M", "Z", "s")


def varying(tag, T, n, m, p, fields, pT=None, absent=()):
    """Every term present except those named absent (M, s, Z); exactly the named fields change from step to step, all
    others are one shared array."""
    t = (tag, n, m, p)
    a = wit((t, "W"), p + m, p + m)
    W = np.round(a @ a.T, 6) + np.eye(p + m)
    v = lambda name, f, same: [f(k) for k in range(T)] if name in fields else [same] * T
    w = lambda name, *shape: v(name, lambda k: wit((t, name, k), *shape), wit((t, name, 0), *shape))
    z0 = np.eye(m) + 0.5 * wit((t, "Z", 0), m, m)
    X, U, M = W[:p, :p].copy(), W[p:, p:].copy(), W[:p, p:].copy()
    pT = pT or p
    return LQ(F=w("F", n, n), L=w("L", n, m), c=w("c", n), H=w("H", p, n), r=w("r", p),
              s=[np.zeros(m)] * T if "s" in absent else w("s", m),
              X=v("X", lambda k: X + k * psd((t, "X", k), p, p), X), U=v("U", lambda k: U + 0.5 * k * np.eye(m), U),
              M=[np.zeros((p, m))] * T if "M" in absent else v("M", lambda k: M * (1 - 0.3 * k), M),
              Z=[np.eye(m)] * T if "Z" in absent else
              v("Z", lambda k: np.eye(m) + 0.5 * wit((t, "Z", k), m, m), z0),
              HT=wit((t, "HT"), pT, n), rT=wit((t, "rT"), pT, lo=-2, hi=2), XT=psd((t, "XT"), pT, pT))


def field_subsets(part=0, parts=1, absent=()):
    """All sets of time-varying fields (1024 when none is absent), split over jobs."""
    import itertools
    fields = [f for f in FIELDS if f not in absent]
    for i, bits in enumerate(itertools.product((0, 1), repeat=len(fields))):
        if i % parts == part:
            yield tuple(f for f, b in zip(fields, bits) if b)


def build(q):
    """The object of the repository holding this problem, every argument given as a per-step list."""
    from parallel_control import lqt_np
    memo = {}

    def cp(l):          # private copies, but steps sharing one array object keep sharing one
        return [memo.setdefault(id(a), a.copy()) for a in l]
    return lqt_np.LQT.checkAndExpand(cp(q.F), cp(q.L), cp(q.X), cp(q.U), q.XT.copy(), cp(q.c), cp(q.H), cp(q.r),
                                     q.HT.copy(), q.rT.copy(), cp(q.Z), cp(q.s), cp(q.M), T=q.T)


def scalar(data, T, tv=False, int_=False):
    """1x1x1 problem from a tuple of numbers; with tv the second half of the steps is negated/offset."""
    F, L, c, H, r, X, Z, s, U, M, XT, HT, rT = data
    dt = int if int_ else float
    mat = lambda a: np.array([[a]], dtype=dt)
    vec = lambda a: np.array([a], dtype=dt)
    alt = lambda a, b: [a if (not tv or k % 2 == 0) else b for k in range(T)]
    return LQ(F=alt(mat(F), mat(F - 1)), L=alt(mat(L), mat(1 - L)), c=alt(vec(c), vec(1 - c)),
              H=alt(mat(H), mat(1 - H)), r=alt(vec(r), vec(-r)), X=alt(mat(X), mat(X)), Z=alt(mat(Z), mat(3 - Z)),
              s=alt(vec(s), vec(1 - s)), U=alt(mat(U), mat(U)), M=alt(mat(M), mat(-M)), XT=mat(XT), HT=mat(HT),
              rT=vec(rT))


def scalar_alphabet():
    """Every scalar problem over small integers with positive semidefinite joint weight."""
    import itertools
    for d in itertools.product((-1, 0, 2), (0, 1, -2), (0, 1), (0, 1), (0, 1), (0, 1, 4), (1, 2), (0, 1), (1, 4),
                               (0, 1, -2), ((0, 1, 1), (1, 1, 0), (2, -1, 3))):
        F, L, c, H, r, X, Z, s, U, M, term = d
        if M * M <= X * U and (H or not r) and (H or not M):
            yield (F, L, c, H, r, X, Z, s, U, M) + term


def structured(n):
    """2-D special matrices: state maps, input maps, weights."""
    import itertools
    Fs = [np.zeros((2, 2)), np.eye(2), np.array([[0., 1], [0, 0]]), np.array([[0., -1], [1, 0]]),
          np.array([[1., 1], [0, 1]])]
    Ls = [np.zeros((2, 1)), np.array([[1.], [0]]), np.array([[0.], [1]]), np.eye(2), np.array([[1., 1], [1, 1]])]
    Xs = [np.zeros((2, 2)), np.diag([1., 0]), np.eye(2), np.array([[2., 1], [1, 2]])]
    return itertools.product(range(len(Fs)), range(len(Ls)), range(len(Xs)), range(len(Xs))), Fs, Ls, Xs


def special(i, j, k, l, T):
    _, Fs, Ls, Xs = structured(2)
    m = Ls[j].shape[1]
    return LQ(F=[Fs[i]] * T, L=[Ls[j]] * T, c=[np.array([0., 1])] * T, H=[np.eye(2)] * T, r=[np.array([1., -1])] * T,
              X=[Xs[k]] * T, U=[np.eye(m)] * T, M=[np.zeros((2, m))] * T, Z=[np.eye(m)] * T, s=[np.zeros(m)] * T,
              HT=np.eye(2), rT=np.array([2., 1]), XT=Xs[l])
