"""C27: the text model."""
import itertools
import numpy as np
from mc.core import wint
from mc.draws import Draws, same_distribution

BOUNDS = ("alphabets of 1..4 and 27 characters (letters, blanks, digits, unicode), orders 1..3 (4 thorough): every training "
          "text of length 1..6 over 2 characters, 1..5 over 3, 1..4 over 4 (longer when thorough), and generic texts to 400; "
          "6 error probabilities; every text round trip up to length 5; noisy text: every outcome of every random "
          "draw for texts of length 0..3, exact distribution; decoding: every text of length 1..5 (error-free) under "
          "models trained on every text of length 1..4")
ASSUMPTIONS = ["training and observed texts use the alphabet only", "NumPy's random choice follows the probabilities it is given"]

ALPHABETS = ["a", "ab", " a", "10", "abc", "c ä", "x y", "abcd"]
FULL = " abcdefghijklmnopqrstuvwxyz"
ERRS = (0.0, 0.1, 0.25, 0.5, 0.9, 1.0)


def emission(n, errp):
    return (1.0 - errp) * np.eye(n) + errp / n * np.ones((n, n))


def normal(M):
    M = np.asarray(M, float)
    return M / M.sum(axis=-1, keepdims=True)


def strings(chars, k):
    return ["".join(t) for t in itertools.product(chars, repeat=k)]


def ref_pi(chars, train, order, eps):
    st = strings(chars, order)
    Pi = np.full((len(st), len(st)), eps)
    for i, a in enumerate(st):
        for j, b in enumerate(st):
            if a[1:] == b[:-1]:
                Pi[i, j] += 1.0
                Pi[i, j] += sum(train[k:k + order] == a and train[k + 1:k + 1 + order] == b for k in range(len(train) - order))
    return normal(Pi)


def ref_prior(chars, train, order):
    return normal([1.0 + sum(train[k:k + order] == a for k in range(len(train) - order + 1)) for a in strings(chars, order)])


def fits(Pi, shape):
    return Pi.shape == shape and np.all(Pi > 0) and np.allclose(Pi.sum(axis=-1), 1.0, rtol=0, atol=1e-12)


def build(errp, order, chars):
    from parallel_control.text_model import TextModel
    return TextModel(chars, errp, order)


def statistics(rec, chars, orders, maxlen):
    n = len(chars)
    models = {o: build(0.1, o, chars) for o in orders}
    for L in range(1, maxlen + 1):
        for train in strings(chars, L):
            if not rec.case("train", chars, train):
                continue
            for o, m in models.items():
                N = n ** o
                Pi, prior = rec.call(m.getNthOrderPi, train), rec.call(m.getNthOrderPrior, train)
                rec.true(f"order {o}: transition rows are normalised and positive", fits(Pi, (N, N)), got=Pi)
                rec.true(f"order {o}: prior is normalised and positive", fits(prior, (N,)), got=prior)
                rec.close(f"order {o}: transitions", Pi, ref_pi(chars, train, o, 1e-12), tol=1e-9)
                rec.close(f"order {o}: prior", prior, ref_prior(chars, train, o), tol=1e-12)
            m = models[orders[0]]
            Pi1, p1 = rec.call(m.get1stOrderPi, train), rec.call(m.get1stOrderPrior, train)
            rec.close("first-order transitions", Pi1, ref_pi(chars, train, 1, 0.0), tol=1e-12)
            rec.close("first-order prior", p1, ref_prior(chars, train, 1), tol=1e-12)
            rec.ok(Pi1)


def long_texts(rec):
    for chars, order in ((FULL, 1), ("abc", 3), ("abcde", 2), ("0123456789", 2), ("ab", 5)):
        m = build(0.1, order, chars)
        for L in (1, 2, 3, 5, 8, 50, 400):
            for v in range(3):
                train = "".join(chars[int(i)] for i in wint(("text", chars, L, v), len(chars), L))
                if v == 2:
                    train = (chars[0] * L) if L < 50 else train[:L // 2] * 2
                if rec.case("long", chars, order, L, v):
                    rec.close("transitions", rec.call(m.getNthOrderPi, train), ref_pi(chars, train, order, 1e-12), tol=1e-9)
                    rec.close("prior", rec.call(m.getNthOrderPrior, train), ref_prior(chars, train, order), tol=1e-12)
                    rec.close("first-order transitions", rec.call(m.get1stOrderPi, train), ref_pi(chars, train, 1, 0.0), tol=1e-12)
                    rec.close("first-order prior", rec.call(m.get1stOrderPrior, train), ref_prior(chars, train, 1), tol=1e-12)
                    rec.ok(L)
    if rec.case("defaults"):
        from parallel_control.text_model import TextModel
        m = TextModel()
        rec.true("default alphabet, error and order", m.chars == FULL and m.errp == 0.1 and m.order == 1)
        rec.close("default emissions", m.getNthOrderPo(), emission(27, 0.1), tol=1e-12)
        rec.ok(1)


def emissions(rec):
    for chars in ALPHABETS + [FULL]:
        n = len(chars)
        for errp in ERRS:
            for order in (1, 2, 3, 4):
                if n ** order > 800 or not rec.case("emission", chars, errp, order):
                    continue
                m = build(errp, order, chars)
                rec.close("first-order emissions", rec.call(m.get1stOrderPo), emission(n, errp), tol=1e-12)
                Po = rec.call(m.getNthOrderPo)
                rec.close("emissions depend on the last character", Po, np.array([emission(n, errp)[chars.index(s[-1])] for s in strings(chars, order)]), tol=1e-12)
                rec.true("rows are normalised", np.allclose(Po.sum(axis=1), 1.0, rtol=0, atol=1e-12) and np.all(Po >= -1e-15))
                rec.ok(Po)


def round_trip(rec):
    for chars in ALPHABETS + [FULL]:
        n = len(chars)
        for order in (1, 2, 3):
            if n ** order > 800:
                continue
            m = build(0.1, order, chars)
            texts = [t for L in range(0, 6) for t in strings(chars, L)] if n <= 3 else strings(chars, 1) + strings(chars, 2) + [FULL[:7] * 3 if chars == FULL else chars * 3]
            for t in texts:
                if rec.case("round trip", chars, order, t):
                    ys = rec.call(m.textToIndex, t)
                    rec.eq("indices", ys, np.array([chars.index(c) for c in t], dtype=int))
                    rec.true("decoded text", rec.call(m.indexToText, ys) == t)
                    # states of the higher-order model read as their last character
                    zs = ys + n * np.arange(len(t)) % n ** order if order > 1 else ys
                    zs = np.array([int(y) + n * (k % (n ** (order - 1))) for k, y in enumerate(ys)], dtype=int)
                    rec.true("state sequence reads as its last characters", rec.call(m.indexToText, zs) == t)
                    rec.ok(ys)


def noise(rec, chars):
    n = len(chars)
    for errp in ERRS:
        m = build(errp, 1, chars)
        for L in range(0, 4 if n <= 3 else 3):
            for t in strings(chars, L):
                if not rec.case("noise", chars, errp, t):
                    continue
                got, runs = {}, 0
                for p, s in Draws().run(lambda: rec.call(m.makeNoisyText, t)):
                    if p is None:
                        rec.true("empty text stays empty", L > 0 or s == "")
                        break
                    runs += 1
                    rec.true("length kept, alphabet kept", len(s) == L and set(s) <= set(chars), got=s)
                    rec.true("no errors at error probability zero", errp > 0 or s == t, got=s)
                    got[s] = got.get(s, 0.0) + p
                if runs:
                    E = emission(n, errp)
                    want = {}
                    for s in strings(chars, L):
                        p = float(np.prod([E[chars.index(a), chars.index(b)] for a, b in zip(t, s)]))
                        if p > 0:
                            want[s] = p
                    same_distribution(rec, "noisy text", got, want)
                    rec.group("random executions", runs)
                rec.ok(sorted(got.items()))
    for errp in ERRS:       # the real generator
        m = build(errp, 1, chars)
        for L in (0, 1, 5, 40):
            if rec.case("real noise", chars, errp, L):
                t = "".join(chars[int(i)] for i in wint(("n", chars, L), n, L))
                np.random.seed(L + 1)
                s = rec.call(m.makeNoisyText, t)
                rec.true("length kept, alphabet kept", len(s) == L and set(s) <= set(chars), got=s)
                rec.true("no errors at error probability zero", errp > 0 or s == t, got=s)
                rec.ok(s)


def decode(rec, chars, order, maxlen):
    from parallel_control.viterbi_np import Viterbi_np
    trains = [t for L in range(1, 5) for t in strings(chars, L)]
    m = build(0.0, order, chars)
    mn = build(0.1, order, chars)
    for i, train in enumerate(trains[::max(1, len(trains) // 12)]):
        vit = Viterbi_np(m.getNthOrderPrior(train), m.getNthOrderPi(train), m.getNthOrderPo())
        for L in range(1, maxlen + 1):
            for k, t in enumerate(strings(chars, L)):
                if (k + i) % 3 and L > 2:
                    continue
                if not rec.case("decode", chars, order, train, t):
                    continue
                ys = m.textToIndex(t)
                for name in ("ref_viterbi", "seqViterbi", "parBwdFwdViterbi"):
                    z, _ = rec.call(getattr(vit, name), ys)
                    rec.true(f"{name}: one state more than characters", len(z) == L + 1)
                    got = m.indexToText(np.asarray(z)[1:])
                    rec.true(f"{name} decodes error-free text", got == t, got=got, want=t)
                rec.ok(ys)


def jobs(tier):
    deep = tier == "thorough"
    out = [(3, "long_texts", {}), (3, "emissions", {}), (3, "round_trip", {})]
    for chars in ALPHABETS:
        n = len(chars)
        out.append((4, "statistics", dict(chars=chars, orders=[1, 2, 3] if not deep else [1, 2, 3, 4] if n < 4 else [1, 2, 3],
                                          maxlen={1: 6, 2: 6, 3: 5, 4: 4}[n] + (2 if deep else 0))))
        out.append((3, "noise", dict(chars=chars)))
    for chars in ("ab", "abc"):
        for order in (1, 2, 3):
            out.append((8, "decode", dict(chars=chars, order=order, maxlen=(5 if chars == "ab" else 3) + (1 if deep else 0))))
    return out
