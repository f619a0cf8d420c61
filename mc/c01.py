"""C01: associative scan.  Lists of length n are scanned with the free semigroup (opaque adjacent
intervals); a scan that treats its elements opaquely and is right for the free semigroup is right for
every associative operator.  Small semigroups with every input sequence, and awkward element types,
cover code that looks at its elements."""
import itertools
import numpy as np

BOUNDS = ("free semigroup: every length 1..N in both directions (N=260 quick, 1100 thorough); all maps on a "
          "2-element set and all min-plus scalars with every sequence up to length 6 (7 thorough); left-zero, "
          "right-zero, string concatenation; falsy, array-valued and tuple-valued elements")
ASSUMPTIONS = ["the scan treats elements as opaque values except for tests for None"]


class Iv:
    """Element of the free semigroup on 0..n-1: the interval [a, b)."""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __bool__(self):
        return False

    def __eq__(self, o):
        if o is None:
            return False
        raise AssertionError("elements compared")

    __hash__ = None


def free(rec, lo, hi):
    from parallel_control.my_assoc_scan import my_assoc_scan
    for n in range(lo, hi):
        for rev in (False, True):
            if not rec.case("free", n, rev):
                continue
            calls = [0]

            def op(x, y):
                calls[0] += 1
                if type(x) is not Iv or type(y) is not Iv:
                    rec.fail("operator applied to a non-element", x=repr(x), y=repr(y))
                if x.b != y.a:
                    rec.fail("operator applied to runs that are not adjacent in order",
                             left=(x.a, x.b), right=(y.a, y.b))
                return Iv(x.a, y.b)

            elems = [Iv(i, i + 1) for i in range(n)]
            orig = list(elems)
            for rep in range(2):
                out = rec.call(my_assoc_scan, op, elems, reverse=rev)
                rec.true("not a list of the same length", isinstance(out, list) and len(out) == n, got=len(out))
                rec.true("result aliases the caller's list", out is not elems)
                want = [(i, n) for i in range(n)] if rev else [(0, i + 1) for i in range(n)]
                got = [(o.a, o.b) if type(o) is Iv else repr(o) for o in out]
                rec.true("wrong combinations", got == want, got=got[:40], want=want[:40])
                rec.true("caller's list modified", len(elems) == n and all(x is y for x, y in zip(elems, orig)))
                rec.true("elements modified", all((e.a, e.b) == (i, i + 1) for i, e in enumerate(orig)))
            if rev is False:   # default direction
                out = rec.call(my_assoc_scan, op, elems)
                rec.true("default direction", [(o.a, o.b) for o in out] == [(0, i + 1) for i in range(n)])
            rec.ok(outcome=(n, rev, calls[0]), sample={"n": n, "reverse": rev, "operator_calls": calls[0]})


def fold(op, seq, rev):
    out = []
    for i in range(len(seq)):
        run = seq[i:] if rev else seq[:i + 1]
        v = run[0]
        for w in run[1:]:
            v = op(v, w)
        out.append(v)
    return out


def semigroups(rec, which, depth):
    from parallel_control.my_assoc_scan import my_assoc_scan
    if which == "maps2":
        alpha = [(0, 0), (0, 1), (1, 0), (1, 1)]
        op = lambda p, q: (q[p[0]], q[p[1]])
    elif which == "maps3":
        alpha = [(0, 1, 2), (1, 2, 0), (1, 0, 2), (0, 0, 2), (2, 1, 1)]
        op = lambda p, q: tuple(q[i] for i in p)
    elif which == "left":
        alpha, op = [0, 1, ""], lambda p, q: p
    elif which == "right":
        alpha, op = [0, 1, ""], lambda p, q: q
    elif which == "str":
        alpha, op = ["", "a", "b"], lambda p, q: p + q
    elif which == "add":
        alpha, op = [0, 1, -1, 0.5], lambda p, q: p + q
    elif which == "min":
        alpha, op = [0.0, 1.0, -1.0, float("inf")], min
    elif which == "affine":
        alpha, op = [(0, 1), (1, 0), (2, 1), (-1, 3)], lambda p, q: (q[0] * p[0], q[0] * p[1] + q[1])
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(alpha)), repeat=n):
            for rev in (False, True):
                if not rec.case(which, seq, rev):
                    continue
                elems = [alpha[i] for i in seq]
                out = rec.call(my_assoc_scan, op, elems, reverse=rev)
                want = fold(op, [alpha[i] for i in seq], rev)
                rec.true("wrong combinations", list(out) == want, got=out, want=want)
                rec.true("caller's list modified", elems == [alpha[i] for i in seq])
                rec.ok(outcome=repr(want))


def typed(rec, hi):
    """Array-valued elements (ambiguous truth value and elementwise ==), read-only so that any
    in-place update fails; operators that allocate; min-plus and matrix products; reversed affine."""
    from parallel_control.my_assoc_scan import my_assoc_scan

    def ro(a):
        a = np.array(a)
        a.setflags(write=False)
        return a

    mp = lambda a, b: (a[:, :, None] + b[None, :, :]).min(axis=1)
    kinds = {
        "matprod": (lambda i: ro([[1, i % 3], [(i * i) % 2, 1]]), lambda a, b: (a @ b) % 1009),
        "minplus": (lambda i: ro([[i % 4, 5 - i % 3], [(2 * i) % 5, i % 2]]), mp),
        "zeros": (lambda i: ro(np.zeros(2, int)), lambda a, b: a + b),
        "empty": (lambda i: ro(np.zeros((0,))), lambda a, b: a),
        "tuple": (lambda i: (ro([i % 2]), ro([[i]])), lambda a, b: (a[0] ^ b[0], a[1] + b[1])),
        "compose": (lambda i: ro([(i + j * j) % 4 for j in range(4)]), lambda p, q: q[p]),
        "list": (lambda i: [i], lambda a, b: a + b),
        "nan": (lambda i: float("nan") if i % 5 == 3 else 0.0, lambda a, b: a + b),
        "false": (lambda i: False, lambda a, b: a or b),
    }
    same = lambda a, b: (len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
                         if isinstance(a, tuple) else np.array_equal(a, b, equal_nan=isinstance(a, float)))
    for name, (mk, op) in kinds.items():
        for n in range(1, hi):
            for rev in (False, True):
                if not rec.case(name, n, rev):
                    continue
                elems = [mk(i) for i in range(n)]
                out = rec.call(my_assoc_scan, op, elems, reverse=rev)
                want = fold(op, [mk(i) for i in range(n)], rev)
                rec.true("wrong length", len(out) == n)
                for i in range(n):
                    rec.true(f"wrong combination at {i}", same(out[i], want[i]), got=out[i], want=want[i])
                    rec.true("caller's elements modified", same(elems[i], mk(i)))
                rec.ok(outcome=repr(out[-1]))


def jobs(tier):
    N, d = (260, 5) if tier == "quick" else (1100, 6)
    step = 65 if tier == "quick" else 50
    js = [(hi / 100, "free", {"lo": lo, "hi": hi}) for lo in range(1, N, step) for hi in [min(lo + step, N + 1)]]
    if tier == "quick":
        js += [(3, "free", {"lo": n, "hi": n + 3}) for n in (511, 1023)]
    for w in ("maps2", "maps3", "left", "right", "str", "add", "min", "affine"):
        js.append((2, "semigroups", {"which": w, "depth": d + (1 if w in ("left", "right", "str") else 0)}))
    js.append((2, "typed", {"hi": 36 if tier == "quick" else 140}))
    return js
