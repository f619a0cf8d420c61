"""Reference model of the one-dimensional grid solver (plain NumPy, no code of the repository)."""
import numpy as np


def refine(f, j):
    """Minimum of the parabola through f[j-1], f[j], f[j+1] (mirrored at the ends of the grid)."""
    n = len(f)
    m = f[j - 1] if j > 0 else f[1]
    p = f[j + 1] if j < n - 1 else f[n - 2]
    den = p + m - 2.0 * f[j]
    return f[j] if den == 0.0 else f[j] - (p - m) ** 2 / den / 8.0


def refinements(f):
    """Refined minima at every grid point that attains the minimum (ties are free)."""
    return [refine(f, j) for j in np.flatnonzero(f == f.min())]


def combine(A, B):
    return np.min(A[:, :, None] + B[None, :, :], axis=1)


def combine_interp(A, B):
    S = A[:, :, None] + B[None, :, :]
    return np.array([[refine(S[i, :, k], int(np.argmin(S[i, :, k]))) for k in range(B.shape[1])] for i in range(A.shape[0])])


def fd(f, L, VT, T, blocks, steps, xs, us, upwind):
    """Explicit finite differences of  -V_t = min_u L(x,u) + f(x,u) V_x;  values at the block boundaries."""
    dx = xs[1] - xs[0]
    dt = T / (blocks * steps)
    n = len(xs)
    V = np.array(VT, dtype=float)
    out = [V]
    for b in range(blocks):
        for s in range(steps):
            W = np.empty(n)
            for i, x in enumerate(xs):
                best = np.inf
                for u in us:
                    v = f(x, u)
                    if i == 0:
                        D = (V[1] - V[0]) / dx
                    elif i == n - 1:
                        D = (V[-1] - V[-2]) / dx
                    elif not upwind:
                        D = (V[i + 1] - V[i - 1]) / (2 * dx)
                    elif v > 0:
                        D = (V[i + 1] - V[i]) / dx
                    elif v < 0:
                        D = (V[i] - V[i - 1]) / dx
                    else:
                        D = 0.0
                    best = min(best, L(x, u) + v * D)
                W[i] = V[i] + dt * best
            V = W
        out.append(V)
    return np.array(out[::-1])


FUNS = {
    "linear": (lambda x, u: x + u, lambda x, u: 0.5 * x * x + 0.5 * u * u, lambda x: x * x),
    "velocity": (lambda x, u: 1.0 - 0.1 * x * x + u, lambda x, u: 0.5 * x * x + 0.3 * u * u, lambda x: 2.0 * x * x - x),
    "bilinear": (lambda x, u: u * x, lambda x, u: 0.0 * x * u, lambda x: -x),
    "mixed": (lambda x, u: u - x * x * x, lambda x, u: (x - 0.3) ** 2 * (1.0 + 0.2 * x) + u * u * u * u - 0.4 * u * x, lambda x: x * x * x - 0.5 * x),
    "no dynamics": (lambda x, u: 0.0 * x * u, lambda x, u: x * x + (u - x) ** 2, lambda x: 1.0 + x),
    "constant terminal": (lambda x, u: x - u, lambda x, u: 0.3 + (x - u) ** 2, lambda x: 0.0 * x + 2.0),
}


def brackets(first, n, last, comb):
    """Every way to bracket first^n * last; {length: list of column-0 results}."""
    pure = {1: [first]}
    full = {0: [last]}
    for m in range(1, n + 1):
        if m > 1:
            pure[m] = [comb(a, b) for k in range(1, m) for a in pure[k] for b in pure[m - k]]
        full[m] = [comb(a, b) for k in range(1, m + 1) for a in pure[k] for b in full[m - k]]
    return full


def block_family(name, n, tag, wit):
    """Block and terminal costs on which the interpolated combination is associative in every bracketing.

    additive  V[i,j] = a_i + b_j: the intermediate minimum does not depend on the end points
    two-state interior grid points are never optimal: min-plus algebra on the two end points,
              where the mirrored parabola is flat-sided and changes nothing
    """
    if name == "additive":
        a, b = wit(("add a", tag), n), wit(("add b", tag), n)
        return a[:, None] + b[None, :], 2.0 * wit(("add t", tag), n)
    if name == "two-state":
        B = wit(("two", tag), n, n, lo=0.0, hi=4.0)
        B[:, 1:-1] += 100.0
        t = wit(("two t", tag), n, lo=0.0, hi=3.0)
        return B, t
    raise KeyError(name)
