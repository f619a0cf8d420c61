"""C26: the bundled problem models."""
import itertools
import math
import numpy as np
from mc.core import wit
from mc.draws import Draws, same_distribution

BOUNDS = ("Random models as transition systems: every sequence of random draws is explored and the exact distribution of "
          "the generated data is compared with the model: Gilbert-Elliot chains of 1..3 steps (4 symbols x 2 outputs per "
          "step), game scenes up to 3 steps x 1..9 states (every draw cell), trajectories up to 8 points with every "
          "draw of 3..5 directions, all boundary reflections included; real generators for 6 seeds x many lengths. "
          "Game controllers on every scene so generated; mass chains of 1..6 masses x 8 step lengths x 8 horizons; "
          "tracking problems with 1..4 points x 1..12 substeps; continuous model on 201 times; scalar models on grids "
          "of 2..9 points x 6 states/controls including negative and zero, upwind value functions on 12 grids x 5 "
          "block lengths against the reachable sets")
ASSUMPTIONS = ["the random generators of NumPy follow the requested distributions"]


# ---------------------------------------------------------------------------
# Gilbert-Elliot
# ---------------------------------------------------------------------------

P0, P1, P2, Q0, Q1 = 0.03, 0.1, 0.05, 0.1, 0.3


def ge_tables():
    flip = lambda p, c: p if c else 1.0 - p
    st = [(0, 0), (0, 1), (1, 0), (1, 1)]             # (bit, channel state) of state 2 b + s
    Pi = np.array([[(flip(P0, c2 == 1) if c == 0 else flip(P1, c2 == 0)) * flip(P2, b != b2) for b2, c2 in st] for b, c in st])
    Po = np.array([[flip(Q0 if c == 0 else Q1, y != b) for y in (0, 1)] for b, c in st])
    return Pi, Po


def ge(rec, T):
    from parallel_control import ge_model_np as M
    Pi, Po = ge_tables()
    if T == 0:
        for seed in range(6):
            if rec.case("ge tables", seed):
                m = rec.call(M.GEModel, seed) if seed else rec.call(M.GEModel)
                rec.close("transitions", m.Pi, Pi, tol=1e-12)
                rec.close("emissions", m.Po, Po, tol=1e-12)
                rec.close("prior", m.prior, np.full(4, 0.25), tol=1e-12)
                for n in (1, 2, 3, 10, 57, 200):
                    x, y = rec.call(m.genData, n)
                    np.random.seed(n)
                    np.random.uniform()
                    x2, y2 = rec.call(m.genData, n)
                    x3, y3 = rec.call(M.GEModel(*([seed] if seed else [])).genData, n)
                    rec.eq("reproducible states", x2, x)
                    rec.eq("reproducible observations", y2, y)
                    rec.eq("new object, same states", x3, x)
                    rec.eq("new object, same observations", y3, y)
                    rec.true("lengths", x.shape == y.shape == (n,), x=x.shape, y=y.shape)
                    rec.true("alphabets", set(x) <= {0, 1, 2, 3} and set(y) <= {0, 1}, x=x, y=y)
                    rec.eq("bits of the states", M.get_b_list(x), x // 2)
                rec.ok(x)
        if rec.case("ge seeds differ"):
            d = {tuple(M.GEModel(s).genData(60)[0]) for s in range(6)}
            rec.true("different seeds give different data", len(d) > 1)
            rec.ok(len(d))
        for n in range(6):
            for xs in itertools.product(range(4), repeat=n):
                if n < 4 or sum(xs) % 7 == 0:
                    if rec.case("bits", xs):
                        b = rec.call(M.get_b_list, np.array(xs, dtype=int))
                        rec.eq("bits of the states", b, np.array([v // 2 for v in xs], dtype=int))
                        rec.ok(b)
        return
    if rec.case("ge distribution", T):
        d, got, n = Draws(), {}, 0
        for p, (x, y) in d.run(lambda: rec.call(M.GEModel().genData, T)):
            if p is None:
                return
            n += 1
            k = (tuple(int(v) for v in x), tuple(int(v) for v in y))
            got[k] = got.get(k, 0.0) + p
        if not n:
            return
        want = {}
        p1 = np.full(4, 0.25) @ Pi
        for xs in itertools.product(range(4), repeat=T):
            for ys in itertools.product((0, 1), repeat=T):
                p = p1[xs[0]]
                for a, b in zip(xs, xs[1:]):
                    p = p * Pi[a, b]
                for a, b in zip(xs, ys):
                    p = p * Po[a, b]
                want[(xs, ys)] = p
        same_distribution(rec, "Gilbert-Elliot data", got, want)
        rec.group("random executions of the Gilbert-Elliot model", n)
        rec.ok(n)


# ---------------------------------------------------------------------------
# game
# ---------------------------------------------------------------------------

MASK = (0.5, 0.3, 0.1, 0.3, 0.5)


def walks(T, nx):
    """Every walk of the trace through the scene, with its probability."""
    out = {(): 1.0}
    for _ in range(T):
        new = {}
        for w, p in out.items():
            x = w[-1] if w else nx // 2
            for d, q in ((-1, 0.2), (0, 0.6), (1, 0.2)):
                k = w + (min(nx - 1, max(0, x + d)),)
                new[k] = new.get(k, 0.0) + p * q
        out = new
    return out


def scene(ws, T, nx):
    t = np.ones((nx, T))
    for w in ws:
        for k, x in enumerate(w):
            for i, m in enumerate(MASK):
                if 0 <= x - 2 + i < nx:
                    t[x - 2 + i, k] *= m
    return t


KEY = lambda t: tuple(np.round(t, 6).ravel())


def decode(track):
    """Can the scene be formed by two walks from the middle?"""
    nx, T = track.shape
    cur = {(nx // 2, nx // 2)}
    step = lambda x: {min(nx - 1, max(0, x + d)) for d in (-1, 0, 1)}
    for k in range(T):
        nxt = set()
        for a, b in cur:
            for c in step(a):
                for d in step(b):
                    if np.allclose(scene(((c,), (d,)), 1, nx)[:, 0], track[:, k], rtol=0, atol=1e-9):
                        nxt.add((c, d))
        cur = nxt
    return bool(cur)


def game_controller(rec, M, track):
    nx, T = track.shape
    keep = track.copy()
    fsc = rec.call(M.getFSC, track)
    rec.eq("scene unchanged", track, keep)
    rec.true("controller length", len(fsc.f) == len(fsc.L) == T, f=len(fsc.f), L=len(fsc.L))
    for k in range(T):
        for x in range(nx):
            for u in range(3):
                rec.true("transition moves by at most one inside the scene", fsc.f[k][x, u] == min(nx - 1, max(0, x + u - 1)), k=k, x=x, u=u)
                rec.true("cost is the scene plus one for a move", abs(fsc.L[k][x, u] - track[x, k] - (u != 1)) < 1e-12, k=k, x=x, u=u)
        rec.true("shapes", fsc.f[k].shape == fsc.L[k].shape == (nx, 3))
    rec.eq("terminal cost", fsc.LT, np.zeros(nx))


def game(rec, nx, deep):
    from parallel_control.finite_model_np import FiniteModel
    for T in (1, 2, 3) if not deep else (1, 2, 3, 4):
        if not rec.case("scenes", nx, T):
            continue
        M, got, n = FiniteModel(), {}, 0
        for p, (track, x0) in Draws([(0.1, 0.2), (0.5, 0.6), (0.9, 0.2)]).run(lambda: rec.call(M.genData, T, nx)):
            if p is None:
                break
            n += 1
            rec.true("initial state is the middle", x0 == nx // 2, x0=x0)
            rec.true("scene shape", track.shape == (nx, T), got=track.shape)
            k = KEY(track)
            if k not in got and len(got) % 4 == 0:
                game_controller(rec, M, track)
            got[k] = got.get(k, 0.0) + p
        if not n:
            continue
        want = {}
        W = walks(T, nx)
        for a, p in W.items():
            for b, q in W.items():
                k = KEY(scene((a, b), T, nx))
                want[k] = want.get(k, 0.0) + p * q
        same_distribution(rec, "game scenes", got, want)
        rec.group("random executions of the game model", n)
        rec.ok(n)
    for seed in (123, 0, 1, 2):
        for T in (1, 2, 5, 12, 40):
            if rec.case("game", nx, seed, T):
                track, x0 = rec.call(FiniteModel(seed).genData, T, nx)
                np.random.seed(T)
                track2, _ = rec.call(FiniteModel(seed).genData, T, nx)
                rec.eq("reproducible scene", track2, track)
                rec.true("initial state is the middle", x0 == nx // 2, x0=x0)
                rec.true("scene shape", track.shape == (nx, T), got=track.shape)
                rec.true("scene is formed by two walks from the middle", decode(track), track=track)
                if T < 20:
                    game_controller(rec, FiniteModel(seed), track)
                rec.ok(track)


def game_defaults(rec):
    from parallel_control.finite_model_np import FiniteModel
    if rec.case("game defaults"):
        m = FiniteModel()
        track, x0 = rec.call(m.genData, 30)
        rec.true("default size", track.shape == (21, 30) and x0 == 10)
        rec.eq("default seed", FiniteModel(123).genData(30)[0], track)
        rec.true("scene is formed by two walks from the middle", decode(track))
        rec.true("seeds differ", any(not np.array_equal(FiniteModel(s).genData(30)[0], track) for s in range(4)))
        rec.ok(track)
    for nx in range(1, 6):   # arbitrary scenes
        for v, t in enumerate((np.zeros((nx, 2)), -wit(("t", nx), nx, 3), np.arange(nx * 1.0).reshape(nx, 1), wit(("t2", nx), nx, 4, lo=0, hi=50))):
            if rec.case("controller", nx, v):
                game_controller(rec, FiniteModel(), t)
                rec.ok(nx)


# ---------------------------------------------------------------------------
# masses
# ---------------------------------------------------------------------------

def mass_matrices(N):
    F, L = np.zeros((2 * N, 2 * N)), np.zeros((2 * N, 2))
    for i in range(N):
        F[2 * i, 2 * i + 1] = 1.0
        for j, w in ((i - 1, 1.0), (i, -2.0), (i + 1, 1.0)):
            if 0 <= j < N:
                F[2 * i + 1, 2 * j] = 1.0 * w
                F[2 * i + 1, 2 * j + 1] = 0.2 * w
    L[1, 0] = 1.0
    L[2 * N - 1, 1] = -1.0
    return F, L


def exact_zoh(F, L, dt):
    from scipy.linalg import expm
    n, m = F.shape[0], L.shape[1]
    E = expm(np.block([[F, L], [np.zeros((m, n + m))]]) * dt)
    return E[:n, :n], E[:n, n:]


STEP_GRID = [(1.0, 1), (1.0, 3), (0.7, 10), (0.005, 10), (0.1, 7), (0.3, 3), (0.01, 29), (1.0 / 3, 6), (0.25, 8), (0.1, 3), (0.2, 6), (0.05, 20)]


def mass(rec, N):
    from parallel_control.mass_model_np import MassModel
    F, L = mass_matrices(N)
    for i, (dt, n) in enumerate(STEP_GRID):
        for Tf, steps in ((dt * n, n), (round(dt * n, 10), n), (dt * (n + 0.5), n), (dt * (n + 0.999), n)):
            if not rec.case("mass", N, dt, Tf):
                continue
            m = rec.call(MassModel, N)
            lqt, x0 = rec.call(m.getLQT, dt, Tf)
            A, B = exact_zoh(F, L, dt)
            rec.true("number of steps", len(lqt.F) == steps, got=len(lqt.F), want=steps)
            for k in {0, steps - 1}:
                rec.close("transition matrix", lqt.F[k], A, tol=1e-10)
                rec.close("input matrix", lqt.L[k], B, tol=1e-10)
                rec.eq("state cost", lqt.X[k], np.eye(2 * N))
                rec.close("input cost", lqt.U[k], 0.1 * np.eye(2), tol=1e-12)
                rec.eq("offset", lqt.c[k], np.zeros(2 * N))
            rec.eq("terminal cost", lqt.XT, np.eye(2 * N))
            want = np.zeros(2 * N)
            want[0] = 1.0
            want[2 * (N // 2)] = 1.0
            rec.eq("initial state: first and middle masses displaced", x0, want)
            rec.ok(lqt.F[0])
    if rec.case("mass defaults", N):
        lqt, x0 = rec.call(MassModel(N).getLQT)
        A, B = exact_zoh(F, L, 0.005)
        rec.true("default number of steps", len(lqt.F) == 2000, got=len(lqt.F))
        rec.close("default step", lqt.F[0], A, tol=1e-10)
        if N == 5:
            rec.eq("default number of masses", MassModel().Fc, MassModel(5).Fc)
        rec.ok(len(lqt.F))


# ---------------------------------------------------------------------------
# tracking models
# ---------------------------------------------------------------------------

def trajectory(turns):
    x = y = 5.0
    angle, out = 0.0, [(5.0, 5.0)]
    for t in turns:
        angle += 0.5 * math.pi * 2.0 * (t - 0.5)
        nx, ny = x + math.cos(angle), y + math.sin(angle)
        x = 2 * x - nx if nx <= 0.5 or nx >= 9.5 else nx
        y = 2 * y - ny if ny <= 0.5 or ny >= 9.5 else ny
        out.append((x, y))
    return tuple(np.round(np.array(out).ravel(), 7) + 0.0)


def linear_paths(rec, N, cells):
    from parallel_control.linear_model_np import LinearModel
    if not rec.case("paths", N, cells):
        return
    got, n = {}, 0
    for p, xy in Draws([(c, 1.0 / len(cells)) for c in cells]).run(lambda: rec.call(LinearModel().genData, N)):
        if p is None:
            return
        n += 1
        rec.true("shape", xy.shape == (2, N), got=xy.shape)
        rec.true("inside the area", np.all(xy > 0.5) and np.all(xy < 9.5), xy=xy)
        k = tuple(np.round(np.asarray(xy).T.ravel(), 7) + 0.0)
        got[k] = got.get(k, 0.0) + p
    if not n:
        return
    want = {}
    for t in itertools.product(cells, repeat=N - 1):
        k = trajectory(t)
        want[k] = want.get(k, 0.0) + len(cells) ** -(N - 1.0)
    same_distribution(rec, "trajectories", got, want)
    rec.group("random executions of the tracking model", n)
    rec.ok(n)


def linear_data(rec):
    from parallel_control.linear_model_np import LinearModel
    for seed in (123, 0, 1, 2, 3, 99):
        for N in (1, 2, 3, 10, 50, 300):
            if rec.case("trajectory", seed, N):
                xy = rec.call(LinearModel(seed).genData, N)
                np.random.seed(N)
                rec.eq("reproducible", rec.call(LinearModel(seed).genData, N), xy)
                rec.true("shape", xy.shape == (2, N), got=xy.shape)
                rec.eq("starts in the middle", xy[:, 0], np.array([5.0, 5.0]))
                rec.true("inside the area", np.all(xy > 0.5) and np.all(xy < 9.5), xy=xy)
                if N > 1:
                    rec.close("unit steps", np.hypot(*np.diff(xy)), np.ones(N - 1), tol=1e-9)
                rec.ok(xy)
    if rec.case("default seed"):
        xy = rec.call(LinearModel().genData, 20)
        rec.eq("default seed", LinearModel(123).genData(20), xy)
        rec.true("seeds differ", any(not np.array_equal(LinearModel(s).genData(20), xy) for s in range(3)))
        rec.ok(xy)


def tracking(rec, kind):
    from parallel_control.linear_model_np import LinearModel
    from parallel_control.nonlinear_model_np import NonlinearModel
    lin = kind == "linear"
    Fc, Lc = np.zeros((4, 4)), np.zeros((4, 2))
    Fc[0, 2] = Fc[1, 3] = Lc[2, 0] = Lc[3, 1] = 1.0
    for N in range(1, 5):
        for steps in (1, 2, 3, 5, 10, 12, None):
            if not rec.case(kind, N, steps):
                continue
            d = 2 if lin else 3
            xy = wit(("xy", N, steps), d, N, lo=0, hi=10)
            m = LinearModel() if lin else NonlinearModel()
            keep = xy.copy()
            lqt, x0 = rec.call(m.getLQT, xy, *(() if steps is None else (steps,)))
            rec.eq("points unchanged", xy, keep)
            s = 10 if steps is None else steps
            T = s * N
            for name in ("F", "L", "X", "U", "c", "H", "r"):
                rec.true(f"length of {name}", len(getattr(lqt, name)) == T, got=len(getattr(lqt, name)), want=T)
            A, B = exact_zoh(Fc, Lc, 1.0 / s) if lin else (np.eye(4), None)
            H = np.eye(4)[:d]
            for k in range(T):
                rec.close("transition matrix", lqt.F[k], A, tol=1e-10)
                if lin:
                    rec.close("input matrix", lqt.L[k], B, tol=1e-10)
                rec.eq("observation", lqt.H[k], H)
                rec.close("reference: the latest point", lqt.r[k], xy[:, k // s], tol=1e-12)
                w = 100.0 * np.eye(2) if lin else np.diag([100.0, 100.0, 1000.0])
                rec.close("weight only at points", lqt.X[k], w if k % s == 0 else 1e-6 * np.eye(d), tol=1e-12, scale=1e-6 if k % s else None)
                rec.close("input cost", lqt.U[k], 0.1 * np.eye(2) if lin else np.diag([1.0, 100.0]), tol=1e-12)
            rec.close("initial state at the first point", x0, np.concatenate([xy[:, 0], np.zeros(4 - d)]), tol=1e-12)
            rec.close("terminal reference at the last point", lqt.rT, np.concatenate([xy[:, -1], np.zeros(2)]) if lin else xy[:, -1], tol=1e-12)
            rec.close("terminal weight", lqt.XT, np.eye(4) if lin else 1e-6 * np.eye(3), tol=1e-12)
            rec.eq("terminal observation", lqt.HT, np.eye(4) if lin else np.eye(4)[:3])
            rec.true("terminal sizes", lqt.HT.shape[0] == lqt.XT.shape[0] == len(lqt.rT) and lqt.HT.shape[1] == 4)
            if not lin:
                guesses(rec, m, lqt, x0, T)
            rec.ok(lqt.r[-1])


def guesses(rec, m, lqt, x0, T):
    for z in (True, False, None):
        us, xs = rec.call(m.initialGuess, lqt, x0, *(() if z is None else (z,)))
        rec.true("guess length", len(us) == T and len(xs) == T + 1, us=len(us), xs=len(xs))
        rec.eq("guess starts at the initial state", xs[0], x0)
        for k in range(T):
            rec.true("guess sizes", us[k].shape == (2,) and xs[k + 1].shape == (4,))
            rec.eq("zero control guess", us[k], np.zeros(2))
            if z is False:
                rec.close("guess follows the reference", xs[k + 1][:3], lqt.r[k][:3], tol=1e-12)
                rec.true("guessed speed is not negative", xs[k + 1][3] >= 0)
            else:
                rec.eq("zero guess", xs[k + 1], np.zeros(4))


def bicycle(rec):
    import tensorflow as tf
    from parallel_control.nonlinear_model_np import NonlinearModel
    from parallel_control import nonlinear_model_tf as N
    tt = lambda a: tf.constant(np.asarray(a, float), tf.float64)
    grid = list(itertools.product((-2.0, 0.0, 1.5), (0.4,), (-4.0, -math.pi / 2, 0.0, 0.3, 2.0, 7.0), (-1.3, 0.0, 2.0), (-1.0, 0.0, 0.7), (-0.5, 0.0, 2.0)))
    for dt in (0.1, 1.0, 0.013, -0.2, 0.0):
        m = NonlinearModel(dt) if dt != 0.1 else NonlinearModel()
        X, U, fs, Fx, Fu = [], [], [], [], []
        for px, py, th, v, a, w in grid:
            x, u = np.array([px, py, th, v]), np.array([a, w])
            f = np.array([px + v * math.cos(th) * dt, py + v * math.sin(th) * dt, th + w * dt, v + a * dt])
            Jx = np.eye(4)
            Jx[:2, 2] = -v * math.sin(th) * dt, v * math.cos(th) * dt
            Jx[:2, 3] = math.cos(th) * dt, math.sin(th) * dt
            Ju = np.zeros((4, 2))
            Ju[2, 1] = Ju[3, 0] = dt
            if rec.case("bicycle", dt, px, th, v, a, w):
                rec.close("f", rec.call(m.f, x, u), f, tol=1e-12)
                rec.close("Fx", rec.call(m.Fx, x, u), Jx, tol=1e-12)
                rec.close("Fu", rec.call(m.Fu, x, u), Ju, tol=1e-12)
                rec.ok(f)
            X.append(x), U.append(u), fs.append(f), Fx.append(Jx), Fu.append(Ju)
        for sl in (slice(None), slice(3, 4), slice(10, 12)):
            if rec.case("bicycle tf", dt, str(sl)):
                a = (tt(X[sl]), tt(U[sl]))
                k = {} if dt == 0.1 and sl.start == 3 else {"dt": dt}
                rec.close("TF f", rec.call(N.nonlinear_model_f, *a, **k), fs[sl], tol=1e-12)
                rec.close("TF Fx", rec.call(N.nonlinear_model_Fx, *a, **k), Fx[sl], tol=1e-12)
                rec.close("TF Fu", rec.call(N.nonlinear_model_Fu, *a, **k), Fu[sl], tol=1e-12)
                rec.ok(fs[sl])
    for n in (1, 2, 3, 7, 20, 53):
        for steps in (1, 2, 3, 7, 10, None):
            if n == 1:
                continue
            if rec.case("curve", n, steps):
                xyt, dense = rec.call(NonlinearModel().genData, n, *(() if steps is None else (steps,)))
                s = 10 if steps is None else steps
                rec.true("dense shape", dense.shape == (3, n), got=dense.shape)
                rec.eq("sparse data are every steps-th point", xyt, dense[:, ::s])
                t = np.linspace(0, 2 * np.pi, n)
                rec.close("x", dense[0], 7 + 4 * np.cos(t) + 2 * np.sin(2 * t) + 2 * np.cos(3 * t), tol=1e-10)
                rec.close("y", dense[1], 7 + 3 * np.sin(t) - np.sin(2 * t) + 2 * np.sin(3 * t), tol=1e-10)
                dx, dy = np.diff(dense[0]), np.diff(dense[1])
                w = np.angle(np.exp(1j * (dense[2][:-1] - np.arctan2(dy, dx))))
                good = np.hypot(dx, dy) > 1e-9
                rec.true("heading points to the next point", np.all(np.abs(w[good]) < 1e-9), err=w)
                rec.true("heading is continuous", np.all(np.abs(np.diff(dense[2])) <= np.pi + 1e-9))
                rec.ok(dense)


def continuous(rec):
    import tensorflow as tf
    from parallel_control.linear_model_np import LinearModel
    from parallel_control import linear_model_tf as T
    from parallel_control import contlin_speedtest as S
    clqt, x0 = rec.call(LinearModel().getCLQT)
    cx = [5.7770, -2.6692, 1.1187, 0.1379, 0.5718, 1.1214, 0.2998, 0.3325, 0.7451, 0.2117, 0.6595, 0.0401, -0.2995]
    cy = [4.3266, -1.4584, -1.2457, 1.1804, 0.2035, 0.5123, 1.0588, 0.2616, -0.6286, -0.3802, 0.2750, -0.0070, -0.0022]
    four = lambda c, t: c[0] + sum(c[2 * j - 1] * math.cos(2 * math.pi * j * t / 50) + c[2 * j] * math.sin(2 * math.pi * j * t / 50) for j in range(1, 7))
    Fc, Lc = np.zeros((4, 4)), np.zeros((4, 2))
    Fc[0, 2] = Fc[1, 3] = Lc[2, 0] = Lc[3, 1] = 1.0
    want = dict(F=Fc, L=Lc, X=np.eye(2), U=0.1 * np.eye(2), c=np.zeros(4), H=np.eye(4)[:2])
    models = {}
    for dtype in (tf.float64, tf.float32):
        x0t, Tt, XT, HT, rT, F, L, X, U, c, H, r = rec.call(T.get_clqt, dtype=dtype)
        models[dtype.name] = (dict(x0=x0t, T=Tt, XT=XT, HT=HT, rT=rT), dict(F=F, L=L, X=X, U=U, c=c, H=H, r=r), dtype)
        x0t, XT, HT, rT, Tt, F, L, X, U, c, H, r = rec.call(S.clqr_get_tracking_model, dtype=dtype)
        models["speedtest " + dtype.name] = (dict(x0=x0t, T=Tt, XT=XT, HT=HT, rT=rT), dict(F=F, L=L, X=X, U=U, c=c, H=H, r=r), dtype)
    x0t, Tt, XT, HT, rT, F, L, X, U, c, H, r = rec.call(T.get_clqt)
    models["default"] = (dict(x0=x0t, T=Tt, XT=XT, HT=HT, rT=rT), dict(F=F, L=L, X=X, U=U, c=c, H=H, r=r), tf.float64)
    models["numpy"] = (dict(x0=x0, T=clqt.T, XT=clqt.XT, HT=clqt.HT, rT=clqt.rT), dict(F=clqt.F, L=clqt.L, X=clqt.X, U=clqt.U, c=clqt.c, H=clqt.H, r=clqt.r), None)
    for name, (const, fn, dtype) in models.items():
        tol = 1e-10 if dtype is not tf.float32 else 2e-6
        if rec.case("constants", name):
            for k, w in dict(x0=[5.0, 5.0, 0.0, 0.0], T=50.0, XT=np.eye(4), HT=np.eye(4), rT=[4.9514, 4.4353, 0.0, 0.0]).items():
                rec.close(f"{name}: {k}", const[k], np.array(w), tol=tol)
                rec.true(f"{name}: type of {k}", dtype is None or const[k].dtype == dtype)
            rec.ok(name)
        for t in np.linspace(0.0, 50.0, 201):
            if rec.case("time", name, float(t)):
                a = float(t) if dtype is None else tf.constant(t, dtype)
                rec.close(f"{name}: r(t)", rec.call(fn["r"], a), [four(cx, t), four(cy, t)], tol=tol, scale=10.0)
                for k, w in want.items():
                    got = fn[k](a)
                    rec.close(f"{name}: {k}(t)", got, w, tol=tol)
                    rec.true(f"{name}: type of {k}", dtype is None or got.dtype == dtype)
                rec.ok(t)


# ---------------------------------------------------------------------------
# scalar models
# ---------------------------------------------------------------------------

SCALAR = {
    "linear_model": (lambda x, u: x + u, lambda x, u: 0.5 * x * x + 0.5 * u * u, lambda x: x * x, 1.0, (-2.0, 2.0), (-2.0, 2.0)),
    "velocity_model": (lambda x, u: 1.0 - 0.1 * x * x + u, lambda x, u: 0.5 * x * x + 0.5 * u * u, lambda x: 2.0 * x * x, 1.0, (-3.0, 3.0), (-2.0, 2.0)),
    "upwind_model": (lambda x, u: u * x, lambda x, u: 0.0, lambda x: -x, 1.0, (-1.0, 1.0), (0.0, 1.0)),
}


def scalar(rec, lib):
    if lib == "np":
        import jax.numpy as be
        from parallel_control import cnonlin_models_np as M
        k = lambda v, d=be.float64: be.asarray(v, d)
    else:
        import tensorflow as be
        from parallel_control import cnonlin_models_tf as M
        k = lambda v, d=be.float64: be.constant(v, d)
    for name, (f, L, LT, T, xr, ur) in SCALAR.items():
        for nx, nu in itertools.product((2, 3, 5, 9), (2, 3, 6)):
            for dtype in (be.float64, be.float32):
                if not rec.case(lib, name, nx, nu, str(dtype)):
                    continue
                tol = 1e-12 if dtype == be.float64 else 1e-5
                got = rec.call(getattr(M, name), nx, nu, **({} if dtype == be.float64 and nx != 3 else {"dtype": dtype}))
                _scalar_one(rec, lib, name, got, f, L, LT, T, xr, ur, nx, nu, dtype, tol, k)
        for dtype in (be.float64,):
            if rec.case(lib, name, "defaults"):
                got = rec.call(getattr(M, name))
                _scalar_one(rec, lib, name, got, f, L, LT, T, xr, ur, 100, 100, dtype, 1e-12, k)
    for lo, hi, n in [(-1, 1, 11), (-1, 1, 10), (0, 1, 10), (-1, 0, 10), (-2, 3, 21), (-3, -1, 8), (1, 3, 8), (0, 0.1, 5), (-1, 1, 2), (-1, 1, 3), (-0.5, 2, 26), (-20, 20, 9)]:
        grid = np.linspace(lo, hi, n)
        for dt in (0.01, 0.1, 0.5, 1.0, 3.0):
            for inf in (100.0, 1e20):
                if rec.case(lib, "upwind V", lo, hi, n, dt, inf):
                    V = rec.call(M.upwind_model_block_V, k(inf) if lib == "tf" else inf, k(dt) if lib == "tf" else dt, k(grid))
                    a = math.exp(dt)
                    x0, xf = grid[:, None], grid[None, :]
                    reach = (xf >= np.minimum(x0, a * x0)) & (xf <= np.maximum(x0, a * x0))
                    rec.eq("value is zero exactly on the reachable pairs", np.asarray(V), np.where(reach, 0.0, inf))
                    rec.ok(V)


def _scalar_one(rec, lib, name, got, f, L, LT, T, xr, ur, nx, nu, dtype, tol, k):
    f2, L2, LT2, T2, xg, ug = got
    rec.close("state grid", xg, np.linspace(*xr, nx), tol=tol)
    rec.close("input grid", ug, np.linspace(*ur, nu), tol=tol)
    rec.true("grid types", xg.dtype == dtype and ug.dtype == dtype, got=(str(xg.dtype), str(ug.dtype)))
    rec.close("horizon", T2, T, tol=tol)
    for x in (-2.5, -1.0, -0.3, 0.0, 0.7, 2.0):
        for u in (-2.0, -0.4, 0.0, 0.9):
            a, b = k(x, dtype), k(u, dtype)
            rec.close("f", f2(a, b), f(x, u), tol=tol, scale=3.0)
            rec.close("L", L2(a, b), L(x, u), tol=tol, scale=3.0)
        rec.close("LT", LT2(a), LT(x), tol=tol, scale=8.0)
    x, u = np.array([-2.5, -1.0, 0.0, 0.7]), np.array([0.3, -0.2, 1.0, -1.0])
    rec.close("f on a vector", f2(k(x, dtype), k(u, dtype)), f(x, u), tol=tol, scale=3.0)
    rec.close("LT on a vector", LT2(k(x, dtype)), LT(x), tol=tol, scale=8.0)
    if name != "upwind_model":
        rec.close("L on a vector", L2(k(x, dtype), k(u, dtype)), L(x, u), tol=tol, scale=3.0)
    rec.ok(xg)


def jobs(tier):
    deep = tier == "thorough"
    out = [(10, "ge", dict(T=t)) for t in ((0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4))]
    out += [(12, "game", dict(nx=n, deep=deep)) for n in range(1, 10)]
    out += [(3, "game_defaults", {}), (3, "linear_data", {}), (8, "continuous", {}), (8, "bicycle", {})]
    out += [(4, "mass", dict(N=n)) for n in range(1, 7 if not deep else 11)]
    out += [(4, "tracking", dict(kind=k)) for k in ("linear", "nonlinear")]
    out += [(8, "scalar", dict(lib=l)) for l in ("np", "tf")]
    five, three = (0.0, 0.25, 0.5, 0.75, 0.999), (0.25, 0.5, 0.75)
    out += [(5, "linear_paths", dict(N=n, cells=five)) for n in range(2, 6 if not deep else 8)]
    out += [(5, "linear_paths", dict(N=n, cells=three)) for n in ((6, 7, 8) if not deep else (6, 7, 8, 9, 10))]
    return out
