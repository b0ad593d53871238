"""C26: interpolated band data reproduces the data and its symmetry."""
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel import kpaths as kp
from tight_binding_redweasel.symmetry import Symmetry

RULE = "the band data are not constant and the grid has more than 4 points"
ASSUMPTIONS = ["grids with at least 2 points per axis, given completely or as one representative (in any unit cell) per orbit of a group that maps the grid onto itself",
               "cubic and quintic interpolation solves a sparse system iteratively: exact up to 1e-4 of the norm of the data"]
GROUPS = {1: {"1": [], "-1": [[[-1]]]},
          2: {"1": [], "-1": [[[-1, 0], [0, -1]]], "mx": [[[-1, 0], [0, 1]]], "swap": [[[0, 1], [1, 0]]], "c4": [[[0, 1], [-1, 0]]], "square": [[[0, 1], [-1, 0]], [[1, 0], [0, -1]]],
              "c3": [[[0, -1], [1, -1]]], "c6": [[[1, -1], [1, 0]]], "c6v": [[[1, -1], [1, 0]], [[0, 1], [1, 0]]], "mm": [[[-1, 0], [0, 1]], [[1, 0], [0, -1]]]},
          3: {"1": [], "-1": [[[-1, 0, 0], [0, -1, 0], [0, 0, -1]]], "mx": [[[-1, 0, 0], [0, 1, 0], [0, 0, 1]]], "perm": [[[0, 1, 0], [0, 0, 1], [1, 0, 0]]],
              "m3": [[[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]],
              "oh": [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]],
              "c4z": [[[0, 1, 0], [-1, 0, 0], [0, 0, 1]]], "hex": [[[1, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]],
              "fcc": [[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [0, 1, -1], [-1, 1, 0]]]}}
SAME = {"swap": [0, 1], "c4": [0, 1], "square": [0, 1], "c3": [0, 1], "c6": [0, 1], "c6v": [0, 1], "perm": [0, 1, 2], "oh": [0, 1, 2], "c4z": [0, 1], "hex": [0, 1], "fcc": [0, 1, 2]}
UNSHIFTED = {"c3", "c6", "c6v", "hex", "fcc"}


def closure(gens, dim):
    S = [np.eye(dim, dtype=int)]
    todo = [np.array(g) for g in gens]
    new = list(S)
    while new:
        nxt = []
        for a in new:
            for g in todo:
                b = a @ g
                if not any(np.array_equal(b, s) for s in S):
                    S.append(b)
                    nxt.append(b)
        new = nxt
    return S


@st.composite
def s_grid(draw, periodic=None, methods=("linear", "linear", "cubic", "nearest", "slinear"), groups=True):
    dim = draw(st.sampled_from([1, 2, 2, 3, 3]))
    g = draw(st.sampled_from(sorted(GROUPS[dim]))) if groups else "1"
    mx = {1: 12, 2: 7, 3: 5}[dim]
    if draw(st.integers(0, 24)) == 7:
        mx = {1: 200, 2: 24, 3: 11}[dim]
    N = [draw(st.integers(2, mx)) for _ in range(dim)]
    for a in SAME.get(g, []):
        N[a] = N[SAME[g][0]]
    shift = [0.0] * dim
    if g not in UNSHIFTED:
        k = draw(st.sampled_from(["none", "none", "half", "any" if g == "1" else "half"]))
        shift = [.5] * dim if k == "half" else [draw(st.integers(1, 60)) / 61 for _ in range(dim)] if k == "any" else shift
    nb = draw(gen.often(st.integers(1, 3), [11], 20))
    return {"dim": dim, "g": g, "N": N, "shift": shift, "nb": nb, "v": draw(st.binary(min_size=4, max_size=4)).hex(), "mode": draw(st.sampled_from(["dense", "dense", "int", "big", "complex"])),
            "per": draw(st.booleans()) if periodic is None else periodic, "method": draw(st.sampled_from(methods)), "cell": draw(st.sampled_from(["zero", "centred", "any"])), "sym": draw(st.sampled_from(["sym", "sym", "full"])),
            "lists": draw(st.booleans()), "grid": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 2.0, .37, .01]))}


def rng_of(c):
    return np.random.RandomState(int(c["v"], 16))


def make(c):
    """full grid (integers and positions), orbit of every point, values per point, representatives, group"""
    r = rng_of(c)
    dim, N = c["dim"], np.array(c["N"])
    S = closure(GROUPS[dim][c["g"]], dim)
    if c["per"]:
        idx = np.array(list(np.ndindex(*N)))
        K = (idx + c["shift"]) / N
    else:  # a box symmetric about the origin, the points are not periodic
        idx = np.array(list(np.ndindex(*N)))
        K = (2 * idx - (N - 1)) / 2.0 * c["scale"] / 2
        if c["g"] in UNSHIFTED:
            raise Skip()
    n = len(K)
    key = {tuple(k): i for i, k in enumerate(np.round(((K + 1e-9) % 1.0 if c["per"] else K) * 1e6).astype(int))}
    orb = -np.ones(n, int)
    for i in range(n):
        if orb[i] < 0:
            for s in S:
                q = s @ K[i]
                t = tuple(np.round(((q + 1e-9) % 1.0 if c["per"] else q) * 1e6).astype(int))
                require(t in key, lambda: f"harness: group {c['g']} does not preserve the grid {c['N']} + {c['shift']}")
                orb[key[t]] = i
    m = c["mode"]
    V = r.randint(-128, 128, (n, c["nb"])) / (1.0 if m == "int" else 64.0)
    V = V.astype(int) if m == "int" else V * 1e3 if m == "big" else V + 1j * r.randint(-9, 9, (n, c["nb"])) if m == "complex" else V
    V = V[orb]
    return S, K, orb, V, r


def given_points(c, S, K, orb, r):
    """what a user passes: one representative per orbit or everything, permuted, in any unit cell"""
    n = len(K)
    if c["sym"] == "sym":
        sel = np.array([r.choice(np.flatnonzero(orb == o)) for o in sorted(set(orb))])
    else:
        sel = np.arange(n)
    sel = sel[r.permutation(len(sel))]
    k = K[sel].copy()
    if c["per"]:
        if c["cell"] == "centred":
            k = (k + .5) % 1.0 - .5
        elif c["cell"] == "any":
            k = k + r.randint(-2, 3, k.shape)
    return sel, k


def symm(c, S):
    if c["g"] == "1" and c["sym"] == "full":
        return None
    if c["sym"] == "full":  # complete data: no symmetry is needed
        return None
    dim = c["dim"]
    return Symmetry.from_generator(GROUPS[dim][c["g"]], False) if c["g"] != "1" else Symmetry.none(dim)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def call(c, k, V, sym, **kw):
    if c["grid"] or len(set(c["N"])) > 1:
        kw["grid"] = tuple(c["N"]) if not c["lists"] else list(c["N"])
    if c["lists"]:
        k, V = k.tolist(), V.tolist()
    return quiet(lambda: kp.interpolate(k, V, sym, method=c["method"], periodic=c["per"], **kw))


def t_data(c, ctx):
    S, K, orb, V, r = make(c)
    if c["mode"] == "complex" and c["method"] not in ("linear", "nearest"):
        raise Skip()
    if not c["per"] and c["method"] == "cubic" and min(c["N"]) < 4:
        raise Skip()
    sel, k = given_points(c, S, K, orb, r)
    k0, V0, Vg = k.copy(), V[sel].copy(), V[sel]
    f = call(c, k, Vg, symm(c, S))
    require(np.array_equal(k, k0) and np.array_equal(Vg, V0), "interpolate modified its input")
    exact = c["method"] not in ("cubic", "quintic")
    tol = 1e-9 * np.abs(V).max() if exact else 1e-4 * (1e-9 + np.linalg.norm(V))
    at = lambda q: quiet(lambda: np.asarray(f(q)))
    q = K
    if not c["per"]:  # stay inside of the box in spite of rounding
        lim = np.abs(K).max(axis=0)
        q = np.clip(K, -lim, lim)
    close(at(q), V, tol, 0, f"data points ({c['method']}, {'periodic' if c['per'] else 'box'}, group {c['g']}, grid {c['N']})")
    if c["per"]:
        close(at(k), V[sel], tol, 0, "data at the given points")
        close(at(K + r.randint(-3, 4, K.shape)), V, tol, 0, "data at periodic images")
        close(at(((K + .5) % 1.0) - .5), V, tol, 0, "data in the centred cell")
        for s in [S[i] for i in r.permutation(len(S))[:4]]:
            close(at(K @ s.T), V, tol, 0, "data at symmetric images")
        x = r.rand(20, c["dim"]) * 4 - 2
        y = at(x)
        require(np.all(np.isfinite(y)), "not finite")
        if c["method"] != "nearest":
            close(at(x + r.randint(-2, 3, x.shape)), y, 1e-8 * (1e-9 + np.abs(V).max()) * (1 if exact else 10), 1e-9, "periodic between the data points")
    else:
        x = (r.rand(20, c["dim"]) * 2 - 1) * np.abs(K).max(axis=0)
        y = at(x)
        lim = np.abs(K).max()
        raises(ValueError, lambda: f(np.full((1, c["dim"]), lim * 1.5 + .1)), "outside of the data without periodicity")
    require(y.shape == (20, c["nb"]), lambda: f"shape {y.shape}")
    if c["method"] in ("linear", "slinear", "nearest"):
        for part in (np.real, np.imag):
            P = part(V)
            require(np.all(part(y) <= P.max(axis=0) + tol) and np.all(part(y) >= P.min(axis=0) - tol), "linear interpolation leaves the range of the data")
    # a single point
    close(np.asarray(f(q[0])).reshape(-1), V[0], tol, 0, "a single point")
    # order of the data points
    p = r.permutation(len(k))
    g = call(c, k[p], Vg[p], symm(c, S))
    close(quiet(lambda: np.asarray(g(x))), y, tol, 0, "the order of the data points changes the interpolation")
    ctx.label(c["method"], f"{c['dim']}D", "reduced" if c["sym"] == "sym" and c["g"] != "1" else "full", "periodic" if c["per"] else "box")
    ctx.trivial(len(K) <= 4 or np.ptp(np.abs(V)) == 0)


# ------------------------------------------------------ linear interpolation is multilinear
def t_linear(c, ctx):
    c = dict(c, method="linear", per=True)
    S, K, orb, V, r = make(c)
    sel, k = given_points(c, S, K, orb, r)
    f = call(c, k, V[sel], symm(c, S))
    N, sh = np.array(c["N"]), np.array(c["shift"])
    grid = V.reshape(tuple(N) + (c["nb"],))
    x = r.rand(30, c["dim"]) * 3 - 1.5
    u = x * N - sh
    i0 = np.floor(u).astype(int)
    w = u - i0
    want = np.zeros((30, c["nb"]), dtype=complex)
    for corner in itertools.product((0, 1), repeat=c["dim"]):
        co = np.array(corner)
        wt = np.prod(np.where(co, w, 1 - w), axis=1)
        want += wt[:, None] * grid[tuple(((i0 + co) % N).T)]
    y = quiet(lambda: np.asarray(f(x)))
    close(y, want if np.iscomplexobj(y) else want.real, 1e-9 * (1e-9 + np.abs(V).max()), 1e-9, f"multilinear interpolation of the periodic grid {c['N']}+{c['shift']}")
    ctx.label(f"{c['dim']}D", c["g"])
    ctx.trivial(len(K) <= 4 or np.ptp(np.abs(V)) == 0)


# ------------------------------------------------------ convergence to smooth data
ORDER = {"linear": (2, .125), "slinear": (2, .125), "cubic": (4, .1), "quintic": (4, .1)}


@st.composite
def s_smooth(draw):
    c = draw(s_grid(True, methods=("linear", "cubic", "cubic", "quintic", "slinear"), groups=False))
    c["N"] = [draw(st.integers(8, {1: 60, 2: 16, 3: 9}[c["dim"]])) for _ in range(c["dim"])]
    return dict(c, mode="dense", m=[draw(st.integers(-1, 1)) for _ in range(c["dim"])], ph=draw(st.integers(0, 63)))


def t_smooth(c, ctx):
    """a single harmonic: the error is bounded by the order of the method everywhere, also at the border of the unit cell"""
    S, K, orb, V, r = make(c)
    m, a = np.array(c["m"]), r.randint(1, 9, c["nb"]) / 4
    F = lambda k: np.cos(2 * np.pi * (k @ m)[:, None] + c["ph"] / 10 + np.arange(c["nb"])) * a
    sel, k = given_points(c, S, K, orb, r)
    f = call(c, k, F(k), symm(c, S))
    x = r.rand(60, c["dim"]) * 2 - 1
    e = (r.rand(40, c["dim"]) - .5) * .3
    e[np.arange(40), r.randint(0, c["dim"], 40)] += .5  # close to the border
    x = np.concatenate([x, e])
    p, fac = ORDER[c["method"]]
    tol = fac * np.sum((2 * np.pi * np.abs(m) / np.array(c["N"])) ** p) * a + (1e-4 * np.linalg.norm(F(K)) if p > 2 else 1e-9)
    d = np.abs(quiet(lambda: np.asarray(f(x))) - F(x))
    require(np.all(d <= tol), lambda: f"{c['method']} interpolation of one harmonic {c['m']} on the grid {c['N']} is off by {np.max(d / a):.3e} times its amplitude, the bound is {np.min(tol / a):.3e}, at {x[np.argmax(np.max(d / a, axis=1))]}")
    ctx.label(c["method"], f"{c['dim']}D")
    ctx.trivial(not m.any())


# ------------------------------------------------------ duplicates
def t_dupl(c, ctx):
    """equivalent points given twice with the same data change nothing"""
    c = dict(c, per=True, sym="sym", method="linear")
    S, K, orb, V, r = make(c)
    sel, k = given_points(c, S, K, orb, r)
    extra = r.randint(0, len(K), 3)
    k2, V2 = np.concatenate([k, K[extra] + r.randint(-1, 2, (3, c["dim"]))]), np.concatenate([V[sel], V[extra]])
    p = r.permutation(len(k2))
    f = call(c, k2[p], V2[p], symm(c, S))
    close(np.asarray(f(K)), V, 1e-9 * (1e-9 + np.abs(V).max()), 1e-9, f"data with repeated equivalent points (group {c['g']}, grid {c['N']})")
    ctx.label(c["g"])
    ctx.trivial(len(K) <= 4)


# ------------------------------------------------------ inconsistent data
def t_average(c, ctx):
    """complete grid data that are only nearly symmetric are averaged over symmetric images"""
    c = dict(c, per=True, sym="full", method="linear")
    if c["g"] == "1" or c["mode"] == "complex":
        raise Skip()
    S, K, orb, V, r = make(c)
    V = V + .1 * r.randn(*V.shape) * np.abs(V).max()
    want = np.array([V[orb == o].mean(axis=0) for o in orb])
    sel, k = given_points(c, S, K, orb, r)
    f = call(c, k, V[sel], symm(dict(c, sym="sym"), S))
    tol = 1e-9 * (1e-9 + np.abs(V).max())
    close(np.asarray(f(K)), want, tol, 1e-9, f"average of inconsistent data (group {c['g']}, grid {c['N']}+{c['shift']})")
    for s in [S[i] for i in r.permutation(len(S))[:4]]:
        close(np.asarray(f(K @ s.T)), want, tol, 1e-9, "symmetric images of inconsistent data")
    ctx.label(c["g"])
    ctx.trivial(len(K) <= 4)


# ------------------------------------------------------ lookup
def t_lookup(c, ctx):
    S, K, orb, V, r = make(dict(c, per=False, g=c["g"] if c["g"] not in UNSHIFTED else "1"))
    c = dict(c, per=False, g=c["g"] if c["g"] not in UNSHIFTED else "1")
    if c["scale"] < .1:
        raise Skip()  # closer than max_error
    if c["scale"] < .5:  # lookup needs no grid: scattered points
        K = K + (r.rand(*K.shape) - .5) * .1
        c = dict(c, g="1", sym="full")
        V = r.randint(-128, 128, V.shape) / 64
        orb = np.arange(len(K))
        S = S[:1]
    if c["mode"] == "int":
        V = np.array(V)
    sel, k = given_points(c, S, K, orb, r)
    err = [None, 1e-2, 1e-3, 1e-5][r.randint(4)]
    kw = {} if err is None else {"max_error": err}
    sym = symm(c, S)
    k0, V0, Vg = k.copy(), V[sel].copy(), V[sel]
    a = (k.tolist(), Vg.tolist()) if c["lists"] and sym is None else (k, Vg)
    f = quiet(lambda: kp.interpolate_unstructured(*a, sym, **kw))
    require(np.array_equal(k, k0) and np.array_equal(Vg, V0), "the data were modified")
    err = err or 1e-3
    known = K if sym is not None else k
    val = V if sym is not None else Vg
    d = r.randn(*known.shape)
    d /= np.linalg.norm(d, axis=1, keepdims=True)
    close(np.asarray(f(known)), val, 1e-12 * (1 + np.abs(V).max()), 0, "known points")
    close(np.asarray(f(known + d * err * .5)), val, 1e-12 * (1 + np.abs(V).max()), 0, "points within max_error")
    y = np.asarray(f(known + d * err * 1.5))
    far = np.min(np.linalg.norm((known + d * err * 1.5)[:, None] - known[None], axis=-1), axis=1) > err * 1.01
    require(np.all(np.isnan(y[far])), "points farther than max_error are not NaN")
    x = r.rand(20, c["dim"]) * 4 - 2
    y = np.asarray(f(x))
    require(y.shape == (20, c["nb"]), lambda: f"shape {y.shape}")
    D = np.linalg.norm(x[:, None] - known[None], axis=-1)
    require(np.all(np.isnan(y[D.min(axis=1) > err * 1.01])), "unknown points are not NaN")
    p = r.permutation(len(k))
    g = quiet(lambda: kp.interpolate_unstructured(k[p], Vg[p], sym, **kw))
    close(np.asarray(g(known)), val, 1e-12 * (1 + np.abs(V).max()), 0, "the order of the data matters")
    ctx.label("symmetric" if sym is not None and len(S) > 1 else "plain", f"max_error {err}")
    ctx.trivial(len(K) <= 4 or np.ptp(np.abs(V)) == 0)


# ------------------------------------------------------ errors
@st.composite
def s_bad(draw):
    return {"k": draw(st.sampled_from(["count", "dim", "grid", "missing", "shape"])), "N": draw(st.integers(3, 5)), "dim": draw(st.integers(1, 3)), "v": draw(st.binary(min_size=4, max_size=4)).hex()}


def t_bad(c, ctx):
    r = rng_of(c)
    N, dim = c["N"], c["dim"]
    K = np.array(list(np.ndindex(*[N] * dim))) / N
    V = r.rand(len(K), 2)
    E = (AssertionError, ValueError)
    if c["k"] == "count":
        raises(E, lambda: kp.interpolate(K, V[:-1]), "different numbers of points and data")
    elif c["k"] == "dim":
        raises(E, lambda: kp.interpolate(K, V, Symmetry.none(dim % 3 + 1)), "symmetry of another dimension")
        raises(E, lambda: kp.interpolate_unstructured(K, V, Symmetry.none(dim % 3 + 1)), "symmetry of another dimension")
    elif c["k"] == "grid":
        raises(E, lambda: kp.interpolate(K, V, grid=[N] * (dim - 1) + [N + 1]), "wrong grid")
    elif c["k"] == "missing":
        if dim == 1:
            raise Skip()
        raises(E, lambda: kp.interpolate(K[:-1], V[:-1]), "incomplete grid")
    else:
        raises(E, lambda: kp.interpolate(K[:, 0], V) if dim > 1 else kp.interpolate(K[None], V), "k-points that are no list of vectors")
    ctx.label(c["k"])


SUBS = [Sub("data", s_grid(), t_data, 1500, 20000, shards=6),
        Sub("multilinear", s_grid(True), t_linear, 700, 10000, shards=3),
        Sub("smooth", s_smooth(), t_smooth, 400, 5000, shards=2),
        Sub("duplicates", s_grid(True), t_dupl, 400, 5000, shards=2),
        Sub("averaged", s_grid(True), t_average, 500, 6000, shards=2),
        Sub("lookup", s_grid(False), t_lookup, 700, 10000, shards=2),
        Sub("bad", s_bad(), t_bad, 150, 1000)]
