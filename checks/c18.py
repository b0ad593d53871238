"""C18: thermal averages are exact for the interpolated state count."""
import numpy as np
from math import factorial
from scipy.special import zeta
from hypothesis import strategies as st
import gen, dosmodels as dm
from c16 import dos_spec, make
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.density_of_states import (DensityOfStates, convolve_df, convolve_ddf, gauss_5_df, gauss_7_df, gauss_4_f, gauss_6_f, int_poly, naive_energy, k_B)

RULE = "the integrand is not identically zero and the temperature is positive"
ASSUMPTIONS = ["k_B = 8.617333e-5 eV/K", "oracle: closed moments of -f' and 1/(1+e^|x|); Gauss-Legendre quadrature of the defining integrals; Stieltjes sums over the interpolated state count",
               "energy and heat capacity: bands of a finite width, chemical potential not inside of a delta-like density peak", "the convolution kernels get piecewise linear curves with increasing energies"]


def mom_df(k):
    """integral x^k (-f'(x)) dx"""
    return 0.0 if k % 2 else 1.0 if k == 0 else 2 * (1 - 2.0 ** (1 - k)) * factorial(k) * zeta(k)


def mom_f(k):
    """integral x^k/(1+e^|x|) dx"""
    return 0.0 if k % 2 else 2 * np.log(2) if k == 0 else 2 * (1 - 2.0 ** -k) * factorial(k) * zeta(k + 1)


@st.composite
def s_gauss(draw):
    return {"k": draw(st.sampled_from(["5df", "7df", "4f", "6f"])), "c": draw(gen.i8(42)), "mu": draw(gen.i8(1)), "beta": draw(st.sampled_from([1., .25, 3., 38.7, 1000.])), "sh": draw(st.sampled_from([[], [1], [3], [2, 2]]))}


def t_gauss(c, ctx):
    f, deg, mom = {"5df": (gauss_5_df, 9, mom_df), "7df": (gauss_7_df, 13, mom_df), "4f": (gauss_4_f, 7, mom_f), "6f": (gauss_6_f, 11, mom_f)}[c["k"]]
    ctx.label(c["k"])
    mu, beta = c["mu"][0] / 8, c["beta"]
    sh = tuple(c["sh"])
    n = int(np.prod(sh))
    P = np.resize(np.array(c["c"], float) / 32, (deg + 1, n)) / np.array([max(mom(k), 1) for k in range(deg + 1)])[:, None]
    # polynomial in (e - mu) * beta of the highest exactly integrated degree
    g = lambda e: sum(np.multiply.outer(((np.asarray(e) - mu) * beta) ** k, P[k].reshape(sh)) for k in range(deg + 1))
    r = f(g, mu, beta)
    want = sum(mom(k) * P[k].reshape(sh) for k in range(deg + 1))
    if mom is mom_f:
        want = want / beta
    cond = sum(max(mom(k), mom(k + k % 2)) * np.abs(P[k]).max() for k in range(deg + 1)) + 1e-12
    close(r, want, 1e-7 * cond * (1 + abs(mu) * beta * 1e-9) / (beta if mom is mom_f else 1), 0, f"{c['k']} integral of a polynomial of degree {deg}")


# -------------------------------------------------------------- int_poly
@st.composite
def s_poly(draw):
    return {"v": draw(gen.i8(3)), "x": draw(gen.i8(3)), "s": draw(st.sampled_from([1 / 64, 1 / 16, 1 / 4, 4.])), "arr": draw(st.booleans())}


def quad_df(g, x0, x1):
    s = 1
    if x1 < x0:
        x0, x1, s = x1, x0, -1
    x0, x1 = max(x0, -700), min(x1, 700)
    cuts = np.unique(np.clip(np.concatenate([[x0, x1], np.linspace(-60, 60, 61)]), x0, x1))
    t, w = np.polynomial.legendre.leggauss(12)
    a, b = cuts[:-1, None], cuts[1:, None]
    x = (a + b) / 2 + (b - a) / 2 * t
    return s * np.sum(g(x) / (4 * np.cosh(x / 2) ** 2) * w * (b - a) / 2)


def t_poly(c, ctx):
    a, b, k = np.array(c["v"]) / 16
    x0, x1, x2 = np.array(c["x"], float) * c["s"]
    g = lambda x: a * x * x + b * x + k
    want = quad_df(g, x0, x1)
    if x0 == x1 or want == 0:
        ctx.trivial()
    tol = 1e-9 * (1 + abs(a) + abs(b) + abs(k))
    close(int_poly(x0, x1, a, b, k), want, tol, 1e-9, f"int_poly({x0}, {x1})")
    close(int_poly(x0, x1, a, b, k) + int_poly(x1, x2, a, b, k), int_poly(x0, x2, a, b, k), tol, 0, "int_poly is additive")
    close(int_poly(np.array([x0, x1]), np.array([x1, x2]), a, np.array([b, b]), k), [int_poly(x0, x1, a, b, k), int_poly(x1, x2, a, b, k)], tol, 0, "int_poly of arrays")
    close(int_poly(-1e3, 1e3, a, b, k), a * np.pi ** 2 / 3 + k, tol, 0, "int_poly over everything")
    close(int_poly(-np.abs(x0), np.abs(x0), 0, b, 0), 0, 1e-9 * (1 + abs(b)), 0, "odd part")


# ------------------------------------------------------------- convolution
@st.composite
def s_conv(draw):
    return {"n": draw(st.sampled_from([2, 3, 4, 7, 12])), "e": draw(gen.i8(12)), "y": draw(gen.i8(48)), "st": draw(st.sampled_from([[], [1], [2], [2, 2]])), "T": draw(st.sampled_from([1., 50., 300., 3000., 1e5])),
            "mode": draw(st.sampled_from(["flat", "none", "point"])), "x": draw(gen.i8(3)), "tiny": draw(st.booleans()), "off": draw(st.sampled_from([0, 0, 5., -40.]))}


def seg_quad(x, e, y, beta, left, right):
    """integral N(E) (-f'(E - x)) dE of the piecewise linear N, with values left/right outside"""
    f = lambda E: 1 / (1 + np.exp(np.clip(beta * (E - x), -700, 700)))
    t, w = np.polynomial.legendre.leggauss(10)
    tot = left * (1 - f(e[0])) + right * f(e[-1])
    for a, b, ya, yb in zip(e[:-1], e[1:], y[:-1], y[1:]):
        c = np.unique(np.clip(np.concatenate([[a, b], x + np.linspace(-50, 50, 51) / beta]), a, b))
        l, r = c[:-1, None], c[1:, None]
        E = (l + r) / 2 + (r - l) / 2 * t
        tot += np.sum((ya + (yb - ya) * (E - a) / (b - a)) * beta / (4 * np.cosh(np.clip(beta * (E - x) / 2, -350, 350)) ** 2) * w * (r - l) / 2)
    return tot


def t_conv(c, ctx):
    n, sh, T = c["n"], tuple(c["st"]), c["T"]
    beta = 1 / (k_B * T)
    gaps = np.abs(np.array(c["e"][:n], float)) / 64 + .02
    if c["tiny"]:
        gaps[n // 2] = 1e-9
    e = np.cumsum(gaps) + c["e"][-1] / 32 + c["off"]
    y = np.resize(np.array(c["y"], float) / 32, sh + (n,))
    mode = c["mode"]
    ctx.label(mode)
    kw, lr = {}, lambda r: (r[0], r[-1])
    if mode == "none":
        kw, lr = dict(extrapolation=None), lambda r: (0., 0.)
    elif mode == "point":
        y[..., 0] = 0
        p = 2.5
        y[..., -1] = p
        kw, lr = dict(extrapolation_point=(e[-1], p)), lambda r: (0., p)
    e_in, y_in = e.copy(), y.copy()
    for x in np.array(c["x"]) / 128 * (e[-1] - e[0] + 2 / beta) + (e[0] + e[-1]) / 2:
        got = convolve_df(x, e, y, beta, **kw)
        want = np.array([seg_quad(x, e, r, beta, *lr(r)) for r in y.reshape(-1, n)]).reshape(sh)
        # rounding errors of the difference quotient in a tiny segment
        rnd = 4e-16 * (np.max(np.abs(e - x)) + 1 / beta) / 1e-9 * 2 if c["tiny"] else 0
        close(got, want, (1e-6 + rnd) * (1 + np.abs(y).max()), 0, f"convolve_df ({mode}) at T={T}")
        h = .02 / beta
        fd = sum(wt * convolve_df(x + s * h, e, y, beta, **kw) for s, wt in ((-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12))) / h
        close(convolve_ddf(x, e, y, beta, **kw), fd, (3e-6 if not c["tiny"] else 1e-4) * beta * (1 + np.abs(y).max()), 0, f"convolve_ddf ({mode}) is the derivative of convolve_df, T={T}")
    require(np.array_equal(e, e_in) and np.array_equal(y, y_in), "inputs modified")
    if not np.any(y):
        ctx.trivial()


# ------------------------------------------------------- energy, heat capacity
@st.composite
def s_energy(draw):
    return {"d": draw(dos_spec(["cubes", "tetras", "spheres"], kinds=("tb", "cos", "gap"), Ns=(4, 5, 6), wrap=(True,), grads=False)), "mu": draw(gen.i8(3)), "T": draw(st.sampled_from([0., 0., 100., 300., 1000., 3000., 20000.])), "sf": draw(st.sampled_from([1, 2, 2.]))}


def stieltjes(d, n=1500):
    """energies and number of states of thin slices of all bands"""
    E, W = [], []
    for i, (a, b) in enumerate(d.bands_range):
        e = np.linspace(a, b, n)
        s = np.array([d.states_below_band(x, i) for x in e])
        E.append((e[1:] + e[:-1]) / 2)
        W.append(np.diff(s))
    return np.concatenate(E), np.concatenate(W)


def t_energy(c, ctx):
    model, d = make(c["d"])
    e0, e1 = d.energy_range()
    if min(b - a for a, b in d.bands_range) < .05:
        ctx.trivial()
        return
    T, sf = c["T"], c["sf"]
    ctx.label(f"T={T}")
    E, W = stieltjes(d)
    big = max(abs(e0), abs(e1))
    cells = c["d"]["N"] ** 3
    for v in c["mu"]:
        mu = float(e0 + (v / 180 + .5) * (e1 - e0))
        if T == 0:
            want = sf * np.sum((E * W)[E < mu])
            # the slice containing mu, and jumps of flat cells
            tol = sf * (.004 + 2 / cells) * (big + .1) * model.b
        else:
            f = 1 / (1 + np.exp(np.clip((E - mu) / (k_B * T), -700, 700)))
            want = sf * np.sum(E * W * f)
            tol = sf * (.006 + 2 / cells) * (big + .1) * model.b
        h = 1e-6 * (1 + big)
        tol += sf * 1.1 * abs(mu) * (d.states_below(mu + h) - d.states_below(mu - h))
        got = d.energy(mu, T, spin_factor=sf)
        require(np.ndim(got) == 0, "energy is not a number")
        close(got, want, tol, 0, f"energy at mu={mu}, T={T}")
        if T == 0:
            close(d.energy(mu, spin_factor=sf), got, 0, 1e-12, "default T of energy")
        close(d.energy(mu, T), got * 2 / sf, 1e-12, 1e-9, "spin factor of the energy")
    # completely filled and empty bands, at T=0, anywhere in the gaps
    for n in range(model.b + 1):
        lo = d.bands_range[n - 1][1] if n else e0 - 1
        hi = d.bands_range[n][0] if n < model.b else e1 + 1
        if hi - lo > 1e-3:
            want = sf * np.sum(E * W * (E < (lo + hi) / 2))
            for mu in (lo + .1 * (hi - lo), hi - .1 * (hi - lo)):
                close(d.energy(mu, 0., spin_factor=sf), want, sf * .004 * (big + .1) * model.b, 0, f"energy of {n} filled bands with mu={mu} in the gap {lo, hi}")


@st.composite
def s_heat(draw):
    return {"d": draw(dos_spec(["cubes", "tetras", "spheres"], kinds=("tb", "cos", "gap", "gap"), Ns=(6, 8), wrap=(True,), grads=False)), "n": draw(gen.i8(2)), "T": draw(st.sampled_from([300., 1000., 3000., 10000.])), "sf": draw(st.sampled_from([1, 2]))}


def t_heat(c, ctx):
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=False)
    model, d = make(q)
    e0, e1 = d.energy_range()
    nb = model.b
    if min(b - a for a, b in d.bands_range) < .2:
        ctx.trivial()
        return
    n = (c["n"][0] / 300 + .5) * nb if c["n"][1] % 2 else float(1 + abs(c["n"][0]) % max(nb - 1, 1))
    T, sf = c["T"], c["sf"]
    if not .05 < n < nb - .05:
        ctx.trivial()
        return
    E, W = stieltjes(d, 1000)
    # own chemical potential of the sliced count
    occ = lambda mu: np.sum(W / (1 + np.exp(np.clip((E - mu) / (k_B * T), -700, 700))))
    lo, hi = e0 - 80 * k_B * T, e1 + 80 * k_B * T
    for _ in range(80):
        mu = (lo + hi) / 2
        lo, hi = (mu, hi) if occ(mu) < n else (lo, mu)
    w = W / (4 * k_B * T * np.cosh(np.clip((E - mu) / (2 * k_B * T), -350, 350)) ** 2)
    m0, m1, m2 = np.sum(w), np.sum(w * (E - mu)), np.sum(w * (E - mu) ** 2)
    insul = n == int(n) and d.bandgap(n) > 0
    ctx.label("insulator" if insul else "metal")
    if m0 < 1e-3:
        if insul:
            got = d.heat_capacity(n, T, spin_factor=sf)
            close(got, 0, 1e-3, 0, "heat capacity of an insulator at low T")
        return
    want = sf / T * (m2 - m1 * m1 / m0)
    # the heat capacity uses the sampled density: skip where that cannot see the states (flat cells)
    e = np.linspace(max(e0, mu - 30 * k_B * T), min(e1, mu + 30 * k_B * T), 600)
    e = (e[1:] + e[:-1]) / 2
    r = np.array([d.density(y) for y in e]) / (4 * k_B * T * np.cosh((e - mu) / (2 * k_B * T)) ** 2) * (e[1] - e[0])
    if abs(sf / T * np.sum(r * (e - mu) * (e - mu - m1 / m0)) - want) > .04 * sf * m2 / T:
        ctx.trivial()
        return
    got = d.heat_capacity(n, T, spin_factor=sf)
    close(got, want, .08 * sf * (m2 / T) + .04 * sf * k_B, 0, f"heat capacity of {n} electrons at {T} K, mu={mu}")
    close(d.heat_capacity(n, T), got * 2 / sf, 1e-14, 1e-9, "spin factor of the heat capacity")
    require(d.heat_capacity(n, 0.) == 0, "heat capacity at T=0")


@st.composite
def s_fine(draw):
    return {"d": draw(dos_spec(["cubes", "tetras"], kinds=("tb", "cos"), Ns=(5, 6), wrap=(True,), grads=False, max_b=2)), "n": draw(gen.i8(1)), "T": draw(st.sampled_from([1000., 3000., 10000., 30000.])), "sf": draw(st.sampled_from([1, 2]))}


def t_fine(c, ctx):
    """many samples: the heat capacity converges to the derivative of the energy at fixed number of electrons"""
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=False)
    model, d = make(q)
    nb = model.b
    T, sf = c["T"], c["sf"]
    if min(b - a for a, b in d.bands_range) < .5:
        ctx.trivial()
        return
    n = (c["n"][0] / 300 + .5) * nb
    E, W = stieltjes(d, 4000)

    def at(T):
        lo, hi = E.min() - 80 * k_B * T, E.max() + 80 * k_B * T
        for _ in range(80):
            mu = (lo + hi) / 2
            lo, hi = (mu, hi) if np.sum(W / (1 + np.exp(np.clip((E - mu) / (k_B * T), -700, 700)))) < n else (lo, mu)
        return mu, sf * np.sum(W * E / (1 + np.exp(np.clip((E - mu) / (k_B * T), -700, 700))))

    h = 2e-3 * T
    want = (at(T + h)[1] - at(T - h)[1]) / (2 * h)
    mu = at(T)[0]
    m2 = np.sum(W * (E - mu) ** 2 / (4 * k_B * T * np.cosh(np.clip((E - mu) / (2 * k_B * T), -350, 350)) ** 2))
    got = [d.heat_capacity(n, T, N=N, spin_factor=sf) for N in (700, 2100)]
    ctx.label(f"T={T}")
    close(got[1], want, .03 * sf * m2 / T + .002 * sf * k_B, 0, f"heat capacity of {n} electrons at {T} K with many samples {got}")


@st.composite
def s_shift(draw):
    return {"d": draw(dos_spec(["cubes", "tetras", "spheres"], kinds=("tb", "cos", "gap"), Ns=(4, 5, 6), wrap=(True,), grads=False)), "v": draw(gen.i8(2)), "T": draw(st.sampled_from([0., 300., 3000.])), "x": draw(st.sampled_from([1., -3., 8.]))}


def t_shift(c, ctx):
    """the zero of energy is arbitrary: E(mu + x) = E(mu) + n x, same heat capacity"""
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=False)
    T, x = c["T"], c["x"]
    ctx.label(f"T={T}")
    ds = [make(q, model=dm.PlainModel(q["spec"], shift=s), hess=False)[1] for s in (0., x, 2 * x)]
    nb = len(ds[0].bands_range)
    e0, e1 = ds[0].energy_range()
    if min(b - a for a, b in ds[0].bands_range) < .1:
        ctx.trivial()
        return
    mu = float(e0 + (c["v"][0] / 180 + .5) * (e1 - e0))
    E = [d.energy(mu + s, T) for d, s in zip(ds, (0, x, 2 * x))]
    h = 1e-6 * (1 + abs(x))
    jump = 2.2 * (ds[0].states_below(mu + h) - ds[0].states_below(mu - h)) if T == 0 else 0
    close(E[2] - 2 * E[1] + E[0], 0, 1e-3 * nb * (e1 - e0) + abs(x) * (1e-6 + jump), 0, f"energy is linear in the shift of all bands, {E}")
    n = (E[1] - E[0]) / x / 2
    if T == 0:
        want = ds[0].states_below(mu)
    else:
        X, W = stieltjes(ds[0])
        want = np.sum(W / (1 + np.exp(np.clip((X - mu) / (k_B * T), -700, 700))))
    close(n, want, .02 * nb + 2 / q["N"] ** 3 + jump, 0, f"change of the energy by a shift is the number of electrons at mu={mu}, T={T}")
    if T > 0:
        n = float(np.clip((c["v"][1] / 300 + .5) * nb, .1, nb - .1))
        try:
            C = [d.heat_capacity(n, T) for d in ds]
        except Exception as ex:
            if "flat" in str(ex):
                raise Skip()
            raise
        close(C, np.full(3, C[0]), .03 * abs(C[0]) + .02 * k_B, 0, f"heat capacity of {n} electrons for shifted bands, T={T}")


@st.composite
def s_naive(draw):
    return {"nk": draw(st.sampled_from([[1], [4], [7], [2, 3], [3, 2, 2]])), "b": draw(st.integers(1, 3)), "v": draw(gen.i8(40)), "mu": draw(gen.i8(1)), "T": draw(st.sampled_from([0, 10., 300., 5000.])), "sf": draw(st.sampled_from([None, 1, 2]))}


def t_naive(c, ctx):
    """energy of a finite set of states, per cell"""
    sh = tuple(c["nk"]) + (c["b"],)
    e = np.resize(np.array(c["v"], float) / 16 + np.arange(40) * 1e-3, sh)
    mu, T = c["mu"][0] / 16, c["T"]
    nk = int(np.prod(sh[:-1]))
    w = (e <= mu).astype(float) if T == 0 else 1 / (1 + np.exp(np.clip((e - mu) / (k_B * T), -700, 700)))
    if not 0 < np.sum(w) < np.size(e):
        ctx.trivial()
    got = naive_energy(e, mu, T) if c["sf"] is None else naive_energy(e, mu, T, spin_factor=c["sf"])
    close(got, np.sum(e * w) / nk * (c["sf"] or 2), 1e-9, 1e-9, f"energy of {nk} k-points with {c['b']} bands at T={T}")


@st.composite
def s_const(draw):
    return {"b": draw(st.integers(1, 3)), "w": draw(st.integers(1, 40)), "down": draw(st.booleans()), "c": draw(st.integers(-40, 40)), "axis": draw(st.integers(0, 2)), "sm": draw(st.sampled_from(["cubes", "tetras", "cubes+"])), "N": draw(st.sampled_from([2, 4, 6])),
            "x": draw(st.integers(1, 999)), "tau": draw(st.integers(0, 100)), "samples": draw(st.sampled_from([4, 5, 9, 30, 256])), "sf": draw(st.sampled_from([1, 2]))}


def t_const(c, ctx):
    """a constant density of states: chemical potential, energy and heat capacity in closed form, with any number of samples and at any temperature that does not reach the band edges"""
    b, W, mid = c["b"], c["w"] / 8, c["c"] / 8
    slope = -W if c["down"] else W
    d = DensityOfStates(lambda k: np.repeat(mid + slope * np.asarray(k)[..., c["axis"]:c["axis"] + 1], b, axis=-1), N=c["N"], wrap=False, check=False, smearing=c["sm"])
    kt = W / 10 ** (1.85 + c["tau"] * .035)
    T, sf, N = kt / k_B, c["sf"], c["samples"]
    lo = mid - W / 2
    mu = lo + 31 * kt + (W - 62 * kt) * (c["x"] - .3183099) / 1000  # not on a grid plane, where the tetrahedra have no density
    n = b * (mu - lo) / W
    ctx.label("cold" if kt < W / 1000 else "warm")
    got = d.chemical_potential(n, [T], N=N)[0]
    close(got, mu, 2e-3 * kt + 1e-6 * W, 0, f"chemical potential of {n} electrons at {T} K with {N} samples")
    close(d.energy(mu, T, N=N, spin_factor=sf), sf * b / W * ((mu ** 2 - lo ** 2) / 2 + np.pi ** 2 / 6 * kt ** 2), sf * b * (.03 * kt ** 2 / W + 1e-6 * W), 0, f"energy at {T} K with {N} samples, mu={mu}")
    close(d.heat_capacity(n, T, N=N, spin_factor=sf), sf * np.pi ** 2 / 3 * k_B ** 2 * T * b / W, 0, 1e-3, f"heat capacity of {n} electrons at {T} K with {N} samples")


@st.composite
def s_zero(draw):
    return {"a": [draw(st.integers(-4, 4)) for _ in range(3)], "c": draw(st.integers(-40, 40)), "sm": draw(st.sampled_from(["cubes", "tetras", "cubes+"])), "N": draw(st.sampled_from([2, 4, 6])),
            "x": draw(st.integers(1, 130)), "samples": draw(st.sampled_from([16, 32, 33, 64])), "sf": draw(st.sampled_from([1, 2]))}


def t_zero(c, ctx):
    """the energy at T = 0 against a fine quadrature of the same number of states, with the error of Simpson's rule at a kinked density"""
    a, mid = np.array(c["a"]) / 2, c["c"] / 8
    if not a.any():
        raise Skip()
    d = DensityOfStates(lambda k: mid + (np.asarray(k) @ a)[..., None], N=c["N"], wrap=False, check=False, smearing=c["sm"])
    (lo, hi), = d.bands_range
    mu = lo + (hi - lo) * c["x"] / 100
    top = min(mu, hi)
    e = np.linspace(lo, top, 1025)
    s = np.array([d.states_below_band(x, 0) for x in e])
    ref = mu * s[-1] if mu < hi else hi * s[-1]
    ref -= np.sum(s[:-2:2] + 4 * s[1::2] + s[2::2]) * (e[1] - e[0]) / 3
    n = c["samples"] // 2 * 2
    close(d.energy(mu, 0, N=c["samples"], spin_factor=c["sf"]), c["sf"] * ref, c["sf"] * (top - lo) * (.5 / n ** 3 + 1e-9), 0, f"energy at 0 K of the plane {c['a']} below {mu} with {c['samples']} samples")
    ctx.label(c["sm"])
    ctx.trivial(np.count_nonzero(a) < 2)


SUBS = [
    Sub("zero", s_zero(), t_zero, quick=80, shards=2),
    Sub("constant", s_const(), t_const, quick=150, shards=4),
    Sub("naive", s_naive(), t_naive, quick=300),
    Sub("gauss", s_gauss(), t_gauss, quick=300),
    Sub("int_poly", s_poly(), t_poly, quick=400),
    Sub("convolve", s_conv(), t_conv, quick=300),
    Sub("energy", s_energy(), t_energy, quick=60, shards=4),
    Sub("shift", s_shift(), t_shift, quick=80, shards=2),
    Sub("heat_fine", s_fine(), t_fine, quick=24, thorough=600, shards=4, max_case_s=60),
    Sub("heat_capacity", s_heat(), t_heat, quick=60, shards=4),
]
