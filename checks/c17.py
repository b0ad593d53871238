"""C17: Fermi energy, chemical potential and band gap follow from the state count."""
import numpy as np
from hypothesis import strategies as st
import gen, dosmodels as dm
from c16 import dos_spec, make, RANGES, s_edges, make_edges
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.density_of_states import DensityOfStates, naive_fermi_energy, naive_energy, secant, k_B

RULE = "the filling is not 0 or full and the bands have a width"
ASSUMPTIONS = ["temperatures are passed in ascending order (documented)", "where the interpolated count jumps past n, the Fermi energy is the energy of the jump",
               "cubes+ is not monotone; there a reported failure (ValueError) is accepted, a wrong energy is not",
               "the chemical potential is the documented approximation by N samples: the occupation is compared within 1 %"]


def fillings(v, nb):
    """some fillings: integers, fractions, close to integers"""
    out = []
    for j in range(0, len(v) - 1, 2):
        m, x = int(abs(v[j])) % 6, v[j + 1] / 256 + .5
        i = int(abs(v[j + 1])) % (nb + 1)
        if m == 0:
            out.append(float(i))
        elif m == 1:
            out.append(float(np.clip(i + .001, 0, nb)))
        elif m == 2:
            out.append(float(np.clip(i - .001, 0, nb)))
        elif m == 3:
            out.append(i if i else nb)  # python integer
        else:
            out.append(x * nb)
    return out


@st.composite
def s_fermi(draw):
    return {"d": draw(dos_spec(kinds=("tb", "tb", "cos", "gap", "gap"))), "v": draw(gen.i8(10)), "steps": draw(st.sampled_from([None, 200]))}


def t_fermi(c, ctx):
    q = c["d"]
    model, d = make(q)
    rng = d.bands_range
    nb = model.b
    scale = 1e-6 * (1 + max(abs(x) for r in rng for x in r))
    real = 0
    for n in fillings(c["v"], nb):
        try:
            f = d.fermi_energy(n) if c["steps"] is None else d.fermi_energy(n, maxsteps=c["steps"])
        except ValueError as e:
            ctx.label("ValueError")
            if c["steps"] is not None and q["m"] != "cubes+" and rng[-1][1] - rng[0][0] > 1e-9:
                fail(f"no Fermi energy for {n} electrons within {c['steps']} steps: {e}")
            continue
        require(np.ndim(f) == 0 and np.isfinite(f), lambda: f"Fermi energy of {n} electrons is {f}")
        if n == 0 or n == nb:
            close(f, min(r[0] for r in rng) if n == 0 else max(r[1] for r in rng), 1e-12, 1e-12, f"Fermi energy of {n} electrons")
            continue
        i = int(round(n))
        if n == i and rng[i - 1][1] < rng[i][0]:
            ctx.label("insulator")
            real += 1
            close(f, (rng[i - 1][1] + rng[i][0]) / 2, 1e-10, 1e-12, "Fermi energy in the gap")
            require(d.states_below(f) == n, "count in the gap")
            continue
        ctx.label("metal")
        real += rng[-1][1] - rng[0][0] > 1e-3
        s = [d.states_below(f + w) for w in (-scale, 0, scale)]
        require(min(s) - 1e-6 <= n <= max(s) + 1e-6, lambda: f"count at the Fermi energy {f} is {s}, electrons {n}")
        # too few steps: an error, but never a wrong energy
        for steps in (1, 2, 4, 7):
            try:
                f = d.fermi_energy(n, maxsteps=steps)
            except ValueError:
                continue
            s = [d.states_below(f + w) for w in (-scale, 0, scale)]
            require(min(s) - 1e-6 <= n <= max(s) + 1e-6, lambda: f"count at the Fermi energy {f} after at most {steps} steps is {s}, electrons {n}")
    if not real:
        ctx.trivial()
    for n in (-.01, nb + .01):
        raises((AssertionError, ValueError), lambda: d.fermi_energy(n), f"{n} electrons in {nb} bands")


# ------------------------------------------------------------------- band gap
@st.composite
def s_gap(draw):
    c = draw(s_fermi())
    if draw(st.booleans()):  # narrow gaps
        c["d"]["spec"].update(kind="gap", b=draw(st.sampled_from([2, 3])), gap=draw(st.sampled_from([1e-2, 3e-3, 1e-3, 1e-4, 1e-6])))
        c["d"].update(N=draw(st.sampled_from([2, 4, 6])), rng="bz", mid=False)
    return c


def t_gap(c, ctx):
    q = c["d"]
    model, d = make(q)
    nb = model.b
    if nb < 2:
        ctx.trivial()
    gaps = 0
    ref = d.bands.reshape(-1, nb)
    for i in range(1, nb):
        g = d.bandgap(i)
        want = max(0, d.bands_range[i][0] - d.bands_range[i - 1][1])
        close(g, want, 1e-12, 1e-12, f"band gap at {i} electrons")
        if not q["spec"]["hess"]:
            close(g, max(0, ref[:, i].min() - ref[:, i - 1].max()), 1e-12, 1e-12, f"band gap at {i} electrons from the bands")
        close(d.bandgap(float(i)), g, 1e-12, 1e-12, "band gap of a float filling")
        gaps += g > 0
        if g > 0:
            f = d.fermi_energy(i)
            close([f - g / 2, f + g / 2], [d.bands_range[i - 1][1], d.bands_range[i][0]], 1e-9, 1e-9, "band edges from gap and Fermi energy")
        for x in (i + .5, i - .25, i + 1e-3):
            if 0 < x < nb:
                require(d.bandgap(x) == 0, f"band gap at {x} electrons")
    ctx.label(f"gaps={gaps}")
    for n in (-1, nb + 1, 0, nb, 0., float(nb)):
        raises((AssertionError, ValueError, IndexError), lambda: d.bandgap(n), f"band gap of {n} electrons in {nb} bands")


# --------------------------------------------------------- chemical potential
@st.composite
def s_mu(draw):
    return {"d": draw(dos_spec(kinds=("tb", "cos", "gap", "gap"), Ns=(4, 5, 6), wrap=(True,))), "v": draw(gen.i8(6)), "T": draw(gen.i8(4)), "batch": draw(st.booleans())}


def occupation(d, mu, T):
    """thermal occupation of the interpolated state count (Stieltjes sum)"""
    n = 0
    for i, (a, b) in enumerate(d.bands_range):
        e = np.linspace(a, b, 301)
        s = np.array([d.states_below_band(x, i) for x in e])
        em = (e[1:] + e[:-1]) / 2
        n += np.sum(np.diff(s) / (1 + np.exp(np.clip((em - mu) / (k_B * T), -700, 700))))
    return n


def t_mu(c, ctx):
    q = c["d"]
    model, d = make(q)
    nb = model.b
    e0, e1 = d.energy_range()
    if e1 - e0 < .05:
        ctx.trivial()
        return
    Ts = np.sort([0. if x % 9 == 0 else float(10 ** (1 + (abs(x) % 64) / 16)) for x in c["T"]])
    for n in fillings(c["v"], nb):
        if n <= .02 or n >= nb - .02:
            continue
        try:
            f = d.fermi_energy(n)
        except ValueError:
            continue
        i = int(round(n))
        gap = d.bandgap(n) if n == i else 0
        ctx.label("insulator" if gap else "metal")
        if c["batch"]:
            mus = d.chemical_potential(n, Ts, N=120)
        else:
            mus = np.array([d.chemical_potential(n, [T], N=120)[0] for T in Ts])
        require(mus.shape == (len(Ts),), f"shape {mus.shape} for {len(Ts)} temperatures")
        for T, mu in zip(Ts, mus):
            require(np.isfinite(mu), lambda: f"chemical potential {mu} of {n} electrons at T={T}")
            if T == 0:
                close(mu, f, 1e-9, 1e-9, "chemical potential at T=0")
                continue
            if gap and T * k_B * 30 < gap:
                require(abs(mu - f) <= gap / 2, lambda: f"chemical potential {mu} outside of the gap {f}+-{gap / 2} at T={T}")
            N = occupation(d, mu, T)
            # steps of the count (flat cells) within the sampling resolution
            tol = .01 * nb + 2.5 / q["N"] ** 3 * nb
            if not abs(N - n) <= tol:
                fail(f"thermal occupation {N} at the chemical potential {mu} (E_F {f}) for T={T}, electrons {n}")
    if all(x <= .02 or x >= nb - .02 for x in fillings(c["v"], nb)):
        ctx.trivial()
    # hot: the sampling of the count does not matter any more, only the search
    n = nb * (.03 + .94 * (c["v"][0] / 256 + .5))
    T = (e1 - e0) / k_B * (.2 + abs(c["T"][0]) / 16)
    try:
        mu = d.chemical_potential(n, [T], N=500, maxsteps=100)[0]
    except ValueError:
        return
    ctx.label("hot")
    edge = jumps = steps = total = 0
    for i, (a, b) in enumerate(d.bands_range):
        e = np.linspace(a, b, 801)
        s = np.array([d.states_below_band(x, i) for x in e])
        jumps = max(jumps, np.max(np.abs(np.diff(s))))
        ds = np.diff(s)
        steps += np.sum(ds[ds > .01])
        edge += abs(s[0]) + abs(1 - s[-1])  # flat cells at the edges of the band may be counted on either side
        em = (e[1:] + e[:-1]) / 2
        total += np.sum(np.diff(s) / (1 + np.exp(np.clip((em - mu) / (k_B * T), -700, 700))))
    tol = 2e-6 * nb + edge + (jumps * nb + steps / 2) * (e1 - e0) / 500 / (k_B * T)
    require(abs(total - n) <= tol, lambda: f"thermal occupation {total} at the chemical potential {mu} for T={T}, electrons {n}, tolerance {tol}")


# ------------------------------------------------ symmetry and scaling
@st.composite
def s_sym(draw):
    return {"b": draw(st.sampled_from([1, 2, 3])), "v": draw(gen.i8(12)), "N": draw(st.sampled_from([4, 6])), "m": draw(st.sampled_from(["cubes", "tetras", "spheres"])), "T": draw(st.sampled_from([50., 300., 3000., 30000.])), "n": draw(st.sampled_from([.3, .5, .7]))}


def t_sym(c, ctx):
    """particle-hole symmetric bands keep mu at the symmetry energy; energies, temperatures and mu scale together; filling n and holes mirror"""
    b = c["b"]
    v = np.array(c["v"], float) / 64
    amp = np.abs(v[:3]) + .2
    off = v[3]
    full = lambda k, s=1., sh=0.: np.stack([s * (np.cos(2 * np.pi * k) @ amp + off) + sh, s * (-(np.cos(2 * np.pi * k) @ amp) - off) + sh], -1)
    def model(k, s=1., sh=0.):
        e = full(k, s, sh)
        if b == 1:
            return (s * (np.cos(2 * np.pi * k) @ amp) + sh)[..., None]
        if b == 3:
            e = np.concatenate([e, s * (np.sin(2 * np.pi * k) @ amp)[..., None] + sh], -1)
        return np.sort(e, -1)
    kw = dict(N=c["N"], smearing=c["m"], check=False)
    T = c["T"]
    d = DensityOfStates(model, **kw)
    sc, sh = 2.0, .75
    d2 = DensityOfStates(lambda k: model(k, sc, sh), **kw)
    half = b / 2
    e0, e1 = d.energy_range()
    W = e1 - e0
    try:
        f = d.fermi_energy(half)
        mu = d.chemical_potential(half, [T])[0]
        n = c["n"] * b
        a = [d.fermi_energy(n), d.chemical_potential(n, [T])[0]]
        bq = [d.fermi_energy(b - n), d.chemical_potential(b - n, [T])[0]]
        s = [d2.fermi_energy(n), d2.chemical_potential(n, [sc * T])[0]]
    except ValueError:
        Skip()
        ctx.trivial()
        return
    slope = d.density(f)
    if slope > .02:
        close(f, 0, 1e-4 * W / slope / W + 1e-4, 0, "Fermi energy of a particle-hole symmetric half filled band")
        close(mu, 0, .02 * W, 0, f"chemical potential of a particle-hole symmetric half filled band at T={T}")
    if min(d.density(x[0]) for x in (a, bq)) > .02:
        close(a[0], -bq[0], 1e-3 * W, 0, "Fermi energies of n electrons and n holes")
        close(a[1], -bq[1], .02 * W + .1 * k_B * T, 0, "chemical potentials of n electrons and n holes")
        close(s[0], sc * a[0] + sh, 1e-4 * W, 0, "Fermi energy of the scaled bands")
        close(s[1], sc * a[1] + sh, .02 * W, 0, "chemical potential of the scaled bands")
    else:
        ctx.trivial()


# -------------------------------------------- derivative of the potential
@st.composite
def s_dmu(draw):
    return {"d": draw(dos_spec(kinds=("tb", "cos", "gap"), Ns=(5, 6, 8), wrap=(True,))), "v": draw(gen.i8(4)), "T": draw(gen.i8(3)), "zeros": draw(st.integers(0, 5))}


def t_dmu(c, ctx):
    """seebeck(): derivative of the chemical potential, one value per temperature (0 for T=0)"""
    q = c["d"]
    model, d = make(q)
    nb = model.b
    e0, e1 = d.energy_range()
    if e1 - e0 < .05:
        ctx.trivial()
        return
    pos = list(np.sort([10 ** (2.2 + (abs(x) % 64) / 32) for x in c["T"]]))
    pos = [t for i, t in enumerate(pos) if i == 0 or t > pos[i - 1] + 5]
    Ts = {0: pos, 1: [0.] + pos, 2: [0., 0.] + pos, 3: pos[:1] + [0.] + pos[1:], 4: pos[:1] + [pos[0] + .3] + pos[1:], 5: pos[:1] + pos}[c["zeros"]]
    n = nb * (.05 + .9 * (c["v"][0] / 256 + .5))
    h = .5
    try:
        got = d.seebeck(n, Ts, N=200, h=h)
        mus = {t: d.chemical_potential(n, [t], N=200)[0] for t in set(Ts) if t > 0}
        fine = d.seebeck(n, Ts, N=200)
    except ValueError:
        ctx.trivial()
        return
    require(np.shape(got) == (len(Ts),), f"shape {np.shape(got)} for {len(Ts)} temperatures")
    slices = []
    for i, (a, b) in enumerate(d.bands_range):
        e = np.linspace(a, b, 401)
        s = np.array([d.states_below_band(x, i) for x in e])
        slices.append(((e[1:] + e[:-1]) / 2, np.diff(s)))
    e = np.concatenate([x[0] for x in slices])
    w = np.concatenate([x[1] for x in slices])
    for T, x, y in zip(Ts, got, fine):
        if T == 0:
            require(x == 0 and y == 0, f"derivative {x} at T=0")
            continue
        z = (e - mus[T]) / (k_B * T)
        df = w / (4 * np.cosh(np.clip(z / 2, -300, 300)) ** 2)
        # steps of the count and the sampling smear the density on this scale
        if np.sum(df) < 1e-2 * nb * k_B * T / (e1 - e0) or np.max(w) > .2 * np.sum(df):
            ctx.label("sparse")
            continue
        want = -k_B * np.sum(df * z) / np.sum(df)
        ctx.label("compared")
        tol = .03 * k_B + .05 * abs(want)
        require(abs(x - want) <= tol, lambda: f"derivative {x} of the chemical potential at T={T} with step {h}, expected {want}")
        require(abs(y - want) <= tol + 1e-6, lambda: f"derivative {y} of the chemical potential at T={T}, expected {want}")
    raises((AssertionError, ValueError), lambda: d.seebeck(n, [1e-5, 300.]), "temperature smaller than the step")


# -------------------------------------------------------- naive count, secant
@st.composite
def s_naive(draw):
    return {"nk": draw(st.sampled_from([[1], [4], [7], [2, 3], [3, 2, 2]])), "b": draw(st.integers(1, 3)), "v": draw(gen.i8(40)), "n": draw(gen.i8(1)), "int": draw(st.booleans()), "T": draw(st.sampled_from([0, 10., 300., 5000.]))}


def t_naive(c, ctx):
    b = c["b"]
    sh = tuple(c["nk"]) + (b,)
    e = np.resize(np.array(c["v"], float) / 16 + np.arange(40) * 1e-3, sh)
    nk = int(np.prod(sh[:-1]))
    n = float(abs(c["n"][0]) % (b + 1)) if c["int"] else (c["n"][0] / 256 + .5) * b
    e_in = e.copy()
    f = naive_fermi_energy(e, n)
    require(np.array_equal(e, e_in), "naive_fermi_energy changed its input")
    require(np.isfinite(f), lambda: f"naive Fermi energy {f} of {n} electrons")
    flat = np.sort(e.ravel())
    m = round(nk * n)
    require(np.sum(flat < f) <= m <= np.sum(flat <= f), lambda: f"{np.sum(flat < f)} states below the naive Fermi energy {f}, expected {m}")
    if 0 < m < len(flat):
        close(f, (flat[m - 1] + flat[m]) / 2, 1e-12, 1e-12, "naive Fermi energy in the middle")
    else:
        ctx.trivial()
    T = c["T"]
    sf = 1 + abs(c["n"][0]) % 2
    w = (flat <= f).astype(float) if T == 0 else 1 / (1 + np.exp(np.clip((flat - f) / (k_B * T), -700, 700)))
    close(naive_energy(e, f, T, spin_factor=sf), np.sum(flat * w) / nk * sf, 1e-9, 1e-9, "naive energy")
    close(naive_energy(e, f, T), np.sum(flat * w) / nk * 2, 1e-9, 1e-9, "naive energy, default spin factor")


@st.composite
def s_secant(draw):
    return {"v": draw(gen.i8(6)), "kind": draw(st.sampled_from(["lin", "exp", "atan", "cubic"]))}


def t_secant(c, ctx):
    v = np.array(c["v"], float) / 64
    s = .2 + abs(v[0])
    f = {"lin": lambda x: s * x, "exp": lambda x: np.exp(s * x), "atan": lambda x: np.arctan(x) + s * x, "cubic": lambda x: x ** 3 + (.5 + s) * x}[c["kind"]]
    x = v[1]
    a, b = x + v[2] / 4 - .3, x + v[3] / 8 + .01
    if a == b:
        ctx.trivial()
        return
    r = secant(f(x), f, a, b, 1e-13, 200)
    close(r, x, 1e-9, 1e-9, f"secant solution for {c['kind']}")
    close(secant(f(x), f, a, x, 1e-13, 200), x, 1e-9, 1e-9, "secant started at the solution")
    close(secant(f(x), f, x, b, 1e-13, 200), x, 1e-9, 1e-9, "secant started at the solution")


def t_edges(c, ctx):
    """gaps between smooth bands are exact if second derivatives are available, in any unit of length"""
    m, d = make_edges(c)
    e = m.edges
    for i in range(1, m.b):
        close(d.bandgap(i), e[i, 0] - e[i - 1, 1], 2e-7, 0, f"band gap at {i} electrons")
        close(d.fermi_energy(i), (e[i, 0] + e[i - 1, 1]) / 2, 2e-7, 0, f"Fermi energy at {i} electrons is the middle of the gap")
    if m.b == 1:
        ctx.trivial()


SUBS = [
    Sub("fermi_energy", s_fermi(), t_fermi, quick=400, shards=2),
    Sub("bandgap", s_gap(), t_gap, quick=160),
    Sub("chemical_potential", s_mu(), t_mu, quick=80, shards=5),
    Sub("symmetry", s_sym(), t_sym, quick=60),
    Sub("derivative", s_dmu(), t_dmu, quick=60, shards=3),
    Sub("naive", s_naive(), t_naive, quick=300),
    Sub("secant", s_secant(), t_secant, quick=200),
    Sub("edges", s_edges(), t_edges, quick=60),
]
