"""C16: the density of states counts states."""
import numpy as np
from hypothesis import strategies as st
import gen, dosmodels as dm
from c15 import cube_exact
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.density_of_states import DensityOfStates, convolve_df, k_B

RULE = "at least one tested energy lies strictly inside a band of non-zero width"
ASSUMPTIONS = ["crystal grid [-1/2,1/2]^3, k = crystal @ inv(A)", "oracle: own corner gathering with own cube/tetrahedron (Jepsen-Andersen)/sphere formulas; the documented rounding of tiny gradient components (1e-4) is part of the cube model",
               "cubes+ (extrapolation of two grids) is exempt from monotonicity", "densities are compared where they are continuous, i.e. not exactly at corner energies of cells"]

METHODS = ["cubes", "cubes+", "tetras", "spheres"]


@st.composite
def dos_spec(draw, methods=METHODS, kinds=("tb", "tb", "cos", "gap", "flat"), grads=True, Ns=(2, 3, 4, 5, 6, 7), wrap=(True, True, False), max_b=3):
    m = draw(st.sampled_from(methods))
    N = draw(st.sampled_from(Ns))
    if m == "cubes+":
        N += N % 2
    c = {"m": m, "N": N, "spec": draw(dm.spec(kinds, max_b=max_b)), "wrap": draw(st.sampled_from(wrap)), "mid": draw(st.booleans()),
         "ug": draw(st.booleans()) if grads and m in ("cubes", "spheres") else False,
         "rng": draw(st.sampled_from(["bz", "bz", "01", "half", "aniso"]))}
    if not c["wrap"]:
        c["ug"] = c["mid"] = False
    if c["rng"] == "half" and c["wrap"]:
        c["rng"] = "bz"
    return c


RANGES = {"bz": ((-.5, .5),) * 3, "01": ((0., 1.),) * 3, "half": ((0, .5), (-.5, .5), (0, .5)), "aniso": ((-.5, .5), (0, 1.), (-1., 1.))}


def make(c, model=None, hess=None):
    cls = dm.HessModel if (c["spec"]["hess"] if hess is None else hess) else (dm.GradModel if c["ug"] else dm.PlainModel)
    model = cls(c["spec"]) if model is None else model
    kw = dict(N=c["N"], A=model.A, wrap=c["wrap"], smearing=c["m"], use_gradients=c["ug"], midpoint=c["mid"], ranges=RANGES[c["rng"]], check=1e-7)
    d = DensityOfStates(model, **kw)
    return model, d


def tol_density(rhos, ref):
    return 2e-6


def fractions(c, n):
    return np.array(c, float)[:n] / 256 + .5


def energies(c, d, n=5):
    """energies in, at the edges of and outside of the bands"""
    v = np.array(c, float)
    out = []
    rng = d.bands_range
    for j in range(n):
        lo, hi = rng[int(abs(v[2 * j])) % len(rng)]
        f = v[2 * j + 1] / 256 + .5
        m = int(abs(v[2 * j + 1])) % 7
        out.append(float(lo) if m == 0 else float(hi) if m == 1 else float(lo - abs(v[2 * j]) / 8 - .01) if m == 2 else float(lo + f * (hi - lo)))
    e0, e1 = d.energy_range()
    return out + [float(e0) - 1, float(e1) + 1]


# ------------------------------------------------------------------ reference
@st.composite
def s_ref(draw):
    return {"d": draw(dos_spec()), "e": draw(gen.i8(10))}


def t_ref(c, ctx):
    model, d = make(c["d"])
    q = c["d"]
    ctx.label(q["m"])
    ctx.label(f"ug={q['ug']}")
    ctx.label(f"wrap={q['wrap']}")
    ref = dm.Ref(q["spec"], dm.GradModel(q["spec"]), q["N"], q["m"], q["wrap"], q["mid"], RANGES[q["rng"]], q["ug"])
    close(d.k_smpl, ref.k, 1e-12, 1e-12, "k-points of the grid")
    require(d.model_bandcount() == model.b, "number of bands")
    close(d.bands, ref.bands, 1e-10, 1e-12, "bands on the grid")
    fine = None
    for i in range(model.b):
        lo, hi = ref.range(i)
        if not q["spec"]["hess"]:
            close(d.bands_range[i], (lo, hi), 1e-10, 1e-12, f"range of band {i}")
        else:
            # refined edges: never inside of the sampled energies, never outside of the energies of the band
            a, b = d.bands_range[i]
            require(a <= lo + 1e-10 and b >= hi - 1e-10, f"range {a, b} of band {i} does not contain the sampled energies {lo, hi}")
            if fine is None:
                fine = model((dm.grid(18, model.A)[0] @ np.linalg.inv(model.A)).reshape(-1, 3))
            f0, f1 = min(lo, fine[:, i].min()), max(hi, fine[:, i].max())
            require(a >= f0 - .08 * (f1 - f0) - 1e-9 and b <= f1 + .08 * (f1 - f0) + 1e-9, f"range {a, b} of band {i} exceeds its energies {f0, f1}")
    close(d.energy_range(), (min(r[0] for r in d.bands_range), max(r[1] for r in d.bands_range)), 1e-12, 1e-12, "energy_range")
    inside = 0
    for e in energies(c["e"], d):
        r = [ref.band(e, i, d.bands_range[i]) for i in range(model.b)]
        s, rho = [x[0] for x in r], [x[1] for x in r]
        cut = [i for i in range(model.b) if d.bands_range[i][0] < e < d.bands_range[i][1]]
        inside += sum(1 for i in cut if ref.range(i)[1] - ref.range(i)[0] > 1e-6)
        require(list(d.cut_band_indices(e)) == cut, f"cut_band_indices at {e}: {d.cut_band_indices(e)}, expected {cut}")
        # steps at e (flat cells) are decided by rounding, the derivative is only compared where it is continuous around e
        w = 1e-7 * (1 + abs(e))
        step = {i: abs(ref.raw(e + w, i)[0] - ref.raw(e - w, i)[0]) + 1e-6 if i in cut else 1e-12 for i in range(model.b)}
        for i in range(model.b):
            close(d.states_below_band(e, i), s[i], step[i], 0, f"states of band {i} below {e}")
        close(d.states_below(e), sum(s), sum(step.values()), 0, f"states below {e}")
        sd = d.states_density(e)
        close(sd[0], sum(s), sum(step.values()), 0, f"states_density()[0] at {e}")
        near = [[ref.band(x, i, d.bands_range[i])[1] for i in cut] for x in (e - w, e + w)]
        jump = sum(abs(np.subtract(*near))) if cut else 0
        tol = 1e-5 * (1 + abs(sum(rho))) + 3 * jump if sum(step.values()) < 1e-5 else np.inf
        db = d.density_bands(e)
        require(len(db) == model.b, "density_bands: one value per band")
        for i in range(model.b):
            close(d.density_band(e, i), rho[i], tol, 0, f"density of band {i} at {e}")
            close(db[i], d.density_band(e, i), 1e-10, 1e-10, "density_bands")
        close(d.density(e), sum(rho), tol, 0, f"density at {e}")
        close(sd[1], d.density(e), 1e-8 + 3 * jump, 1e-6, "states_density()[1]")
    if not inside:
        ctx.trivial()


@st.composite
def s_large(draw):
    """fine grids, many bands"""
    d = draw(dos_spec(kinds=("cos", "gap", "tb"), Ns=(12, 15, 20, 25), max_b=14))
    if d["spec"]["kind"] == "tb":
        d["spec"]["b"] = min(d["spec"]["b"], 3)
    return {"d": d, "e": draw(gen.i8(10))}


# ------------------------------------------------------------------- monotone
@st.composite
def s_mono(draw):
    return {"d": draw(dos_spec(["cubes", "tetras", "spheres"]))}


def t_mono(c, ctx):
    model, d = make(c["d"])
    q = c["d"]
    ctx.label(q["m"])
    ref = dm.Ref(q["spec"], dm.GradModel(q["spec"]), q["N"], q["m"], q["wrap"], q["mid"], RANGES[q["rng"]], q["ug"])
    e0, e1 = d.energy_range()
    if e1 - e0 < 1e-3:
        ctx.trivial()
    es = np.unique(np.concatenate([np.linspace(e0 - .1, e1 + .1, 40)] + [np.add.outer([-1e-7, 0, 1e-7], r).ravel() for r in d.bands_range]))
    for i in range(model.b):
        s = np.array([d.states_below_band(e, i) for e in es])
        require(np.all(np.diff(s) >= -1e-7), lambda: f"states of band {i} decrease with the energy: {np.diff(s).min()}")
        require(s.min() >= -1e-7 and s.max() <= 1 + 1e-7, lambda: f"states of a band outside of [0, 1]: {s.min()}, {s.max() - 1} above 1")
        lo, hi = d.bands_range[i]
        require(d.states_below_band(lo, i) == 0 or lo == hi, "states below the band")
        require(d.states_below_band(hi, i) == 1, "states below the top of the band")
        rho = np.array([d.density_band(e, i) for e in es])
        # inside of cells that are flat up to rounding errors, the density is a delta peak of any value
        v = ref.bands[..., i].ravel()
        require(np.all((rho >= -1e-6) | (np.min(np.abs(es[:, None] - v), axis=1) < 1e-12)), lambda: f"negative density {rho.min()}")
        require(np.all(rho[(es < lo) | (es > hi)] == 0), "density outside of the band")
        # density = derivative: integrate with the mean value theorem on a fine local grid inside the band
        if hi - lo > 1e-3:
            a, b = lo + .2 * (hi - lo), lo + .8 * (hi - lo)
            n = 200
            x = a + (np.arange(n) + .5) / n * (b - a)
            rr = np.array([d.density_band(e, i) for e in x])
            ds = d.states_below_band(b, i) - d.states_below_band(a, i)
            # midpoint rule: error limited by the total variation of the density
            err = np.sum(np.abs(np.diff(rr))) * (b - a) / n + 1e-6
            # cells that are too flat to be seen by the samples
            flat = [np.ptp(t, axis=0) for t in ref.cells[i][0]] if q["m"] == "tetras" else [np.sum(np.abs(ref.cells[i][0][1]), 0)]
            err += np.mean(np.array(flat) < 5 * (b - a) / n)
            require(abs(rr.mean() * (b - a) - ds) <= err, lambda: f"integral of the density {rr.mean() * (b - a)} != difference of states {ds} (err {err})")
    require(d.states_below(e0 - 1) == 0 and d.states_below(e1 + 1) == model.b and d.density(e1 + 1) == 0, "limits")


# ------------------------------------------------------------------ transform
@st.composite
def s_trafo(draw):
    return {"d": draw(dos_spec(grads=False, kinds=("tb", "tb", "cos", "gap"))), "e": draw(gen.i8(10)), "kind": draw(st.sampled_from(["scale", "negative", "shift", "invert", "perm", "translate", "lattice", "order"])),
            "v": draw(gen.i8(4)), "p": draw(st.permutations([0, 1, 2]))}


def t_trafo(c, ctx):
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=False)
    k = c["kind"]
    if k in ("invert", "perm", "translate", "lattice"):
        q["rng"], q["mid"], q["wrap"] = "bz", False, True
    m1, d1 = make(q)
    ctx.label(k)
    v = c["v"]
    kw, f, n = {}, lambda e: e, lambda s: s
    dscale = 1.
    if k == "scale":
        s = 2.0 ** (v[0] % 7 - 3)
        kw, f, dscale = dict(scale=s), lambda e: s * e, 1 / s
    elif k == "negative":
        kw, f, n = dict(scale=-1), lambda e: -e, lambda s: m1.b - s
    elif k == "shift":
        kw, f = dict(shift=v[0] / 16), lambda e: e + v[0] / 16
    elif k == "invert":
        kw = dict(sign=-1)
    elif k == "perm":
        kw = dict(perm=c["p"])
    elif k == "translate":
        kw = dict(offset=np.array(v[:3]) / q["N"] * (2 if q["m"] == "cubes+" else 1))
    elif k == "lattice":  # same crystal dispersion on another cell shape
        kw = dict(A=dm.LATTICES[sorted(dm.LATTICES)[v[0] % len(dm.LATTICES)]])
    elif k == "order":
        kw = dict(order=np.argsort(np.resize(v, m1.b), kind="stable"))
    m2 = dm.PlainModel(q["spec"], **kw)
    m2, d2 = make(q, m2)
    ins = 0
    for e in energies(c["e"], d1):
        if any(abs(e - x) < 1e-9 for r in d1.bands_range for x in r):
            continue  # rounding decides at the band edges
        ins += len(d1.cut_band_indices(e))
        w = 1e-7 * (1 + abs(e))
        lo, hi = d1.states_below(e - w), d1.states_below(e + w)
        a = d2.states_below(f(e))
        b = n(d1.states_below(e))
        slack = abs(hi - lo) + 1e-6
        require(abs(a - b) <= slack, lambda: f"{k}: states {a} instead of {b} at {e}")
        r = [d1.density(x) for x in (e - w, e, e + w)]
        tol = 1e-5 * (1 + max(r)) + 3 * (max(r) - min(r))
        require(abs(d2.density(f(e)) / dscale - r[1]) <= tol, lambda: f"{k}: density {d2.density(f(e)) / dscale} instead of {r[1]} at {e}")
        if k == "order":
            x = [d2.states_below_band(e, i) for i in range(m1.b)]
            close(sorted(x), sorted(d1.states_below_band(e, i) for i in range(m1.b)), 1e-9, 0, "states of re-ordered bands")
    if not ins:
        ctx.trivial()


# --------------------------------------------------------------------- linear
@st.composite
def s_lin(draw):
    return {"m": draw(st.sampled_from(["cubes", "cubes+", "tetras"])), "N": draw(st.sampled_from([2, 4, 6, 3, 5])), "b": draw(st.integers(1, 3)), "v": draw(gen.i8(60)), "A": draw(st.sampled_from(sorted(dm.LATTICES))), "rng": draw(st.sampled_from(sorted(RANGES)))}


def t_lin(c, ctx):
    N = c["N"] + (c["N"] % 2 if c["m"] == "cubes+" else 0)
    b = c["b"]
    v = np.array(c["v"], float) / 32
    g = v[:3 * b].reshape(b, 3) + np.where(v[:3 * b].reshape(b, 3) == 0, .1, 0)
    g = np.sign(g) * (np.abs(g) + .3)
    off = v[10:10 + b]
    A = dm.LATTICES[c["A"]]
    rng = np.array(RANGES[c["rng"]])
    model = lambda k: (k @ A) @ g.T + off
    d = DensityOfStates(model, N=N, A=A, ranges=rng, wrap=False, smearing=c["m"], check=False)
    L, mid = rng[:, 1] - rng[:, 0], rng.mean(1)
    for j in range(4):
        i = j % b
        h = np.sum(np.abs(g[i]) * L) / 2
        e = float(off[i] + g[i] @ mid + h * np.clip(v[40 + j] / 4, -.999, .999))
        V, D = cube_exact(g[i] * L, e - off[i] - g[i] @ mid)
        close(d.states_below_band(e, i), float(V), 1e-9, 0, f"states of a linear band ({c['m']})")
        w = h * 1e-6
        D2 = [float(cube_exact(g[i] * L, e + s * w - off[i] - g[i] @ mid)[1]) for s in (-1, 1)]
        close(d.density_band(e, i), float(D), 1e-8 * (1 + float(D)) + 3 * abs(D2[0] - D2[1]), 0, f"density of a linear band ({c['m']})")
    close(d.bands_range, [(o + s @ mid - np.sum(np.abs(s) * L) / 2, o + s @ mid + np.sum(np.abs(s) * L) / 2) for o, s in zip(off, g)], 1e-9, 0, "range of linear bands")


# --------------------------------------------------------------- finite T
@st.composite
def s_curve(draw, Ts=(0, 0, 30., 300., 2000., 20000., 1e5)):
    return {"d": draw(dos_spec(Ns=(2, 3, 4, 5))), "n": draw(st.sampled_from([2, 3, 5, 10, 17])), "T": draw(st.sampled_from(Ts)), "e": draw(gen.i8(4))}


def pl_convolve(x, e, s, T, flat):
    """integral of a piecewise linear curve against -f'(e-x) by fine quadrature"""
    beta = 1 / (k_B * T)
    t = np.linspace(-40, 40, 20001)
    w = 1 / (4 * np.cosh(t / 2) ** 2)
    E = x + t / beta
    y = np.interp(E, e, s) if flat else np.interp(E, e, s, left=0, right=0)
    return np.sum((y[1:] * w[1:] + y[:-1] * w[:-1]) / 2) * (t[1] - t[0])


def t_curve(c, ctx):
    q = c["d"]
    model, d = make(q)
    n, T = c["n"], c["T"]
    ctx.label(f"T={T}")
    e0, s0, r0 = d.full_curve(N=n)
    want = np.unique(np.concatenate([np.linspace(lo, hi, n) for lo, hi in d.bands_range]))
    close(e0, want, 1e-12, 1e-12, "energies of the curve")
    for e, s, r in zip(e0, s0, r0):
        a, b = d.states_density(e)
        close((s, r), (a, b), 1e-12, 1e-12, "curve values")
        close(s, d.states_below(e), 1e-8, 0, "curve states")
    if len(e0) < 3 or e0[-1] - e0[0] < 1e-3:
        ctx.trivial()
        return
    if T == 0:
        return
    e, s, r = d.full_curve(N=n, T=T)
    require(len(e) == len(s) == len(r), "lengths of the smeared curve")
    require(np.all(np.diff(e) > 0), "energies of the smeared curve are not increasing")
    require(e[0] < e0[0] and e[-1] > e0[-1], "the smeared curve does not extend beyond the bands")
    if q["m"] != "cubes+":
        require(np.all(np.diff(s) >= -1e-6) and s[0] > -1e-9 and s[-1] < model.b + 1e-9, "smeared states")
    h = np.min(np.diff(e0)) * 1 / (k_B * T)
    for j in np.linspace(0, len(e) - 1, 7).astype(int):
        # quadrature error of the kinks: small against 1
        close(s[j], pl_convolve(e[j], e0, s0, T, True), 1.5e-3 * model.b, 0, f"states smeared by T={T} at {e[j]}")
        if np.max(np.abs(r0)) < 1e3:
            close(r[j], pl_convolve(e[j], e0, r0, T, False), 2e-3 * (1 + np.max(r0)), 0, f"density smeared by T={T} at {e[j]}")


def t_kres(c, ctx):
    q = dict(c["d"])
    model, d = make(q)
    T = c["T"]
    ctx.label(f"T={T}")
    e0, e1 = d.energy_range()
    if e1 - e0 < 1e-2:
        ctx.trivial()
        return
    ref = dm.Ref(q["spec"], dm.GradModel(q["spec"]), q["N"], q["m"], q["wrap"], q["mid"], RANGES[q["rng"]], q["ug"])
    mu = float(e0 + (c["e"][0] / 256 + .5) * (e1 - e0))
    kr = d.k_resolved_density(mu, T) if T == 0 else d.k_resolved_density(mu, T, N=120)
    if T == 0:
        shape = tuple(n // 2 for n in (q["N"],) * 3) if q["m"] == "cubes+" else (q["N"],) * 3
        require(np.shape(kr) == shape, f"shape {np.shape(kr)} of the k-resolved density, expected {shape}")
        w = 1e-7 * (1 + abs(mu))
        raw = [sum(ref.raw(x, i)[1] for i in range(model.b)) for x in (mu - w, mu, mu + w)]
        close(np.mean(kr), raw[1], 1e-5 * (1 + max(raw)) + 3 * (max(raw) - min(raw)), 0, "mean of the k-resolved density")
        return
    # thermal mean of the density: sum of state increments times -f'
    beta = 1 / (k_B * T)
    x = np.linspace(max(e0, mu - 30 / beta), min(e1, mu + 30 / beta), 601)
    s = np.array([sum(ref.raw(e, i)[0] for i in range(model.b)) for e in x])
    xm = (x[1:] + x[:-1]) / 2
    w = beta / 4 / np.cosh(beta * (xm - mu) / 2) ** 2
    want = np.sum(np.diff(s) * w)
    # steps exactly at the ends of the energy range are decided by rounding
    w = 1e-7 * (1 + max(abs(e0), abs(e1)))
    edge = sum(beta / 4 / np.cosh(beta * (y - mu) / 2) ** 2 * abs(sum(ref.raw(y + w, i)[0] - ref.raw(y - w, i)[0] for i in range(model.b))) for y in (x[0], x[-1]))
    if want < .05 * beta / 4:  # only the coarsely sampled tail of -f' contributes
        ctx.trivial()
        return
    close(np.mean(kr), want, .06 * (want + 1e-3) + edge + 4e-3 * model.b * beta / 4, 0, f"mean of the k-resolved density at T={T}")


# ---------------------------------------------------------------- periodicity
@st.composite
def s_check(draw):
    return {"d": draw(dos_spec(Ns=(2,), grads=False)), "bad": draw(st.sampled_from(["A", "dim", "odd", "name", "wrapgrad", "nograd", "ok", "axis", "axis", "mid"])), "v": draw(gen.i8(3))}


def t_check(c, ctx):
    q = c["d"]
    m = dm.PlainModel(q["spec"])
    ctx.label(c["bad"])
    bad = c["bad"]
    if bad == "A":
        s = np.array(c["v"][:3]) % 5
        A = m.A * (1 + .17 + .05 * s)  # not a lattice of the model
        e = m.bands_x(np.random.RandomState(1).rand(20, 3))
        if q["spec"]["kind"] == "flat" or np.ptp(e, axis=0).max() < .1 or np.any(np.abs(q["spec"]["v"][3:12]) == 0):
            ctx.trivial()
            return
        # an error must be raised unless the model happens to be constant along the axis
        X = np.random.RandomState(2).rand(50, 3) @ np.linalg.inv(A)
        dev = max(np.linalg.norm(m(X) - m(X + np.eye(3)[i] @ np.linalg.inv(A))) for i in range(3))
        if dev < 1e-2:
            ctx.trivial()
            return
        raises(AssertionError, lambda: DensityOfStates(m, N=2, A=A), "non-periodic model")
        DensityOfStates(m, N=2, A=A, check=False)
        DensityOfStates(m, N=2, A=A, check=1e6)
    elif bad == "axis":
        # periodic along two axes, not along the third
        i = abs(c["v"][0]) % 3
        A = m.A @ np.diag([1 / 1.3 if j == i else 1. for j in range(3)])
        X = np.random.RandomState(2).rand(50, 3) @ np.linalg.inv(A)
        dev = [np.linalg.norm(m(X) - m(X + np.eye(3)[j] @ np.linalg.inv(A))) for j in range(3)]
        require(all(v < 1e-8 for j, v in enumerate(dev) if j != i), "harness: periodic along the other axes")
        if dev[i] < 1e-2:
            ctx.trivial()
            return
        ctx.label(f"axis {i}")
        raises(AssertionError, lambda: DensityOfStates(m, N=2, A=A), f"model that is not periodic along axis {i}")
    elif bad == "mid":
        # half a step away from the border, without wrapping
        r = RANGES[["bz", "01", "half", "aniso"][abs(c["v"][0]) % 4]]
        N = 2 + abs(c["v"][1]) % 3
        d = DensityOfStates(m, N=N, A=m.A, ranges=r, wrap=False, midpoint=True, check=1e-7)
        x = np.stack(np.meshgrid(*[a + (b - a) * (np.arange(N) + .5) / N for a, b in r], indexing="ij"), -1)
        close(d.k_smpl, x @ np.linalg.inv(m.A), 1e-12, 1e-12, "k-points shifted by half a cell without wrapping")
        close(d.bands, m(x @ np.linalg.inv(m.A)), 1e-9, 1e-12, "bands of the shifted k-points")
    elif bad == "dim":
        raises(AssertionError, lambda: DensityOfStates(m, N=2, A=m.A, ranges=((-.5, .5),) * 2), "2D ranges")
    elif bad == "odd":
        raises(AssertionError, lambda: DensityOfStates(m, N=3, A=m.A, smearing="cubes+"), "odd grid for cubes+")
    elif bad == "name":
        raises(ValueError, lambda: DensityOfStates(m, N=2, A=m.A, smearing="cube"), "unknown smearing")
    elif bad == "nograd":
        raises(ValueError, lambda: DensityOfStates(m, N=2, A=m.A, smearing="cubes", use_gradients=True), "gradients without bands_grad")
    elif bad == "wrapgrad":
        g = dm.GradModel(q["spec"])
        for s in ("cubes", "spheres"):
            raises(NotImplementedError, lambda: DensityOfStates(g, N=2, A=m.A, smearing=s, use_gradients=True, wrap=False), "gradients without wrap")
        for s in ("tetras", "cubes+"):
            raises(NotImplementedError, lambda: DensityOfStates(g, N=2, A=m.A, smearing=s, use_gradients=True), "gradients with tetras, cubes+")
    else:
        DensityOfStates(m, N=2, A=m.A, check=True if q["spec"]["kind"] != "tb" else 1e-7)


# ------------------------------------------------------------ refined ranges
@st.composite
def s_range(draw):
    return {"spec": draw(dm.spec(("cos", "gap", "tb"))), "N": draw(st.sampled_from([6, 7, 8, 9, 10]))}


def t_range(c, ctx):
    m0, m1 = dm.PlainModel(c["spec"]), dm.HessModel(c["spec"])
    d0 = DensityOfStates(m0, N=c["N"], A=m0.A, check=False)
    d1 = DensityOfStates(m1, N=c["N"], A=m1.A, check=False)
    fine = m0.bands_x(dm.grid(24, m0.A)[0].reshape(-1, 3))
    for i in range(m0.b):
        (a0, b0), (a1, b1) = d0.bands_range[i], d1.bands_range[i]
        w = b0 - a0
        lo, hi = min(fine[:, i].min(), a0), max(fine[:, i].max(), b0)
        # refined extrema are energies of the band
        require(a1 >= lo - .03 * (hi - lo) - 1e-9 and b1 <= hi + .03 * (hi - lo) + 1e-9, lambda: f"refined range {a1, b1} of band {i} outside of the energies of the band {lo, hi}")
        if c["spec"]["kind"] in ("cos", "gap") and m0.b == 1:
            require(a1 <= a0 + .02 * w + 1e-9 and b1 >= b0 - .02 * w - 1e-9, lambda: f"refined range {a1, b1} smaller than the one of the grid {a0, b0}")
            if abs(a1 - a0) + abs(b1 - b0) > 1e-9:
                ctx.label("refined")
        if w < 1e-6:
            ctx.trivial()


# ------------------------------------------------------------- exact band edges
class Cosines(dm.HessModel):
    """separated cosine bands with known edges, the extrema lie anywhere in the cell"""

    def __init__(self, v, nb, A):
        f = np.array(v, float) / 64
        super().__init__({"kind": "gap", "b": nb, "A": "id", "v": [0] * 120}, A=A, offset=f[:3] / 4)
        self.amp = np.where(f[3:3 + 3 * nb] < 0, -1, 1).reshape(nb, 3) * (.3 + np.abs(f[3:3 + 3 * nb]).reshape(nb, 3))
        self.sec = np.zeros((nb, 3))
        w = np.sum(np.abs(self.amp), axis=1)
        self.off = np.zeros(nb)
        for i in range(1, nb):
            self.off[i] = self.off[i - 1] + w[i - 1] + w[i] + .1 + abs(f[20 + i])
        self.edges = np.stack([self.off - w, self.off + w], -1)


@st.composite
def s_edges(draw):
    return {"v": draw(gen.i8(24)), "b": draw(st.integers(1, 3)), "N": draw(st.sampled_from([8, 9, 10, 12])), "A": draw(st.sampled_from(sorted(dm.LATTICES))),
            "scale": draw(st.sampled_from([1., .2, 6., .05])), "m": draw(st.sampled_from(METHODS)), "wrap": draw(st.booleans()), "mid": draw(st.booleans())}


def make_edges(c):
    A = dm.LATTICES[c["A"]] * c["scale"]
    m = Cosines(c["v"], c["b"], A)
    N = c["N"] + (c["N"] % 2 if c["m"] == "cubes+" else 0)
    return m, DensityOfStates(m, N=N, A=A, smearing=c["m"], wrap=c["wrap"], midpoint=c["mid"] and c["wrap"], check=1e-7)


def t_edges(c, ctx):
    """with second derivatives the refined edges of smooth bands are exact, in any unit of length"""
    m, d = make_edges(c)
    ctx.label(f"scale={c['scale']}")
    close(np.array(d.bands_range), m.edges, 1e-7, 0, "refined edges of the bands")
    close(d.energy_range(), (m.edges[0, 0], m.edges[-1, 1]), 1e-7, 0, "energy range")
    for i in range(1, m.b):
        close(d.bandgap(i), m.edges[i, 0] - m.edges[i - 1, 1], 2e-7, 0, f"band gap at {i} electrons")
    grid = m(np.asarray(d.k_smpl).reshape(-1, 3))
    if np.max(np.abs(np.stack([grid.min(0), grid.max(0)], -1) - m.edges)) < 1e-4:
        ctx.trivial()


SUBS = [
    Sub("reference", s_ref(), t_ref, quick=400, shards=3),
    Sub("large", s_large(), t_ref, quick=24, shards=3),
    Sub("monotone", s_mono(), t_mono, quick=120, shards=3),
    Sub("transform", s_trafo(), t_trafo, quick=250, shards=2),
    Sub("linear", s_lin(), t_lin, quick=200),
    Sub("curve", s_curve(), t_curve, quick=150),
    Sub("k_resolved", s_curve((0, 300., 2000., 20000., 1e5)), t_kres, quick=70, shards=2),
    Sub("arguments", s_check(), t_check, quick=100),
    Sub("range", s_range(), t_range, quick=80),
    Sub("edges", s_edges(), t_edges, quick=100),
]
