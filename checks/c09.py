"""C09: the free-electron reference models reproduce k^2 bands."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require
from models import AsymTightBindingModel
from tight_binding_redweasel.tight_binding_asym import free_electron_model_orthogonal
from tight_binding_redweasel import bulk_properties as bulk

RULE = "at least two neighbour terms per direction or two bands per direction, and a k-point away from the zone centre (analytic model: at least two reciprocal lattice vectors)"
ASSUMPTIONS = ["lattice constants 0.3..12, 1..8 neighbour terms and 1..3 bands per direction", "oracle: the model is separable, so its bands are sums of eigenvalues of one-dimensional matrices; deviation from |k+G|^2 is bounded rigorously by the norm of the truncated terms (Weyl)"]


def direction(a, nc, bpd, k):
    """eigenvalues of the one-dimensional truncated model at k, written from the Fourier series of k^2"""
    def h(n):
        return np.pi ** 2 / (3 * a * a) / (2 * np.pi) ** 2 if n == 0 else 2 * (-1.0) ** n / (a * n) ** 2 / (2 * np.pi) ** 2
    m = np.zeros((bpd, bpd), complex)
    for n in range(-nc, nc + 1):
        for i in range(bpd):
            for j in range(bpd):
                m[i, j] += h(n * bpd + j - i) * np.exp(2j * np.pi * k * n * a)
    return np.linalg.eigvalsh(m) * bpd ** 2


def exact(abc, bpd, k):
    """free electron energies |k+G|^2 of the bpd^3 folded branches"""
    out = []
    for g in itertools.product(range(bpd), repeat=3):
        e = 0.0
        for a, kk, gg in zip(abc, k, g):
            q = (kk + gg / a) * a / bpd
            q -= np.round(q)
            e += (q * bpd / a) ** 2
        out.append(e)
    return np.sort(out)


@st.composite
def case_tb(draw):
    return {"abc": draw(st.lists(st.integers(3, 120), min_size=3, max_size=3)), "eq": draw(st.integers(0, 3)), "nc": draw(st.integers(1, 8)), "bpd": draw(st.sampled_from([1, 1, 2, 2, 2, 3])),
            "k": draw(gen.kpts(3, 1, 3))}


def check_tb(c, ctx):
    abc = np.array(c["abc"], float) / 10
    if c["eq"] == 1:
        abc[:] = abc[0]
    nc, bpd = c["nc"], c["bpd"]
    if bpd == 3:
        nc = 1 + nc % 2
    elif bpd == 2:
        nc = 1 + nc % 4
    kc = gen.dec_k(c["k"], 3)
    k = kc / abc
    m, unit = free_electron_model_orthogonal(*abc, nc, bpd)
    ctx.label(f"{bpd} per direction")
    if (nc < 2 and bpd < 2) or not np.any(kc):
        ctx.trivial()
    require(m.band_count() == bpd ** 3 and m.dim() == 3, f"{m.band_count()} bands for {bpd} per direction")
    want = []
    for q in k:
        ds = [direction(a, nc, bpd, x) for a, x in zip(abc, q)]
        want.append(np.sort([x + y + z for x in ds[0] for y in ds[1] for z in ds[2]]))
    want = np.array(want)
    sc = np.max((bpd / abc) ** 2)
    got = m(k)
    close(got, want, 1e-8 * sc, 1e-8, "bands of the free electron model")
    ex = np.array([exact(abc, bpd, q) for q in k])
    n = np.arange(nc * bpd + 1, 200000, dtype=float)
    bound = np.sum(bpd ** 2 / (np.pi * abc) ** 2) * (np.sum(1 / n ** 2) + 1 / n[-1])
    require(np.max(np.abs(got - ex)) <= bound + 1e-8 * sc, f"deviation from k^2 {np.max(np.abs(got - ex))} above the truncation bound {bound}")
    # constant of nature of the energy unit, from CODATA: hbar^2 (2 pi / A)^2 / (2 m_e) in eV
    h, me, e = 6.62607015e-34, 9.1093837015e-31, 1.602176634e-19
    close(unit, h ** 2 / (2 * me) / e * 1e20, 0, 1e-6, "energy unit")
    # effective mass: second derivative of the lowest band at the zone centre tends to 2
    if bpd == 1:
        hess = m.bands_grad_hess(np.zeros((1, 3)))[2][0, :, :, 0]
        w = 2 * np.array([sum(2 * (-1.0) ** (n + 1) for n in range(1, nc + 1)) for _ in abc])
        close(hess, np.diag(w), 1e-8, 1e-8, "second derivative of the truncated series")


@st.composite
def case_conv(draw):
    return {"abc": draw(st.lists(st.integers(3, 120), min_size=3, max_size=3)), "bpd": draw(st.sampled_from([1, 1, 2])), "n": draw(st.integers(1, 3)), "k": draw(gen.kpts(3, 1, 3))}


def check_conv(c, ctx):
    """more terms bring the bands closer to k^2"""
    abc = np.array(c["abc"], float) / 10
    kc = gen.dec_k(c["k"], 3)
    kc = kc - np.round(kc)
    k = kc / abc
    bpd = c["bpd"]
    ex = np.array([exact(abc, bpd, q) for q in k])
    e1 = np.max(np.abs(free_electron_model_orthogonal(*abc, c["n"], bpd)[0](k) - ex))
    big = 40 if bpd == 1 else 8
    e2 = np.max(np.abs(free_electron_model_orthogonal(*abc, big, bpd)[0](k) - ex))
    n = np.arange(big * bpd + 1, 200000, dtype=float)
    bound = np.sum(bpd ** 2 / (np.pi * abc) ** 2) * (np.sum(1 / n ** 2) + 1 / n[-1])
    require(e2 <= bound * (1 + 1e-6) + 1e-9 * np.max((bpd / abc) ** 2), f"error {e2} with {big} terms is above the bound {bound} (it was {e1} with {c['n']})")
    if not np.any(kc):
        ctx.trivial()


@st.composite
def case_fe(draw):
    dim = draw(st.sampled_from([3, 3, 3, 2, 1]))
    n = draw(st.integers(1, 7 if dim > 1 else 5))
    v = draw(st.lists(st.tuples(*[st.integers(-2, 2)] * dim), min_size=n, max_size=n, unique=True))
    return {"g": [list(x) for x in v], "k": draw(gen.kpts(dim, 1, 4)), "lim": draw(st.one_of(st.none(), st.integers(1, n)))}


def check_fe(c, ctx):
    g = np.array(c["g"], float)
    dim = g.shape[1]
    k = gen.dec_k(c["k"], dim) + np.array([1e-3, 2.3e-3, -1.7e-3])[:dim]
    m = bulk.FreeElectrons(k_neighbors=g, limit_count=c["lim"]) if c["lim"] else bulk.FreeElectrons(k_neighbors=g)
    n = c["lim"] or len(g)
    ctx.label("limited" if c["lim"] else "all")
    if len(g) < 2:
        ctx.trivial()
    h, me, e = 6.62607015e-34, 9.1093837015e-31, 1.602176634e-19
    fac = h ** 2 / (2 * me) / e * 1e20
    b = m(k)
    bg, gr = m.bands_grad(k)
    bh, gh, hs = m.bands_grad_hess(k)
    require(b.shape == (len(k), n) and gr.shape == (len(k), dim, n) and hs.shape == (len(k), dim, dim, n), f"shapes {b.shape} {gr.shape} {hs.shape}")
    for i, q in enumerate(k):
        d = q - g
        en = fac * np.sum(d * d, axis=1)
        o = np.argsort(en)
        en, d = en[o][:n], d[o][:n]
        close(b[i], en, 1e-4, 1e-6, "energies")
        close(bg[i], b[i], 1e-7, 1e-12, "energies of bands_grad")
        close(bh[i], b[i], 1e-7, 1e-12, "energies of bands_grad_hess")
        gaps = np.min(np.abs(en[:, None] - en[None, :]) + np.eye(n) * 1e9, axis=1) if n > 1 else np.array([1.0])
        full = np.sort(fac * np.sum((q - g) ** 2, axis=1))
        ok = gaps > 1e-3
        if n < len(full) and full[n] - full[n - 1] < 1e-3:
            ok[-1] = False
        close(gr[i].T[ok], (2 * fac * d)[ok], 1e-4, 1e-6, "gradients")
        close(gh[i], gr[i], 1e-7, 1e-12, "gradients of bands_grad_hess")
        for j in range(n):
            close(hs[i, :, :, j], 2 * fac * np.eye(dim), 1e-4, 1e-6, "Hessians")


SUBS = [
    Sub("tight_binding", case_tb(), check_tb, quick=300, thorough=4000, shards=4),
    Sub("convergence", case_conv(), check_conv, quick=60, thorough=600, shards=3),
    Sub("analytic", case_fe(), check_fe, quick=500, thorough=10000),
]
