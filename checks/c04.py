"""C04: couplings survive every storage layout; normalising is a change of basis only."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises
from models import build, layout, restrict, pd_series, hk, AsymTightBindingModel, HermitianFourierSeries, BandStructureModel, Symmetry
from c02 import geig_ref

RULE = "at least two bands and a non-zero coupling besides the on-site matrix"
ASSUMPTIONS = ["layouts with declared inversion symmetry only represent Hermitian couplings (cosine terms), as documented in normalize()"]


@st.composite
def case_rt(draw):
    c = draw(gen.tb(big=True))
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"], 1, 4)), "twice": draw(gen.nums(2 * len(c["nb"]) * c["b"] ** 2)), "scale": draw(st.sampled_from([1.0, 1e-5, 1e4]))}


def setc(m, H):
    (m.set_params_complex if hasattr(m, "set_params_complex") else m.set_from_complex)(H)


def prep(c):
    nb, H = gen.dec_tb(c["tb"])
    lay = list(c["lay"])
    if lay[0] == "inv" and nb.shape[1] == 2:
        lay[0] = "none"
    return nb, restrict(lay, H), lay


def check_rt(c, ctx):
    nb, H, lay = prep(c)
    dim = nb.shape[1]
    H = H * c["scale"]
    if len(H) < 2 or H.shape[1] < 2 or not np.any(np.abs(H[1:]) > 0):
        ctx.trivial()
    ctx.label("/".join(map(str, lay)))
    k = gen.dec_k(c["k"], dim)
    nb0, H0 = nb.copy(), H.copy()
    m = build(lay, nb, np.zeros_like(H))
    setc(m, H)
    tol = 1e-12 * (c["scale"] + np.sum(np.abs(H)))
    close(m.params_complex(), H, tol, 0, "couplings read back")
    bands = np.linalg.eigvalsh(gen.series(k, nb, H))
    close(m(k), bands, tol * 100, 1e-10, "bands of the couplings")
    # reading must not disturb the model, nor setting the passed array
    close(m.params_complex(), H, tol, 0, "couplings read a second time")
    close(m(k), bands, tol * 100, 1e-10, "bands after reading the couplings")
    require(np.array_equal(nb, nb0) and np.array_equal(H, H0), "inputs were modified")
    # set a second time: last one wins, no residue; other layouts agree
    H2 = restrict(lay, gen.dec_complex(c["twice"], H.shape))
    H2[0] = gen.herm(H2[0])
    setc(m, H2)
    close(m.params_complex(), H2, 1e-12 * (1 + np.sum(np.abs(H2))), 0, "couplings set a second time")
    close(m(k), np.linalg.eigvalsh(gen.series(k, nb, H2)), 1e-10 * (1 + np.sum(np.abs(H2))), 1e-10, "bands after setting a second time")
    require(np.array_equal(H, H0), "first couplings were modified by the second set")
    # chain through another layout
    for lay2 in (["none", True, False], ["none", False, True], ["asym", None, None]):
        m2 = build(lay2, nb, m.params_complex())
        close(m2(k), m(k), 1e-10 * (1 + np.sum(np.abs(H2))), 1e-10, f"same couplings in layout {lay2}")
    # wrong counts
    if lay[0] != "asym":
        bad = np.concatenate([H, H[:1]])
        raises(ValueError, lambda: m.set_params_complex(bad), "one coupling too many")
        if len(H) > 1:
            raises(ValueError, lambda: m.set_params_complex(H[:-1]), "one coupling too few")
    else:
        raises(AssertionError, lambda: HermitianFourierSeries(nb, np.concatenate([H, H[:1]])), "one coupling too many")
    nbx = nb.copy()
    nbx[0, 0] = 1.0
    raises(AssertionError, lambda: HermitianFourierSeries(nbx, H), "first lattice vector not the origin")


@st.composite
def case_norm(draw):
    c = draw(gen.tb(max_n=4, big=True))
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"], 2, 5)), "deg": draw(st.sampled_from(["", "", "deg", "diag0", "zero1", "block"])),
            "bad": draw(st.booleans())}


def special(H, kind):
    n = H.shape[1]
    if kind == "deg":
        H[0] = np.eye(n) * H[0, 0, 0].real
    elif kind == "diag0":
        H[0] = np.diag(np.diag(H[0]))
    elif kind == "zero1" and len(H) > 1:
        H[1] = np.diag(np.diag(H[1]))
    elif kind == "block":
        H[:, :n // 2, n // 2:] = 0
        H[:, n // 2:, :n // 2] = 0
    return H


def check_norm(c, ctx):
    nb, H, lay = prep(c)
    dim = nb.shape[1]
    H = special(np.array(H), c["deg"])
    if len(H) < 2 or H.shape[1] < 2 or not np.any(np.abs(H[1:]) > 0):
        ctx.trivial()
    ctx.label(("/".join(map(str, lay))) + " " + c["deg"])
    k = gen.dec_k(c["k"], dim)
    ref = np.linalg.eigvalsh(gen.series(k, nb, H))
    m = build(lay, nb, H)
    tol = 1e-9 * (1 + np.sum(np.abs(H)))
    for i in range(3):
        m.normalize()
        close(m(k), ref, tol, 1e-9, f"bands after normalising {i + 1} times")
        p = m.params_complex()
        close(p[0], p[0].conj().T, tol, 0, "Hermitian on-site matrix after normalising")
        # a unitary change of basis keeps the norms of all couplings
        close(np.linalg.norm(p, axis=(1, 2)), np.linalg.norm(H, axis=(1, 2)), tol, 0, "coupling norms after normalising")
    if lay[0] != "asym":
        require(m.neighbors.shape == nb.shape and np.array_equal(m.neighbors, nb), "normalising changed the lattice vectors")
        # the on-site matrix of the layout is diagonal and sorted
        p0 = m.params[0]
        close(p0, np.diag(np.sort(np.diag(p0).real)), tol, 0, "first parameter matrix after normalising")
    else:
        h0 = hk(m, np.zeros((1, dim)))[0]
        close(h0, np.diag(np.diag(h0)), tol, 0, "H(0) after normalising")


@st.composite
def case_norm_s(draw):
    c = draw(gen.tb(max_b=3, max_n=3))
    sn = draw(gen.neighbors_int(c["dim"], 3))
    return {"tb": c, "sn": sn, "S": draw(gen.nums(2 * len(sn) * c["b"] ** 2)), "k": draw(gen.kpts(c["dim"], 2, 4))}


def check_norm_s(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim, b = nb.shape[1], H.shape[1]
    sn = np.array(c["sn"], dtype=float).reshape(-1, dim)
    S = pd_series(sn, c["S"], b)
    if len(sn) < 2 or b < 2 or not np.any(S[1:]):
        ctx.trivial()
    k = gen.dec_k(c["k"], dim)
    m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(sn, S))
    ref = np.array([geig_ref(h, s) for h, s in zip(gen.series(k, nb, H), gen.series(k, sn, S))])
    tol = 1e-8 * (1 + np.sum(np.abs(H)))
    for i in range(3):
        m.normalize()
        close(m(k), ref, tol, 1e-9, f"bands after normalising {i + 1} times (with overlap)")
        z = np.zeros((1, dim))
        close(m.S.f(z)[0], np.eye(b), 1e-8, 0, "S(0) after normalising")
        close(m.H.H_r[0], m.H.H_r[0].conj().T, tol, 0, "Hermitian on-site matrix")


SUBS = [
    Sub("round_trip", case_rt(), check_rt, quick=1500, thorough=40000, shards=3),
    Sub("normalize", case_norm(), check_norm, quick=1200, thorough=30000, shards=2),
    Sub("normalize_overlap", case_norm_s(), check_norm_s, quick=500, thorough=15000),
]
