"""C01: H(k) is the Hermitian Fourier sum of the stored couplings, in every class and layout."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require
from models import build, layout, restrict, hk, dhk, ddhk, Symmetry, BandStructureModel, AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation

RULE = "at least two lattice vectors with a non-zero coupling and at least one k-point away from the origin"
ASSUMPTIONS = ["on-site couplings are Hermitian and only one of each +-R pair is listed, as documented",
               "tolerance 1e-9 relative to the largest coupling times number of terms"]


def nontriv(ctx, H, k):
    if not (len(H) > 1 and np.any(np.abs(H[1:]) > 1e-9) and np.any(np.abs(k) > 1e-9)):
        ctx.trivial()


@st.composite
def case_layout(draw):
    c = draw(gen.tb())
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"])), "shift": draw(gen.i8(c["dim"])),
            "real": draw(st.booleans())}


def check_layout(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    lay = c["lay"]
    dim = nb.shape[1]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H)
    k = gen.dec_k(c["k"], dim)
    nontriv(ctx, H, k)
    ctx.label("/".join(map(str, lay)))
    m = build(lay, nb, H)
    ref = gen.series(k, nb, H)
    tol = 1e-10 * (1 + np.sum(np.abs(H)))
    h = hk(m, k)
    close(h, ref, tol, 1e-11, "H(k) of the stored couplings")
    close(h, np.conj(np.swapaxes(h, -1, -2)), tol, 0, "Hermitian H(k)")
    # integer neighbours: period 1
    sh = np.array([x % 3 - 1 for x in c["shift"]], dtype=float)
    close(hk(m, k + sh), ref, tol * 10, 1e-10, "H(k+G)")
    # H(0): all terms add up
    z = hk(m, np.zeros((1, dim)))[0]
    close(z, H[0] + np.sum(H[1:] + np.conj(np.swapaxes(H[1:], 1, 2)), axis=0), tol, 1e-11, "H(0)")
    # inputs as nested lists, integer k
    close(hk(m, k.tolist()) if lay[0] != "asym" else m.H.f(k.tolist()), ref, tol, 1e-11, "H(k) for a list of lists")
    ki = np.array([[int(x) % 2 for x in c["shift"]]])
    close(hk(m, ki), gen.series(ki, nb, H), tol * 10, 1e-10, "H(k) for integer k")


@st.composite
def case_batch(draw):
    c = draw(gen.tb(max_b=3))
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"], 4, 6)), "perm": draw(st.integers(0, 1000)),
            "offset": draw(gen.i8(3 * len(c["nb"])))}


def check_batch(c, ctx):
    """arbitrary (non integer) neighbour positions; the result per k-point does not depend on batch, shape or order"""
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    lay = c["lay"]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H)
    off = np.array(c["offset"][:len(nb) * dim], dtype=float).reshape(len(nb), dim) / 600
    off[0] = 0
    nb = nb + off
    k = gen.dec_k(c["k"], dim)
    nontriv(ctx, H, k)
    m = build(lay, nb, H)
    nb0, k0 = nb.copy(), k.copy()
    ref = gen.series(k, nb, H)
    tol = 1e-10 * (1 + np.sum(np.abs(H)))
    p = np.random.RandomState(c["perm"]).permutation(len(k))
    for fn, name, extra in ((hk, "H", 0), (dhk, "dH", 1), (ddhk, "ddH", 2)):
        full = fn(m, k)
        require(full.shape == (len(k),) + (dim,) * extra + H.shape[1:], f"shape of {name}: {full.shape}")
        close(fn(m, k[p]), full[p], tol * 100, 1e-10, f"{name} for reordered k-points")
        close(np.array([fn(m, k[i:i + 1])[0] for i in range(len(k))]), full, tol * 100, 1e-10, f"{name} one k-point at a time")
        close(np.array([fn(m, k[i]) for i in range(len(k))]), full, tol * 100, 1e-10, f"{name} for a single k vector")
        n2 = len(k) // 2
        close(fn(m, k[:2 * n2].reshape(n2, 2, dim)), full[:2 * n2].reshape((n2, 2) + full.shape[1:]), tol * 100, 1e-10, f"{name} on a k-grid")
        close(full, np.conj(np.swapaxes(full, -1, -2)), tol * 1000, 1e-10, f"Hermitian {name}")
    close(hk(m, k), ref, tol, 1e-11, "H(k)")
    require(np.array_equal(k, k0) and np.array_equal(nb, nb0), "inputs were modified")


GROUPS = {
    1: [lambda: Symmetry.o1(True)],
    2: [lambda: Symmetry.o2(2), lambda: Symmetry.o2(4), lambda: Symmetry.square(), lambda: Symmetry.mirror_x(False, 2), lambda: Symmetry.o2(3), lambda: Symmetry.inv(2)],
    3: [lambda: Symmetry.cubic(True), lambda: Symmetry.cubic(False), lambda: Symmetry.mirror3(False), lambda: Symmetry.mirror3(True),
        lambda: Symmetry.cyclic(4, False), lambda: Symmetry.even_perm3(True), lambda: Symmetry.mirror_x(False), lambda: Symmetry.tetrahedral(False),
        lambda: Symmetry.tetrahedral(True), lambda: Symmetry.dihedral(3, True)],
}


@st.composite
def case_shared(draw):
    c = draw(gen.tb(max_b=3, max_n=3))
    return {"tb": c, "g": draw(st.integers(0, 20)), "cr": draw(st.booleans()), "ex": draw(st.booleans()), "k": draw(gen.kpts(c["dim"]))}


def check_shared(c, ctx):
    """coefficients shared by symmetry: every operation of the star contributes H_R exp(2 pi i k.(sR)) + h.c."""
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    sym = GROUPS[dim][c["g"] % len(GROUPS[dim])]()
    if sym.inversion:
        H = gen.herm(H)
    k = gen.dec_k(c["k"], dim)
    nontriv(ctx, H, k)
    ctx.label(f"order{len(sym)} cr={c['cr']} exp={c['ex']}")
    m = BandStructureModel.init_tight_binding(sym, nb.copy(), H.shape[1], cos_reduced=c["cr"], exp=c["ex"])
    m.set_params_complex(H)
    ref = np.array([np.array(H[0]) for _ in k], dtype=complex)
    # representatives of the operations modulo -1: what sym.S lists (group without the separately stored inversion)
    ops = sym.get_symmetry_operations()
    ops = ops[:len(ops) // 2] if sym.inversion else ops
    ref = gen.series(k, np.concatenate([np.zeros((1, dim))] + [[s @ r for s in ops] for r in nb[1:]]),
                     np.concatenate([H[:1]] + [[h] * len(ops) for h in H[1:]]))
    tol = 1e-10 * (1 + np.sum(np.abs(H))) * len(ops)
    close(m.f(k), ref, tol, 1e-11, "H(k) with coefficients shared by symmetry")
    close(m.params_complex(), H, tol, 1e-11, "couplings read back")
    # the symmetry of the coefficient functions is the symmetry of H(k)
    for s in sym.get_symmetry_operations()[:6]:
        close(m.f(k @ s.T), ref, tol * 10, 1e-10, "H(s k) = H(k)") if _closed_T(sym) else None


def _closed_T(sym):
    return sym.is_orthogonal()


@st.composite
def case_custom(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    n = draw(st.integers(1, 4))
    b = draw(st.integers(1, 3))
    return {"dim": dim, "n": n, "b": b, "H": draw(gen.nums(2 * n * b * b)), "w": draw(gen.i8(n * dim)), "k": draw(gen.kpts(dim))}


def check_custom(c, ctx):
    """general model: H(k) = sum_i params_i f_i(k) + h.c. (term 0 Hermitian) for user supplied functions"""
    dim, n, b = c["dim"], c["n"], c["b"]
    P = gen.dec_complex(c["H"], (n, b, b))
    P[0] = gen.herm(P[0])
    w = np.array(c["w"], dtype=float).reshape(n, dim) / 40
    k = gen.dec_k(c["k"], dim)
    nontriv(ctx, P, k)
    f = lambda k, i: np.ones(np.shape(k)[:-1]) if i == 0 else (np.asarray(k) @ w[i]) ** 2 + 0.25
    df = lambda k, i: np.zeros(np.shape(k)) if i == 0 else (2 * (np.asarray(k) @ w[i]))[..., None] * w[i]
    ddf = lambda k, i: np.zeros(np.shape(k) + (dim,)) if i == 0 else np.zeros(np.shape(k) + (dim,)) + 2 * np.outer(w[i], w[i])
    m = BandStructureModel(f, df, P, ddf)
    ref = np.array([P[0] + sum(f(kk, i) * (P[i] + P[i].conj().T) for i in range(1, n)) for kk in k])
    tol = 1e-9 * (1 + np.sum(np.abs(P)) * np.max(np.abs(w) + 1) ** 2)
    close(m.f(k), ref, tol, 1e-10, "H(k) of user functions")
    dref = np.array([sum((df(kk, i)[:, None, None] * (P[i] + P[i].conj().T) for i in range(1, n)), np.zeros((dim, b, b), complex)) for kk in k])
    close(m.df(k), dref, tol, 1e-10, "dH of user functions")
    ddref = np.array([sum((ddf(kk, i)[:, :, None, None] * (P[i] + P[i].conj().T) for i in range(1, n)), np.zeros((dim, dim, b, b), complex)) for kk in k])
    close(m.ddf(k), ddref, tol, 1e-10, "ddH of user functions")


@st.composite
def case_tbm(draw):
    dim = draw(st.sampled_from([1, 3, 3]))
    rep = draw(st.sampled_from(["trivial", "odd", "mixed"]))
    b = 2 if rep == "mixed" else 1
    nb = draw(gen.neighbors_int(dim, 4))
    inv = draw(st.booleans())
    return {"dim": dim, "rep": rep, "b": b, "nb": nb, "inv": inv, "H": draw(gen.nums(2 * len(nb) * b * b)), "k": draw(gen.kpts(dim))}


def check_tbm(c, ctx):
    """the representation-based TightBindingModel: cos/sin storage, with and without inversion"""
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    H = gen.dec_complex(c["H"], (len(nb), b, b))
    H[0] = gen.herm(H[0])
    if c["inv"]:
        # inversion with basis parity +,-: H_R hermitian inside equal parity, anti-hermitian between opposite parity, and real-space on-site block diagonal
        n = {"trivial": 1, "odd": 0, "mixed": 1}[c["rep"]]
        par = np.array([1] * n + [-1] * (b - n))
        sgn = par[:, None] * par[None, :]
        H = (H + sgn[None] * np.conj(np.swapaxes(H, 1, 2))) / 2
        H[0] = np.where(sgn > 0, H[0], 0)
        e = np.eye(dim)
        u = UnitaryRepresentation(Symmetry([e], inversion=True), b)
        u.U = np.array([np.eye(b)])
        u.inv_split = n
    else:
        u = UnitaryRepresentation(Symmetry.none(dim), b)
    k = gen.dec_k(c["k"], dim)
    nontriv(ctx, H, k)
    ctx.label(f"inv={c['inv']} {c['rep']}")
    m = TightBindingModel(u, nb, None)
    m.set_from_complex(H)
    tol = 1e-10 * (1 + np.sum(np.abs(H)))
    ref = gen.series(k, nb, H)
    close(m.f(k), ref, tol, 1e-11, "H(k) of TightBindingModel")
    close(m.params_complex(), H, tol, 1e-11, "couplings of TightBindingModel")
    close(m(k), np.linalg.eigvalsh(ref), tol, 1e-10, "bands of TightBindingModel")
    m2 = TightBindingModel(u, nb, m.params.copy())
    close(m2.f(k), ref, tol, 1e-11, "H(k) of a TightBindingModel made from parameters")
    if c["inv"]:  # the on-site matrix does not mix parities, whatever is passed
        P = m.params.copy()
        P[0][:n, n:] += .7
        P[0][n:, :n] += .3j
        keep = P.copy()
        close(TightBindingModel(u, nb, P).f(k), ref, tol, 1e-11, "H(k) made from parameters that mix parities on-site")
        close(P, keep, 0, 0, "parameters passed in")
    require(m.dim() == dim and m.band_count() == b, "reported dimensions")


@st.composite
def case_big(draw):
    return {"big": draw(gen.big_tb()), "lay": draw(layout())}


def check_big(c, ctx):
    """many k-points, bands or lattice vectors"""
    nb, H, k = gen.dec_big(c["big"])
    lay = c["lay"]
    if lay[0] == "inv" and nb.shape[1] == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H)
    ctx.label(c["big"]["kind"], lay[0])
    m = build(lay, nb, H)
    tol = 1e-10 * (1 + np.sum(np.linalg.norm(H, axis=(1, 2))))
    close(hk(m, k), gen.fast_series(k, nb, H), tol, 1e-11, f"H(k) at {len(k)} k-points, {H.shape[1]} bands, {len(nb)} lattice vectors")
    n = len(k) // 6 * 6
    close(hk(m, k[:n].reshape(2, 3, -1, nb.shape[1])), gen.fast_series(k[:n], nb, H).reshape((2, 3, -1) + H.shape[1:]), tol, 1e-11, "H(k) on a grid")


SUBS = [
    Sub("layouts", case_layout(), check_layout, quick=1200, thorough=40000, shards=3),
    Sub("batching", case_batch(), check_batch, quick=600, thorough=20000, shards=2),
    Sub("shared_coefficients", case_shared(), check_shared, quick=600, thorough=20000, shards=2),
    Sub("large", case_big(), check_big, quick=240, thorough=4000),
    Sub("custom_functions", case_custom(), check_custom, quick=400, thorough=8000),
    Sub("tight_binding_model", case_tbm(), check_tbm, quick=400, thorough=8000),
]
