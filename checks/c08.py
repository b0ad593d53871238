"""C08: a supercell model has exactly the folded bands of the original."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises
from models import build, layout, pd_series, hk, neighbors_of, AsymTightBindingModel, HermitianFourierSeries
from c02 import geig_ref
from c03 import basis

RULE = "supercell matrix with |det| >= 2 or a non-diagonal/negative unimodular matrix, and at least one coupling besides the on-site matrix"
ASSUMPTIONS = ["|det| <= 12 and entries of the supercell matrix in [-3, 3]", "oracle: the bands of the original couplings at the |det| k-points k + M^-T g, enumerated by brute force"]


@st.composite
def mat(draw, dim):
    kind = draw(st.sampled_from(["diag", "general", "general", "unimodular", "negdiag", "identity", "perm"]))
    v = draw(gen.i8(dim * dim))
    return {"kind": kind, "v": v}


def dec_mat(c, dim):
    v = np.array(c["v"]).reshape(dim, dim)
    k = c["kind"]
    if k == "diag":
        return np.diag(1 + np.abs(np.diag(v)) % 3)
    if k == "negdiag":
        return np.diag((1 + np.abs(np.diag(v)) % 2) * np.where(np.diag(v) % 4 < 2, -1, 1))
    if k == "identity":
        return np.eye(dim, dtype=int)
    if k == "perm":
        p = np.argsort(v[0])
        return np.eye(dim, dtype=int)[p] * np.where(v[-1] % 2, 1, -1)
    if k == "unimodular":
        m = np.eye(dim, dtype=int)
        for (i, j) in itertools.permutations(range(dim), 2):
            e = np.eye(dim, dtype=int)
            e[i, j] = v[i, j] % 3 - 1
            m = m @ e
        return m * (-1 if v[0, 0] % 5 == 0 else 1)
    m = v % 5 - 2
    if dim == 3:
        m = v % 3 - 1 + np.diag(np.diag(v) % 2)
    return m


@st.composite
def case(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    b = draw(st.integers(1, 2))
    nb = draw(gen.neighbors_int(dim, 4 if dim < 3 else 3, 2 if dim < 3 else 1))
    c = {"dim": dim, "b": b, "nb": nb, "lay": draw(layout(inv=False)), "H": draw(gen.nums(2 * len(nb) * b * b)), "k": draw(gen.kpts(dim, 1, 3)), "M": draw(mat(dim)),
         "A": draw(st.one_of(st.none(), gen.i8(dim * dim))), "rot": draw(st.integers(0, 3)), "pad": draw(st.booleans()), "cr": draw(st.booleans()), "ex": draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        sn = draw(gen.neighbors_int(dim, 2, 1))
        c["sn"] = sn
        c["S"] = draw(gen.nums(2 * len(sn) * b * b))
    return c


def fold(M):
    """all k-offsets (in the original reciprocal basis) that fold onto 0: M^-T g"""
    dim = len(M)
    det = abs(round(np.linalg.det(M)))
    Mi = np.linalg.inv(M).T
    got = []
    for g in itertools.product(range(det), repeat=dim):
        q = Mi @ np.array(g)
        q = q - np.round(q)
        if not any(np.allclose((q - x) - np.round(q - x), 0, atol=1e-6) for x in got):
            got.append(q)
        if len(got) == det:
            break
    return np.array(got)


def check(c, ctx):
    dim, b = c["dim"], c["b"]
    nbi = np.array(c["nb"], dtype=float).reshape(-1, dim)
    H = gen.dec_complex(c["H"], (len(nbi), b, b))
    H[0] = gen.herm(H[0])
    M = dec_mat(c["M"], dim)
    det = abs(round(np.linalg.det(M)))
    if det == 0 or det > 12 or det * b > 16:
        ctx.trivial()
        ctx.label("singular or too large")
        return
    A = basis(c["A"], dim)
    if c["A"] is not None and c["rot"] == 0:
        A = A @ np.diag([-1.0] + [1.0] * (dim - 1))
    if c["A"] is not None and c["rot"] == 1:
        A = np.roll(A, 1, axis=0)
    if c["pad"]:  # extra lattice vectors without coupling
        full = gen.half_box(dim, 1)
        extra = [x for x in full if not any(np.array_equal(x, y) or np.array_equal(x, -y) for y in nbi)]
        if extra:
            nbi = np.concatenate([nbi, extra])
            H = np.concatenate([H, np.zeros((len(extra), b, b))])
    nb = nbi @ A.T
    lay = c["lay"]
    kc = gen.dec_k(c["k"], dim)          # crystal coordinates of the original lattice
    k = kc @ np.linalg.inv(A)            # cartesian
    S = sn = None
    if "S" in c:
        lay = ["asym", None, None]
        sni = np.array(c["sn"], dtype=float).reshape(-1, dim)
        sn = sni @ A.T
        S = pd_series(sni, c["S"], b)
        m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(sn, S))
    else:
        m = build(lay, nb, H)
    ctx.label(lay[0])
    ctx.label(c["M"]["kind"])
    if not np.any(H[1:]) or (det == 1 and c["M"]["kind"] not in ("unimodular", "negdiag", "perm", "general")):
        ctx.trivial()
    Ao, An = A.copy(), A @ M
    An0 = An.copy()
    old = m.params_complex().copy()
    if lay[0] == "asym":
        s = m.supercell(Ao, An)
    else:
        s = m.supercell(Ao, An, cos_reduced=c["cr"], exp=c["ex"])
    require(np.array_equal(Ao, A) and np.array_equal(An, An0), "lattice matrices were modified")
    close(m.params_complex(), old, 1e-13, 1e-13, "couplings of the original model")
    require(s.band_count() == det * b, f"{s.band_count()} bands for {det} x {b}")
    qs = fold(M)
    require(len(qs) == det, "internal")

    def bands(kk):
        h = gen.series(kk, nbi, H)
        if S is None:
            return np.linalg.eigvalsh(h)
        return np.array([geig_ref(x, y) for x, y in zip(h, gen.series(kk, sni, S))])
    want = np.sort(np.concatenate([bands(kc + q) for q in qs], axis=1), axis=1)
    tol = 1e-8 * (1 + np.sum(np.abs(H)))
    close(s(k), want, tol, 1e-9, f"supercell bands for M={M.tolist()}")
    if S is None:
        tr = np.trace(hk(s, k), axis1=1, axis2=2).real
        close(tr, want.sum(1), tol * det * b, 1e-9, "trace of the supercell H(k)")
        h = hk(s, k)
        close(h, np.conj(np.swapaxes(h, 1, 2)), tol, 0, "Hermitian H(k)")
    if c["M"]["kind"] == "identity":
        nn = neighbors_of(s)
        close(nn[:len(nb)], nb, 1e-9, 0, "lattice vectors of the identity supercell")
        if S is None:
            close(hk(s, k), gen.series(kc, nbi, H), tol, 1e-9, "identity supercell")
    # lattice vectors of the result belong to the new lattice
    g = neighbors_of(s) @ np.linalg.inv(An).T
    close(g, np.round(g), 1e-6, 0, "lattice vectors in units of the new lattice")


@st.composite
def case_twice(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    nb = draw(gen.neighbors_int(dim, 3, 2 if dim < 3 else 1))
    return {"dim": dim, "nb": nb, "H": draw(gen.nums(2 * len(nb))), "k": draw(gen.kpts(dim, 1, 3)), "M": draw(mat(dim)), "N": draw(mat(dim)), "A": draw(st.one_of(st.none(), gen.i8(dim * dim))),
            "lay": draw(layout(inv=False)), "bad": draw(gen.i8(dim * dim))}


def check_twice(c, ctx):
    """the supercell of a supercell is the supercell of the product; non-integer matrices are rejected"""
    dim = c["dim"]
    nbi = np.array(c["nb"], dtype=float).reshape(-1, dim)
    H = gen.dec_complex(c["H"], (len(nbi), 1, 1))
    H[0] = gen.herm(H[0])
    M, N = dec_mat(c["M"], dim), dec_mat(c["N"], dim)
    d1, d2 = abs(round(np.linalg.det(M))), abs(round(np.linalg.det(N)))
    A = basis(c["A"], dim)
    m = build(c["lay"], nbi @ A.T, H)
    bad = A @ (np.eye(dim) + np.array(c["bad"]).reshape(dim, dim) / 256)
    if np.any(np.abs(np.array(c["bad"])) > 0):
        raises(AssertionError, lambda: m.supercell(A, bad), "supercell with a non-integer matrix")
    if d1 * d2 == 0 or d1 * d2 > 12:
        ctx.trivial()
        return
    if not np.any(H[1:]) or d1 * d2 == 1:
        ctx.trivial()
    k = gen.dec_k(c["k"], dim)
    s1 = m.supercell(A, A @ M)
    s2 = s1.supercell(A @ M, A @ M @ N)
    s3 = m.supercell(A, A @ (M @ N))
    close(s2(k), s3(k), 1e-8 * (1 + np.sum(np.abs(H))), 1e-9, "supercell of a supercell")


SUBS = [
    Sub("folding", case(), check, quick=2500, thorough=40000, shards=5),
    Sub("composition", case_twice(), check_twice, quick=1000, thorough=16000, shards=3),
]
