"""Generators (Hypothesis strategies of plain JSON values) and decoders shared by the checks."""
import itertools
import numpy as np
from hypothesis import strategies as st


def _expand(seed, n):
    r = np.random.RandomState(seed)
    if seed < 256:  # what shrinking ends at: few small numbers
        return [int(x) for x in (r.randint(-2, 3, n) * (r.rand(n) < min(1.0, seed / 128)))]
    return [int(x) for x in r.randint(-128, 128, n)]


def i8(n):
    """list of n integers in [-128, 127], expanded from one drawn seed (fast, shrinks to few small numbers)"""
    return st.binary(min_size=4, max_size=4).map(lambda b: _expand(int.from_bytes(b, "big"), n))


def often(small, big, of=12):
    """mostly small sizes, one in `of` from the list of big ones"""
    return st.integers(0, of - 1).flatmap(lambda i: st.sampled_from(big) if i == of - 1 else small)


@st.composite
def nums(draw, n, modes=("dense", "dense", "sparse", "small", "big", "wide")):
    """n numbers as {"m": mode, "v": ints}; decode with dec()"""
    m = draw(st.sampled_from(modes))
    return {"m": m, "v": draw(i8(n))}


def dec(c, shape=None):
    v = np.array(c["v"], dtype=np.float64)
    m = c["m"]
    if m == "dense":
        v = v / 64
    elif m == "sparse":
        v = np.where(np.array(c["v"]) % 3 == 0, v / 64, 0.0)
    elif m == "small":
        v = np.sign(v) * (np.abs(v) % 3)
    elif m == "big":
        v = v * 7.25
    elif m == "fine":
        v = v / 127 + v * v * 1e-5
    elif m == "tiny":
        v = v / 64 * 1e-3
    elif m == "wide":  # magnitudes from 10 to 1e-8
        v = v / 16 * 10.0 ** -(np.abs(v) % 9)
    return v.reshape(shape) if shape is not None else v


def dec_complex(c, shape):
    n = int(np.prod(shape))
    v = dec(c)
    return (v[:n] + 1j * v[n:2 * n]).reshape(shape)


def herm(m):
    return (m + np.conj(np.swapaxes(m, -1, -2))) / 2


def half_box(dim, rng):
    """all integer vectors with |r_i| <= rng_i, one of each +-pair, origin first, by length"""
    rng = [rng] * dim if np.isscalar(rng) else list(rng)
    vs = [v for v in itertools.product(*[range(-a, a + 1) for a in rng])]
    keep = [v for v in vs if v > tuple(-x for x in v)]
    keep.sort(key=lambda v: (sum(x * x for x in v), tuple(-x for x in v)))
    return np.array([(0,) * dim] + keep, dtype=float)


@st.composite
def neighbors_int(draw, dim, max_n=5, rng=2):
    """integer neighbour list: origin first, distinct, one of each +-pair (either sign)"""
    full = half_box(dim, rng)[1:]
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 10, 11, 12])) % (min(max_n, len(full)) + 1) if max_n < 13 else draw(st.integers(13, min(max_n, len(full))))
    idx = draw(st.lists(st.integers(0, len(full) - 1), min_size=n, max_size=n, unique=True))
    sg = draw(st.lists(st.sampled_from([1, -1]), min_size=n, max_size=n))
    return [[0] * dim] + [[int(x) * s for x in full[i]] for i, s in zip(idx, sg)]


@st.composite
def kpts(draw, dim, min_n=1, max_n=6):
    """k-points as nested lists (numerators over 64 plus special points)"""
    n = draw(st.integers(min_n, max_n))
    kind = draw(st.sampled_from(["generic", "generic", "special", "mixed", "lead"]))
    v = draw(i8(n * dim))
    return {"kind": kind, "n": n, "v": v}


def dec_k(c, dim):
    v = np.array(c["v"], dtype=float)
    if c["kind"] == "generic":
        v = v / 61.0
    elif c["kind"] == "special":
        v = np.sign(v) * (np.abs(v) % 3) / 2 * 1.0
        v = np.where(v == 1.0, 0.25, v)
    elif c["kind"] == "lead":  # points k = -k (real Hamiltonians) before one general point
        n = len(v) - dim
        v = np.concatenate([v[:n] % 3 / 2, v[n:] / 61.0])
    else:
        v = np.where(np.array(c["v"]) % 2 == 0, v / 64, v / 61.0)
    return v.reshape(-1, dim)


def series(k, neighbors, H):
    """independent reference for the Hermitian Fourier series, one k and one term at a time"""
    neighbors = np.asarray(neighbors, dtype=float)
    H = np.asarray(H)
    out = []
    for kk in np.asarray(k, dtype=float).reshape(-1, neighbors.shape[1]):
        m = np.array(H[0], dtype=complex)
        for r, h in zip(neighbors[1:], H[1:]):
            ph = np.exp(2j * np.pi * float(np.dot(kk, r)))
            m = m + ph * h + np.conj(ph) * np.conj(h).T
        out.append(m)
    return np.array(out)


@st.composite
def tb(draw, dims=(1, 2, 3), max_b=4, max_n=5, rng=2, cplx=True, big=False):
    """random tight-binding data: dim, bands, neighbours, couplings (big: sometimes many of them)"""
    dim = draw(st.sampled_from(dims))
    if big and draw(st.integers(0, 24)) == 11:
        max_b, max_n = draw(st.sampled_from([(12, 3), (3, 40), (7, 20)]))
        rng = {1: 45, 2: 5, 3: 3}[dim]
    b = draw(st.integers(max(1, max_b // 2), max_b)) if max_b > 4 else draw(st.integers(1, max_b))
    nb = draw(neighbors_int(dim, max_n, rng))
    n = len(nb)
    c = draw(nums(2 * n * b * b, modes=("dense", "dense", "sparse", "small", "wide")))
    return {"dim": dim, "b": b, "nb": nb, "H": c, "real": not cplx or draw(st.integers(0, 4)) == 2, "decay": draw(st.sampled_from([0, 0, 0, 1, 2, 5]))}


def dec_tb(c):
    nb = np.array(c["nb"], dtype=float).reshape(-1, c["dim"])
    H = dec_complex(c["H"], (len(nb), c["b"], c["b"]))
    if c.get("real"):
        H = H.real.astype(complex)
    H[0] = herm(H[0])
    # couplings that decrease with the position in the list
    return nb, H * (10.0 ** -(c.get("decay", 0) * np.minimum(np.arange(len(H)), 2)))[:, None, None]


@st.composite
def big_tb(draw, overlap=False):
    """sizes beyond the usual handful: many k-points, many bands or many lattice vectors (numbers from a seed)"""
    kind = draw(st.sampled_from(["k", "b", "nb", "mix"]))
    u = draw(i8(4))
    s = [abs(x) for x in u]
    nk, b, n = {"k": (300 + 40 * s[0], 1 + s[1] % 3, 1 + s[2] % 4), "b": (2 + s[0] % 9, 6 + s[1] % 20, 1 + s[2] % 4),
                "nb": (2 + s[0] % 9, 1 + s[1] % 3, 10 + s[2] % 50), "mix": (50 + s[0], 4 + s[1] % 5, 6 + s[2] % 10)}[kind]
    return {"kind": kind, "dim": draw(st.sampled_from([3, 2, 1])), "nk": nk, "b": b, "n": n, "rs": draw(st.integers(0, 10 ** 6))}


def dec_big(c):
    """lattice vectors, couplings, k-points"""
    r = np.random.RandomState(c["rs"])
    d, b = c["dim"], c["b"]
    box = half_box(d, {1: 70, 2: 6, 3: 3}[d])
    nb = box[np.concatenate([[0], 1 + np.sort(r.permutation(len(box) - 1)[:c["n"]])])]
    nb = nb * np.where(r.rand(len(nb), 1) < .5, -1, 1) + 0.0
    H = r.randn(len(nb), b, b) + 1j * r.randn(len(nb), b, b)
    H[0] = herm(H[0])
    H[1:] /= len(nb) ** .5
    return nb, H, r.rand(c["nk"], d) * 2 - 1


def fast_series(k, nb, H, order=0):
    """vectorised reference of the Hermitian Fourier series (order 0) and its first and second derivatives"""
    ph = np.exp(2j * np.pi * (k @ nb[1:].T))
    w = 2j * np.pi * nb[1:]
    if order == 0:
        m = np.einsum("kn,nij->kij", ph, H[1:])
        return H[0] + m + np.conj(np.swapaxes(m, -1, -2))
    if order == 1:
        m = np.einsum("kn,na,nij->kaij", ph, w, H[1:], optimize=True)
    else:
        m = np.einsum("kn,na,nb,nij->kabij", ph, w, w, H[1:], optimize=True)
    return m + np.conj(np.swapaxes(m, -1, -2))
