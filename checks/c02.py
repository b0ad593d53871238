"""C02: bands are the sorted (generalised) eigenvalues of H(k), the same by every way of asking."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require
from models import build, layout, restrict, pd_series, neighbors_of, AsymTightBindingModel, HermitianFourierSeries, BandStructureModel, Symmetry

RULE = "at least two bands and a k-dependent H (some coupling besides the on-site matrix), at a k-point away from the origin"
ASSUMPTIONS = ["overlap matrices are positive definite with smallest eigenvalue >= 0.3"]


def geig_ref(h, s):
    """eigenvalues of the pencil by Loewdin orthogonalisation"""
    la, ev = np.linalg.eigh(s)
    w = (ev / np.sqrt(la)) @ ev.conj().T
    return np.linalg.eigvalsh(gen.herm(w @ h @ w))


@st.composite
def case_std(draw):
    c = draw(gen.tb())
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"], 1, 7)), "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])), "deg": draw(st.booleans())}


def check_std(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    lay = c["lay"]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H) * c["scale"]
    if c["deg"]:
        H = np.kron(H, np.eye(2))
    k = gen.dec_k(c["k"], dim)
    if H.shape[1] < 2 or len(H) < 2 or not np.any(k) or not np.any(np.abs(H[1:]) > 1e-9):
        ctx.trivial()
    ctx.label(lay[0])
    m = build(lay, nb, H)
    ref = np.array([np.linalg.eigvalsh(h) for h in gen.series(k, nb, H)])
    tol = 1e-10 * (c["scale"] + np.sum(np.abs(H)))
    b = m(k)
    N = H.shape[1]
    require(b.shape == (len(k), N) and np.isrealobj(b), f"bands shape {b.shape} / dtype {b.dtype}")
    require(np.all(np.diff(b, axis=1) >= 0), "bands are not in ascending order")
    close(b, ref, tol, 1e-10, "bands")
    close(m.bands(k), b, tol, 0, "bands() and the call")
    bg, g = m.bands_grad(k)
    close(bg, b, tol, 1e-10, "energies of bands_grad")
    require(g.shape == (len(k), dim, N), f"gradient shape {g.shape}")
    bh, gh, hh = m.bands_grad_hess(k)
    close(bh, b, tol, 1e-10, "energies of bands_grad_hess")
    require(gh.shape == (len(k), dim, N) and hh.shape == (len(k), dim, dim, N), f"shapes {gh.shape} {hh.shape}")
    for i in range(len(k)):
        close(m(k[i:i + 1])[0], b[i], tol, 1e-10, "energies of a single k-point")
    close(m(k[::-1]), b[::-1], tol, 1e-10, "energies for reversed k-points")
    require(m.band_count() == N, "band_count")
    if hasattr(m, "dim"):
        require(m.dim() == dim, "dim")
    # trace and Frobenius norm are basis independent
    f = gen.series(k, nb, H)
    close(b.sum(1), np.trace(f, axis1=1, axis2=2).real, tol * N, 1e-10, "sum of bands = trace of H(k)")


@st.composite
def case_gen(draw):
    c = draw(gen.tb(max_b=4))
    sn = draw(gen.neighbors_int(c["dim"], 4))
    return {"tb": c, "sn": sn, "S": draw(gen.nums(2 * len(sn) * c["b"] ** 2)), "k": draw(gen.kpts(c["dim"], 1, 6)),
            "smode": draw(st.sampled_from(["k", "k", "const", "unit0", "diag"]))}


def overlap(c, dim, b):
    sn = np.array(c["sn"], dtype=float).reshape(-1, dim)
    S = pd_series(sn, c["S"], b)
    if c["smode"] == "const":
        S[1:] = 0
    elif c["smode"] == "unit0":  # S(0) = 1
        S[1:] *= .6
        S[0] = np.eye(b) - np.sum(S[1:] + np.conj(np.swapaxes(S[1:], 1, 2)), axis=0)
    elif c["smode"] == "diag":
        S = S * np.eye(b)
    return sn, S


def check_gen(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim, b = nb.shape[1], H.shape[1]
    sn, S = overlap(c, dim, b)
    k = np.concatenate([np.zeros((1, dim)), gen.dec_k(c["k"], dim)])
    if b < 2 or len(H) < 2 or not np.any(k) or not np.any(np.abs(H[1:]) > 1e-9) or not np.any(np.abs(S[1:]) > 1e-9):
        ctx.trivial()
    ctx.label(c["smode"])
    m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(sn, S))
    hs, ss = gen.series(k, nb, H), gen.series(k, sn, S)
    ref = np.array([geig_ref(h, s) for h, s in zip(hs, ss)])
    tol = 1e-9 * (1 + np.sum(np.abs(H)))
    close(m.S.f(k), ss, 1e-11, 1e-11, "overlap matrices")
    bands = m(k)
    close(bands, ref, tol, 1e-10, "generalised bands")
    require(np.all(np.diff(bands, axis=1) >= 0), "bands are not in ascending order")
    close(m.bands(k), bands, tol, 1e-10, "bands() and the call")
    close(m.bands_grad(k)[0], bands, tol, 1e-10, "energies of bands_grad")
    close(m.bands_grad_hess(k)[0], bands, tol, 1e-10, "energies of bands_grad_hess")
    for i in range(len(k)):
        close(m(k[i:i + 1])[0], bands[i], tol, 1e-10, "energies of a single k-point")
        close(m.bands_grad(k[i:i + 1])[0][0], bands[i], tol, 1e-10, "energies of bands_grad for a single k-point")
    require(m.band_count() == b and m.dim() == dim, "band count / dimension")


@st.composite
def case_init(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    return {"dim": dim, "b": draw(st.integers(1, 4)), "nb": draw(gen.neighbors_int(dim, 4)), "e": draw(gen.nums(4)), "off": draw(st.integers(0, 2)),
            "add": draw(st.integers(0, 2)), "cr": draw(st.booleans()), "ex": draw(st.booleans()), "inv": draw(st.booleans()), "k": draw(gen.kpts(dim))}


def check_init(c, ctx):
    """models made from nothing or from reference data have the announced bands"""
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    e = np.sort(gen.dec(c["e"])[:b]).astype(complex).real
    off = min(c["off"], c["add"])
    k = np.concatenate([gen.dec_k(c["k"], dim), np.zeros((1, dim))])
    if b < 2 or len(nb) < 2:
        ctx.trivial()
    sym = Symmetry.inv(dim) if c["inv"] else Symmetry.none(dim)
    m0 = BandStructureModel.init_tight_binding(sym, nb, b, cos_reduced=c["cr"], exp=c["ex"])
    close(m0(k), np.zeros((len(k), b)), 1e-12, 0, "empty model")
    a0 = AsymTightBindingModel.new(nb, b)
    close(a0(k), np.zeros((len(k), b)), 1e-12, 0, "empty model")
    require(m0.band_count() == b and a0.band_count() == b and a0.dim() == dim, "counts of the empty model")
    ref = np.array([e + 0.1 * np.sum(kk ** 2) for kk in k])
    ref0, k0 = ref.copy(), k.copy()
    m = BandStructureModel.init_tight_binding_from_ref(sym, nb, k, ref, off, c["add"], cos_reduced=c["cr"], exp=c["ex"])
    n = b + c["add"]
    require(m.band_count() == n, "bands of the reference plus added bands")
    m.normalize()
    got = m(k)
    want = np.concatenate([[e[0]] * off, e, [e[-1]] * (c["add"] - off)])
    # random start couplings are of size 1e-3 per term (each entry below 2*1e-3*sqrt(2))
    # neighbour 0 excluded; 2 cos terms, |entry| <= 4e-3, norm <= n * that
    terms = (len(nb) - 1) * 2 * 2 * len(sym.S)
    lim = terms * n * 6e-3 + 1e-9
    require(np.max(np.abs(got - want[None])) <= lim, f"start model is {np.max(np.abs(got - want[None]))} away from the reference at k=0 (limit {lim})")
    if c["cr"]:
        close(got[-1], want, 1e-9, 1e-9, "start model at k=0 (reduced layout is exact there)")
    a = AsymTightBindingModel.init_from_ref(nb, k, ref)
    require(a.band_count() == b, "band count of the start model")
    sc = (e[-1] - e[0]) * 0.001
    require(np.max(np.abs(a(k) - e)) <= terms * b * 6 * sc + 1e-9, "start model of AsymTightBindingModel")
    require(np.array_equal(k, k0) and np.array_equal(ref, ref0), "reference data was modified")


@st.composite
def case_big(draw):
    return {"big": draw(gen.big_tb()), "lay": draw(layout()), "S": draw(st.booleans())}


def check_big(c, ctx):
    """many k-points, bands or lattice vectors"""
    nb, H, k = gen.dec_big(c["big"])
    lay = c["lay"]
    if lay[0] == "inv" and nb.shape[1] == 2:
        lay = ["none"] + lay[1:]
    ctx.label(c["big"]["kind"], lay[0])
    if lay[0] == "asym" and c["S"]:
        S = H[:, ::-1] * .01 / np.sum(np.linalg.norm(H, axis=(1, 2)))
        S[0] = np.eye(H.shape[1])
        m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(nb, S))
        s = gen.fast_series(k, nb, S)
    else:
        H = restrict(lay, H)
        m = build(lay, nb, H)
        s = None
    h = gen.fast_series(k, nb, H)
    ref = np.linalg.eigvalsh(h) if s is None else np.array([geig_ref(x, y) for x, y in zip(h, s)])
    tol = 1e-9 * (1 + np.sum(np.linalg.norm(H, axis=(1, 2))))
    what = f"at {len(k)} k-points, {H.shape[1]} bands, {len(nb)} lattice vectors"
    close(m(k), ref, tol, 1e-10, "bands " + what)
    close(m.bands(k), ref, tol, 1e-10, "bands() " + what)
    close(m.bands_grad(k)[0], ref, tol, 1e-10, "energies of bands_grad " + what)
    close(m.bands_grad_hess(k[:400])[0], ref[:400], tol, 1e-10, "energies of bands_grad_hess " + what)


@st.composite
def case_hist(draw):
    c = draw(gen.tb(max_b=4))
    step = st.tuples(st.sampled_from(["k", "k", "all_k", "par", "par0", "rand", "ask", "bands", "grad", "newk"]), gen.i8(4)).map(list)
    return {"tb": c, "lay": draw(layout()), "S": draw(st.booleans()), "k": draw(gen.kpts(c["dim"], 1, 5)), "ops": draw(st.lists(step, min_size=2, max_size=8))}


def check_hist(c, ctx):
    """the answer only depends on the present couplings and k-points, whatever was asked before"""
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    lay = c["lay"]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H)
    asym = lay[0] == "asym"
    S = None
    if asym and c["S"]:
        S = H[:, ::-1] * .2 / np.sum(np.linalg.norm(H, axis=(1, 2)) + 1)
        S[0] = np.eye(H.shape[1]) + gen.herm(S[0])
        m = AsymTightBindingModel(HermitianFourierSeries(nb, H.copy()), HermitianFourierSeries(nb, S.copy()))
    else:
        m = build(lay, nb, H)
    k = gen.dec_k(c["k"], dim)
    if H.shape[1] < 2 or len(H) < 2 or len(c["ops"]) < 3:
        ctx.trivial()
    ctx.label(lay[0])

    def want():
        h = gen.series(k, m.H.neighbors, m.H.H_r)
        s = gen.series(k, m.S.neighbors, m.S.H_r)
        return np.array([geig_ref(x, y) for x, y in zip(h, s)])

    def fresh():
        """a new model with the present couplings"""
        if asym:
            return AsymTightBindingModel(HermitianFourierSeries(nb, m.H.H_r.copy()), HermitianFourierSeries(m.S.neighbors.copy(), m.S.H_r.copy()))
        n = build(lay, nb, H)
        n.params = np.array(m.params)
        return n
    tol = 1e-8 * (1 + np.sum(np.abs(H)))
    hist, kept = [], []
    for op, v in c["ops"] + [["bands", [0]], ["grad", [0]]]:
        hist.append(op)
        what = "after " + ", ".join(hist)
        if op == "k":
            k[v[0] % len(k)] += (np.arange(dim) + 1) * v[1] / 61
        elif op == "all_k":
            k += v[0] / 61
        elif op == "newk":
            k = k + v[0] / 61
        elif op in ("par", "par0"):
            P = m.H.H_r if asym else m.params
            i = 0 if op == "par0" else abs(v[0]) % len(P)
            P[i] *= 1 + v[1] / 256
        elif op == "rand":
            a = .1 * np.random.RandomState(abs(v[0])).standard_normal(H[0].shape)
            P = m.H.H_r if asym else m.params
            P[0] += a + a.T
        elif op == "ask":
            m(k)[...] = 17.0  # the result belongs to the caller
        elif op == "grad":
            close(m.bands_grad(k)[0], fresh().bands_grad(k.copy())[0], tol, 1e-9, f"energies of bands_grad {what}")
            close(m.bands_grad_hess(k)[0], fresh().bands(k.copy()), tol, 1e-9, f"energies of bands_grad_hess {what}")
        if op in ("bands", "k", "par", "all_k", "par0", "rand"):
            got = m(k)
            kept.append((got, np.array(got), what))
            close(got, fresh()(k.copy()), tol, 1e-9, f"bands {what}")
            if asym:
                close(got, want(), tol, 1e-9, f"bands {what} (reference)")
    for got, was, what in kept:
        require(np.array_equal(got, was), lambda: f"the bands returned {what} were changed by a later call")


SUBS = [
    Sub("history", case_hist(), check_hist, quick=500, thorough=15000, shards=2),
    Sub("standard", case_std(), check_std, quick=1500, thorough=40000, shards=3),
    Sub("generalised", case_gen(), check_gen, quick=1000, thorough=30000, shards=2),
    Sub("large", case_big(), check_big, quick=200, thorough=3000, shards=2),
    Sub("initial_models", case_init(), check_init, quick=500, thorough=10000),
]
