"""C03: band gradients and Hessians are the derivatives of the bands."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require
from models import build, layout, restrict, pd_series, dhk, ddhk, hk, AsymTightBindingModel, HermitianFourierSeries
from c02 import overlap, geig_ref
from c01 import GROUPS, case_shared
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.symmetry import Symmetry

RULE = "at least one coupling besides the on-site matrix and, for band derivatives, at least one k-point with a band separated from the others by more than 2% of the total coupling strength"
ASSUMPTIONS = ["oracle: analytic derivatives of the Fourier sum and second order perturbation theory written out term by term, cross-checked by central differences of reference energies"]


def dseries(k, nb, H):
    """analytic first and second derivatives of the Fourier sum, term by term"""
    dim, n = nb.shape[1], H.shape[1]
    d = np.zeros((len(k), dim, n, n), complex)
    dd = np.zeros((len(k), dim, dim, n, n), complex)
    for x, kk in enumerate(k):
        for r, h in zip(nb[1:], H[1:]):
            t = np.exp(2j * np.pi * float(np.dot(kk, r))) * h
            a = 2j * np.pi * t
            for p in range(dim):
                d[x, p] += r[p] * (a + a.conj().T)
                for q in range(dim):
                    dd[x, p, q] += -4 * np.pi ** 2 * r[p] * r[q] * (t + t.conj().T)
    return d, dd


def band_ref(h, d, dd, s=None, ds=None, dds=None):
    """E, dE, ddE of one k-point by perturbation theory (non-degenerate formula, per band)"""
    n = len(h)
    dim = len(d)
    if s is None:
        s, ds, dds = np.eye(n), np.zeros_like(d), np.zeros_like(dd)
    la, ev = np.linalg.eigh(s)
    w = (ev / np.sqrt(la)) @ ev.conj().T
    E, C = np.linalg.eigh(gen.herm(w @ h @ w))
    C = w @ C
    g = np.zeros((dim, n))
    hs = np.zeros((dim, dim, n))
    for i in range(n):
        c = C[:, i]
        sn = [np.vdot(c, ds[p] @ c).real for p in range(dim)]
        for p in range(dim):
            g[p, i] = np.vdot(c, (d[p] - E[i] * ds[p]) @ c).real
        for p in range(dim):
            for q in range(dim):
                v = np.vdot(c, (dd[p, q] - E[i] * dds[p, q]) @ c).real - g[p, i] * sn[q] - g[q, i] * sn[p]
                for m in range(n):
                    if m != i and abs(E[i] - E[m]) > 1e-13:
                        a = np.vdot(c, (d[p] - E[i] * ds[p]) @ C[:, m])
                        b = np.vdot(C[:, m], (d[q] - E[i] * ds[q]) @ c)
                        v += 2 * (a * b).real / (E[i] - E[m])
                hs[p, q, i] = v
    return E, g, hs


def gaps(E):
    g = np.full(len(E), np.inf)
    for i in range(len(E)):
        for j in range(len(E)):
            if i != j:
                g[i] = min(g[i], abs(E[i] - E[j]))
    return g


def compare(m, k, nb, H, sn, S, ctx, what):
    dim, N = nb.shape[1], H.shape[1]
    bands, grads = m.bands_grad(k)
    b2, g2, h2 = m.bands_grad_hess(k)
    require(grads.shape == (len(k), dim, N) and g2.shape == (len(k), dim, N) and h2.shape == (len(k), dim, dim, N), f"{what}: shapes {grads.shape} {g2.shape} {h2.shape}")
    hh = gen.series(k, nb, H)
    d, dd = dseries(k, nb, H)
    if S is not None:
        ss = gen.series(k, sn, S)
        ds, dds = dseries(k, sn, S)
    scale = np.sum(np.abs(H)) * (2 if S is not None else 1) + 1e-12
    rmax = max(1.0, np.max(np.linalg.norm(nb, axis=1)), np.max(np.linalg.norm(sn, axis=1)) if sn is not None else 0)
    D = 2 * np.pi * rmax * scale * (2 if S is not None else 1)
    used = 0
    for x in range(len(k)):
        E, g, hs = band_ref(hh[x], d[x], dd[x], *((ss[x], ds[x], dds[x]) if S is not None else ()))
        gp = gaps(E)
        # sum of gradients of each multiplet
        cl = np.concatenate([[0], np.cumsum(np.diff(E) > 1e-2 * scale)])
        for j in range(cl[-1] + 1):
            sel = cl == j
            close(grads[x][:, sel].sum(1), g[:, sel].sum(1), 1e-9 * D + 1e-9, 1e-7, f"{what}: sum of the gradients of a multiplet of {sel.sum()}")
            close(g2[x][:, sel].sum(1), g[:, sel].sum(1), 1e-9 * D + 1e-9, 1e-7, f"{what}: sum of the gradients (with Hessian) of a multiplet of {sel.sum()}")
        for i in range(N):
            if gp[i] < 2e-2 * scale:
                if S is None and gp[i] >= 1e-5 and gp[i] >= 1e-4 * scale:
                    # close but not degenerate: the Hessian is large there, rounding errors grow with the squared condition
                    c2 = scale / gp[i]
                    close(grads[x, :, i], g[:, i], 1e-11 * D * c2, 1e-9, f"{what}: gradient of the close band {i}")
                    close(h2[x, :, :, i], hs[:, :, i], 1e-11 * D * D / scale * c2 ** 2, 1e-7, f"{what}: Hessian of the close band {i}")
                    ctx.label("close bands")
                continue
            used += 1
            cond = scale / min(gp[i], scale)
            close(grads[x, :, i], g[:, i], 1e-10 * D * cond, 1e-9, f"{what}: gradient of band {i}")
            close(g2[x, :, i], g[:, i], 1e-10 * D * cond, 1e-9, f"{what}: gradient (with Hessian) of band {i}")
            close(h2[x, :, :, i], hs[:, :, i], 1e-9 * D * D / scale * cond ** 3, 1e-8, f"{what}: Hessian of band {i}")
            close(h2[x, :, :, i], h2[x, :, :, i].T, 1e-9 * D * D / scale * cond ** 3, 1e-9, f"{what}: symmetric Hessian of band {i}")
    ctx.label("bands%d" % min(used, 9))
    if used == 0 or not np.any(np.abs(H[1:]) > 1e-9):
        ctx.trivial()
    # cross-check of gradient by central differences of reference energies in one direction
    if S is None or True:
        x = 0
        e = np.zeros(dim)
        e[int(abs(np.sum(k)) * 7) % dim] = 1.0
        step = 1e-4 / rmax

        def en(kk):
            h_ = gen.series(kk[None], nb, H)[0]
            return np.linalg.eigvalsh(h_) if S is None else geig_ref(h_, gen.series(kk[None], sn, S)[0])
        fd = (en(k[x] + step * e) - en(k[x] - step * e)) / (2 * step)
        gp = gaps(en(k[x]))
        ok = gp > 0.05 * scale
        close((grads[x] * e[:, None]).sum(0)[ok], fd[ok], 2e-5 * D, 1e-4, f"{what}: gradient against finite differences")


@st.composite
def case_std(draw):
    c = draw(gen.tb())
    return {"tb": c, "lay": draw(layout()), "k": draw(gen.kpts(c["dim"], 1, 4)), "A": draw(st.one_of(st.none(), gen.i8(c["dim"] ** 2)))}


def basis(A, dim):
    """well conditioned transformation matrix from small integers"""
    if A is None:
        return np.eye(dim)
    M = np.array(A, dtype=float).reshape(dim, dim) / 300
    return M + np.eye(dim) * (1.5 + np.abs(M).sum())


def check_std(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    lay = c["lay"]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    H = restrict(lay, H)
    k = gen.dec_k(c["k"], dim)
    nb = nb @ basis(c["A"], dim)
    m = build(lay, nb, H)
    d, dd = dseries(k, nb, H)
    sc = 1 + np.sum(np.abs(H))
    r = 1 + np.max(np.abs(nb))
    close(dhk(m, k), d, 1e-10 * sc * r * 7, 1e-10, "dH(k)")
    close(ddhk(m, k), dd, 1e-9 * sc * r * r * 40, 1e-10, "ddH(k)")
    ctx.label(lay[0])
    compare(m, k, nb, H, None, None, ctx, lay[0])


@st.composite
def case_gen(draw):
    c = draw(gen.tb(max_b=3, max_n=4))
    sn = draw(gen.neighbors_int(c["dim"], 3))
    return {"tb": c, "sn": sn, "S": draw(gen.nums(2 * len(sn) * c["b"] ** 2)), "k": draw(gen.kpts(c["dim"], 1, 4)),
            "smode": draw(st.sampled_from(["k", "k", "const", "unit0", "diag"]))}


def check_gen(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim, b = nb.shape[1], H.shape[1]
    sn, S = overlap(c, dim, b)
    k = gen.dec_k(c["k"], dim)
    if c["smode"] == "unit0":
        k = np.concatenate([k, np.zeros((1, dim))])
    m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(sn, S))
    ctx.label(c["smode"])
    compare(m, k, nb, H, sn, S, ctx, "overlap " + c["smode"])
    # also one k-point at a time
    bg = m.bands_grad(k)[1]
    for i in range(len(k)):
        E = geig_ref(gen.series(k[i:i + 1], nb, H)[0], gen.series(k[i:i + 1], sn, S)[0])
        ok = gaps(E) > 0.02 * np.sum(np.abs(H)) + 1e-12
        close(m.bands_grad(k[i:i + 1])[1][0][:, ok], bg[i][:, ok], 1e-7 * (1 + np.sum(np.abs(H))), 1e-7, "gradient of a single k-point")


@st.composite
def case_deg(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    nb = draw(gen.neighbors_int(dim, 3))
    return {"dim": dim, "nb": nb, "split": draw(st.sampled_from([0, 0, 0, 2, 3])), "copies": draw(st.sampled_from([2, 3])), "b": draw(st.integers(1, 2)), "extra": draw(st.booleans()), "H": draw(gen.nums(8 * len(nb))),
            "X": draw(gen.nums(40 * len(nb))), "lay": draw(layout(asym=True, inv=False)), "k": draw(gen.kpts(dim, 1, 4))}


def check_deg(c, ctx):
    """multiplets: bands that are degenerate at single k-points next to non-degenerate bands"""
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    n = c["copies"] + b
    k0 = gen.dec_k(c["k"], dim)[0]
    # couplings built such that at k0 the first `copies` states are degenerate and decoupled, but the derivatives couple everything
    X = gen.dec_complex({"m": c["X"]["m"], "v": (c["X"]["v"] * 3)[:2 * len(nb) * n * n]}, (len(nb), n, n)) if len(c["X"]["v"]) * 3 >= 2 * len(nb) * n * n else None
    if X is None:
        ctx.trivial()
        return
    X[0] = gen.herm(X[0])
    h = gen.series(k0[None], nb, X)[0]
    e = np.diag(np.array([0.0] * c["copies"] + [2.0 + 3 * i for i in range(b)]))
    if c.get("split"):  # close to degenerate instead of degenerate
        e[range(c["copies"]), range(c["copies"])] = 10.0 ** -c["split"] * np.arange(c["copies"])
    X[0] = X[0] - h + e * (1 + np.sum(np.abs(X)) * 0.2)
    if c.get("split"):
        X = X / np.sum(np.abs(X))
    rs = np.random.RandomState(sum(c["X"]["v"]) & 0xffff)
    U = np.linalg.qr(rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n)))[0]
    X = np.einsum("ji,njk,kl->nil", U.conj(), X, U)
    k = np.concatenate([k0[None], gen.dec_k(c["k"], dim)[1:]])
    m = build(c["lay"], nb, X)
    ctx.label(c["lay"][0])
    compare(m, k, nb, X, None, None, ctx, "degenerate " + c["lay"][0])


def check_shared(c, ctx):
    """coefficients shared by symmetry: the same derivatives as the expanded list of couplings"""
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    sym = GROUPS[dim][c["g"] % len(GROUPS[dim])]()
    if sym.inversion:
        H = gen.herm(H)
    k = gen.dec_k(c["k"], dim)
    ctx.label(f"order{len(sym)} cr={c['cr']} exp={c['ex']}")
    m = BandStructureModel.init_tight_binding(sym, nb.copy(), H.shape[1], cos_reduced=c["cr"], exp=c["ex"])
    m.set_params_complex(H)
    ops = sym.get_symmetry_operations()
    ops = ops[:len(ops) // 2] if sym.inversion else ops
    nb2 = np.concatenate([np.zeros((1, dim))] + [[s @ r for s in ops] for r in nb[1:]])
    H2 = np.concatenate([H[:1]] + [[h] * len(ops) for h in H[1:]])
    d, dd = dseries(k, nb2, H2)
    sc, r = 1 + np.sum(np.abs(H2)), 1 + np.max(np.abs(nb2))
    close(m.df(k), d, 1e-10 * sc * r * 7, 1e-10, "dH(k) with coefficients shared by symmetry")
    close(m.ddf(k), dd, 1e-9 * sc * r * r * 40, 1e-10, "ddH(k) with coefficients shared by symmetry")
    compare(m, k, nb2, H2, None, None, ctx, "shared")


@st.composite
def case_tbm(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    b = draw(st.integers(1, 3))
    nb = draw(gen.neighbors_int(dim, 4))
    return {"dim": dim, "b": b, "nb": nb, "H": draw(gen.nums(2 * len(nb) * b * b)), "k": draw(gen.kpts(dim, 1, 4))}


def check_tbm(c, ctx):
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    H = gen.dec_complex(c["H"], (len(nb), b, b))
    H[0] = gen.herm(H[0])
    m = TightBindingModel(UnitaryRepresentation(Symmetry.none(dim), b), nb, None)
    m.set_from_complex(H)
    k = gen.dec_k(c["k"], dim)
    d, dd = dseries(k, nb, H)
    sc = 1 + np.sum(np.abs(H))
    close(m.df(k), d, 1e-8 * sc, 1e-10, "dH(k) of TightBindingModel")
    close(m.ddf(k), dd, 1e-7 * sc, 1e-10, "ddH(k) of TightBindingModel")
    compare(m, k, nb, H, None, None, ctx, "TightBindingModel")


@st.composite
def case_big(draw):
    return {"big": draw(gen.big_tb()), "lay": draw(layout()), "S": draw(st.booleans())}


def check_big(c, ctx):
    """many k-points, bands or lattice vectors (generalised perturbation theory, vectorised)"""
    nb, H, k = gen.dec_big(c["big"])
    k = k[:1500]
    lay = c["lay"]
    if lay[0] == "inv" and nb.shape[1] == 2:
        lay = ["none"] + lay[1:]
    ctx.label(c["big"]["kind"], lay[0])
    b = H.shape[1]
    S = np.zeros_like(H)
    S[0] = np.eye(b)
    if lay[0] == "asym" and c["S"]:
        S[1:] = (H[:, ::-1] * .02 / np.sum(np.linalg.norm(H, axis=(1, 2))))[1:]
        m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(nb, S))
    else:
        H = restrict(lay, H)
        m = build(lay, nb, H)
    f = [gen.fast_series(k, nb, H, i) for i in range(3)]
    s = [gen.fast_series(k, nb, S, i) for i in range(3)]
    la, w = np.linalg.eigh(s[0])
    L = (w / np.sqrt(la)[:, None, :]) @ np.conj(np.swapaxes(w, -1, -2))
    e, v = np.linalg.eigh(L @ f[0] @ L)
    v = L @ v
    t1 = lambda x: np.einsum("kpi,kapq,kqj->kaij", v.conj(), x, v, optimize=True)
    t2 = lambda x: np.einsum("kpi,kabpq,kqi->kabi", v.conj(), x, v, optimize=True)
    h1, s1, h2, s2 = t1(f[1]), t1(s[1]), t2(f[2]), t2(s[2])
    g = np.einsum("kaii->kai", h1).real - e[:, None, :] * np.einsum("kaii->kai", s1).real
    # c_ij = (h1 - e_j s1)_ij, second order: sum_i 2 Re(c_ij^* c_ij)/(e_j - e_i) - (g s1_jj + ...)
    cj = h1 - e[:, None, None, :] * s1
    de = e[:, None, :] - e[:, :, None]
    sep = np.min(np.abs(de) + np.eye(b) * 1e9, axis=1)
    inv = np.where(np.eye(b, dtype=bool), 0, 1 / np.where(de == 0, 1, de))
    hess = (h2 - e[:, None, None, :] * s2).real + 2 * np.einsum("kaij,kbij,kij->kabj", cj.conj(), cj, inv, optimize=True).real
    sd = np.einsum("kaii->kai", s1).real
    hess = hess - g[:, :, None, :] * sd[:, None, :, :] - g[:, None, :, :] * sd[:, :, None, :]
    sc = np.sum(np.linalg.norm(H, axis=(1, 2))) * (1 + np.max(np.abs(nb))) ** 2 * 40
    good = sep > 2e-3 * (np.max(e) - np.min(e) + 1e-9)
    if b > 1 and not np.any(good):
        ctx.trivial()
    e1, g1 = m.bands_grad(k)
    e2, g2, hh = m.bands_grad_hess(k)
    close(e1, e, 1e-9 * sc, 0, "bands")
    for name, x in (("bands_grad", g1), ("bands_grad_hess", g2)):
        require(x.shape == g.shape, f"gradient shape {x.shape}")
        d = np.abs(x - g)[np.broadcast_to(good[:, None], g.shape)]
        require(d.size == 0 or np.max(d) < 1e-8 * sc, lambda: f"gradient of {name} is off by {np.max(d)} ({len(k)} k-points, {b} bands, {len(nb)} lattice vectors)")
    require(hh.shape == hess.shape, f"Hessian shape {hh.shape}")
    good = sep > 2e-2 * (np.max(e) - np.min(e) + 1e-9)
    d = np.abs(hh - hess)[np.broadcast_to(good[:, None, None], hess.shape)]
    require(d.size == 0 or np.max(d) < 1e-7 * sc, lambda: f"Hessian is off by {np.max(d)} ({len(k)} k-points, {b} bands, {len(nb)} lattice vectors)")


SUBS = [
    Sub("standard", case_std(), check_std, quick=1000, thorough=30000, shards=3),
    Sub("overlap", case_gen(), check_gen, quick=700, thorough=20000, shards=2),
    Sub("large", case_big(), check_big, quick=200, thorough=3000, shards=2),
    Sub("multiplets", case_deg(), check_deg, quick=400, thorough=10000),
    Sub("shared_coefficients", case_shared(), check_shared, quick=300, thorough=6000),
    Sub("tight_binding_model", case_tbm(), check_tbm, quick=300, thorough=6000),
]
