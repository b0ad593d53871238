"""C21: transport integrals equal their definition and transform as tensors."""
import warnings
import numpy as np
from hypothesis import strategies as st
import gen, dosmodels as dm
from c16 import dos_spec, make
from c18 import mom_df
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.density_of_states import DensityOfStates, k_B
from tight_binding_redweasel.bulk_properties import (KIntegral, conductivity, peltier, seebeck, electronic_thermal_conductivity, hall_coefficients, hbar, elementary_charge, antisym_tensor)

RULE = "the model is a metal and its Fermi surface has at least one sample point"
ASSUMPTIONS = ["k = 2 pi A^-T x, v = dE/dk / hbar, 1/m = d2E/dk2 / hbar^2 in SI units, lattice vectors in Angstrom", "temperatures are passed as sorted lists",
               "oracle: bands linear in k with closed Fermi moments, the Fermi surface samples, Brillouin zone sums, exact tensor and scaling laws, free electrons"]
e_C = 1.602176634e-19
hb = 1.054571817e-34


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", RuntimeWarning)
        return f()


# ------------------------------------------------------------ linear bands
class Linear:
    """bands c_n + s_n (x - .5)_axis with x = k @ A"""

    def __init__(self, A, ax, s, c):
        self.A, self.ax, self.s, self.c = A, list(ax), np.array(s, float), np.array(c, float)

    def __call__(self, k):
        return (np.asarray(k) @ self.A)[..., self.ax] * self.s + self.c

    def bands_grad(self, k):
        g = np.zeros((3, len(self.s)))
        g[self.ax, np.arange(len(self.s))] = self.s
        return self(k), np.broadcast_to(self.A @ g, (len(k), 3, len(self.s)))

    def bands_grad_hess(self, k):
        return self.bands_grad(k) + (np.zeros((len(k), 3, 3, len(self.s))),)


@st.composite
def s_lin(draw):
    return {"b": draw(st.sampled_from([1, 1, 2])), "v": draw(gen.i8(12)), "A": draw(st.sampled_from(list(dm.LATTICES))), "A2": draw(gen.i8(9)), "N": draw(st.sampled_from([3, 4, 5])), "m": draw(st.sampled_from(["cubes", "cubes+"])),
            "T": draw(st.sampled_from([[0.], [300.], [500.], [0., 300.], [100., 150., 200.], [300., 300.], [0., 200., 350.]])), "NT": draw(st.sampled_from([None, None, 7, 13])), "rtol": draw(st.sampled_from([0., 0., 1e-4])), "g": draw(gen.i8(8)), "dirs": draw(st.lists(st.integers(0, 2), min_size=2, max_size=2))}


def lat(v):
    return np.array(v, float).reshape(3, 3) / 64 + 4 * np.eye(3)


def t_lin(c, ctx):
    v = np.array(c["v"], float) / 128
    b, A = c["b"], dm.LATTICES[c["A"]]
    s = (12 + 4 * v[:b]) * np.sign(v[3:3 + b] + .013)
    off = .517 * v[6:6 + b]
    ax = c["dirs"][:b]
    N = c["N"] + (c["N"] % 2 if c["m"] == "cubes+" else 0)
    m = Linear(A, ax, s, off)
    d = DensityOfStates(m, N=N, A=A, wrap=False, smearing=c["m"], check=False)
    T = np.array(c["T"])
    ctx.label(f"T={c['T']}")
    # filling: chemical potential near the middle
    E0 = .3 * v[9] + .0713
    for x, y in zip(s, off):
        f = (E0 - y) / x * N
        if abs(f + N / 2 - np.round(f + N / 2)) < .15:
            ctx.trivial()  # a flat plane exactly on the faces of the cells
            return
    n = float(sum((E0 - y) / abs(x) + .5 for x, y in zip(s, off)))
    order = np.argsort(off)
    if np.any(np.abs(s) / 2 < 60 * k_B * T.max() + abs(E0) + 1):
        ctx.trivial()
        return
    NT = c["NT"] if len(T) == 1 and c["NT"] else None
    K = quiet(lambda: KIntegral(d, n, list(T), N=NT, rtol=c["rtol"]))
    close(K.fermi_energy, E0, 1e-4, 0, "Fermi energy")
    close(K.mu, np.full(len(T), E0), 2e-3, 0, "chemical potential")
    # polynomials of low degree in the energy are integrated exactly
    p = np.array(c["g"], float) / 128
    deg = 2
    # planes touching the face of a cell at one of the sampled energies are dropped/doubled: tolerate by checking the samples
    F = 1 / np.abs(s)
    V = [A @ np.eye(3)[a] * x for a, x in zip(ax, s)]
    got = quiet(lambda: K.integrate_df(lambda e, v, k: (p[0] + p[1] * (e - E0) + p[2] * (e - E0) ** 2) * (1 + p[3] * v[:, None, :] * v[:, :, None] / 100), moments=2))
    require(got.shape == (3, len(T), 3, 3), f"shape of the integral {got.shape}")
    loose = 1 if c["rtol"] == 0 else 5
    for a in range(3):
        for t, TT in enumerate(T):
            kT = k_B * TT
            # int (e-mu)^a poly(e) (-f')
            w = sum(q * mom_df(a + j) * kT ** (a + j) for j, q in enumerate(p[:3])) if TT > 0 else (p[0] if a == 0 else 0)
            want = w * sum(f * (1 + p[3] * np.outer(x, x) / 100) for f, x in zip(F, V))
            if touches(K, N, s, off):
                continue
            scale = sum(abs(q) * max(mom_df(a + j), mom_df(a + j + 1)) * (kT + 4e-3) ** (a + j) for j, q in enumerate(p[:3])) + 1e-6
            tol = (3e-3 if loose == 1 else 3e-2) * (1 + (kT ** -1 * 2e-3 if TT else 0)) * scale * np.abs(sum(f * (1 + abs(p[3]) * np.linalg.norm(x) ** 2 / 100) for f, x in zip(F, V))).max()
            if loose == 5 and (a == 2 or p[2]):
                tol *= 3
            close(got[a, t], want, tol + (1e-3 if TT == 0 and a else 0), 0, f"moment {a} at T={TT} (N={NT}, rtol={c['rtol']}) of linear bands")
    # transport coefficients in SI units
    A2 = lat(c["A2"])
    L = quiet(lambda: K.transport_coefficients(A2, spin_factor=2))
    require(L.shape == (3, len(T), 3, 3), f"shape of the transport coefficients {L.shape}")
    if touches(K, N, s, off):
        return
    for t, TT in enumerate(T):
        for a in (0, 2):
            w = mom_df(a) * (k_B * TT) ** a * e_C ** (a - 1) if TT > 0 else (a == 0) / e_C
            # v_i = dE/dx (A2 / 2 pi hbar)
            want = np.zeros((3, 3))
            for f, x, axis in zip(F, s, ax):
                vel = A2[:, axis] * 1e-10 * x * e_C / (2 * np.pi * hb)
                want = want + 2 * e_C ** (2 - a) * w * f * np.outer(vel, vel) / abs(np.linalg.det(A2) * 1e-30)
            S = np.abs(want).max() if TT or a == 0 else 1e-6 * np.abs(L[0]).max()
            close(L[a, t] / (S + 1e-300), want / (S + 1e-300), (.01 if a == 0 else .05) * (1 if loose == 1 else 3), 0, f"L^({a}) of linear bands at T={TT}")


def touches(K, N, s, off):
    """a sampled energy where a plane is nearly on the faces of the cells of the grid"""
    for e in K.e_smpl:
        for x, y in zip(s, off):
            f = (e - y) / x * N + N / 2
            if abs(f - np.round(f)) < 2e-3:
                return True
    return False


# ------------------------------------------------------------------- tensor
@st.composite
def s_tensor(draw):
    return {"d": draw(dos_spec(["cubes", "cubes", "cubes+"], kinds=("tb", "cos", "cos"), Ns=(4, 5, 6), wrap=(True,))), "n": draw(gen.i8(1)), "A": draw(gen.i8(9)), "M": draw(gen.i8(9)),
            "T": draw(st.sampled_from([[0.], [0.], [300.], [0., 300.], [200., 400., 800.]])), "sf": draw(st.sampled_from([1, 2, 3])), "s": draw(st.sampled_from([.25, 2., 8.]))}


def metal(c, n, T, **kw):
    q = dict(c)
    q["spec"] = dict(q["spec"], hess=True)
    model, d = make(q, **kw)
    return model, d


def jump(d, n):
    """the Fermi energy is at the energy of a cell without slope (a flat extremum on the grid), where the linear cells hold a delta function of states"""
    e = d.fermi_energy(n)
    w = 1e-6 * np.ptp(d.energy_range())
    return d.states_below(e + w) - d.states_below(e - w) > 1e-2


def t_tensor(c, ctx):
    model, d = metal(c["d"], c["n"], c["T"])
    nb = model.b
    if min(y - x for x, y in d.bands_range) < .3:
        ctx.trivial()
        return
    n = (c["n"][0] / 300 + .5) * nb
    T = c["T"]
    ctx.label(f"T={T}")
    if d.bandgap(n) > 0 or jump(d, n):
        ctx.trivial()
        return
    A, M = lat(c["A"]), np.array(c["M"], float).reshape(3, 3) / 128 + 1.3 * np.eye(3)
    K = quiet(lambda: KIntegral(d, n, T))
    L = quiet(lambda: K.transport_coefficients(A))
    require(L.shape == (3, len(T), 3, 3) and np.all(np.isfinite(L)), f"transport coefficients {L.shape}")
    S = np.abs(L[0]).max()
    u = [S, S * 1e-3 + np.abs(L[1]).max(), S * 1e-6 + np.abs(L[2]).max()]
    require(S > 0, "no conductivity")
    for a in range(3):
        close(L[a] / u[a], np.swapaxes(L[a], -1, -2) / u[a], 1e-12, 0, f"L^({a}) is symmetric")
        close(quiet(lambda: K.transport_coefficients(A, max_a=a)) / np.array(u[:a + 1])[:, None, None, None], L[:a + 1] / np.array(u[:a + 1])[:, None, None, None], 1e-12, 1e-10, "max_a")
    if len(T) == 1 or T[0] == 0:
        for a in (0, 2):
            if len(T) == 1:
                require(np.linalg.eigvalsh(L[a, 0] / u[a]).min() > -1e-3, f"L^({a}) is positive: {L[a, 0]}")
    if T[0] == 0:
        close(L[1:, 0] / np.array(u[1:])[:, None, None], np.zeros((2, 3, 3)), 1e-9, 0, "no thermal coefficients at T=0")
        # T = 0 is the integral over the Fermi surface
        p, bi, w, _ = d.fermi_surface_samples(d.fermi_energy(n), improved_points=False)
        E, g, h = model.bands_grad_hess(p)
        k = np.arange(len(p))
        g = g[k, :, bi]
        ww = w / (1e-8 + np.linalg.norm(g, axis=1))
        v = g @ np.linalg.inv(d.A).T @ A.T * 1e-10 * e_C / (2 * np.pi * hb)
        want = 2 * e_C / abs(np.linalg.det(A) * 1e-30) * np.einsum("n,ni,nj->ij", ww, v, v)
        close(L[0, 0] / S, want / S, 1e-6, 1e-6, "T=0: integral over the Fermi surface")
        if len(p) == 0:
            ctx.trivial()
    # another linear map of the lattice
    J = abs(np.linalg.det(M))
    L2 = quiet(lambda: K.transport_coefficients(M @ A))
    for a in range(3):
        close(L2[a] / u[a], M @ L[a] @ M.T / J / u[a], 1e-9, 1e-9, f"L^({a}) transforms as a tensor")
    # the moments use the chemical potential of each temperature
    one = lambda e, v, k: v[:, None, :] * v[:, :, None]
    mo = quiet(lambda: K.integrate_df(one, moments=2))
    for t in range(len(T)):
        for a in (1, 2):
            q = quiet(lambda: K.integrate_df(lambda e, v, k: (e - K.mu[t]) ** a * one(e, v, k)))[0, t]
            close(mo[a, t] / np.abs(mo[0]).max(), q / np.abs(mo[0]).max(), 1e-9, 0, f"moment {a} of temperature {T[t]}")
    # spin, scattering time
    sf = c["sf"]
    close(quiet(lambda: K.transport_coefficients(A, spin_factor=sf))[0] / S, L[0] / S * sf / 2, 1e-12, 1e-10, "spin factor")
    close(quiet(lambda: K.drude_factor(A, spin_factor=sf)) / S, L[0] / S * sf / 2, 1e-12, 1e-9, "drude_factor = L^(0)")
    close(quiet(lambda: K.transport_coefficients(A, tau=1e-14)) / np.reshape(u, (-1, 1, 1, 1)), 1e-14 * L / np.reshape(u, (-1, 1, 1, 1)), 1e-26, 1e-9, "constant scattering time")
    tau = lambda k: 1 + .5 * np.cos(k @ A[:, 0])
    Lt = quiet(lambda: K.transport_coefficients(A, tau=tau))
    a1 = quiet(lambda: K.integrate_df_A(A, lambda e, v, k: tau(k)[:, None, None] * v[:, None, :] * v[:, :, None], moments=2))
    ref = 2 * np.array([e_C ** (2 - a) * a1[a] / e_C ** (1 - a) / abs(np.linalg.det(A) * 1e-30) for a in range(3)])
    close(Lt / np.reshape(u, (-1, 1, 1, 1)), ref / np.reshape(u, (-1, 1, 1, 1)), 1e-9, 1e-9, "scattering time as function of k")
    # arguments of the integrated function
    seen = []

    def g(e, v, h, k):
        seen.append((e, v.copy(), h.copy(), k.copy()))
        return np.ones(len(k))

    I = quiet(lambda: K.integrate_df_A(A, g, hessians=True))
    require(I.shape == (1, len(T)), f"shape of a scalar integral {I.shape}")
    plain = []

    def g1(e, v, k):
        plain.append((e, v.copy(), k.copy()))
        return np.ones(len(k))

    close(quiet(lambda: K.integrate_df_A(A, g1)), I, 1e-9 * np.abs(I).max(), 1e-9, "integral of 1 without hessians")
    require(len(plain) == len(seen) and all(a[0] == b[0] for a, b in zip(plain, seen)), "integrated energies with and without hessians")
    for (_, v1, k1), (_, v2, _, k2) in zip(plain, seen):
        close(k1, k2, 1e-9, 1e-9, "k-points with and without hessians")
        close(v1, v2, 1e-9 * (np.abs(v2).max() if v2.size else 1), 1e-9, "velocities with and without hessians")
    x2k = 2 * np.pi * np.linalg.inv(A)
    for e, v, h, k in seen[len(seen) // 2:len(seen) // 2 + 1]:
        x = k @ np.linalg.inv(x2k)  # crystal coordinates
        kk = x @ np.linalg.inv(model.A)
        if not len(kk):
            continue
        E, gr, H = model.bands_grad_hess(kk)
        dE = np.abs(E - e)
        i = dE.argmin(1)
        r = np.arange(len(kk))
        gap = np.sort(np.abs(E - E[r, i][:, None]), axis=1)[:, 1] if nb > 1 else np.full(len(kk), 1.)
        G = model.A.T.T  # dE/dx = inv(A) dE/dk_model
        gx = gr[r, :, i] @ np.linalg.inv(model.A).T
        Hx = np.linalg.inv(model.A) @ H[r, :, :, i] @ np.linalg.inv(model.A).T
        f = 1e-10 / (2 * np.pi * hb)
        vw = gx @ A.T * f * e_C
        hw = A @ Hx @ A.T * f ** 2 * e_C
        # bands may be exchanged where they nearly touch: one of the bands has to fit
        ok = np.zeros(len(kk), bool)
        for j in range(nb):
            vj = gr[:, :, j] @ np.linalg.inv(model.A).T @ A.T * f * e_C
            hj = A @ (np.linalg.inv(model.A) @ H[..., j] @ np.linalg.inv(model.A).T) @ A.T * f ** 2 * e_C
            ok |= (np.abs(vj - v).max(1) < 1e-6 * np.abs(v).max() + 1e-6) & (np.abs(hj - h).max((1, 2)) < 1e-4 * np.abs(h).max() + 1e-6)
        require(np.all(ok), lambda: f"velocity or inverse mass at k={k[~ok][0]} are {v[~ok][0]}, {h[~ok][0]}, expected {vw[~ok][0]}, {hw[~ok][0]}")
    # Hall tensors
    s2, s3 = quiet(lambda: K.conductivity_hall_tensor(A, spin_factor=sf))
    require(s2.shape == (len(T), 3, 3) and s3.shape == (len(T), 3, 3, 3), f"shapes {s2.shape} {s3.shape}")
    eps = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[i, j, k], eps[i, k, j] = 1, -1
    V = abs(np.linalg.det(A) * 1e-30)
    I3 = quiet(lambda: K.integrate_df_A(A, lambda e, v, h, k: np.einsum("kab,ni,nja,nb->nijk", eps, v, h, v), hessians=True))[0]
    w3 = sf * e_C ** 3 / e_C / V * I3
    close(s2 / S, L[0] * sf / 2 / S, 1e-9, 1e-9, "rank 2 tensor of conductivity_hall_tensor")
    n3 = np.abs(sf * e_C ** 3 / e_C / V * quiet(lambda: K.integrate_df_A(A, lambda e, v, h, k: np.sum(v ** 2, 1) * np.sqrt(np.sum(h ** 2, (1, 2))), hessians=True))).max() + 1e-300
    close(s3 / n3, w3 / n3, 1e-9, 1e-9, "rank 3 tensor of conductivity_hall_tensor")
    t2, t3 = quiet(lambda: K.conductivity_hall_tensor(A, spin_factor=sf, tau=2.))
    close(t2 / S, 2 * s2 / S, 1e-9, 1e-9, "rank 2 tensor is linear in the scattering time")
    close(t3 / n3, 4 * s3 / n3, 1e-9, 1e-9, "rank 3 tensor is quadratic in the scattering time")
    t2, t3 = quiet(lambda: K.conductivity_hall_tensor(A, spin_factor=sf, tau=tau))
    close(t2 / S, Lt[0] * sf / 2 / S, 1e-9, 1e-9, "rank 2 tensor with tau(k)")
    w3 = sf * e_C ** 3 / e_C / V * quiet(lambda: K.integrate_df_A(A, lambda e, v, h, k: tau(k)[:, None, None, None] ** 2 * np.einsum("kab,ni,nja,nb->nijk", eps, v, h, v), hessians=True))[0]
    close(t3 / n3, w3 / n3, 1e-8, 1e-8, "rank 3 tensor with tau(k)")
    if np.linalg.cond(s2[0]) < 1e4:
        Rh = hall_coefficients(s2[:1], s3[:1])
        i2 = np.linalg.inv(s2[0])
        want = np.einsum("aj,abk,ib->ijk", i2, s3[0], i2)
        close(Rh[0] / (np.abs(want).max() + 1e-300), want / (np.abs(want).max() + 1e-300), 1e-9, 1e-9, "hall_coefficients")
    tr = quiet(lambda: K.hall_coefficient_metal_cubic(A, spin_factor=sf))
    q = quiet(lambda: K.integrate_df_A(A, lambda e, v, h, k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True))[0]
    q0 = quiet(lambda: K.integrate_df_A(A, lambda e, v, k: (v ** 2).sum(-1)))[0]
    want = (q / 6) / (e_C / e_C * sf / 9 * q0 ** 2) * V
    n4 = n3 / S ** 2 + 1e-300
    close(tr / n4, want / n4, 1e-7, 1e-7, "hall_coefficient_metal_cubic")
    # scaled energies and another basis of the same crystal
    edge = np.abs(np.array(d.bands_range) - d.fermi_energy(n)).min()
    if c["d"]["m"] == "cubes" and len(T) == 1 and edge > 1e-3:
        s = c["s"]
        q = dict(c["d"])
        q["spec"] = dict(q["spec"], hess=True)
        m2, d2 = make(q, model=dm.HessModel(q["spec"], scale=s))
        Ks = quiet(lambda: KIntegral(d2, n, [s * x for x in T]))
        Ls = quiet(lambda: Ks.transport_coefficients(A))
        for a in range(3):
            close(Ls[a] / u[a] / s ** (1 + a), L[a] / u[a], .02, 0, f"L^({a}) for energies scaled by {s}")


# ------------------------------------------------------ Brillouin zone sums
@st.composite
def s_sum(draw):
    return {"spec": draw(dm.spec(kinds=("cos", "tb"), max_b=2)), "n": draw(gen.i8(1)), "f": draw(st.sampled_from([.04, .05, .06])), "A": draw(gen.i8(9))}


def t_sum(c, ctx):
    spec = dict(c["spec"], hess=True)
    model = dm.HessModel(spec)
    d = DensityOfStates(model, N=14, A=model.A, check=1e-7)
    nb = model.b
    w = min(y - x for x, y in d.bands_range)
    if w < .3:
        ctx.trivial()
        return
    n = (c["n"][0] / 400 + .5) * nb
    e0, e1 = d.energy_range()
    T = float(c["f"] * (e1 - e0) / k_B)
    if d.bandgap(n) > 0:
        ctx.trivial()
        return
    K = quiet(lambda: KIntegral(d, n, [T]))
    A = lat(c["A"])
    L = quiet(lambda: K.transport_coefficients(A))[:, 0]
    k, _ = dm.grid(44, model.A, midpoint=True)
    E, g = model.bands_grad((k @ np.linalg.inv(model.A)).reshape(-1, 3))
    v = np.einsum("ij,njb->nib", A @ np.linalg.inv(model.A), g) * 1e-10 * e_C / (2 * np.pi * hb)
    mu = d.chemical_potential(n, [T], N=50)[0]
    x = (E - mu) / (k_B * T)
    df = 1 / (4 * k_B * T * e_C * np.cosh(np.clip(x / 2, -300, 300)) ** 2)
    ref = [2 * e_C ** (2 - a) * np.einsum("nb,nib,njb->ij", df * ((E - mu) * e_C) ** a, v, v) / len(E) / abs(np.linalg.det(A) * 1e-30) for a in range(3)]
    # resolution: the window has to be inside of the bands and wide compared to the grid
    ctx.label("sum")
    close(L[0] / np.trace(ref[0]), ref[0] / np.trace(ref[0]), .25, 0, "L^(0): sum over the Brillouin zone")
    close(L[2] / np.trace(ref[2]), ref[2] / np.trace(ref[2]), .5, 0, "L^(2): sum over the Brillouin zone")
    s1 = np.sqrt(np.trace(ref[0]) * np.trace(ref[2]))
    close(L[1] / s1, ref[1] / s1, .25, 0, "L^(1): sum over the Brillouin zone")


# ------------------------------------------------------------- free electrons
class Parabola:
    def __init__(self, A, sign=1):
        self.A, self.sign = A, sign
        self.f = 3.80998211 * (2 * np.pi) ** 2 * sign

    def __call__(self, k):
        return self.f * np.sum(np.asarray(k) ** 2, -1)[..., None]

    def bands_grad(self, k):
        return self(k), 2 * self.f * np.asarray(k)[..., None]

    def bands_grad_hess(self, k):
        return self.bands_grad(k) + (np.broadcast_to(2 * self.f * np.eye(3)[..., None], (len(k), 3, 3, 1)),)


@st.composite
def s_free(draw):
    return {"A": draw(st.sampled_from(["id", "tri", "left", "big", "rot"])), "r": draw(gen.i8(1)), "hole": draw(st.booleans())}


def t_free(c, ctx):
    A = dm.LATTICES[c["A"]] * 4
    V = abs(np.linalg.det(A))
    R = (.32 + c["r"][0] / 1300) / np.linalg.norm(A, axis=0).max()
    n1 = 4 / 3 * np.pi * R ** 3 * V  # filled fraction of the zone
    m = Parabola(A, -1 if c["hole"] else 1)
    ctx.label("holes" if c["hole"] else "electrons")
    d = DensityOfStates(m, N=22, A=A, wrap=False, check=False)
    K = KIntegral(d, 1 - n1 if c["hole"] else n1, [0.])
    n = 2 * n1 / (V * 1e-30)
    me = 9.1093837e-31
    L = K.transport_coefficients(A)
    close(L[0, 0] * me / (n * e_C ** 2), np.eye(3), .08, 0, "Drude weight of free electrons is n e^2/m")
    s2, s3 = K.conductivity_hall_tensor(A)
    Rh = hall_coefficients(s2, s3)[0] * n * e_C
    eps = antisym_tensor
    sgn = np.sign(Rh[0, 1, 2])
    close(Rh, sgn * eps, .1, 0, "Hall tensor of free electrons is 1/(n e)")
    cub = K.hall_coefficient_metal_cubic(A)[0] * n * e_C
    close(cub, 1. if c["hole"] else -1., .1, 0, "cubic Hall coefficient of free electrons is -1/(n e)")
    close(np.sign(cub) * sgn, -1, 0, 0, "signs of the Hall coefficients")


# ---------------------------------------------------------------- insulators
@st.composite
def s_ins(draw):
    return {"d": draw(dos_spec(["cubes", "cubes+", "tetras", "spheres"], kinds=("gap",), Ns=(4, 6), wrap=(True,))), "n": draw(gen.i8(1)), "A": draw(gen.i8(9)), "T": draw(st.sampled_from([[0.], [0], [0., 0.]]))}


def t_ins(c, ctx):
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=True)
    model, d = make(q)
    n = 1 + abs(c["n"][0]) % (model.b - 1)
    if not d.bandgap(n) > 0:
        ctx.trivial()
        return
    A, T = lat(c["A"]), c["T"]
    K = KIntegral(d, n, T)
    for a in (0, 1, 2):
        L = K.transport_coefficients(A, max_a=a)
        require(L.shape == (a + 1, len(T), 3, 3), f"shape {L.shape} of the coefficients of an insulator")
        require(not np.any(L), "an insulator conducts at T=0")
    require(K.drude_factor(A).shape == (len(T), 3, 3) and not np.any(K.drude_factor(A)), "Drude weight of an insulator")
    s2, s3 = K.conductivity_hall_tensor(A)
    require(s2.shape == (len(T), 3, 3) and s3.shape == (len(T), 3, 3, 3) and not np.any(s2) and not np.any(s3), "Hall conductivity of an insulator")
    I = K.integrate_df(lambda e, v, k: np.ones(len(k)))
    require(I.shape == (1, len(T)) and not np.any(I), f"scalar integral of an insulator {I}")
    raises(NotImplementedError, lambda: KIntegral(d, n, [300.]), "insulator at finite temperature")
    raises(AssertionError, lambda: KIntegral(d, n, [-1.]), "negative temperature")


# ------------------------------------------------------------------- Onsager
@st.composite
def s_ons(draw):
    return {"v": draw(gen.i8(27)), "T": draw(st.sampled_from([1., 100., 300.])), "d": draw(st.sampled_from([1, 2, 3])), "b": draw(st.sampled_from([2., 1e3]))}


def t_ons(c, ctx):
    d, T = c["d"], c["T"]
    L = np.array(c["v"][:3 * d * d], float).reshape(3, d, d) / 64
    L = L + np.swapaxes(L, 1, 2)
    L[0] = L[0] @ L[0] + c["b"] * np.eye(d)
    L0 = L.copy()
    E, gT = np.array(c["v"][:d]) / 32, np.array(c["v"][3:3 + d]) / 32
    j = L[0] @ E - L[1] @ gT / T
    jq = L[1] @ E - L[2] @ gT / T
    close(conductivity(L), L[0], 0, 0, "conductivity")
    # no gradient: j_Q = P j
    close(peltier(L) @ (L[0] @ E), L[1] @ E, 1e-9, 1e-9, "Peltier: heat flow per current")
    # no current
    S = seebeck(L, T)
    E1 = S @ gT
    close(L[0] @ E1 - L[1] @ gT / T, np.zeros(d), 1e-9, 1e-9, "Seebeck: field without current")
    close(electronic_thermal_conductivity(L, T) @ -gT, L[1] @ E1 - L[2] @ gT / T, 1e-8, 1e-8, "thermal conductivity: heat flow without current")
    close(peltier(L), T * S.T, 1e-9, 1e-9, "Kelvin relation")
    require(np.array_equal(L, L0), "coefficients modified")
    if not np.any(L[1]):
        ctx.trivial()


SUBS = [
    Sub("linear", s_lin(), t_lin, quick=200, shards=2),
    Sub("tensor", s_tensor(), t_tensor, quick=160, shards=4),
    Sub("bz_sum", s_sum(), t_sum, quick=60, shards=3),
    Sub("free_electrons", s_free(), t_free, quick=30, shards=2),
    Sub("insulator", s_ins(), t_ins, quick=40, shards=2),
    Sub("onsager", s_ons(), t_ons, quick=300),
]
