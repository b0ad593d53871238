"""C19: Fermi-surface samples lie on the surface and carry its measure."""
import numpy as np
from hypothesis import strategies as st
import gen, dosmodels as dm
from c16 import Cosines, dos_spec, make, RANGES
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.density_of_states import DensityOfStates

RULE = "at least one cell of the grid is cut by the iso-energy surface"
ASSUMPTIONS = ["weights are the area in units of the volume of the Brillouin zone (the reciprocal unit cell has volume 1/|det A|, completed from partial k ranges)",
               "cells with a negligible cut (area < 1e-4 of a cell face) may be missing", "oracle: polygon clipping of the plane in each cell, analytic gradients, spheres and ellipsoids"]
KIND = ("tb", "cos", "cos", "gap")


def polygon(c, a):
    """area and centroid of {x in [-.5,.5]^3, a.x = c}, for a != 0"""
    p = []
    for ax in range(3):
        if a[ax] == 0:
            continue
        o = [i for i in range(3) if i != ax]
        for s in np.ndindex(2, 2):
            x = np.zeros(3)
            x[o] = np.array(s) - .5
            x[ax] = (c - a[o] @ x[o]) / a[ax]
            if -.5 - 1e-12 <= x[ax] <= .5 + 1e-12:
                p.append(x)
    if len(p) < 3:
        return 0.0, np.zeros(3)
    p = np.array(p)
    n = a / np.linalg.norm(a)
    u = np.linalg.svd(n[None])[2][1:]
    m = p.mean(0)
    q = (p - m) @ u.T
    o = np.argsort(np.arctan2(q[:, 1], q[:, 0]))
    q = q[o]
    r = np.roll(q, -1, axis=0)
    w = (q[:, 0] * r[:, 1] - q[:, 1] * r[:, 0]) / 2
    A = w.sum()
    if A < 1e-14:
        return 0.0, m
    return A, m + ((q + r) / 3 * w[:, None]).sum(0) / A @ u


def cells(c, model, i):
    """center, value and gradient (per cell) of the linear interpolation of band i in all cells"""
    q = c
    ref = dm.Ref(q["spec"], model, q["N"], "cubes", q["wrap"], q["mid"], RANGES[q["rng"]], q["ug"])
    a0, a = ref.cells[i][0]
    x = ref.x.copy()
    if not q["ug"]:
        x = x + ref.step / 2
        if not q["wrap"]:
            x = x[:-1, :-1, :-1]
    return x.reshape(-1, 3), a0.ravel(), a.reshape(3, -1).T, ref.step


@st.composite
def s_plain(draw):
    return {"d": draw(dos_spec(["cubes", "cubes", "cubes+"], kinds=KIND, Ns=(2, 3, 4, 5))), "e": draw(gen.i8(3))}


def pick(d, v):
    lo, hi = d.bands_range[int(abs(v[0])) % len(d.bands_range)]
    return float(lo + (v[1] / 260 + .5) * (hi - lo))


def t_plain(c, ctx):
    q = c["d"]
    model, d = make(q)
    ctx.label(q["m"] + (" grad" if q["ug"] else ""))
    e = pick(d, c["e"])
    p, bi, w, area = d.fermi_surface_samples(e, improved_points=False)
    p2, bi2, w2, area2 = d.fermi_surface_samples(e, improved_points=False, weight_by_gradient=True)
    require(p.shape == (len(w), 3) and bi.shape == (len(w),) and w.shape == (len(w),) and np.ndim(area) == 0, f"shapes {p.shape} {bi.shape} {w.shape}")
    close(p2, p, 1e-12, 0, "points with weight_by_gradient")
    close(area2, area, 1e-12, 1e-10, "total_area with weight_by_gradient")
    close(area, np.sum(w), 1e-12, 1e-10, "total_area is the sum of all areas")
    cut = [i for i in range(model.b) if d.bands_range[i][0] < e < d.bands_range[i][1]]
    require(set(bi) <= set(cut), f"bands {set(bi)} have points, only {cut} cross")
    require(np.all(np.diff(bi) >= 0), "points are not grouped by band")
    require(len(p) == 0 or np.all(w > 0), "weights are positive")
    A = model.A
    lo, hi = np.array(RANGES[q["rng"]]).T
    iA = np.linalg.inv(A)
    if len(p) == 0:
        ctx.trivial()
    for i in cut:
        x, a0, a, step = cells(q, dm.GradModel(q["spec"]), i)
        sel = bi == i
        u = p[sel] @ A
        off = step / 2 if q["ug"] else 0 * step
        noise = np.linalg.norm(a, axis=1) < 1e-9
        if np.any(noise & (np.abs(a0 - e) < 1e-8)):
            ctx.label("flat cell at e")
            continue
        require(np.all(u > lo - off - 1e-9) and np.all(u < hi + off + 1e-9 + (step / 2 if q["mid"] else 0)), "points in the sampled part of the Brillouin zone")
        # linear interpolation in the cells, scaled gradients
        gk = (a / step) @ A.T
        L = iA.T * step
        want = {}
        for j in range(len(x)):
            if abs(e - a0[j]) <= np.abs(a[j]).sum() / 2 and np.linalg.norm(a[j]) > 1e-9:
                ar, m = polygon(e - a0[j], a[j])
                if ar > 0:
                    want[j] = ar, m
        # match the points to the cells
        used = set()
        skew = np.abs(a) / (np.linalg.norm(a, axis=1, keepdims=True) + 1e-40)
        for y, ww, wg in zip(u, w[sel], w2[sel]):
            rel = (y - x) / step
            cand = [j for j in want if np.all(np.abs(rel[j]) < .5 + 1e-4) and np.abs(rel[j] - want[j][1]).max() < (3e-2 if want[j][0] > 2e-3 else .6) and j not in used]
            if not cand:
                near = [j for j in want if np.all(np.abs(rel[j]) < .5 + 1e-4) and j not in used]
                fail(f"band {i}, e={e}: point {y} (crystal) is not the center of the surface in any cell, candidates {[(rel[j], want[j]) for j in near]}")
            j = min(cand, key=lambda j: np.abs(rel[j] - want[j][1]).max())
            used.add(j)
            ar, m = want[j]
            # tiny gradient components are rounded (EPS=1e-4)
            axis = skew[j].min() < 1e-2
            near_edge = ar < 2e-2
            close(rel[j], m, (2e-2 if ar > 2e-3 else .6) if axis or near_edge else 2e-4, 0, f"center of the surface in cell {j} of band {i}, cut area {ar}")
            require(abs(a0[j] + a[j] @ rel[j] - e) <= (1e-3 if not near_edge else 1e-2) * np.linalg.norm(a[j]) + 1e-9, f"point is not on the surface: {a0[j] + a[j] @ rel[j]} instead of {e}")
            n = a[j] / np.linalg.norm(a[j])
            B = np.linalg.svd(n[None])[2][1:]
            G = L @ B.T
            scale = np.sqrt(np.linalg.det(G.T @ G))
            vol = abs(np.linalg.det(A)) / np.prod(hi - lo)
            t = 2e-2 * (ar + .03) if axis or near_edge else 2e-3 * ar
            close(ww, ar * scale * vol, scale * vol * t, 0, f"area in cell {j} of band {i}: {ar} of the cell face")
            g = np.linalg.norm(gk[j])
            close(wg, ww / g, 1e-12, 1e-8, "weight with gradient")
        miss = [j for j in want if j not in used and want[j][0] > 2e-2]
        require(not miss, lambda: f"band {i}, e={e}: cells {miss} with cut areas {[want[j][0] for j in miss]} are missing")
        if not q["m"] == "cubes+":
            rho = d.density_band(e, i)
            flat = np.linalg.norm(a, axis=1) < 1e-3
            if not np.any(flat):
                close(np.sum(w2[sel]), rho, 1e-3 * (1 + rho) + len(x) * 2e-4 * np.prod(step) / np.linalg.norm(a, axis=1).min(), 0, f"sum(area/|v|) = density of band {i}")


# --------------------------------------------------------------------- large
@st.composite
def s_large(draw):
    """fine grids, many bands"""
    d = draw(dos_spec(["cubes", "cubes", "cubes+"], kinds=("cos", "gap", "tb"), Ns=(10, 14, 20), max_b=9))
    if d["spec"]["kind"] == "tb":
        d["spec"]["b"] = min(d["spec"]["b"], 3)
    return {"d": d, "e": draw(gen.i8(3))}


def t_large(c, ctx):
    """sums over many cells: number of points, area, position and second moments of the surface of every band"""
    q = c["d"]
    model, d = make(q)
    ctx.label(q["m"] + (" grad" if q["ug"] else ""))
    e = pick(d, c["e"])
    p, bi, w, area = d.fermi_surface_samples(e, improved_points=False)
    wg = d.fermi_surface_samples(e, improved_points=False, weight_by_gradient=True)[2]
    close(area, np.sum(w), 1e-12, 1e-10, "total_area is the sum of all areas")
    require(np.all(np.diff(bi) >= 0), "points are not grouped by band")
    A = model.A
    L = np.linalg.inv(A).T
    lo, hi = np.array(RANGES[q["rng"]]).T
    cut = [i for i in range(model.b) if d.bands_range[i][0] < e < d.bands_range[i][1]]
    require(set(bi) <= set(cut), f"bands {set(bi)} have points, only {cut} cross")
    if len(p) == 0:
        ctx.trivial()
    for i in cut:
        x, a0, a, step = cells(q, dm.GradModel(q["spec"]), i)
        n = np.linalg.norm(a, axis=1)
        if np.any((n < 1e-6) & (np.abs(a0 - e) < 1e-5)):
            ctx.label("flat cell at e")
            continue
        W, P, G = [], [], []
        for j in np.flatnonzero((np.abs(e - a0) <= np.abs(a).sum(1) / 2) & (n > 1e-9)):
            ar, m = polygon(e - a0[j], a[j])
            if ar > 0:
                B = np.linalg.svd(a[j][None])[2][1:]
                J = (L * step) @ B.T
                W.append(ar * np.sqrt(np.linalg.det(J.T @ J)) * abs(np.linalg.det(A)) / np.prod(hi - lo))
                P.append(x[j] + m * step)
                G.append(np.linalg.norm((a[j] / step) @ A.T))
        W, P, G = np.array(W), np.array(P).reshape(-1, 3), np.array(G)
        sel = bi == i
        big = np.sum(W > 2e-2 * W.max()) if len(W) else 0
        require(big <= np.sum(sel) <= len(W) + 1, lambda: f"band {i}: {np.sum(sel)} points for {len(W)} cut cells, {big} of them with a considerable area")
        if len(W) < 20:
            continue
        v = p[sel] @ A
        # tiny gradient components are rounded, cut corners are dropped
        t = 2e-3 + 2 / len(W) * (np.sum(np.abs(a[n > 1e-9]) < 1e-2 * n[n > 1e-9][:, None]) > 0) + 1e-4
        close(w[sel].sum(), W.sum(), 0, t, f"area of band {i}")
        close(w[sel] @ v / W.sum(), W @ P / W.sum(), t, 0, f"mean position of band {i}")
        close(np.einsum("n,ni,nj->ij", w[sel], v, v) / W.sum(), np.einsum("n,ni,nj->ij", W, P, P) / W.sum(), t, 0, f"second moments of band {i}")
        close(wg[sel].sum(), np.sum(W / G), 0, 2 * t * (1 + np.max(W / G) / np.sum(W / G) * 50), f"area/|v| of band {i}")


# ------------------------------------------------------------------ improved
@st.composite
def s_imp(draw):
    return {"d": draw(dos_spec(["cubes", "cubes", "cubes+"], kinds=("cos", "gap", "cos", "tb"), Ns=(4, 5, 6))), "e": draw(gen.i8(3)), "nb": draw(st.booleans())}


def t_imp(c, ctx):
    q = dict(c["d"])
    if c["nb"]:
        q["spec"] = dict(q["spec"], hess=False)
        q["ug"] = False
    model, d = make(q)
    g = dm.GradModel(q["spec"])
    e = pick(d, c["e"])
    p0, b0, w0, area = d.fermi_surface_samples(e, improved_points=False)
    p, bi, w, ar = d.fermi_surface_samples(e)
    has = hasattr(model, "bands_grad")
    ctx.label("gradients" if has else "no gradients")
    require(p.shape == p0.shape and np.array_equal(bi, b0), "same points and bands")
    close(w, w0, 1e-12, 1e-9, "weights are the areas")
    close(ar, area, 1e-12, 1e-9, "total_area")
    if len(p) == 0:
        ctx.trivial()
        return
    k = np.arange(len(p))
    E0 = g(p0)[k, b0]
    E1 = g(p)[k, bi]
    if has:
        gr = g.bands_grad(p0)[1][k, :, b0]
        n2 = np.sum(gr * gr, 1)
        ok = n2 > 1e-8
        dx = -gr * ((E0 - e) / np.maximum(n2, 1e-30))[:, None]
        close((p - p0)[ok], dx[ok], 1e-10, 1e-6, "Newton step onto the surface")
        # what is left is the change of the gradient along the step
        dev = np.max([np.linalg.norm(g.bands_grad(p0 + t * dx)[1][k, :, b0] - gr, axis=1) for t in np.linspace(0, 1, 9)], axis=0)
        left = np.abs(E1 - e) - 1.3 * dev * np.linalg.norm(dx, axis=1) - 1e-9
        require(np.all(left[ok] <= 0), lambda: f"improved point is {np.abs(E1 - e)[ok].max()} away from the surface, {left[ok].max()} more than the curvature")
        wg = d.fermi_surface_samples(e, weight_by_gradient=True)[2]
        close(wg[ok] * np.sqrt(n2)[ok], w0[ok], 1e-12, 1e-6, "weights by gradient")
    else:
        # chord gradients: never a step in the wrong direction for nearly linear cells
        x, a0, a, step = cells(q, g, 0)
        for i in set(bi):
            x, a0, a, step = cells(q, g, i)
            for y0, y1, E in zip(p0[b0 == i] @ model.A, p[b0 == i] @ model.A, E0[b0 == i]):
                rel = (y0 - x) / step
                cand = [j for j in range(len(x)) if np.all(np.abs(rel[j]) < .5 + 1e-4) and abs(a0[j] + a[j] @ rel[j] - e) < 2e-2 * np.linalg.norm(a[j])]
                res = []
                for j in cand:
                    gk = (a[j] / step) @ model.A.T
                    res.append(np.abs((y1 - y0) - (-gk * (E - e) / (gk @ gk + 1e-20)) @ model.A).max())
                require(not cand or min(res) < 1e-7 * (1 + np.abs(y1 - y0).max()), lambda: f"band {i}: step {y1 - y0} is not a Newton step with the gradient of the cell ({res})")
    # normalisation
    for opt in (dict(), dict(improved_points=False), dict(weight_by_gradient=True)):
        wn = d.fermi_surface_samples(e, **opt)
        t = d.fermi_surface_samples(e, normalize="total", **opt)
        close(t[2].sum(), 1, 1e-9, 0, "total normalisation")
        close(t[2] * wn[2].sum(), wn[2], 1e-12, 1e-8, "total normalisation is proportional")
        close(t[3], area, 1e-12, 1e-9, "total_area is not normalised")
        bn = d.fermi_surface_samples(e, normalize="band", **opt)
        close(bn[3], area, 1e-12, 1e-9, "total_area is not normalised")
        for i in set(bi):
            close(bn[2][bi == i].sum(), 1, 1e-9, 0, f"normalisation of band {i}")
            close(bn[2][bi == i] * wn[2][bi == i].sum(), wn[2][bi == i], 1e-12, 1e-8, "band normalisation is proportional")
    raises(AssertionError, lambda: d.fermi_surface_samples(e, normalize="all"), "unknown normalisation")
    # outside of all bands
    e0, e1 = d.energy_range()
    for x in (e0 - .1, e1 + .1):
        r = d.fermi_surface_samples(x)
        require(r[0].shape == (0, 3) and len(r[1]) == 0 and len(r[2]) == 0 and r[3] == 0, "samples outside of the bands")
    # symmetry: E -> -E has the same surface (not for improved weights)
    if not q["spec"]["hess"]:
        m2 = type(model)(q["spec"], scale=-1.)
        d2 = make(q, model=m2, hess=False)[1]
        r = d2.fermi_surface_samples(-e, improved_points=False)
        close(sorted(r[2]), sorted(w0), 1e-9 + 1e-4 * area, 0, "areas for inverted energies")


# ----------------------------------------------------------- improved weights
@st.composite
def s_weights(draw):
    return {"d": draw(dos_spec(["cubes"], kinds=("cos", "gap"), Ns=(8, 10), wrap=(True,))), "e": draw(gen.i8(3))}


def t_weights(c, ctx):
    q = dict(c["d"])
    q["spec"] = dict(q["spec"], hess=True, b=min(q["spec"]["b"], 2))
    q["rng"] = "bz"
    model, d = make(q)
    e = pick(d, c["e"])
    r0 = d.fermi_surface_samples(e, weight_by_gradient=True)
    if len(r0[0]) == 0:
        ctx.trivial()
        return
    p, bi, w, area = d.fermi_surface_samples(e, improved_weights=True, weight_by_gradient=True)
    p1, b1, w1, area1 = d.fermi_surface_samples(e, improved_weights=True)
    close(area, r0[3], 1e-12, 1e-9, "total_area with improved weights")
    close(p1, p, 1e-12, 0, "points do not depend on the weights")
    require(np.array_equal(bi, r0[1]) and np.array_equal(b1, bi), "bands of the points")
    require(np.all(w >= 0) and np.all(np.isfinite(w1)), "weights")
    # second Newton step, the weights use the gradients before it
    k = np.arange(len(p))
    gr = model.bands_grad(r0[0])[1][k, :, bi]
    n = np.linalg.norm(gr, axis=1)
    close(w * n, w1, 1e-12, 1e-7, "area = weight * |gradient|")
    E0 = model(r0[0])[k, bi] - e
    dx = -gr * (E0 / np.maximum(n * n, 1e-30))[:, None]
    ok = n > 1e-4
    close((p - r0[0])[ok], dx[ok], 1e-10, 1e-6, "second Newton step onto the surface")
    smooth = n.min() > .25 * n.max() and len(p) > 200
    ctx.label("smooth" if smooth else "rough")
    if smooth:
        rho = sum(d.density_bands(e))
        close(w.sum(), rho, .25 * rho, 0, "density of states with improved weights")
        close(w1.sum(), area, .25 * area, 0, "area with improved weights")
    t = d.fermi_surface_samples(e, improved_weights=True, normalize="total")
    close(t[2] * w1.sum(), w1, 1e-12, 1e-8, "total normalisation with improved weights")
    close(t[2].sum(), 1, 1e-9, 0, "total normalisation with improved weights")
    raises(NotImplementedError, lambda: d.fermi_surface_samples(e, improved_weights=True, normalize="band"), "band normalisation of improved weights")
    plain = dm.PlainModel(q["spec"])
    q2 = dict(q, ug=False)
    d2 = make(dict(q2, spec=dict(q["spec"], hess=False)), model=plain)[1]
    raises(NotImplementedError, lambda: d2.fermi_surface_samples(e, improved_weights=True), "improved weights without gradients")


@st.composite
def s_shear(draw):
    return {"v": draw(gen.i8(24)), "rs": draw(st.integers(0, 999)), "scale": draw(st.sampled_from([1., .3, 4.])), "N": draw(st.sampled_from([11, 12, 13])), "b": draw(st.sampled_from([1, 1, 2])), "e": draw(gen.i8(2))}


def t_shear(c, ctx):
    """improved weights count states and area in any, also strongly sheared cell"""
    r = np.random.RandomState(c["rs"])
    A = np.linalg.qr(r.randn(3, 3))[0] @ np.diag([.45, 1, 2.2]) @ np.linalg.qr(r.randn(3, 3))[0] * c["scale"]
    m = Cosines(c["v"], c["b"], A)
    d = DensityOfStates(m, N=c["N"], A=A)
    i = abs(c["e"][0]) % m.b
    e = float(m.edges[i] @ (lambda f: (1 - f, f))(.15 + .7 * (c["e"][1] / 256 + .5)))
    p, bi, w, area = d.fermi_surface_samples(e, improved_weights=True, weight_by_gradient=True)
    w1 = d.fermi_surface_samples(e, improved_weights=True)[2]
    require(len(p) > 30 and np.all(bi == i), "points on the surface of the band")
    close(w.sum(), sum(d.density_bands(e)), .25 * sum(d.density_bands(e)), 0, "density of states with improved weights in a sheared cell")
    close(w1.sum(), area, .25 * area, 0, "area with improved weights in a sheared cell")
    # the states on the surface are on the surface
    close(m(p)[np.arange(len(p)), bi], np.full(len(p), e), .05 * (m.edges[i, 1] - m.edges[i, 0]), 0, "energies of the points")


# ---------------------------------------------------------------- ellipsoids
class Ellipsoid:
    def __init__(self, M, c):
        self.M, self.c = M, c

    def __call__(self, k):
        d = np.asarray(k) - self.c
        return np.sum((d @ self.M) * d, -1)[..., None]

    def bands_grad(self, k):
        return self(k), 2 * ((np.asarray(k) - self.c) @ self.M)[..., None]


@st.composite
def s_ell(draw):
    return {"v": draw(gen.i8(12)), "A": draw(st.sampled_from(list(dm.LATTICES))), "m": draw(st.sampled_from(["cubes", "cubes+"])), "r": draw(gen.i8(1)), "f": draw(st.sampled_from([1., 1.5, 2.]))}


def t_ell(c, ctx):
    A = dm.LATTICES[c["A"]]
    ctx.label(c["A"])
    iA = np.linalg.inv(A)
    V = abs(np.linalg.det(A))
    ctr = iA.T @ (np.array(c["v"][:3]) / 128 * .05)
    # ellipsoid with random axes in crystal coordinates: density of states
    U = np.linalg.qr(np.array(c["v"][3:12], float).reshape(3, 3) / 128 + 1.5 * np.eye(3))[0]
    ax = 1 + np.abs(np.array(c["v"][9:12])) / 128 * (c["f"] - 1)
    model = Ellipsoid(A @ U @ np.diag(ax ** 2) @ U.T @ A.T, ctr)
    rad = .3 + c["r"][0] / 1300
    d = DensityOfStates(model, N=22, A=A, wrap=False, smearing=c["m"], check=False)
    p, bi, w, area = d.fermi_surface_samples(rad ** 2, weight_by_gradient=True)
    rho = 2 * np.pi * rad / np.prod(ax)
    close(w.sum(), rho, .08 * rho, 0, "density of states of an ellipsoid")
    close(model(p)[:, 0], np.full(len(p), rad ** 2), .03 * rad ** 2, 0, "points on the ellipsoid")
    x = (p - ctr) @ A @ U * ax / rad
    close(np.einsum("n,ni,nj->ij", w, x, x) / w.sum(), np.eye(3) / 3, .05, 0, "second moments of an ellipsoid")
    # sphere: area
    if c["A"] == "diag":
        return
    model = Ellipsoid(np.eye(3), ctr)
    R = rad / np.linalg.norm(A, axis=0).max()  # inside of the cell
    d = DensityOfStates(model, N=22, A=A, wrap=False, smearing=c["m"], check=False)
    p, bi, w, area = d.fermi_surface_samples(R * R)
    close(area, 4 * np.pi * R * R * V, .08 * area, 0, "area of a sphere in units of the Brillouin zone")
    rr = np.linalg.norm(p - ctr, axis=1)
    close(rr, np.full(len(rr), R), .02 * R, 0, "points on the sphere")
    close((w[:, None] * (p - ctr)).sum(0) / area / R, np.zeros(3), .1, 0, "center of the sphere")
    close(np.einsum("n,ni,nj->ij", w, p - ctr, p - ctr) / area / R ** 2, np.eye(3) / 3, .05, 0, "second moments of the sphere")


SUBS = [
    Sub("surface", s_plain(), t_plain, quick=700, shards=4),
    Sub("large", s_large(), t_large, quick=40, shards=3),
    Sub("improved", s_imp(), t_imp, quick=500, shards=3),
    Sub("sheared", s_shear(), t_shear, quick=60),
    Sub("improved_weights", s_weights(), t_weights, quick=120, shards=2),
    Sub("sphere", s_ell(), t_ell, quick=150, shards=2),
]
