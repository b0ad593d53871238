"""C15: the geometric cut functions are exact volumes and areas."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, Skip
from tight_binding_redweasel import smearing as sm

RULE = "at least one plane cuts through its cell (fraction strictly between 0 and 1)"
ASSUMPTIONS = ["components below 1e-4 of the gradient length may be replaced by 1e-4 in the cube functions (documented), tetrahedra have the documented 1e-8 errors in special cases",
               "derivatives are compared away from the corner values only, where they are continuous", "oracle: exact rational inclusion-exclusion (cube), Jepsen-Andersen formulas in rational arithmetic (tetrahedra), the spherical cap"]


def cube_exact(a, e):
    """(volume, derivative) of {x in [-1/2,1/2]^3: a.x < e} in rational arithmetic; derivative None if flat"""
    a = [abs(Fr(float(x))) for x in a if x != 0]
    e = Fr(float(e))
    n = len(a)
    if n == 0:
        return (Fr(1) if e > 0 else Fr(0) if e < 0 else Fr(1, 2)), None
    p = Fr(1)
    for x in a:
        p *= x
    f = {1: 1, 2: 2, 3: 6}[n]
    V = D = Fr(0)
    for sg in itertools.product((0, 1), repeat=n):
        h = e + sum(a) / 2 - sum(x for x, s in zip(a, sg) if s)
        if h > 0:
            w = (-1) ** sum(sg)
            V += w * h ** n
            D += w * n * h ** (n - 1)
    return V / (f * p), D / (f * p)


def tetra_exact(v, e):
    """(fraction, derivative) of a tetrahedron with linear interpolation of the corner values v below e"""
    e1, e2, e3, e4 = sorted(Fr(float(x)) for x in v)
    e = Fr(float(e))
    if e <= e1:
        return Fr(1) if e > e4 else (Fr(1, 2) if e1 == e4 == e else Fr(0)), Fr(0)
    if e >= e4:
        return Fr(1), Fr(0)
    if e < e2:
        q = (e2 - e1) * (e3 - e1) * (e4 - e1)
        return (e - e1) ** 3 / q, 3 * (e - e1) ** 2 / q
    if e < e3:
        q = (e3 - e1) * (e4 - e1)
        r = ((e3 - e1) + (e4 - e2)) / ((e3 - e2) * (e4 - e2))
        x = e - e2
        y = e2 - e1
        return (y * y + 3 * y * x + 3 * x * x - r * x ** 3) / q, (3 * y + 6 * x - 3 * r * x * x) / q
    q = (e4 - e1) * (e4 - e2) * (e4 - e3)
    return 1 - (e4 - e) ** 3 / q, 3 * (e4 - e) ** 2 / q


@st.composite
def planes(draw, n):
    """n gradients (nested list of modes) and offsets"""
    return {"n": n, "mode": draw(st.lists(st.sampled_from(["gen", "axis", "diag", "tiny", "two", "zero", "wide", "face"]), min_size=n, max_size=n)), "v": draw(gen.i8(8 * n)), "scale": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5, .3]))}


def dec_planes(c):
    out = []
    for m, v in zip(c["mode"], np.array(c["v"], float).reshape(c["n"], -1)):
        a = v[:3] / 64 + np.where(v[:3] == 0, 1 / 128, 0)
        i = int(v[3]) % 3
        if m == "axis":
            a = np.eye(3)[i] * a[0]
        elif m == "diag":
            a = np.sign(a) * abs(a[0])
        elif m == "tiny":
            a[i] = a[i] * 10.0 ** (-1 - abs(v[4]) % 9)
        elif m == "two":
            a[i] = 0
        elif m == "zero":
            a = a * 0
        elif m == "wide":
            a[i] = a[i] * 10.0 ** (-1 - abs(v[4]) % 9)
            a[(i + 1) % 3] *= 10.0 ** (-1 - abs(v[5]) % 9)
        elif m == "face":
            a[i] = abs(a[(i + 1) % 3]) + abs(a[(i + 2) % 3])
        w = np.sum(np.abs(a)) / 2
        kind = int(v[6]) % 4
        if kind == 0:  # through a corner
            e = np.sum(a * np.sign(v[[0, 4, 5]] + .5)) / 2
        elif kind == 1 and int(v[7]) % 3 == 0:
            e = 0.0
        else:
            e = v[7] / 110 * (w if w > 0 else 1)
        out.append([*a, e])
    out = np.array(out) * c["scale"]
    return out[:, :3], out[:, 3]


@st.composite
def case_cube(draw):
    shape = draw(st.sampled_from([[2, 2, 2], [2, 3, 2], [3, 2, 4]]))
    return {"shape": shape, "p": draw(planes(int(np.prod(shape)))), "A": draw(gen.i8(9)), "how": draw(st.sampled_from(["cubes", "cubes", "spheres", "vertices", "extra", "function"])), "off": draw(gen.i8(3)), "int_e": draw(st.booleans())}


def cell(v):
    B = np.array(v, float).reshape(3, 3) / 400 + np.eye(3)
    return B * (-1.0 if v[0] % 4 == 0 else 1.0)


def cube_tol(a):
    n = np.linalg.norm(a)
    if n == 0:
        return 1e-9, 0
    r = np.sort(np.abs(a) / n)
    eps = 1e-12 / max(np.prod(np.maximum(r, 1e-4)), 1e-30)
    small = np.sum(r < 1.001e-4) * 1.5e-4
    return small + 1e-9 + eps, small


def both_tol(a):
    """rounding of two formulas for the same cut cube: the corner terms cancel down to the product of the components"""
    a = np.reshape(a, (-1, 3))
    r = np.abs(a) / np.maximum(np.linalg.norm(a, axis=1), 1e-300)[:, None]
    return 1e-9 + 1e-14 / np.prod(np.maximum(r, 1e-4), axis=1)


def compare_planes(a, e, vol, dvol, ctx, unit="cube"):
    """volumes and derivatives per cell against the exact values"""
    some = False
    for g, x, V, D in zip(a, e, np.ravel(vol), np.ravel(dvol)):
        if unit == "sphere":
            n = np.linalg.norm(g)
            r = (3 / (4 * np.pi)) ** (1 / 3)
            if n == 0:
                want, dw = (1.0 if x > 0 else 0.0 if x < 0 else .5), None
            else:
                d = np.clip(x / n, -r, r)
                h = d + r
                want, dw = np.pi * h * h * (3 * r - h) / 3, np.pi * (r * r - d * d) / n
            if n > 0 or x != 0:
                require(abs(V - want) < 1e-8, f"sphere cut by {g} at {x}: {V} instead of {want}")
            if dw is not None:
                require(abs(D - dw) * n < 1e-7, f"sphere cut area for {g} at {x}: {D} instead of {dw}")
            some |= 1e-6 < want < 1 - 1e-6
            continue
        tol, small = cube_tol(g)
        want, dw = cube_exact(g, x)
        require(0 <= V <= 1 + 1e-9, f"volume {V} is not a fraction")
        require(D >= -1e-9 / max(np.linalg.norm(g), 1e-30), f"derivative {D} is negative")
        if np.linalg.norm(g) == 0 and x == 0:
            continue
        require(abs(V - float(want)) < tol, f"cube cut by {g} at {x}: {V} instead of {float(want)}")
        some |= 1e-6 < want < 1 - 1e-6
        if dw is not None:
            n = np.linalg.norm(g)
            corners = [abs(abs(s @ g) / 2 - abs(x)) for s in np.array(list(itertools.product((-1, 1), repeat=3)))]
            r = np.sort(np.abs(g) / n)
            if min(corners) / n > 4e-4:
                t = 2e-3 if small else 1e-8 + 1e-11 / np.prod(np.maximum(r, 1e-4))
                # a small component changes the derivative by its relative size next to the kinks
                if not small or min(corners) / n > 1e-2:
                    t = t if not small else max(t, 1e-4 / max(r[1], 1e-4) * 2 if r[1] > 1e-4 else 2e-3)
                    require(abs(float(dw) - D) * n < t, f"derivative of the cube cut by {g} at {x}: {D} instead of {float(dw)} (tolerance {t})")
    if not some:
        ctx.trivial()


def check_planes(c, ctx):
    a, e = dec_planes(c["p"])
    sh = tuple(c["shape"])
    how = c["how"]
    ctx.label(how)
    A = cell(c["A"])
    grid = np.stack(np.meshgrid(*[np.arange(n) / n - .5 for n in sh], indexing="ij"), -1)
    off = c["off"][0] / 16 if c["p"]["scale"] > 1e-3 else 0.0
    E = off
    if how in ("vertices", "extra"):
        # one linear function on a block: exact for the cell as a whole
        m = 2 if how == "vertices" else 3
        x = np.stack(np.meshgrid(*[np.arange(m) / (m - 1) - .5] * 3, indexing="ij"), -1)
        vol, dvol, vd = [], [], []
        for g, y in zip(a[:4], e[:4]):
            vals = x @ g + E - y
            if how == "vertices":
                s = sm.CubesSmearing((x / 1.0) @ np.linalg.inv(A), A, vals, wrap=False)
            else:
                s = sm.ExtraCubesSmearing((x / 1.0) @ np.linalg.inv(A), A, vals, wrap=False)
            require(np.shape(s.volume(E)) == (1, 1, 1), "one value per cell")
            vol.append(s.volume(E))
            dvol.append(s.dvolume(E))
            vd.append([np.ravel(z)[0] for z in s.volume_dvolume(E)])
        a, e = a[:4], e[:4]
        sc = np.linalg.norm(a, axis=1)
        tiny = sc * 1e5 < abs(off) + 1e-300
        # adding and subtracting the offset perturbs the plane by rounding
        keep = ~tiny & ((np.abs(off) == 0) | np.array([np.all((np.abs(g) == 0) | (np.abs(g) > 1e-7 * n)) for g, n in zip(a, sc)]))
        for i in np.flatnonzero(keep):
            n = sc[i]
            if n == 0:
                continue
            tol, small = cube_tol(a[i])
            want = float(cube_exact(a[i], e[i])[0])
            require(abs(np.ravel(vol[i])[0] - want) < tol + 1e-8 + 1e-13 * abs(off) / n, f"{how}: plane {a[i]} at {e[i]}: {vol[i]} instead of {want}")
            close(vd[i], [np.ravel(vol[i])[0], np.ravel(dvol[i])[0]], both_tol(a[i])[0] * np.array([1, 10 / n]), 1e-9, f"{how}: volume_dvolume")
            if not 1e-6 < want < 1 - 1e-6:
                ctx.trivial()
        return
    vals = E - e.reshape(sh)
    steps = 1 / np.array(sh)
    if how == "function":
        pre = sm.cube_precomp(*a.T)
        v, d = sm.cube_cut_volume(e, *pre), sm.cube_cut_dvolume(e, *pre)
        v2, d2 = sm.cube_cut_volume_dvolume(e, *pre)
        bt = both_tol(a)
        close(v2, v, bt, 0, "volume of both functions")
        close(d2 * np.maximum(np.linalg.norm(a, axis=1), 1e-30), d * np.maximum(np.linalg.norm(a, axis=1), 1e-30), 1e-7 + 10 * bt, 1e-9, "derivative of both functions")
        compare_planes(a, e, v, d, ctx)
        return
    if how == "cubes":
        # gradients per cell in k-space: dE/dk = dE/dx A^T with k = x A^-1
        grads = (a / steps) @ A.T
        s = sm.CubesSmearing(grid @ np.linalg.inv(A), A, vals, grads=grads.reshape(sh + (3,)), wrap=True)
        unit = "cube"
    else:
        B = np.linalg.inv(A).T
        cv = (abs(np.linalg.det(B)) / np.prod(sh)) ** (1 / 3)
        s = sm.SphereSmearing(grid @ np.linalg.inv(A), B, vals, grads=(a / cv).reshape(sh + (3,)), wrap=True)
        unit = "sphere"
    v, d = np.array(s.volume(E)), np.array(s.dvolume(E))
    v2, d2 = s.volume_dvolume(E)
    require(v.shape == sh and d.shape == sh, "one value per cell")
    bt = both_tol(a).reshape(sh)
    close(v2, v, bt, 0, "volume of both methods")
    nn = np.maximum(np.linalg.norm(a, axis=1), 1e-30).reshape(sh)
    close(d2 * nn, d * nn, 1e-7 + 10 * bt, 1e-9, "derivative of both methods")
    # rounding in the conversion of the gradients and of E - values
    ok = np.array([np.all((np.abs(g) > 2e-4 * n) | (g == 0)) for g, n in zip(a, np.linalg.norm(a, axis=1))])
    if unit == "sphere" or abs(off) == 0:
        ok |= unit == "sphere"
    x = E - vals.ravel()
    ok &= (np.abs(x - e) <= 1e-9 * np.linalg.norm(a, axis=1)) | (np.linalg.norm(a, axis=1) == 0)
    if not ok.any():
        ctx.trivial()
        return
    if unit == "cube":
        # axis aligned gradients are only aligned up to rounding here
        exact0 = np.linalg.norm(a, axis=1) > 0
        ok &= exact0
        if not ok.any():
            ctx.trivial()
            return
    compare_planes(a[ok], x[ok], v.ravel()[ok], d.ravel()[ok], ctx, unit)


@st.composite
def case_tetra(draw):
    return {"v": draw(gen.i8(8)), "mode": draw(st.sampled_from(["any", "ties", "linear", "flat", "near"])), "e": draw(gen.i8(6)), "shape": draw(st.sampled_from([None, [2, 2, 3], [3, 2, 2]])), "w": draw(gen.i8(18)), "scale": draw(st.sampled_from([1.0, 1e4, 1e-5])), "wrap": draw(st.booleans())}


TET = [(0, 7, 1, 3), (0, 7, 3, 2), (0, 7, 2, 6), (0, 7, 6, 4), (0, 7, 4, 5), (0, 7, 5, 1)]


def check_tetra(c, ctx):
    """six tetrahedra around the space diagonal of the cell, each with linear interpolation"""
    sh = tuple(c["shape"] or (2, 2, 2))
    n = int(np.prod(sh))
    v = np.resize(np.array(c["v"] + c["w"], float), n)
    m = c["mode"]
    ctx.label(m)
    if m == "ties":
        v = np.abs(v) % 4
    elif m == "flat":
        v = v * 0 + v[0]
    elif m == "linear":
        x = np.stack(np.meshgrid(*[np.arange(k) for k in sh], indexing="ij"), -1).reshape(-1, 3)
        v = x @ np.array(c["v"][:3], float)
    elif m == "near":
        v = np.abs(v) % 3 + v * 10.0 ** (-2 - abs(c["e"][5]) % 9)
    vals = (v / 64 * c["scale"]).reshape(sh)
    wrap = c["wrap"] and c["shape"] is not None
    s = sm.TetraSmearing(vals, wrap, np.eye(3))
    es = [vals.min() + (vals.max() - vals.min()) * (x + 140) / 280 for x in c["e"][:3]] + [vals.ravel()[c["e"][3] % n], vals.min() - c["scale"], vals.max() + c["scale"]]
    cells = [i for i in np.ndindex(*(sh if wrap else tuple(k - 1 for k in sh)))]
    corners = lambda i: [vals[(i[0] + (b & 1)) % sh[0], (i[1] + (b >> 1 & 1)) % sh[1], (i[2] + (b >> 2)) % sh[2]] for b in range(8)]
    rng = vals.max() - vals.min()
    some = False
    last = None
    for e in sorted(es):
        V, D = np.asarray(s.volume(e)), np.asarray(s.dvolume(e))
        V2, D2 = s.volume_dvolume(e)
        close(V2, V, 1e-7, 0, "volume of both methods")
        require(V.shape == (sh if wrap else tuple(k - 1 for k in sh)), "one value per cell")
        # the derivative may step at the corner values
        off = np.array([min(abs(x - e) for x in corners(i)) > 1e-9 * rng for i in cells]).reshape(np.shape(V))
        close(np.asarray(D2)[off], D[off], 1e-7 / max(rng, 1e-300), 1e-6, "derivative of both methods")
        if last is not None:
            require(np.all(V >= last - 1e-7), "the volume grows with the energy")
        last = V
        for i in cells:
            a = corners(i)
            if rng > 0 and (max(a) - min(a)) < 1e-6 * rng and abs(e - a[0]) < 1e-6 * rng or (rng == 0 and e == a[0]):
                continue
            ex = [tetra_exact([a[j] for j in t], e) for t in TET]
            degenerate = any(max(a[j] for j in t) == min(a[j] for j in t) == e for t in TET)
            want = float(sum(x[0] for x in ex) / 6)
            if degenerate:
                continue
            some |= 1e-6 < want < 1 - 1e-6
            require(abs(V[i] - want) < 2e-7, f"volume of the cell {a} below {e}: {V[i]} instead of {want}")
            # derivative away from the corner values
            wd = float(sum(x[1] for x in ex) / 6)
            loc = max(a) - min(a)
            if loc > 0 and min(abs(x - e) for x in a) > 1e-3 * loc:
                require(abs(D[i] - wd) < 1e-4 * (1 / loc + wd), f"derivative for the cell {a} at {e}: {D[i]} instead of {wd}")
    if not some:
        ctx.trivial()


def check_relations(c, ctx):
    """metamorphic: complement, permutation, sign, scaling, monotone in the energy (cube and tetrahedra)"""
    a, e = dec_planes(c["p"])
    sc = np.linalg.norm(a, axis=1)
    f = lambda a_, e_: sm.cube_cut_volume(np.array(e_), *sm.cube_precomp(*np.array(a_).T))
    V = f(a, e)
    nz = sc > 0
    if not np.any((V > 1e-6) & (V < 1 - 1e-6)):
        ctx.trivial()
    close(f(-a, e), V, 1e-12, 0, "sign of the gradient")
    close(f(a[:, [2, 0, 1]], e), V, 1e-7, 0, "order of the components")
    close(f(a[:, [1, 0, 2]], e), V, 1e-7, 0, "order of the components")
    q = nz | (e != 0)
    close((f(a, -e) + V)[q], np.ones(np.sum(q)), 1e-7, 0, "complement")
    close(f(a * 8, e * 8)[nz], V[nz], 1e-12, 0, "units")
    es = np.sort(np.array(c["off"] + [0, 30, -30], float)) / 60
    W = np.array([f(a, x * np.where(nz, 2 * sc, 1)) for x in es])
    require(np.all(np.diff(W, axis=0) >= -1e-7), "the volume grows with the energy")
    W = f(a, np.where(nz, 1.0001 * np.sum(np.abs(a), axis=1) / 2 + sc * 2e-4, 1))
    require(np.all(np.abs(W - 1) < 1e-7), "the volume is 1 above all corners")
    W = f(a, -np.where(nz, 1.0001 * np.sum(np.abs(a), axis=1) / 2 + sc * 2e-4, 1))
    require(np.all(np.abs(W) < 1e-7), "the volume is 0 below all corners")
    # tetrahedron: all orders of the corners
    v = np.concatenate([a[:4, 0], a[:4, 1]])[:4]
    x = float(e[0])
    ex = float(tetra_exact(v, x)[0])
    if np.ptp(v) > 0:
        for p in itertools.permutations(range(4)):
            t = float(sm.tetra_cut_volume(*[np.array(v[i] - x) for i in p]))
            require(abs(6 * float(sm.tetra_cut_volume(*[np.array(x - v[i]) for i in p])) - ex) < 2e-7, f"tetrahedron {v} below {x} in order {p}")
            require(abs(6 * t - (1 - ex)) < 2e-7, f"complement of the tetrahedron {v} below {x} in order {p}")


SUBS = [
    Sub("planes", case_cube(), check_planes, quick=1500, thorough=30000, shards=3),
    Sub("tetra", case_tetra(), check_tetra, quick=900, thorough=20000, shards=3),
    Sub("relations", case_cube(), check_relations, quick=700, thorough=10000, shards=2),
]
