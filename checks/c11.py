"""C11: orbits, irreducible k-points and neighbour stars are complete and consistent."""
import itertools, warnings
import numpy as np
from hypothesis import strategies as st
import gen
import groups as G
from core import Sub, close, require, raises
from tight_binding_redweasel.symmetry import Symmetry, neighbor_function, try_neighbor_function

RULE = "the group has at least 2 operations and some point has an orbit with at least 2 points"
ASSUMPTIONS = ["points keep a distance of at least 1e-3 from each other unless they are symmetry images (documented rounding of the sort)", "points are at least 1e-2 away from the cell boundary or exactly on it", "oracle: brute-force orbits under the explicit operation list"]


def lexsorted(p):
    """documented order: compatible with a reshape into a meshgrid (last axis slowest)"""
    q = np.round(p + np.pi, 4)
    return all(tuple(q[i][::-1]) <= tuple(q[i + 1][::-1]) for i in range(len(q) - 1))


def match(got, want, what, tol=1e-6):
    """same point set, each exactly once; returns index of want for each got"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.ndim == 2 and len(got) == len(want), f"{what}: {len(got)} points instead of {len(want)}")
    if len(got) == 0:
        return []
    d = np.linalg.norm(got[:, None] - want[None], axis=-1)
    j = np.argmin(d, axis=1)
    require(np.max(d[np.arange(len(got)), j]) < tol * (1 + np.max(np.abs(want))), f"{what}: point {got[int(np.argmax(d[np.arange(len(got)), j]))]} does not belong there")
    require(len(set(j.tolist())) == len(j), f"{what}: a point is listed twice")
    return j


@st.composite
def points(draw, d, max_n=5, lo=1):
    """points on a coarse lattice: special points, and generic ones"""
    n = draw(st.integers(lo, max_n))
    return {"n": n, "v": draw(gen.i8(n * d)), "kind": draw(st.sampled_from(["int", "int", "half", "gen"]))}


def dec_points(c, d):
    v = np.array(c["v"], float).reshape(-1, d)
    if c["kind"] == "int":
        p = np.sign(v) * (np.abs(v) % 4)
    elif c["kind"] == "half":
        p = np.sign(v) * (np.abs(v) % 5) / 4
    else:
        p = v / 50.3
    return p


def classes_of(ops, pts):
    """index of the first equivalent point"""
    out = []
    for i, p in enumerate(pts):
        im = ops @ p
        for j in range(i + 1):
            if np.min(np.linalg.norm(im - pts[j], axis=1)) < 1e-6 * (1 + np.linalg.norm(p)):
                out.append(j)
                break
    return np.array(out)


def spread_ok(pts, tol=1e-3):
    d = np.linalg.norm(pts[:, None] - pts[None], axis=-1)
    return np.all((d > tol) | (d < 1e-7))


@st.composite
def case_orbit(draw):
    g = draw(G.group(max_order=48))
    d = g["basis"]["d"]
    return {"g": g, "p": draw(points(d)), "dup": draw(st.booleans()), "seed": draw(st.integers(0, 9))}


def setup(c, ctx, distinct=True):
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    B = G.dec_basis(c["g"]["basis"])
    pts = dec_points(c["p"], len(ops[0])) @ B.T
    full = np.concatenate([ops @ p for p in pts])
    if not spread_ok(full):
        from core import Skip
        raise Skip()
    if not distinct:
        n = [1, 1, 2, 5, 12][c["seed"] % 5]  # how often the first point is repeated by equivalent ones
        pts = np.concatenate([pts, [ops[(7 * c["seed"] + 1 + j) % len(ops)] @ pts[0] for j in range(n)]])
    else:
        cl = classes_of(ops, pts)
        pts = pts[cl == np.arange(len(pts))]
    orbs = [G.orbit(ops, p) for p in pts]
    if len(ops) < 2 or max(len(o) for o in orbs) < 2:
        ctx.trivial()
    ctx.label(f"dim {len(ops[0])}")
    return ops, s, pts, orbs


def check_orbit(c, ctx):
    ops, s, pts, orbs = setup(c, ctx, not c["dup"])
    before = pts.copy()
    src = np.concatenate([[i] * len(o) for i, o in enumerate(orbs)])
    allp = np.concatenate(orbs)
    # expected set without repetitions
    first = [i for i in range(len(allp)) if not np.any(np.linalg.norm(allp[:i] - allp[i], axis=1) < 1e-7)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        k, order = s.realize_symmetric(pts)
    dup = len(first) < len(allp)
    require(bool([x for x in w if "duplicate" in str(x.message)]) == dup, f"duplicate warning {'missing' if dup else 'without reason'}")
    m = match(k, allp[first], "symmetric images")
    require(len(order) == len(k) and lexsorted(k), "images are not sorted for a reshape into a grid")
    for kk, o in zip(k, order):
        require(np.min(np.linalg.norm(ops @ pts[o] - kk, axis=1)) < 1e-6 * (1 + np.linalg.norm(kk)), f"image {kk} does not come from point {o}")
    # data
    data = np.arange(len(pts) * 2.0).reshape(-1, 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k2, d2 = s.realize_symmetric_data(pts, data)
        k3, groups = s.realize_symmetric(pts, collect_bad_duplicates=True)
        k4, d4 = s.realize_symmetric_data(pts, data, average_bad_duplicates=True)
    require(np.array_equal(k2, k) and np.array_equal(d2, data[order]), "realize_symmetric_data does not copy the source values")
    require(np.array_equal(k3, k) and np.array_equal(k4, k), "collecting duplicates changes the points")
    for kk, gr, dd in zip(k3, groups, d4):
        want = sorted(set(int(x) for x in src[np.linalg.norm(allp - kk, axis=1) < 1e-6 * (1 + np.linalg.norm(kk))]))
        require(sorted(int(x) for x in gr) == want, f"sources of {kk}: {gr} instead of {want}")
        close(dd, np.mean(data[want], axis=0), 1e-12, 1e-12, "averaged data")
    # sizes and weights
    size = [len(o) for o in orbs]
    close(s.r_class_size(pts), np.array(size, float), 1e-9, 0, "orbit sizes")
    require(np.array_equal(pts, before), "input points changed")
    ctx.label("equivalent sources" if dup else "distinct sources")
    # classes of a closed list, and of the sources alone
    r = np.random.RandomState(c["seed"])
    perm = r.permutation(len(k))
    for q in (np.asarray(k)[perm], pts[classes_of(ops, pts) == np.arange(len(pts))]):
        cl = s.find_classes(q)
        cid = classes_of(ops, q)
        want = {}
        for i, x in enumerate(cid):
            want.setdefault(int(x), set()).add(i)
        require({int(a): set(int(x) for x in b) for a, b in cl.items()} == want, f"equivalence classes {cl} instead of {want}")


@st.composite
def case_cell(draw):
    g = draw(G.group(max_order=48, crystal=True, kinds=("id",), sub=True).filter(lambda c: not any(x in c["name"] for x in ("cyclic3", "cyclic6", "dihedral3", "dihedral6", "o2.3", "o2.6"))))
    d = g["basis"]["d"]
    return {"g": g, "n": draw(st.integers(1, 8)), "v": draw(gen.i8(5 * d)), "cnt": draw(st.integers(1, 5)), "hex": draw(st.booleans()), "g0": draw(st.sampled_from([0, 0, 1]))}


HEX = {2: np.array([[1, -0.5], [0, np.sqrt(3) / 2]]), 3: np.array([[1, -0.5, 0], [0, np.sqrt(3) / 2, 0], [0, 0, 1.3]])}


def lattice_group(c):
    """group of integer matrices: cubic-like ones directly, or a hexagonal one"""
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = len(ops[0])
    if c["hex"] and d == 3:
        base = Symmetry.dihedral(6, bool(c["n"] % 2)) if c["n"] < 5 else Symmetry.cyclic([3, 6][c["n"] % 2], True)
        full = G.NAMED[("dihedral6.%d" % (c["n"] % 2)) if c["n"] < 5 else "cyclic%d.1" % [3, 6][c["n"] % 2]][1]
        Ai = np.linalg.inv(HEX[3])
        return Ai @ full @ HEX[3], base.transform(Ai)
    return ops, s


def check_cell(c, ctx):
    ops, s = lattice_group(c)
    d = len(ops[0])
    require(np.max(np.abs(ops - np.round(ops))) < 1e-9, "test group is not crystallographic")
    n = [2, 3, 4, 5, 6, 8, 10, 12][c["n"] - 1]
    v = np.array(c["v"][:c["cnt"] * d], float).reshape(-1, d)
    pts = (v % n + n * c["g0"] * (np.abs(v) % 3 - 1)) / n
    frac = lambda p: (np.round(np.asarray(p) * n).astype(int)) % n

    def orb(p):
        return set(tuple(x) for x in frac(ops @ p))
    reps, seen = [], set()
    for p in pts:
        o = orb(p)
        if not (o & seen):
            reps.append(p)
            seen |= o
    pts = np.array(reps)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        k, order = s.realize_symmetric(pts, unit_cell=True)
    require(not [x for x in w if "duplicate" in str(x.message)], "duplicate warning for inequivalent points")
    require(np.all(k >= -0.5) and np.all(k < 0.5), f"points outside of [-1/2, 1/2[: {k[np.any((k < -0.5) | (k >= 0.5), axis=1)][:3]}")
    require(np.max(np.abs(k * n - np.round(k * n))) < 1e-5, "images are not on the grid")
    got = [tuple(x) for x in frac(k)]
    require(len(set(got)) == len(got), "an image is listed twice in the cell")
    require(set(got) == seen, f"{len(got)} images in the cell instead of {len(seen)}")
    for kk, o in zip(got, order):
        require(kk in orb(pts[o]), f"image {kk}/{n} does not come from point {o}")
    require(lexsorted(k), "images are not sorted for a reshape into a grid")
    # weights: stabiliser modulo the lattice
    want = np.array([1 / sum(tuple(x) == tuple(frac(p)) for x in frac(ops @ p)) for p in pts])
    close(s.k_weight(pts), want, 1e-12, 1e-9, "k_weight")
    close(s.k_weight(pts) * len(ops), np.array([float(len(orb(p))) for p in pts]), 1e-9, 1e-9, "k_weight times order of the group")
    # a full grid is covered by its irreducible points
    if n ** d <= 600:
        grid = np.array(list(itertools.product(range(n), repeat=d))) / n
        irr, seen = [], set()
        for p in grid:
            if tuple(frac(p)) not in seen:
                irr.append(p)
                seen |= orb(p)
        kk, _ = s.realize_symmetric(np.array(irr), unit_cell=True)
        require(len(kk) == n ** d, f"{len(kk)} points instead of the full grid of {n ** d}")
        ax = np.sort(np.unique(np.round(kk, 6)))
        g = np.array(np.meshgrid(*([ax] * d), indexing="ij")).reshape(d, -1).T[:, ::-1]
        close(kk, g, 1e-5, 0, "full grid in reshape order")
        close(np.sum(s.k_weight(np.array(irr))) * len(ops), float(n ** d), 1e-9, 1e-9, "sum of the weights")
    if c["cnt"] <= 2:
        z = [tuple([1] + [0] * (d - 1))]  # plain integers
        k0, _ = s.realize_symmetric(z, unit_cell=True)
        close(k0, np.zeros((1, d)), 1e-12, 0, "integer point in the cell")
    ctx.label("hexagonal" if c["hex"] and d == 3 else "cubic")
    if len(ops) < 2:
        ctx.trivial()


@st.composite
def case_reduce(draw):
    g = draw(G.group(max_order=48, kinds=("id", "id", "orth")))
    d = g["basis"]["d"]
    return {"g": g, "p": draw(points(d, 6)), "scale": draw(st.sampled_from([1.0, 1.0, 0.1, 0.04])), "seed": draw(st.integers(0, 99)), "grid": draw(st.sampled_from([16, 0, 5, 8, 0, 9, 12, 0])), "bad": draw(st.integers(0, 3))}


def check_reduce(c, ctx):
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = len(ops[0])
    r = np.random.RandomState(c["seed"])
    if c["grid"] and c["g"]["basis"]["kind"] == "id" and np.max(np.abs(ops - np.round(ops))) < 1e-9:
        n = c["grid"] if d < 3 else min(c["grid"], 9)
        ax = (np.arange(n) - (n - 1) / 2) / (max(c["grid"], 1) * 1.0)
        full = np.array(np.meshgrid(*([ax] * d), indexing="ij")).reshape(d, -1).T
        if d == 3:
            # part of a fine grid: everything inside a sphere
            full = np.array(list(itertools.product(range(-3, 4), repeat=3))) / (2 * c["grid"])
        ctx.label("grid")
    else:
        pts = dec_points(c["p"], d) * c["scale"]
        full = np.concatenate([G.orbit(ops, p) for p in pts])
        if not spread_ok(full):
            from core import Skip
            raise Skip()
        full = full[[i for i in range(len(full)) if not np.any(np.linalg.norm(full[:i] - full[i], axis=1) < 1e-7)]]
        ctx.label("orbits")
    full = full[r.permutation(len(full))]
    cid = classes_of(ops, full) if len(full) < 400 else None
    if cid is None:
        # grids: label by the sorted image
        lab = {}
        cid = np.array([lab.setdefault(min(tuple(x) for x in np.round((ops @ p) * 4e3).astype(int)), len(lab)) for p in full])
    uniq = np.unique(cid)
    val = r.rand(len(full), 2)
    data = np.array([val[x] for x in cid])
    f0, d0 = full.copy(), data.copy()
    k, v = s.reduce_symmetric_data(full, data)
    require(np.array_equal(full, f0) and np.array_equal(data, d0), "input changed")
    require(len(k) == len(v) == len(uniq), f"{len(k)} representatives for {len(uniq)} orbits of {len(full)} points")
    where = [int(np.argmin(np.linalg.norm(full - p, axis=1))) for p in k]
    close(full[where], np.asarray(k), 1e-12, 0, "representatives are not from the list")
    require(sorted(cid[where]) == sorted(uniq), "an orbit is represented twice")
    close(np.asarray(v), data[where], 1e-12, 0, "values of the representatives")
    kk, vv = s.realize_symmetric_data(k, v)
    j = match(kk, full, "reduced and expanded points")
    close(vv, data[j], 1e-12, 0, "reduced and expanded data")
    if len(uniq) == len(full):
        ctx.trivial()
    # asymmetric data must be noticed
    if c["bad"] and len(uniq) < len(full):
        big = [i for i in range(len(full)) if np.sum(cid == cid[i]) > 1]
        i = big[c["seed"] % len(big)]
        data[i, 0] += [0, 1.0, 1e-3, -1e-5][c["bad"]]
        data[i, 1] -= [0, 1.0, 0, -1e-5][c["bad"]]  # opposite errors
        raises(ValueError, lambda: s.reduce_symmetric_data(full, data), "asymmetric data")
        k2, _ = s.reduce_symmetric_data(full, data, checked=False)
        require(len(k2) == len(uniq), "unchecked reduction gives another number of representatives")


@st.composite
def case_star(draw):
    g = draw(G.group(max_order=48))
    d = g["basis"]["d"]
    return {"g": g, "p": draw(points(d, 4)), "dup": draw(st.booleans()), "seed": draw(st.integers(0, 9)), "drop": draw(st.integers(0, 50))}


def check_star(c, ctx):
    ops, s, pts, _ = setup(c, ctx, not c["dup"])
    # the symmetry is meant for k-space, neighbours transform with the transposed operations
    B = G.dec_basis(c["g"]["basis"])
    pts = dec_points(c["p"], len(ops[0])) @ np.linalg.inv(B)
    opsT = np.swapaxes(ops, 1, 2)
    pts = pts[np.linalg.norm(pts, axis=1) > 1e-9]
    if not c["dup"]:
        pm = np.concatenate([opsT, -opsT])
        pts = pts[classes_of(pm, pts) == np.arange(len(pts))] if len(pts) else pts
    if len(pts) and not spread_ok(np.concatenate([opsT @ p for p in pts])):
        from core import Skip
        raise Skip()
    nb = np.concatenate([np.zeros((1, len(ops[0]))), pts])
    nb = nb[[i for i in range(len(nb)) if not np.any(np.linalg.norm(nb[:i] - nb[i], axis=1) < 1e-7)]]
    before = nb.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, order = s.complete_neighbors(nb, return_order=True)
        got2 = s.complete_neighbors(nb)
    require(np.array_equal(nb, before), "neighbour list changed")
    require(len(got) == len(got2) and np.array_equal(np.array(got), np.array(got2)) and len(order) == len(got), "result depends on return_order")
    got = np.array(got)
    allp = np.concatenate([opsT @ p for p in nb] + [-(opsT @ p) for p in nb])
    full = allp[[i for i in range(len(allp)) if not np.any(np.linalg.norm(allp[:i] - allp[i], axis=1) < 1e-7 * (1 + np.linalg.norm(allp[i])))]]
    require(np.linalg.norm(got[0]) < 1e-12, f"first neighbour is {got[0]}, not the origin")
    match(np.concatenate([got, -got[1:]]), full, "star with its inverse")
    ln = np.linalg.norm(got, axis=1)
    require(np.all(np.diff(ln) > -1e-6), "neighbours are not sorted by length")
    for p, o in zip(got, order):
        im = opsT @ nb[o]
        require(min(np.min(np.linalg.norm(im - p, axis=1)), np.min(np.linalg.norm(im + p, axis=1))) < 1e-6 * (1 + np.linalg.norm(p)), f"{p} is no image of source {o}")
    # completing again changes nothing
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        again = np.array(s.complete_neighbors(got))
    require(len(again) == len(got), f"completing a complete list gives {len(again)} instead of {len(got)} vectors")
    match(np.concatenate([again, -again[1:]]), full, "star completed twice")
    if len(got) < 3:
        ctx.trivial()
    # lookups
    r = np.random.RandomState(c["seed"])
    f, t = neighbor_function(got), try_neighbor_function(got)
    for _ in range(4):
        j = r.randint(len(got))
        sg = r.choice([1, -1])
        for fn in (f, t):
            jj, mir = fn(sg * got[j] + 1e-7 * r.rand(len(ops[0])))
            require(jj == j and bool(mir) == (sg < 0 and j != 0), f"lookup of {'-' if sg < 0 else ''}neighbour {j} gives {jj}, mirrored {mir}")
    far = got[-1] + 0.01 + r.rand(len(ops[0]))
    if np.min(np.linalg.norm(np.concatenate([got, -got]) - far, axis=1)) > 1e-3:
        raises(ValueError, lambda: f(far), "lookup of a vector that is not in the list")
        require(t(far) == (None, None), "lookup of a vector that is not in the list")
    if len(ops[0]) == 3:
        s.check_neighbors(got)
        i = c["drop"] % len(got)
        rest = np.delete(got, i, axis=0)
        im = opsT @ got[i]
        if i > 0 and np.any(np.minimum(np.linalg.norm(im - got[i], axis=1), np.linalg.norm(im + got[i], axis=1)) > 1e-3):
            raises(ValueError, lambda: s.check_neighbors(rest), "incomplete neighbours")


@st.composite
def case_func(draw):
    g = draw(G.group(max_order=24, kinds=("id", "orth")))
    d = g["basis"]["d"]
    return {"g": g, "v": draw(gen.i8(2 * d + 2)), "vec": draw(st.booleans())}


def check_func(c, ctx):
    """functions are accepted exactly when they have the symmetry"""
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = len(ops[0])
    a = np.array(c["v"][:d], float) / 40 + 0.31 + 0.17 * np.arange(d)
    b = np.array(c["v"][d:2 * d], float) / 90 - 0.2 + 0.1 * np.arange(d)
    g = lambda r: np.cos(a @ r) + 0.5 * np.sin(b @ r + 0.3)
    sym = lambda r: np.mean([g(o @ r) for o in ops]) * (np.array([1.0, 2.0]) if c["vec"] else 1.0)
    require(s.check_symmetry(sym, verbose=False), "symmetric function is rejected")
    if len(ops) < 2:
        ctx.trivial()
        return
    # a function that is invariant under a proper subgroup only
    dev = np.std([g(o @ (0.3 + 0.1 * np.arange(d))) for o in ops])
    if dev > 1e-3:
        require(not s.check_symmetry(g, verbose=False), "asymmetric function is accepted")


@st.composite
def case_large(draw):
    d = draw(st.sampled_from([2, 3]))
    name = draw(st.sampled_from([n for n in G.names(d, 48, True) if "yclic3" not in n and "yclic6" not in n and "hedral3" not in n and "hedral6" not in n and n not in ("o2.3", "o2.6")]))
    return {"name": name, "n": draw(st.sampled_from([9, 12, 14] if d == 3 else [24, 33, 40])), "hex": draw(st.booleans()), "star": draw(st.sampled_from([2, 3] if d == 3 else [4, 6])), "rs": draw(st.integers(0, 10 ** 6))}


def check_large(c, ctx):
    """whole k-grids and long neighbour lists"""
    ops, s = lattice_group({"g": {"name": c["name"], "gens": None, "basis": {"kind": "id", "v": [], "d": G.NAMED[c["name"]][2]}}, "hex": c["hex"], "n": 1 + c["rs"] % 7})
    d, n = len(ops[0]), c["n"]
    iops = np.round(ops).astype(int)
    close(ops, iops.astype(float), 1e-9, 0, "test group is crystallographic")
    ctx.label(f"dim {d}")
    # orbits on the grid by brute force on integers
    grid = np.array(list(itertools.product(range(n), repeat=d)))
    w = n ** np.arange(d)
    img = np.array([(grid @ o.T % n) @ w for o in iops])  # ids of all images
    ident = grid @ w
    rep = np.min(img, axis=0)
    irr_id, mult = np.unique(rep, return_counts=True)
    back = np.empty(n ** d, int)
    back[ident] = np.arange(n ** d)
    r = np.random.RandomState(c["rs"])
    p = r.permutation(len(irr_id))
    irr_id, mult = irr_id[p], mult[p]
    # any image may be the representative
    irr = np.array([grid[back[img[r.randint(len(ops)), back[i]]]] for i in irr_id])
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        k, order = s.realize_symmetric(irr / n, unit_cell=True)
    require(len(k) == n ** d, f"{len(k)} points instead of the full grid of {n ** d}")
    require(np.all(k >= -.5) and np.all(k < .5), "points outside of [-1/2, 1/2[")
    q = np.round(k * n).astype(int)
    close(k * n, q.astype(float), 1e-4, 0, "images are on the grid")
    ids = (q % n) @ w
    require(len(set(ids.tolist())) == n ** d, "an image is listed twice")
    require(np.array_equal(rep[back[ids]], irr_id[np.asarray(order)]), "image of another point")
    require(lexsorted(k), "images are not sorted for a reshape into a grid")
    close(s.k_weight(irr / n) * len(ops), mult.astype(float), 1e-9, 1e-9, "weights of the irreducible points")
    if c["hex"] and d == 3:
        return
    # long lists of lattice vectors
    m = c["star"]
    full = np.array(list(itertools.product(range(-m, m + 1), repeat=d)))
    im = np.array([np.concatenate([full @ o, -full @ o]) for o in iops])  # star of the transposed operations
    key = (np.concatenate([full, full]) + 5 * m) @ (20 * m) ** np.arange(d)
    imk = np.min((im + 5 * m) @ (20 * m) ** np.arange(d), axis=0)[:len(full)]
    imk = np.minimum(imk, np.min((im + 5 * m) @ (20 * m) ** np.arange(d), axis=0)[len(full):])
    rep = np.unique(imk)
    vec = {int(x): np.array(v) for x, v in zip(key, full)}
    src = [np.zeros(d)] + [vec[int(x)] * r.choice([1, -1]) for x in rep[r.permutation(len(rep))] if np.any(vec[int(x)])]
    got, o = s.complete_neighbors(np.array(src, float), return_order=True)
    got = np.array(got)
    require(len(got) == (len(full) + 1) // 2, f"{len(got)} vectors instead of {(len(full) + 1) // 2} of the full box")
    close(got, np.round(got), 1e-7, 0, "star of lattice vectors")
    both = np.concatenate([got, -got[1:]])
    require(set(map(tuple, np.round(both).astype(int).tolist())) == set(map(tuple, full.tolist())), "star is not the full box")
    require(np.all(np.diff(np.linalg.norm(got, axis=1)) > -1e-6), "neighbours are not sorted by length")
    f, t = neighbor_function(got), try_neighbor_function(got)
    for j in r.randint(len(got), size=20):
        sg = r.choice([1, -1])
        for fn in (f, t):
            jj, mir = fn(sg * got[j])
            require(jj == j and bool(mir) == (sg < 0 and j != 0), f"lookup of neighbour {j}, sign {sg}: {jj}, {mir}")
    # the full star reduces to its sources
    val = {int(x): r.rand() for x in np.unique(imk)}
    pts = np.array(full, float)
    data = np.array([val[int(x)] for x in imk])
    sT = Symmetry(np.swapaxes(ops, 1, 2)) if not s.inversion else None
    if sT is not None and G.key(-np.eye(d)) in G.keyset(ops):
        kk, v = sT.reduce_symmetric_data(pts, data)
        require(len(kk) == len(rep), f"{len(kk)} instead of {len(rep)} orbits")
        k2, v2 = sT.realize_symmetric_data(kk, v)
        j = {tuple(x): y for x, y in zip(full.tolist(), data)}
        require(len(k2) == len(full), f"{len(k2)} instead of {len(full)} points")
        close(v2, np.array([j[tuple(x)] for x in np.round(k2).astype(int).tolist()]), 1e-12, 0, "reduced and expanded data")


@st.composite
def case_small(draw):
    g = draw(G.group(max_order=48))
    d = g["basis"]["d"]
    return {"g": g, "p": draw(points(d, 1)), "scale": draw(st.sampled_from([1e-2, 1e-3, 2e-4, 3e-5])), "cen": draw(st.lists(st.sampled_from([0, 0, 1, 2, -1]), min_size=d, max_size=d))}


def check_small(c, ctx):
    """points close to a special point are not mistaken for it"""
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = len(ops[0])
    p = dec_points(c["p"], d)[0] * c["scale"]
    orb = G.orbit(ops, p)
    dist = np.linalg.norm(orb[:, None] - orb[None], axis=-1)
    near = np.min(dist[dist > 1e-12]) if len(orb) > 1 else 1
    if len(orb) < 2 or near < 1e-5:
        ctx.trivial()
        return
    ctx.label(f"{c['scale']:.0e}")
    k, order = s.realize_symmetric([p])
    match(k, orb, "images of a point near the origin")
    close(s.r_class_size([p]), np.array([float(len(orb))]), 1e-9, 0, "orbit size of a point near the origin")
    cl = s.find_classes(orb)
    require({int(a): set(int(x) for x in b) for a, b in cl.items()} == {0: set(range(len(orb)))}, f"classes of one orbit near the origin: {cl}")
    cl = s.find_classes(np.concatenate([[np.zeros(d)], orb]))
    require(len(cl) == 2, f"origin and an orbit near it give {len(cl)} classes")
    q2 = orb[-1] * (1 + 1e-4 / np.linalg.norm(p))
    cl = s.find_classes(np.array([p, q2]))
    require(len(cl) == 2, "two points at different distances from the origin are in one class")
    if c["scale"] >= 1e-3:
        opsT = np.swapaxes(ops, 1, 2)
        star = G.orbit(np.concatenate([opsT, -opsT]), p)
        nb = np.array(s.complete_neighbors([np.zeros(d), p]))
        require(len(nb) == 1 + len(star) // 2, f"{len(nb)} neighbours for a star of {len(star)} short vectors")
        match(np.concatenate([nb[1:], -nb[1:]]), star, "star of short neighbours")
    if np.max(np.abs(ops - np.round(ops))) < 1e-9:
        q = np.array(c["cen"], float) / 2 + p
        u = ops @ q - q
        want = 1 / np.sum(np.max(np.abs(u - np.round(u)), axis=1) < 1e-9)
        close(s.k_weight([q]), np.array([want]), 1e-9, 0, "weight of a k-point near a special point")


SUBS = [
    Sub("near_special", case_small(), check_small, quick=300, thorough=4000, shards=1),
    Sub("orbits", case_orbit(), check_orbit, quick=500, thorough=8000, shards=3),
    Sub("unit_cell", case_cell(), check_cell, quick=250, thorough=4000, shards=3),
    Sub("reduce", case_reduce(), check_reduce, quick=300, thorough=5000, shards=3),
    Sub("neighbours", case_star(), check_star, quick=400, thorough=6000, shards=3),
    Sub("functions", case_func(), check_func, quick=150, thorough=2000, shards=1),
    Sub("large", case_large(), check_large, quick=24, thorough=400, shards=2),
]
