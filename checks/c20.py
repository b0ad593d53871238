"""C20: Fermi-surface fields and meshes represent the zero set of E(k) - E_F."""
import os, tempfile, warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
import matplotlib.colors as mcolors
from mpl_toolkits.mplot3d import art3d
from scipy.spatial import cKDTree
from hypothesis import strategies as st
import gen, models, dosmodels as dm
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel import fermi_surface as fs

RULE = "at least one band crosses the Fermi energy on the grid"
ASSUMPTIONS = ["exported vertices are in units of the sampling grid (0..N-1 per axis), rounded to 4 decimals", "oracle: zeros of the piecewise linear interpolation along the grid edges; planes and spheres for the positions in k-space",
               "a band that only touches the Fermi energy on the grid does not cross it", "plots are checked through the artists of the figure, not through pixels"]


class Planes:
    """bands n_i.k - c_i, not sorted, many bands possible"""

    def __init__(self, v, b):
        v = np.array(v, float)
        self.n = np.resize(v[:37 * 3 // 3 * 3], (b, 3)) / 64 + [.1, 0, .3]
        self.c = np.resize(v[20:60] / 128, b) * .3
        self.calls = 0

    def __call__(self, k):
        return np.asarray(k) @ self.n.T - self.c


@st.composite
def s_model(draw, kinds=("tb", "cos", "gap", "planes", "planes", "bs", "asym")):
    return {"kind": draw(st.sampled_from(kinds)), "b": draw(st.sampled_from([1, 2, 3, 3, 12])), "v": draw(gen.i8(120))}


def make(c):
    k, b, v = c["kind"], c["b"], c["v"]
    if k == "planes":
        return Planes(v, b)
    b = min(b, 3)
    if k in ("bs", "asym"):
        w = np.array(v, float) / 64
        nb = gen.half_box(3, 1)[:5]
        H = (np.resize(w, (5, b, b)) + 1j * np.resize(w[7:], (5, b, b)))
        H[0] = gen.herm(H[0])
        return models.build(["asym", None, None] if k == "asym" else ["none", False, False], nb, H)
    return dm.PlainModel({"kind": k, "b": max(b, 2) if k == "gap" else b, "A": "id", "v": v})


def bands(m, k):
    k = np.asarray(k, float)
    return np.asarray(m(k.reshape(-1, 3))).reshape(k.shape[:-1] + (-1,))


def energy(m, v, k):
    """an energy inside, at or outside of the bands on the samples k"""
    e = np.sort(bands(m, k).ravel())
    a, b = v
    if a % 9 == 0:
        return float(e[(b * 7) % len(e)])
    if a % 23 == 1:
        return float(e[-1] + .1 if b % 2 else e[0] - .1)
    f = b / 270 + .5
    return float(e[0] + f * (e[-1] - e[0]))


def crossing(B, e):
    return [i for i in range(B.shape[-1]) if np.any(B[..., i] > e) and np.any(B[..., i] < e)]


# -------------------------------------------------------------------- field
@st.composite
def s_field(draw):
    return {"m": draw(s_model()), "sh": draw(st.sampled_from([[1], [7], [3, 4], [4, 4, 4], [2, 3, 5], [2, 2, 2, 3], [3000], [18, 18, 18]])), "k": draw(gen.i8(180)), "e": draw(gen.i8(2)), "lst": draw(st.booleans())}


def t_field(c, ctx):
    m = make(c["m"])
    ctx.label(c["m"]["kind"])
    sh = tuple(c["sh"])
    k = np.resize(np.array(c["k"], float) / 128 + np.arange(180) / 777, sh + (3,))
    B = bands(m, k)
    e = energy(m, c["e"], k)
    k0 = k.copy()
    vol, idx = fs.fermi_surface(m, e, k.tolist() if c["lst"] else k)
    require(np.array_equal(k, k0), "k-points modified")
    want = crossing(B, e)
    touch = {i for i in range(B.shape[-1]) if np.any(np.abs(B[..., i] - e) < 1e-10)}
    require([i for i in idx if i not in touch] == [i for i in want if i not in touch], f"bands {list(idx)} instead of {want} at {e}")
    require(len(vol) == len(idx) and list(idx) == sorted(set(idx)), f"bands {idx} are not in order, {len(vol)} fields")
    for v, i in zip(vol, idx):
        require(np.shape(v) == sh, f"shape {np.shape(v)} of the field for k-points {sh}")
        close(v, B[..., i] - e, 1e-9, 1e-12, f"field of band {i}")
        require(np.any(v > 0) and np.any(v < 0), "field without crossing")
    if not want:
        ctx.trivial()


# ------------------------------------------------------------------- export
@st.composite
def s_mesh(draw):
    return {"m": draw(s_model()), "N": draw(st.sampled_from([2, 3, 5, 6, 9, 21])), "r": draw(st.sampled_from([[-.5, .5], [0, 1.], [-1., 1.], [.1, .35]])), "e": draw(gen.i8(2)), "dir": draw(st.booleans()), "def": draw(st.booleans())}


def grid3(N, r):
    x = np.linspace(*r, N)
    return np.stack(np.meshgrid(x, x, x, indexing="ij"), -1)


def edge_zeros(V):
    """points of the grid edges where the linear interpolation of V changes its sign, in grid units"""
    out = []
    N = V.shape[0]
    for ax in range(3):
        a, b = np.moveaxis(V, ax, 0)[:-1], np.moveaxis(V, ax, 0)[1:]
        w = np.argwhere(((a > 0) & (b < 0)) | ((a < 0) & (b > 0)))
        for i, j, l in w:
            t = a[i, j, l] / (a[i, j, l] - b[i, j, l])
            p = [j, l]
            p.insert(ax, i + t)
            out.append(p)
    return np.array(out, float).reshape(-1, 3)


def trilinear(V, p):
    N = V.shape[0]
    i = np.clip(np.floor(p).astype(int), 0, N - 2)
    t = p - i
    r = 0
    for s in np.ndindex(2, 2, 2):
        s = np.array(s)
        r = r + V[tuple((i + s).T)] * np.prod(np.where(s, t, 1 - t), axis=-1)
    return r


def t_mesh(c, ctx):
    m = make(c["m"])
    ctx.label(c["m"]["kind"])
    N, r = c["N"], c["r"]
    default = c["def"] and N == 9
    if default:
        N, r = 32, [-.5, .5]
    k = grid3(N, r)
    B = bands(m, k)
    e = energy(m, c["e"], k)
    want = crossing(B, e)
    if any(np.any(np.abs(B[..., i] - e) < 1e-9) for i in range(B.shape[-1])):
        # zeros on grid points: only the structure of the file is decided
        exact = False
    else:
        exact = True
    with tempfile.TemporaryDirectory() as tmp:
        sub = os.path.join(tmp, "out")
        os.mkdir(sub)
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            name = "out/surf" if c["dir"] else "surf"
            if default:
                fs.export_3D_fermi_surface(name, m, e)
            else:
                fs.export_3D_fermi_surface(name, m, e, N=N, k_range=r)
            files = sorted(os.path.relpath(os.path.join(a, f), tmp) for a, _, fl in os.walk(tmp) for f in fl)
            require(files == [name + ".mtl", name + ".obj"], f"files {files}")
            obj = open(name + ".obj").read().splitlines()
            mtl = open(name + ".mtl").read().splitlines()
        finally:
            os.chdir(cwd)
    cols = {}
    for l in mtl:
        f = l.split()
        if f[:1] == ["newmtl"]:
            require(f[1] not in cols, "material defined twice")
            cols[f[1]] = None
            last = f[1]
        elif f[:1] == ["Kd"]:
            cols[last] = [float(x) for x in f[1:]]
    require(all(v is not None for v in cols.values()), "materials without color")
    verts, groups, libs, cur, mat = [], [], [], None, None
    for l in obj:
        f = l.split()
        if not f or f[0] in ("#", "o", "s"):
            continue
        if f[0] == "mtllib":
            libs.append(l[7:])
        elif f[0] == "g":
            cur = {"name": f[1], "v0": len(verts), "f": [], "mat": None}
            groups.append(cur)
        elif f[0] == "v":
            require(cur is not None and len(f) == 4, f"line {l}")
            verts.append([float(x) for x in f[1:]])
            cur["v1"] = len(verts)
        elif f[0] == "usemtl":
            require(f[1] in cols, f"material {f[1]} is not defined")
            cur["mat"] = f[1]
        elif f[0] == "f":
            require(cur["mat"] is not None, "faces without material")
            cur["f"].append([int(x) for x in f[1:]])
        else:
            fail(f"line {l}")
    require(libs == ["surf.mtl"], f"material library {libs}, next to the file")
    names = [g["name"] for g in groups]
    if exact:
        require(names == [f"Band{i}" for i in want], f"groups {names}, bands {want} cross")
    require(len({g["mat"] for g in groups}) == min(len(groups), len(cols)), "bands share a color")
    if not groups:
        require(not verts, "vertices without bands")
        ctx.trivial()
    verts = np.array(verts).reshape(-1, 3)
    for g in groups:
        i = int(g["name"][4:])
        V = B[..., i] - e
        F = np.array(g["f"])
        require(len(F) > 0 and F.shape[1] == 3, f"faces of {g['name']}: {F.shape}")
        require(F.min() >= g["v0"] + 1 and F.max() <= g["v1"], f"faces of {g['name']} use the vertices {F.min()}..{F.max()}, the band has {g['v0'] + 1}..{g['v1']}")
        p = verts[g["v0"]:g["v1"]]
        require(p.min() >= -1e-4 and p.max() <= N - 1 + 1e-4, f"vertices outside of the grid: {p.min()}..{p.max()}")
        require(len(np.unique(F)) == len(p), "vertices without faces")
        if not exact:
            continue
        z = edge_zeros(V)
        near = lambda a, b: cKDTree(b).query(a, p=np.inf)[0]
        d = near(z, p)
        require(d.max() < 2e-4, lambda: f"{g['name']}: zero {z[d.argmax()]} of a grid edge is {d.max()} away from the vertices")
        d = near(p, z)
        # additional vertices inside of cubes for ambiguous cases
        inner = p[d > 2e-4]
        require(len(inner) <= .3 * len(p) + 2, lambda: f"{g['name']}: {len(inner)} of {len(p)} vertices are not on the surface, e.g. {inner[0]}")
        for x in inner:
            o = np.clip(np.floor(x).astype(int), 0, N - 2)
            cube = V[o[0]:o[0] + 2, o[1]:o[1] + 2, o[2]:o[2] + 2]
            require(cube.min() < 0 < cube.max(), f"{g['name']}: vertex {x} is in a cube without surface")
        # closed surface: an edge is shared by an even number of faces, except on the boundary of the grid
        ed = {}
        for f in F - 1:
            for a, b in ((0, 1), (1, 2), (2, 0)):
                q = tuple(sorted((f[a], f[b])))
                ed[q] = ed.get(q, 0) + 1
        for (a, b), n in ed.items():
            if n == 1:
                on = [(abs(verts[a][t] - w) < 1e-4 and abs(verts[b][t] - w) < 1e-4) for t in range(3) for w in (0, N - 1)]
                require(any(on), f"{g['name']}: the surface has a hole at {verts[a]}")


# ------------------------------------------------------------------ 3D plot
@st.composite
def s_plot3(draw):
    return {"m": draw(s_model(kinds=("planes", "planes", "cos"))), "N": draw(st.sampled_from([4, 6, 9, 18])), "r": draw(st.sampled_from([[-.5, .5], [0, 1.], [-1., 1.], [.1, .35]])), "e": draw(gen.i8(2)), "fn": draw(st.booleans())}


def t_plot3(c, ctx):
    m = make(c["m"])
    ctx.label(c["m"]["kind"])
    N, r = c["N"], c["r"]
    k = grid3(N, r)
    B = bands(m, k)
    e = energy(m, c["e"], k)
    if np.any(np.abs(B - e) < 1e-9):
        e += 1.23e-7
    want = crossing(B, e)
    rec = []
    orig = art3d.Poly3DCollection

    class Rec(orig):
        def __init__(self, verts, *a, **kw):
            rec.append(np.array(verts, float))
            super().__init__(verts, *a, **kw)

    plt.close("all")
    art3d.Poly3DCollection = Rec
    try:
        r0 = list(r)
        if c["fn"]:
            fs.plot_3D_fermi_surface(m, e, N=N, k_range=r)
            ax = plt.gca()
        else:
            ax = plt.figure().add_subplot(111, projection="3d")
            fs.plot_3D_fermi_surface_to_ax(ax, m, e, N, r)
        require(r == r0, "k_range modified")
        close([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()], [r] * 3, 1e-9, 0, "limits of the plot")
    finally:
        art3d.Poly3DCollection = orig
        plt.close("all")
    if not want:
        require(not rec, "surface without crossing bands")
        ctx.trivial()
        return
    T = np.concatenate(rec)
    require(T.shape[1:] == (3, 3), f"triangles {T.shape}")
    ctr = T.mean(1)
    h = (r[1] - r[0]) / (N - 1)
    u = (ctr - r[0]) / h
    require(u.min() > -.05 and u.max() < N - 1 + .05, f"triangles outside of the grid: {u.min()}..{u.max()}")
    u = np.clip(u, 0, N - 1)
    if c["m"]["kind"] == "planes":
        d = np.abs((ctr @ m.n.T - m.c - e)[:, want]) / (np.linalg.norm(m.n, axis=1)[want] + 1e-12)
        require(np.all(d.min(1) < 1e-5 + 1e-2 * h), lambda: f"triangle at {ctr[d.min(1).argmax()]} is {d.min(1).max()} away from the planes, grid step {h}")
        for j, i in enumerate(want):
            require(d[:, j].min() < 1e-5 + 1e-2 * h, f"band {i} is missing in the plot")
    else:
        val = np.array([trilinear(B[..., i] - e, u) for i in want])
        o = np.clip(np.floor(u).astype(int), 0, N - 2)
        spread = np.array([np.max([np.abs(B[..., i] - e)[tuple((o + np.array(s)).T)] for s in np.ndindex(2, 2, 2)], axis=0) for i in want])
        ok = np.min(np.abs(val) - .7 * spread, axis=0)
        require(np.all(ok <= 1e-9), lambda: f"triangle at {ctr[ok.argmax()]} is not on the surface")
    # every cube with a surface of any band has a triangle of it, at least next to it
    for i in want:
        z = edge_zeros(B[..., i] - e)
        d = np.array([np.abs(u - x).max(1).min() for x in z[:40]])
        require(np.all(d < 1.1), f"no triangle near the surface of band {i}")


# ------------------------------------------------------------------ 2D plot
@st.composite
def s_plot2(draw):
    return {"m": [draw(s_model()) for _ in range(draw(st.sampled_from([1, 1, 2])))], "N": draw(st.sampled_from([4, 7, 12, 40])), "r": draw(st.sampled_from([[-.5, .5], [0, 1.], [.1, .6]])), "e": draw(gen.i8(2)),
            "z": draw(st.sampled_from([[0, .5], [.25], [-.1, .2, .3]])), "acc": draw(st.sampled_from([False, False, True])), "show": draw(st.booleans())}


def t_plot2(c, ctx):
    ms = [make(x) for x in c["m"]]
    N, r, z = c["N"], c["r"], c["z"]
    x = np.linspace(*r, N)
    kz = [np.stack(np.broadcast_arrays(x[:, None], x[None, :], v), -1) for v in z]
    e = energy(ms[0], c["e"], kz[0])
    if any(np.any(np.abs(bands(m, k) - e) < 1e-9) for m in ms for k in kz):
        e += 1.23e-7
    single = len(ms) == 1
    acc = c["acc"]
    det = acc and single and hasattr(ms[0], "f")
    ctx.label("det" if det else "bands")
    want = []
    for k in kz:
        w = []
        for j, m in enumerate(ms):
            B = bands(m, k)
            if det:
                V = np.prod(B - e, axis=-1)
                if np.any(V > 0) and np.any(V < 0):
                    w.append((V, "k", j))
            else:
                w += [(B[..., i] - e, f"C{n}", j) for n, i in enumerate(crossing(B, e))]
        want.append(w)
    got, shown = [], []

    def show():
        shown.append(1)
        got.append([(list(np.concatenate([p.vertices for p in s.get_paths()] or [np.zeros((0, 2))])), np.array(s.get_edgecolor())) for s in plt.gca().collections])
        require(np.allclose(plt.xlim(), r) and np.allclose(plt.ylim(), r), f"limits {plt.xlim()} {plt.ylim()}")
        plt.close("all")

    plt.close("all")
    z0, r0 = list(z), list(r)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            arg = ms[0] if single else ms
            if c["show"]:
                fs.plot_2D_fermi_surface(arg, e, z=z, N=N, show=show, k_range=r, accelerate=acc)
            else:
                for v in z:
                    fs.plot_2D_fermi_surface(arg, e, z=[v], N=N, show=False, k_range=r, accelerate=acc)
                    show()
    finally:
        plt.close("all")
    require(z == z0 and r == r0, "arguments modified")
    require(len(shown) == len(z), f"shown {len(shown)} times for {len(z)} cuts")
    for w, g, v in zip(want, got, z):
        require(len(g) == len(w), f"{len(g)} contours at z={v}, {len(w)} bands cross")
        for (V, col, j), (p, color) in zip(w, g):
            close(color[0], mcolors.to_rgba(col), 1e-9, 0, "color of the band")
            p = (np.array(p) - r[0]) / (r[1] - r[0]) * (N - 1)
            zs = []
            for ax in range(2):
                a, b = np.moveaxis(V, ax, 0)[:-1], np.moveaxis(V, ax, 0)[1:]
                for i, jj in np.argwhere(((a > 0) & (b < 0)) | ((a < 0) & (b > 0))):
                    q = [jj]
                    q.insert(ax, i + a[i, jj] / (a[i, jj] - b[i, jj]))
                    zs.append(q)
            zs = np.array(zs)
            require(len(p) >= len(zs) / 2, f"contour with {len(p)} points for {len(zs)} zeros")
            d = np.array([np.abs(zs - q).max(1).min() for q in p])
            require(d.max() < 1e-3, lambda: f"contour point {d.max()} grid steps beside the Fermi surface at z={v}")
            d = np.array([np.abs(p - q).max(1).min() for q in zs])
            require(d.max() < 1e-3, lambda: f"zero of the band is missing in the contour at z={v}")
    if not any(want):
        ctx.trivial()


SUBS = [
    Sub("field", s_field(), t_field, quick=300),
    Sub("export", s_mesh(), t_mesh, quick=150, shards=3),
    Sub("plot_3D", s_plot3(), t_plot3, quick=60, shards=2),
    Sub("plot_2D", s_plot2(), t_plot2, quick=100, shards=2),
]
