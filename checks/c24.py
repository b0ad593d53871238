"""C24: k-paths visit their points in order with consistent lengths and labels."""
import copy, re
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel import kpaths as kp
from tight_binding_redweasel.kpaths import KPath

RULE = "the path has at least two segments of nonzero length, or (plots) at least two bands and two corners"
ASSUMPTIONS = ["the exported text lists the points up to one common positive unit factor", "only exactly matching band sets fix the colours of a comparison plot"]
BY_DIM = {d: sorted(k for k, v in kp.points.items() if len(v[0]) == d) for d in (1, 2, 3)}
TABLE = {k: (np.array(v[0], float), v[1]) for k, v in kp.points.items()}
# independent table of the documented points, in units of 2 pi/a
REF = {"G": (0, 0, 0), "O": (0, 0, 0), "X2": (0, 1, 0), "K": (.75, .75, 0), "L": (.5, .5, .5), "W": (.5, 1, 0), "U": (.25, 1, .25), "X": (0, .5, 0),
       "M": (.5, .5, 0), "R": (.5, .5, .5), "H": (1, 0, 0), "H1": (0, 1, 0), "N": (.5, .5, 0), "P": (.5, .5, .5), "G2d": (0, 0), "X2d": (0, .5),
       "X12d": (.5, 0), "M2d": (.5, .5), "G1d": (0,), "X1d": (.5,)}
CONST = {"SC_PATH": "G X M G R X", "FCC_PATH": "G X2 W L G K", "BCC_PATH": "G H P G N P", "DIAMOND_PATH": "L G X2 U G K", "SC_PATH_2D": "G2d X2d M2d G2d", "PATH_1D": "G1d X1d"}
CONST_PATHS = {k: [np.array(p, float) for p in getattr(kp, k)] for k in CONST}


@st.composite
def point(draw, dim):
    k = draw(st.sampled_from(["name", "name", "tuple", "list", "array", "ints"]))
    if k == "name":
        return {"k": k, "n": draw(st.sampled_from(BY_DIM[dim] or ["G"]))}
    v = draw(gen.i8(dim))
    return {"k": k, "v": [x % 3 - 1 for x in v] if k == "ints" else [x / 64 if draw(st.booleans()) else x / 61 for x in v]}


@st.composite
def s_path(draw, max_seg=6):
    dim = draw(st.sampled_from([1, 2, 3, 3, 3, 4]))
    pt = lambda: draw(point(dim)) if dim < 4 else {"k": draw(st.sampled_from(["tuple", "list", "array"])), "v": [x / 64 for x in draw(gen.i8(4))]}
    n = draw(gen.often(st.integers(0, max_seg), [12, 25], 25)) if max_seg > 4 else draw(st.integers(0, max_seg))
    return {"dim": dim, "start": pt(), "sname": draw(st.sampled_from([None, None, "A", "Γ'"])), "custom": draw(st.integers(0, 3)) == 0,
            "seg": [{"p": pt(), "N": draw(st.sampled_from([None, None, 1, 2, 3, 5, 16, 33, 100, 1500])), "name": draw(st.sampled_from([None, None, None, "B", ""]))} for _ in range(n)],
            "bulk": draw(st.integers(0, n)), "rep": draw(st.integers(0, 4)) == 0}


def custom_table(dim):
    """a user table with the same names at other positions"""
    return {k: (v[0] * 0.75 + 0.125, v[1] + "*") for k, v in TABLE.items() if len(v[0]) == dim}


def spec(p, tab):
    """the object a user would pass, its coordinates"""
    if p["k"] == "name":
        return p["n"], tab[p["n"]][0]
    v = p["v"]
    return {"tuple": tuple, "list": list, "ints": tuple, "array": np.array}[p["k"]](v), np.array(v, float)


def name_of(p, tab, given):
    if given is not None:
        return given
    return tab[p["n"]][1] if p["k"] == "name" else None


def build(c):
    """construct the path and the expected corners, names, sample counts"""
    tab = TABLE if not c["custom"] else custom_table(c["dim"])
    kw = {"points": tab} if c["custom"] else {}
    if c["rep"] and c["seg"]:
        c = dict(c, seg=c["seg"] + [dict(c["seg"][-1])])
    s, sx = spec(c["start"], tab)
    corners, names, Ns = [sx], [name_of(c["start"], tab, c["sname"])], []
    bulk = min(c["bulk"], len(c["seg"]))
    objs = [spec(g["p"], tab) for g in c["seg"]]
    if bulk:
        lst = [s] + [o[0] for o in objs[:bulk]]
        path = KPath(lst if c["seg"][0]["N"] is None else tuple(lst), c["sname"], **kw)
    else:
        path = KPath(s, c["sname"], **kw)
    for i, (g, (o, x)) in enumerate(zip(c["seg"], objs)):
        if i < bulk:
            corners.append(x), names.append(name_of(g["p"], tab, None)), Ns.append(32)
            continue
        kk = {}
        if g["N"] is not None:
            kk["N"] = g["N"]
        if g["name"] is not None:
            kk["name"] = g["name"]
        r = path.to(o, **kk)
        require(r is path, ".to() does not return the path")
        corners.append(x), names.append(name_of(g["p"], tab, g["name"])), Ns.append(g["N"] or 32)
    return path, np.array(corners), names, Ns, objs


def tables_intact():
    require(set(kp.points) == set(TABLE), "the shared point table lost or gained names")
    for k, v in TABLE.items():
        require(np.array_equal(np.asarray(kp.points[k][0], float), v[0]) and kp.points[k][1] == v[1], lambda: f"shared table entry {k} changed")
    for k, v in CONST_PATHS.items():
        p = getattr(kp, k)
        require(len(p) == len(v) and all(np.array_equal(np.asarray(a, float), b) for a, b in zip(p, v)), lambda: f"predefined path {k} changed")


def expected_path(corners, Ns):
    out = [corners[0]]
    for a, b, n in zip(corners[:-1], corners[1:], Ns):
        for j in range(n):
            out.append(a + (b - a) * ((j + 1) / n))
    return np.array(out)


def t_path(c, ctx):
    path, corners, names, Ns, objs = build(c)
    E = expected_path(corners, Ns)
    require(path.dim() == c["dim"], "dim()")
    require(len(path) == len(E), lambda: f"path has {len(path)} points instead of {len(E)}")
    P = np.array(list(path), dtype=float)
    close(P, E, 1e-13, 1e-13, "points of the path")
    close(np.array([path[i] for i in range(len(path))], float), P, 0, 0, "indexing")
    close(np.array(path[1:-1], float).reshape(-1, c["dim"]), P[1:-1], 0, 0, "slicing")
    close(np.array(path[-1], float), corners[-1], 1e-13, 0, "last point")
    idx = list(np.cumsum([0] + Ns))
    require([int(i) for i in path.indices] == idx, lambda: f"corner indices {path.indices} instead of {idx}")
    x = np.array(path.x(), float)
    step = np.linalg.norm(np.diff(E, axis=0), axis=1)
    close(x, np.concatenate([[0], np.cumsum(step)]), 1e-11, 1e-12, "path coordinate")
    require(np.all(np.diff(x) >= 0), "path coordinate decreases")
    sx = np.array(path.sym_x(), float)
    close(sx, x[idx], 1e-11, 1e-12, "coordinates of the corners")
    close(np.diff(sx), np.linalg.norm(np.diff(corners, axis=0), axis=1), 1e-11, 1e-11, "length of the segments")
    nm = path.sym_x_names()
    require(len(nm) == len(corners), "number of names")
    for a, b, X in zip(nm, names, corners):
        if b is not None:
            require(a == b, lambda: f"name {a!r} instead of {b!r}")
        else:  # explicit points are labelled by their coordinates
            v = np.array([float(t) for t in re.findall(r"[-+]?\d*\.?\d+(?:[eE][-+]?\d+)?", a)])
            close(v, X, 6e-4, 0, f"coordinates in the label {a!r}")
    if c["dim"] == 3 and len(path) < 200:
        lines = str(path).strip().split("\n")
        require(lines[0].startswith("K_POINTS") and int(lines[1]) == len(path) and len(lines) == len(path) + 2, "exported header or number of points")
        V = np.array([[float(t) for t in l.split()] for l in lines[2:]])
        require(V.shape == (len(path), 4) and np.all(V[:, 3] > 0), "exported rows")
        n2 = np.sum(E * E)
        f = np.sum(V[:, :3] * E) / n2 if n2 > 0 else 1.0
        require(f > 0, "exported points are mirrored")
        close(V[:, :3], f * E, 1e-12, 1e-9, "exported points are not the path up to a unit factor")
    tables_intact()
    ctx.label(f"dim {c['dim']}", "bulk" if c["bulk"] else "chained", "custom table" if c["custom"] else "default table")
    ctx.trivial(np.sum(np.linalg.norm(np.diff(corners, axis=0), axis=1) > 0) < 2)


# ------------------------------------------------ interchangeable specifications
@st.composite
def s_equiv(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    n = draw(st.integers(1, 5))
    return {"dim": dim, "names": [draw(st.sampled_from(BY_DIM[dim])) for _ in range(n)], "how": draw(st.lists(st.sampled_from(["name", "tuple", "list", "array", "own"]), min_size=n, max_size=n)),
            "N": draw(st.sampled_from([None, 1, 7])), "bulk": draw(st.sampled_from(["chain", "list", "tuple"]))}


def t_equiv(c, ctx):
    """names, tuples, lists and arrays of the same coordinates give the same path"""
    ref = np.array([REF[n] for n in c["names"]], float)
    for n in c["names"]:
        close(TABLE[n][0], np.array(REF[n], float), 0, 0, f"position of the named point {n}")
    def obj(n, how):
        v = REF[n]
        return {"name": n, "tuple": tuple(v), "list": list(v), "array": np.array(v), "own": np.array(v, float)}[how]
    objs = [obj(n, h) for n, h in zip(c["names"], c["how"])]
    keep = copy.deepcopy(objs)
    if c["bulk"] == "chain":
        p = KPath(objs[0])
        for o in objs[1:]:
            p.to(o) if c["N"] is None else p.to(o, N=c["N"])
        N = c["N"] or 32
    else:
        p = KPath(objs if c["bulk"] == "list" else tuple(objs))
        N = 32
    close(np.array(list(p), float), expected_path(ref, [N] * (len(ref) - 1)), 1e-13, 0, f"path of {objs}")
    for a, b in zip(objs, keep):
        require(np.array_equal(a, b), "the given points were modified")
    tables_intact()
    ctx.label(c["bulk"])
    ctx.trivial(len(set(c["how"])) < 2 or len(objs) < 2)


def t_const(c, ctx):
    for k, names in CONST.items():
        p = getattr(kp, k)
        ref = np.array([REF[n] for n in names.split()], float)
        N = 100 if k == "PATH_1D" else 32
        close(np.array(list(p), float), expected_path(ref, [N] * (len(ref) - 1)), 1e-13, 0, k)
        require(p.sym_x_names() == [TABLE[n][1] for n in names.split()], lambda: f"names of {k}")


# --------------------------------------------------------------- histories
@st.composite
def s_hist(draw):
    ops = st.one_of(st.tuples(st.just("new"), st.integers(0, 9)), st.tuples(st.just("to"), st.integers(0, 2), st.integers(0, 9)), st.tuples(st.just("read"), st.integers(0, 2)),
                    st.tuples(st.just("tab"), st.sampled_from(["hex", "tet", "tet1", "tri"]), st.integers(0, 5)))
    return [list(o) for o in draw(st.lists(ops, min_size=3, max_size=14))]


def t_hist(ops, ctx):
    """several paths and tables in one program: nothing influences anything else"""
    paths, n = {}, 0
    names = BY_DIM[3]
    for op in ops:
        if op[0] == "new":
            nm = names[op[1] % len(names)]
            paths[n % 3] = (KPath(nm), [TABLE[nm][0]], [TABLE[nm][1]])
            n += 1
        elif op[0] == "to" and op[1] in paths:
            nm = names[op[2] % len(names)]
            p, cs, ns = paths[op[1]]
            p.to(nm, N=4)
            cs.append(TABLE[nm][0])
            ns.append(TABLE[nm][1])
        elif op[0] == "read" and op[1] in paths:
            p = paths[op[1]][0]
            p.x(), p.sym_x(), str(p), list(p), p.sym_x_names(), p.dim()
        elif op[0] == "tab":
            if op[1] == "hex":
                kp.hexagonal_points(1 + op[2], 2.0)
            elif op[1] == "tri":
                kp.trigonal_points(0.5 + 0.3 * op[2])
            else:
                kp.tetragonal_bc_points(1 if op[1] == "tet1" else 0.5 + 0.3 * op[2])
        for p, cs, ns in paths.values():
            close(np.array(list(p), float), expected_path(np.array(cs), [4] * (len(cs) - 1)), 1e-13, 0, "a path changed")
            require(p.sym_x_names() == ns, "names of a path changed")
        tables_intact()
    for nm in names:  # names still mean the same for new paths
        close(np.array(KPath(nm).path[0], float), np.array(REF[nm], float), 0, 0, f"new path at {nm}")
        close(np.array(KPath("G").to(nm, N=1).path[1], float), np.array(REF[nm], float), 0, 0, f"new path to {nm}")
    ctx.label("tables" if any(o[0] == "tab" for o in ops) else "paths only")
    ctx.trivial(len(paths) < 2 or n < 2)


# --------------------------------------------------------------- errors
@st.composite
def s_bad(draw):
    return {"d1": draw(st.integers(1, 4)), "d2": draw(st.integers(1, 4)), "kind": draw(st.sampled_from(["dim", "dim", "name", "bulk"])), "n": draw(st.integers(0, 3))}


def t_bad(c, ctx):
    p = KPath(np.zeros(c["d1"]))
    for i in range(c["n"]):
        p.to(np.ones(c["d1"]) * i, N=2)
    if c["kind"] == "name":
        raises((KeyError, ValueError, AssertionError), lambda: p.to("no such point"), "unknown name")
        raises((KeyError, ValueError, AssertionError), lambda: KPath("no such point"), "unknown name")
        return
    if c["d1"] == c["d2"]:
        raise Skip()
    if c["kind"] == "dim":
        raises((AssertionError, ValueError), lambda: p.to(np.zeros(c["d2"])), "point of another dimension")
    else:
        raises((AssertionError, ValueError), lambda: KPath([tuple(np.zeros(c["d1"])), tuple(np.zeros(c["d2"]))]), "point of another dimension")
    close(np.array(p.path, float)[0], np.zeros(c["d1"]), 0, 0, "path after the rejected point")
    require(len(p) == 1 + 2 * c["n"], "points were added by a rejected call")


# --------------------------------------------------------------- plots
@st.composite
def s_plot(draw):
    nb = draw(st.integers(1, 8))
    return {"path": draw(s_path(4)), "nb": nb, "e": draw(gen.i8(nb)), "s": draw(gen.i8(nb)), "off": draw(st.integers(0, 12)), "lab": draw(st.sampled_from([None, "", "left", "right"])), "ylim": draw(st.sampled_from([None, [-3.5, 4.25]])),
            "deg": draw(st.integers(0, 2)) == 0, "sub": [draw(st.integers(0, 7)), draw(st.integers(1, 8))], "cmp": draw(st.booleans()), "win": draw(st.booleans())}


def mpl():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    return plt


def lines_of(fig, n):
    """plotted lines with n points that are not vertical lines or empty"""
    return [(l, ax) for ax in fig.axes for l in ax.get_lines() if len(l.get_xdata()) == n and not (len(set(np.asarray(l.get_xdata(), float))) == 1 and list(l.get_ydata()) == [0, 1])]


def parse_label(s):
    out = []
    for t in s.split(","):
        a = t.split("-")
        out += list(range(int(a[0]), int(a[-1]) + 1))
    return out


def t_plot(c, ctx):
    plt = mpl()
    from matplotlib.colors import to_rgba
    path, corners, names, Ns, _ = build(c["path"])
    if len(path) < 3 or path.x()[-1] == 0:
        raise Skip()
    e0 = np.array(c["e"], float) / 16 * (0 if c["deg"] else 1) + (np.round(np.array(c["e"]) / 64) if c["deg"] else 0)
    sl = np.array(c["s"], float) / 128
    w = np.arange(1, c["path"]["dim"] + 1) * 0.3
    args = []

    def func(k):
        k = np.asarray(k)
        args.append(np.array(k, copy=True))
        return e0 + np.outer(np.sin(k @ w) ** 2, sl)
    fig = plt.figure(figsize=(4, 3))
    try:
        cyc = plt.rcParams["axes.prop_cycle"].by_key()["color"]
        x = np.array(path.x())
        if c["cmp"]:
            # the model has the bands w1 of the full list, the reference the bands w2, they share at least one band
            nb = c["nb"]
            a = c["sub"][0] % nb
            e = min(nb, a + c["sub"][1])
            if c["win"]:
                w1, w2 = (a, nb), (0, e)
                if c["deg"]:
                    w1, w2 = w2, w1
            else:
                w1, w2 = ((a, e), (0, nb)) if c["deg"] else ((0, nb), (a, e))
            f1, f2 = [lambda k, w=w: func(k)[:, w[0]:w[1]] for w in (w1, w2)]
            e1, e2 = [f(np.array(path[:1], float))[0] for f in (f1, f2)]
            # only unambiguous when no other shift fits equally well
            fits = []
            for i in range(1 - len(e2), len(e1)):
                aa, bb = e1[max(i, 0):], e2[max(-i, 0):]
                k = min(len(aa), len(bb))
                fits.append(np.linalg.norm(aa[:k] - bb[:k]))
            if sum(f < 1e-3 for f in fits) != 1:
                raise Skip()
            path.plot_comparison(f1, f2, label_bands=c["lab"], ylim=c["ylim"])
            L = lines_of(fig, len(path))
            P = np.array(list(path), float)
            A, B = f1(P), f2(P)
            require(len(L) == A.shape[1] + B.shape[1], lambda: f"{len(L)} lines for {A.shape[1]}+{B.shape[1]} bands")
            solid = [l for l, _ in L if l.get_linestyle() == "-"]
            dash = [l for l, _ in L if l.get_linestyle() == "--"]
            require(len(solid) == A.shape[1] and len(dash) == B.shape[1], "line styles of model and reference")
            for i, l in enumerate(solid):
                close(np.asarray(l.get_ydata(), float), A[:, i], 1e-12, 1e-12, f"model band {i}")
            for i, l in enumerate(dash):
                close(np.asarray(l.get_ydata(), float), B[:, i], 1e-12, 1e-12, f"reference band {i}")
                close(np.asarray(l.get_xdata(), float), x, 1e-12, 1e-12, "path coordinate")
            for b in range(max(w1[0], w2[0]), min(w1[1], w2[1])):
                require(to_rgba(solid[b - w1[0]].get_color()) == to_rgba(dash[b - w2[0]].get_color()),
                        lambda: f"equal bands {b - w1[0]} and {b - w2[0]} have different colours (bands {w1} and {w2})")
            ctx.label("comparison", "overlapping windows" if c["win"] else "more in reference" if c["deg"] else "more in model")
            ctx.trivial(c["nb"] < 2 or len(corners) < 3)
            return
        r = path.plot(func, band_offset=c["off"], label_bands=c["lab"], ylim=c["ylim"])
        P = np.array(list(path), float)
        E = func(P)
        close(args[0], P, 0, 0, "the function is evaluated at the points of the path")
        L = lines_of(fig, len(path))
        require(len(L) == c["nb"], lambda: f"{len(L)} lines for {c['nb']} bands")
        for i, (l, _) in enumerate(L):
            close(np.asarray(l.get_xdata(), float), x, 1e-12, 1e-12, "plotted x")
            close(np.asarray(l.get_ydata(), float), E[:, i], 1e-12, 1e-12, f"plotted band {i}")
            require(to_rgba(l.get_color()) == to_rgba(cyc[(i + c["off"]) % len(cyc)]), lambda: f"colour of band {i} with offset {c['off']}")
        ax = r[0] if r is not None else fig.axes[0]
        found = fig.axes
        if np.all(np.diff(path.sym_x()) > 1e-9):  # matplotlib shows one label per position
            found = [a for a in fig.axes if [t.get_text() for t in a.get_xticklabels()] == list(path.sym_x_names())]
        require(len(found) > 0, "corner names are not on the x axis")
        close(np.array(found[0].get_xticks(), float), np.array(path.sym_x(), float), 1e-12, 1e-12, "position of the corner names")
        close(np.array(found[0].get_xlim()), x[[0, -1]], 1e-12, 1e-12, "x limits")
        v = sorted({float(l.get_xdata()[0]) for a in fig.axes for l in a.get_lines() if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1] and list(l.get_ydata()) == [0, 1]})
        inner = sorted(set(float(t) for t in path.sym_x()[1:-1]))
        close(np.array(v), np.array(inner), 1e-12, 1e-12, "vertical lines at the inner corners")
        if c["lab"] in ("left", "right"):
            require(r is not None and len(r) == 2, "axes are not returned")
            yl = c["ylim"] if c["ylim"] is not None else [E.min() - .1, E.max() + .1]
            for a in fig.axes:
                close(np.array(a.get_ylim()), np.array(yl, float), 1e-9, 1e-9, "y limits")
            edge = E[0 if c["lab"] == "left" else -1]
            size = 8 * (yl[1] - yl[0]) / 3 * 0.15
            got = {}
            lab_ax = r[0] if c["lab"] == "left" else r[1]
            for pos, t in zip(lab_ax.get_yticks(), [t.get_text() for t in lab_ax.get_yticklabels()]):
                for i in parse_label(t):
                    require(i not in got, lambda: f"band {i} is labelled twice")
                    got[i] = pos
            require(sorted(got) == list(range(c["nb"])), lambda: f"labelled bands {sorted(got)} of {c['nb']}")
            for i, pos in got.items():
                require(abs(pos - edge[i]) <= 0.06 * size + 1e-9, lambda: f"label of band {i} is at {pos} instead of {edge[i]}")
        elif c["ylim"] is not None:
            close(np.array(fig.axes[0].get_ylim()), np.array(c["ylim"]), 1e-12, 1e-12, "y limits")
        ctx.label("plot", c["lab"] or "no labels")
        ctx.trivial(c["nb"] < 2 or len(corners) < 3)
    finally:
        plt.close(fig)


SUBS = [Sub("path", s_path(), t_path, 2500, 40000, shards=3),
        Sub("equiv", s_equiv(), t_equiv, 2000, 20000),
        Sub("const", st.just(0), t_const, 1, 1, shards=1),
        Sub("history", s_hist(), t_hist, 600, 6000),
        Sub("bad", s_bad(), t_bad, 300, 2000, shards=1),
        Sub("plot", s_plot(), t_plot, 700, 6000, shards=6)]
