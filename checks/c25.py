"""C25: tabulated high-symmetry points have the symmetry they are named for."""
import itertools
import numpy as np
from hypothesis import strategies as st
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel import kpaths as kp

RULE = "a lattice parameter other than the cubic special case"
ASSUMPTIONS = ["tables are compared with the reciprocal lattice built here from the conventional lattice vectors; c = 1 refers to the cubic table, of which only the body-centred points G, H, H1, N, P are judged",
               "trigonal angles between 5 and 115 degrees, axis ratios between 0.2 and 5, so that the searched lattice box contains every close reciprocal lattice point"]
BOX = np.array(list(itertools.product(range(-8, 9), repeat=3)))
# per point: least number of reciprocal lattice points at the same distance (1: centre, 2: face, 3: edge, 4+: corner), whether twice the point is a lattice point
HEX = {"G": (1, True), "A": (2, True), "K": (3, False), "H": (6, False), "M": (2, True), "L": (4, True)}
TET_LO = {"G": (1, 1), "X": (2, 1), "M": (4, 1), "N": (2, 1), "Z1": (5, 0), "Z": (5, 0), "P": (4, 0)}
TET_HI = {"G": (1, 1), "X": (2, 1), "M": (2, 1), "M2": (2, 1), "Z": (2, 1), "N": (2, 1), "N0": (2, 1), "N1": (2, 1), "Sig": (3, 0), "S0": (3, 0), "S": (3, 0), "Sig1": (3, 0), "S2": (3, 0),
          "R": (4, 0), "Y": (4, 0), "P": (4, 0), "Y1": (4, 0), "GG": (4, 0), "G0": (4, 0)}
TRI_LO = {"G": (1, 1), "Z": (2, 1), "L": (2, 1), "L1": (2, 1), "F": (2, 1), "X": (3, 0), "P": (3, 0), "P1": (3, 0), "P2": (3, 0), "Q": (3, 0), "B": (4, 0), "B1": (4, 0)}
TRI_HI = {"G": (1, 1), "X": (2, 1), "F": (2, 1), "F1": (2, 1), "L": (2, 1), "Z": (4, 0), "Q": (4, 0), "Q1": (4, 0), "P1": (3, 0), "P": (3, 0)}
CUB = {"fcc": (np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]).T / 2, {"G": 1, "X2": 2, "K": 3, "L": 2, "W": 4, "U": 3}),
       "sc": (np.eye(3), {"G": 1, "X": 2, "M": 4, "R": 8}),
       "bcc": (np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]).T / 2, {"G": 1, "H": 6, "H1": 6, "N": 2, "P": 4}),
       "square": (np.eye(2), {"G2d": 1, "X2d": 2, "X12d": 2, "M2d": 4}), "chain": (np.eye(1), {"G1d": 1, "X1d": 2})}
# lines on which points have to lie: name -> (direction or plane condition) checked for reflections that must fix the point


def judge(B, pts, expect, what):
    box = BOX if len(B) == 3 else np.array(list(itertools.product(range(-8, 9), repeat=len(B))))
    G = box @ B.T
    Bi = np.linalg.inv(B)
    require(set(pts) >= set(expect), lambda: f"{what}: missing points {set(expect) - set(pts)}")
    for n, ex in expect.items():
        cnt, trim = ex if isinstance(ex, tuple) else (ex, None)
        x = np.asarray(pts[n][0], float)
        require(x.shape == (len(B),), lambda: f"{what}: shape of {n}")
        d = np.linalg.norm(G - x, axis=1)
        l = np.linalg.norm(x)
        s = np.linalg.norm(B, axis=0).max()
        require(d.min() >= l - 1e-7 * s, lambda: f"{what}: {n}={x} is outside of the Brillouin zone (distance {l} to the centre, {d.min()} to another lattice point)")
        c = int((d < l + 1e-7 * s).sum())
        require(c >= cnt, lambda: f"{what}: {n}={x} has {c} equidistant lattice points instead of {cnt}")
        if cnt == 1:
            require(l == 0, f"{what}: {n} is not the centre")
        if trim is not None:
            t = 2 * Bi @ x
            require((np.max(np.abs(t - np.round(t))) < 1e-7) or not trim, lambda: f"{what}: 2*{n} is not a reciprocal lattice vector")
        require(isinstance(pts[n][1], str) and len(pts[n][1]) > 0, "label")


def hexa(c):
    r, h = c["r"], c["h"]
    B = np.array([[3**.5 / 2 * r, r / 2, 0], [0, r, 0], [0, 0, h]]).T
    return B, HEX


def tet(c):
    A = np.array([[-1, 1, c["c"]], [1, -1, c["c"]], [1, 1, -c["c"]]]).T / 2
    return np.linalg.inv(A).T, (TET_LO if c["c"] < 1 else TET_HI)


def tri(c):
    a = c["alpha"]
    s, co = (4 / 3)**.5 * np.sin(a / 2), ((1 + 2 * np.cos(a)) / 3)**.5
    # conventional rhombohedral vectors, mirror plane containing x (mirror_x=False) or y
    ph = (np.array([0, 120, 240]) + (90 if c["mirror"] else 0)) * np.pi / 180
    A = np.array([s * np.cos(ph), s * np.sin(ph), [co] * 3])
    return np.linalg.inv(A).T, (TRI_LO if a < np.pi / 2 else TRI_HI)


def near(draw, lo, hi, special):
    k = draw(st.integers(0, 9))
    if k < 2:
        return draw(st.sampled_from(special))
    u = draw(st.integers(0, 2**20)) * 0.6180339887498949 % 1.0
    if k < 4:
        s = draw(st.sampled_from(special))
        return min(max(s * (1 + (u - .5) * 1e-2), lo), hi)
    return lo * (hi / lo)**u


@st.composite
def s_tab(draw, kinds=("hex", "tet", "tet", "tri", "tri")):
    k = draw(st.sampled_from(kinds))
    if k == "hex":
        return {"t": k, "r": near(draw, .2, 5, [1., 2., 3**.5]), "h": near(draw, .2, 5, [1., .5, 1.633])}
    if k == "tet":
        c = near(draw, .2, 5, [.5, .999, 1.001, 2**.5, 2., 3.])
        return {"t": k, "c": c if abs(c - 1) > 1e-4 else 1.5}
    return {"t": k, "alpha": near(draw, np.pi / 36, np.pi * 115 / 180, [np.pi / 3, np.pi / 2, 1.0, 1.9, 109.4712206 * np.pi / 180]), "mirror": draw(st.booleans())}


def get(c):
    if c["t"] == "hex":
        return kp.hexagonal_points(c["r"], c["h"])
    if c["t"] == "tet":
        return kp.tetragonal_bc_points(c["c"])
    if c["t"] == "cub":
        return kp.tetragonal_bc_points(1)
    return kp.trigonal_points(c["alpha"], c["mirror"]) if c["mirror"] else kp.trigonal_points(c["alpha"])


def model(c):
    return {"hex": hexa, "tet": tet, "tri": tri}[c["t"]](c)


def t_zone(c, ctx):
    B, ex = model(c)
    pts = get(c)
    judge(B, pts, ex, str(c))
    require(set(pts) == set(ex), lambda: f"unexpected points {set(pts) - set(ex)}")
    ctx.label(c["t"] + ("" if c["t"] == "hex" else " low" if ex in (TET_LO, TRI_LO) else " high"))


def t_cubic(c, ctx):
    A, ex = CUB[c]
    judge(np.linalg.inv(A).T, kp.points, ex, c)
    if c == "bcc":
        judge(np.linalg.inv(A).T, kp.tetragonal_bc_points(1), ex, "tetragonal with c = 1")


# points of the same orbit or on the same axis keep their relations
def t_relations(c, ctx):
    p = {k: np.asarray(v[0], float) for k, v in get(c).items()}
    B, ex = model(c)
    Bi = np.linalg.inv(B)
    eq = lambda a, b, w: close(a, b, 1e-7 * np.linalg.norm(B), 0, w)
    if c["t"] == "hex":
        for x, y in (("G", "A"), ("K", "H"), ("M", "L")):
            eq(p[y] - p[x], np.array([0, 0, c["h"] / 2]), f"{y} is above {x}")
        n = 3 * Bi @ p["K"]
        require(np.max(np.abs(n - np.round(n))) < 1e-7, "3*K is not a reciprocal lattice vector")
        ang = np.degrees(np.arctan2(*p["M"][[1, 0]]) - np.arctan2(*p["K"][[1, 0]]))
        require(abs(abs(ang) - 30) < 1e-5, lambda: f"angle between K and M is {ang}")
    elif c["t"] == "tet":
        v = c["c"]
        if v < 1:
            require(np.all(np.abs(p["Z"][:2]) < 1e-7) and p["Z"][2] > 0, "Z is not on the tetragonal axis")
            eq(p["M"], np.array([1, 0, 0]), "M")
            n = Bi @ (p["Z"] - p["Z1"] * np.array([1, 1, -1]))
            require(np.max(np.abs(n - np.round(n))) < 1e-7, "Z and Z1 are not equivalent")
            eq(p["P"][:2], np.array([.5, .5]), "P is not above X")
        else:
            eq(p["M"], np.array([0, 0, 1 / v]), "M")
            for a, b in (("M2", "M"), ("S2", "S"), ("G0", "GG")):
                eq(p[a], p[b] * np.array([1, 1, -1]), f"{a} is the image of {b}")
            eq(p["Z"], p["M"], "Z")
            for a, b in (("S0", "Sig"), ("Sig1", "S"), ("Y", "R"), ("GG", "Y1")):
                eq(p[a], p[b], f"{a} and {b} are two names of one point")
            n = Bi @ (p["Sig"] + p["S"] * np.array([1, 1, -1]))
            require(abs(p["Sig"][1]) + abs(p["Sig"][2]) < 1e-7 and abs(p["S"][1]) < 1e-7, "Sigma is not on the x axis or S not above it")
            require(abs(p["P"][0] - .5) + abs(p["P"][1] - .5) < 1e-7 and p["P"][2] > 0, "P is not above X")
            require(abs(p["R"][0] - p["Sig"][0]) < 1e-7 and abs(p["R"][2]) < 1e-7, "R is not beside Sigma")
            require(abs(p["Y1"][0] - p["Y1"][1]) < 1e-7, "Y1 is not on the diagonal mirror plane")
            for a in ("S", "Y1"):
                require(abs(p[a][2] - 1 / v) < 1e-7, lambda: f"{a} is not in the plane of Z")
    else:
        m = np.diag([-1., 1, 1]) if c["mirror"] else np.diag([1., -1, 1])
        # the mirror maps the reciprocal lattice onto itself
        n = Bi @ m @ B
        require(np.max(np.abs(n - np.round(n))) < 1e-6, "harness: mirror")
        q = {k: np.asarray(v[0], float) for k, v in kp.trigonal_points(c["alpha"], not c["mirror"]).items()}
        for k in p:
            eq(p[k], q[k][[1, 0, 2]], f"{k} of the two alignments")
        lo = c["alpha"] < np.pi / 2
        fixed = (["Z"] if lo else ["Q", "L", "P1", "Q1"])
        for k in fixed:  # points on the mirror plane
            eq(m @ p[k], p[k], f"{k} is not on the mirror plane")
        on_axis = ["Z"] if lo else ["Q"]
        for k in on_axis:
            require(np.linalg.norm(p[k][:2]) < 1e-7 and p[k][2] > 0, lambda: f"{k} is not on the trigonal axis")
        if lo:
            u = p["X"] / np.linalg.norm(p["X"])
            require(abs(p["X"][2]) < 1e-7 and np.linalg.norm(m @ u + u) < 1e-6, "X is not on the two-fold axis")
            eq(p["P2"][:2] / np.linalg.norm(p["P2"][:2]), p["F"][:2] / np.linalg.norm(p["F"][:2]), "P2 is not in the plane of F")
    ctx.label(c["t"])


@st.composite
def s_hist(draw):
    n = draw(st.integers(2, 6))
    return [draw(st.one_of(s_tab(), st.just({"t": "cub"}))) for _ in range(n)]


def t_hist(cs, ctx):
    """tables depend only on their arguments, also after other tables were requested"""
    first = {k: (np.array(v[0], float), v[1]) for k, v in kp.points.items()}
    tabs = [get(c) for c in cs]
    snap = [{k: (np.array(v[0], float), v[1]) for k, v in t.items()} for t in tabs]

    def same(a, b, w):
        require(set(a) == set(b), lambda: f"{w}: names differ by {set(a) ^ set(b)}")
        for k in b:
            require(np.array_equal(np.asarray(a[k][0], float), b[k][0]) and a[k][1] == b[k][1], lambda: f"{w}: {k} is {a[k]} instead of {b[k]}")
    for c, t, s in zip(cs, tabs, snap):
        same(t, s, f"table of {c} after others were requested")
        again = get(c)
        same(again, s, f"second request of {c}")
        if c["t"] != "cub":  # a private copy: changing it changes nothing else
            again["G"] = (np.full(3, 7.), "?")
            again.pop("L", None)
            same(t, s, f"table of {c} after another copy was changed")
            same(get(c), s, f"third request of {c}")
        else:
            same(again, first, "cubic table")
    same(kp.points, first, "module table")
    ctx.label(*{c["t"] for c in cs})
    ctx.trivial(len({c["t"] for c in cs}) < 2)


def t_reject(c, ctx):
    raises((AssertionError, ValueError), lambda: kp.trigonal_points(c["a"]), "angle of at least 120 degrees")


SUBS = [Sub("zone", s_tab(), t_zone, 1500, 20000),
        Sub("relations", s_tab(), t_relations, 1500, 20000),
        Sub("cubic", st.sampled_from(sorted(CUB)), t_cubic, 5, 5, shards=1),
        Sub("history", s_hist(), t_hist, 800, 8000),
        Sub("reject", st.integers(0, 1000).map(lambda i: {"a": 2 * np.pi / 3 + i * 1e-3}), t_reject, 50, 500, shards=1)]
