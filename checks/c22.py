"""C22: loss functions measure the stated distance between band sets."""
import contextlib, io, itertools, re
import numpy as np
from hypothesis import strategies as st
import gen, models
from core import Sub, close, require, Skip
from tight_binding_redweasel import loss as L
from tight_binding_redweasel.logger import OptimisationLogger
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.symmetry import Symmetry

RULE = "bands and reference differ, and for window and histogram at least one reference energy counts"
ASSUMPTIONS = ["histograms need at least two bins and overlapping energy ranges; reference energies within rounding of a bin edge may belong to either bin",
               "bands are the first axis' k-points in the same order in both arrays; the mean is over k-points, the sum over bands"]


@st.composite
def s_bands(draw, mis="both"):
    nb = draw(st.integers(1, 4))
    nr = draw(st.integers(1, 4))
    if mis == "model":
        nb = nr + draw(st.integers(0, 3))
    n = draw(st.sampled_from([1, 2, 3, 5, 8]))
    return {"nb": nb, "nr": nr, "n": n, "v": draw(gen.nums(n * (nb + nr), modes=("dense", "dense", "small", "big", "tiny"))), "w": draw(gen.i8(4)), "eq": draw(st.integers(0, 5)) == 0, "shift": draw(st.sampled_from([0., 0., 0., 40., -1000.])), "off": draw(st.integers(0, 3)), "sort": draw(st.integers(0, 3)) > 0}


def dec(c):
    v = gen.dec(c["v"])
    n, nb, nr = c["n"], c["nb"], c["nr"]
    B, R = v[:n * nb].reshape(n, nb) + c["shift"], v[n * nb:].reshape(n, nr)
    B = np.sort(B, axis=-1) if c["sort"] else B
    R = np.sort(R, axis=-1) if c["sort"] else R
    if c["eq"]:  # parts of the model are exactly the reference
        m = min(nb, nr)
        ob, orf = c["off"] % (nb - m + 1), c["off"] % (nr - m + 1)
        B = B.copy()
        B[:, ob:ob + m] = R[:, orf:orf + m]
    w = np.abs(np.array(c["w"][:nr], float)) / 64
    return B, R, w


def freeze(*a):
    return [np.array(x, copy=True) for x in a]


def same(old, new):
    for o, x in zip(old, new):
        require(np.array_equal(o, x), "the loss function modified its input")


# --------------------------------------------------------------- loss, error
def t_loss(c, ctx):
    B, R, w = dec(c)
    off = c["off"] % (c["nb"] - c["nr"] + 1)
    old = freeze(B, R, w)
    wl = w.tolist() if c["w"][0] % 2 else w
    l = L.model_loss(B, R, wl, off)
    e, mx = L.model_error(B, R, wl, off)
    same(old, (B, R, w))
    s, m = 0.0, [0.0] * c["nr"]
    for i in range(c["n"]):
        for j in range(c["nr"]):
            d = B[i, off + j] - R[i, j]
            s += (d * w[j]) ** 2
            m[j] = max(m[j], abs(d))
    s = (s / c["n"]) ** .5
    close(l, s, 1e-12, 1e-12, "loss")
    close(e, s, 1e-12, 1e-12, "loss of model_error")
    close(mx, m, 1e-13, 1e-13, "maximal errors per band")
    require((l == 0) == (not np.any((B[:, off:off + c["nr"]] - R) * w)), f"loss {l} although the bands are {'equal' if l else 'different'}")
    # metric relations: repeated k-points, order of k-points, scale
    close(L.model_loss(np.tile(B, (3, 1)), np.tile(R, (3, 1)), wl, off), s, 1e-12, 1e-12, "loss of repeated k-points")
    close(L.model_loss(2 * B, 2 * R, wl, off), 2 * s, 1e-12, 1e-12, "loss of scaled bands")
    if s == 0:
        ctx.trivial()


# ------------------------------------------------------------------ windowed
@st.composite
def s_win(draw):
    return {"b": draw(s_bands()), "win": draw(st.lists(st.integers(-140, 140), min_size=2, max_size=2)), "inf": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "edge": draw(st.booleans()), "skip": draw(st.booleans())}


def t_win(c, ctx):
    B, R, _ = dec(c["b"])
    n, nb, nr = c["b"]["n"], c["b"]["nb"], c["b"]["nr"]
    lo, hi = sorted(np.array(c["win"]) / 64 * max(np.max(np.abs(R)) / 2, .1))
    if c["edge"]:  # limits at reference energies belong to the window
        lo, hi = sorted([R.ravel()[c["win"][0] % R.size], R.ravel()[c["win"][1] % R.size]])
    if c["inf"] & 1:
        lo = -np.inf
    if c["inf"] & 2:
        hi = np.inf
    old = freeze(B, R)
    l = L.model_windowed_loss(B, R, lo, hi, allow_skipped_bands=c["skip"])
    if not c["skip"]:
        close(L.model_windowed_loss(B, R, lo, hi), l, 1e-14, 1e-14, "default of allow_skipped_bands")
    same(old, (B, R))
    if c["skip"]:
        s = 0
        for i in range(n):
            r = [x for x in R[i] if lo <= x <= hi]
            if len(r) <= nb:
                s += min(sum((x - y) ** 2 for x, y in zip(r, p)) for p in itertools.permutations(B[i], len(r)))
            else:
                s += min(sum((x - y) ** 2 for x, y in zip(p, B[i])) for p in itertools.permutations(r, nb))
    else:
        m = min(nb, nr)
        best = []
        for o in range(max(nb, nr) - m + 1):
            ob, orf = (o, 0) if nb > nr else (0, o)
            best.append(sum((B[i, ob + j] - R[i, orf + j]) ** 2 for i in range(n) for j in range(m) if lo <= R[i, orf + j] <= hi))
        s = min(best)
    close(l, (s / n) ** .5, 1e-12, 1e-12, "windowed loss")
    ctx.label("more bands" if nb > nr else "more reference" if nb < nr else "equal")
    if not np.any((R >= lo) & (R <= hi)) or s == 0:
        ctx.trivial()


# ----------------------------------------------------------------- histogram
@st.composite
def s_hist(draw):
    return {"b": draw(s_bands()), "N": draw(st.sampled_from([2, 3, 7, 50, None])), "skip": draw(st.booleans())}


def t_hist(c, ctx):
    cb = dict(c["b"], shift=0.)
    B, R, _ = dec(cb)
    n, nb, nr = cb["n"], cb["nb"], cb["nr"]
    a, b = max(B.min(), R.min()), min(B.max(), R.max())
    if not b - a > 1e-9:
        raise Skip()
    old = freeze(B, R)
    kw = {} if c["N"] is None else {"N": c["N"]}
    x, h = L.model_error_hist(B, R, allow_skipped_bands=c["skip"], **kw)
    same(old, (B, R))
    N = c["N"] or 50
    require(np.shape(x) == (N,) and np.shape(h) == (N,), f"{np.shape(x)} bins instead of {N}")
    close(x, a + (b - a) * np.arange(N) / (N - 1), 1e-12, 1e-12, "bin centres")
    dx = (b - a) / (N - 1)
    m = min(nb, nr)
    pairs = []  # (reference energy, error)
    if c["skip"]:
        for i in range(n):
            if nr <= nb:
                cands = [list(zip(R[i], p)) for p in itertools.permutations(B[i], nr)]
            else:
                cands = [list(zip(p, B[i])) for p in itertools.permutations(R[i], nb)]
            cost = np.array([sum(abs(x_ - y) for x_, y in q) for q in cands])
            q = cands[int(np.argmin(cost))]
            # another assignment of the same cost with other errors is just as good
            for j in np.flatnonzero(cost < cost.min() + 1e-9):
                if sorted(np.round([abs(u - v) for u, v in cands[j]], 9)) != sorted(np.round([abs(u - v) for u, v in q], 9)) or sorted(np.round([(u, abs(u - v)) for u, v in cands[j]], 9).tolist()) != sorted(np.round([(u, abs(u - v)) for u, v in q], 9).tolist()):
                    raise Skip()
            pairs += [(u, abs(u - v)) for u, v in q]
    else:
        cost, cand = [], []
        for o in range(max(nb, nr) - m + 1):
            ob, orf = (o, 0) if nb > nr else (0, o)
            p = [(R[i, orf + j], abs(B[i, ob + j] - R[i, orf + j])) for i in range(n) for j in range(m)]
            cost.append(sum(q[1] ** 2 for q in p) ** .5)
            cand.append(p)
        if len(cost) > 1 and np.sort(cost)[1] - np.sort(cost)[0] < 1e-9:
            raise Skip()
        pairs = cand[int(np.argmin(cost))]
    for i in range(N):
        inner = max([e for r, e in pairs if abs(r - x[i]) <= dx / 2 - 1e-9] + [0])
        outer = max([e for r, e in pairs if abs(r - x[i]) <= dx / 2 + 1e-9] + [0])
        require(inner - 1e-12 <= h[i] <= outer + 1e-12, lambda: f"error {h[i]} in the bin at {x[i]} of width {dx}, the largest error there is {inner}..{outer}")
    if N in (2, 3) and (a * 1024) % 1 == 0 and (b * 1024) % 1 == 0:
        # energies exactly on the border of two bins (everything here is exact): at least one of them counts it
        for r, e in pairs:
            near = [i for i in range(N) if abs(r - x[i]) == dx / 2]
            if len(near) == 2:
                ctx.label("border")
                require(max(h[i] for i in near) >= e - 1e-12, lambda: f"the error {e} at {r} is missing in both bins {x[near]} of width {dx}: {h}")
    if not np.any(h):
        ctx.trivial()


# -------------------------------------------------------------- entry points
@st.composite
def s_entry(draw):
    return {"t": draw(gen.tb(max_b=4, max_n=3)), "lay": draw(st.sampled_from(models.LAYOUTS + [("tbm", None, None)])), "nr": draw(st.integers(1, 4)), "off": draw(st.integers(0, 3)), "n": draw(st.sampled_from([1, 2, 5])), "k": draw(gen.i8(15)), "r": draw(gen.i8(20)), "w": draw(gen.i8(4)), "win": draw(st.lists(st.integers(-90, 90), min_size=2, max_size=2)), "skip": draw(st.booleans())}


def t_entry(c, ctx):
    nb, H = gen.dec_tb(c["t"])
    dim, b = c["t"]["dim"], c["t"]["b"]
    lay = list(c["lay"])
    if lay[0] == "inv" and dim == 2:
        lay[0] = "none"  # in 2D, inv() lists -1 as an operation
    ctx.label(lay[0])
    if lay[0] == "tbm":
        m = TightBindingModel(UnitaryRepresentation(Symmetry.none(dim), b), nb, None)
        m.set_from_complex(H)
    else:
        m = models.build(lay, nb, models.restrict(lay, H))
    k = np.resize(np.array(c["k"], float) / 61, (c["n"], dim)) + np.arange(c["n"])[:, None] / 13
    nr = min(c["nr"], b)
    off = c["off"] % (b - nr + 1)
    R = np.resize(np.array(c["r"], float) / 64, (c["n"], nr)) + np.arange(c["n"])[:, None] / 7
    w = np.abs(np.array(c["w"][:nr], float)) / 32 + .01
    B = np.linalg.eigvalsh(gen.series(k, nb, models.restrict(lay, H)))
    old = freeze(k, R, w)
    par = np.array(m.params if hasattr(m, "params") else m.H.H_r, copy=True)
    s = (np.sum(((B[:, off:off + nr] - R) * w) ** 2) / c["n"]) ** .5
    mx = np.max(np.abs(B[:, off:off + nr] - R), axis=0)
    close(m.loss(k, R, w, off), s, 1e-9, 1e-9, "loss")
    l, e = m.error(k, R, w, off)
    close(l, s, 1e-9, 1e-9, "loss of error")
    close(e, mx, 1e-9, 1e-9, "maximal errors")
    lo, hi = sorted(np.array(c["win"]) / 32)
    want = L.model_windowed_loss(m.bands(k), R, lo, hi, c["skip"])
    close(m.windowed_loss(k, R, lo, hi, allow_skipped_bands=c["skip"]), want, 1e-10, 1e-10, "windowed_loss")
    if lay[0] != "tbm":
        out = io.StringIO()
        sw = c["w"][0] % 3
        with contextlib.redirect_stdout(out):
            if sw == 0:  # one weight for all bands
                m.print_error(k, R, 2.5, off, prefix="P-")
            else:
                m.print_error(k, R, w, off, "P-")
        wn = np.ones(nr) if sw == 0 else w / np.mean(w)
        log = OptimisationLogger(print_loss=False, verbose=False)
        m.print_error(k, R, 2.5 if sw == 0 else w, off, "P-", log)
        txt = out.getvalue().strip()
        require(log.stream == [txt], lambda: f"log {log.stream} differs from the printed {txt!r}")
        q = re.match(r"P-loss: (\S+) \(max band-error \[(.*)\]\)$", txt, re.S)
        require(q, f"printed {txt!r}")
        sn = (np.sum(((B[:, off:off + nr] - R) * wn) ** 2) / c["n"]) ** .5
        require(abs(float(q[1]) - sn) <= .006 * sn + 1e-9, f"printed loss {q[1]}, it is {sn}")
        close(np.array(q[2].split(), float), mx, 1e-6, 1e-6, "printed errors")
    same(old, (k, R, w))
    require(np.array_equal(par, m.params if hasattr(m, "params") else m.H.H_r), "the loss changed the model")


# --------------------------------------------------------------------- large
@st.composite
def s_large(draw):
    return {"n": draw(st.sampled_from([40, 130, 300])), "nb": draw(st.sampled_from([1, 6, 13, 40])), "nr": draw(st.sampled_from([1, 5, 12, 40])), "rs": draw(st.integers(0, 10 ** 6)), "off": draw(st.integers(0, 40)), "win": draw(st.sampled_from([0, 0, 1, 2, 3])), "N": draw(st.sampled_from([5, 50, 400]))}


def ordered_assignment(x, y, p):
    """cost of the best assignment of all of the shorter list (1D, convex cost: monotone), by dynamic programming"""
    x, y = np.sort(x), np.sort(y)
    if len(x) > len(y):
        x, y = y, x
    best = np.zeros(len(y) + 1)
    for a in x:
        new = np.full(len(y) + 1, np.inf)
        new[1:] = np.minimum.accumulate(best[:-1] + np.abs(a - y) ** p)
        best = new
    return best[-1]


def t_large(c, ctx):
    """many k-points and bands, against dynamic programming"""
    r = np.random.RandomState(c["rs"])
    n, nb, nr = c["n"], c["nb"], c["nr"]
    ctx.label(f"n={n}")
    R = np.sort(r.randn(n, nr) * 3, axis=1)
    B = np.sort(r.randn(n, nb) * 3, axis=1)
    w = r.rand(nr)
    if nb >= nr:
        off = c["off"] % (nb - nr + 1)
        D = B[:, off:off + nr] - R
        s = (np.sum(D ** 2 * w ** 2) / n) ** .5
        close(L.model_loss(B, R, w, off), s, 1e-11, 1e-11, "loss")
        l, e = L.model_error(B, R, w, off)
        close(l, s, 1e-11, 1e-11, "loss of model_error")
        close(e, np.max(np.abs(D), axis=0), 1e-12, 1e-12, "maximal errors per band")
    lo, hi = {0: (-2., 3.), 1: (-np.inf, .5), 2: (0., np.inf), 3: (-np.inf, np.inf)}[c["win"]]
    tot = 0.
    for i in range(n):
        # references outside of the window do not count
        tot += ordered_assignment(R[i][(R[i] >= lo) & (R[i] <= hi)], B[i], 2)
    close(L.model_windowed_loss(B, R, lo, hi, allow_skipped_bands=True), (tot / n) ** .5, 1e-10, 1e-10, "windowed loss with skipped bands")
    m = min(nb, nr)
    o = [(q, 0) if nb > nr else (0, q) for q in range(max(nb, nr) - m + 1)]
    ds = [(R[:, b:b + m], np.abs(B[:, a:a + m] - R[:, b:b + m])) for a, b in o]
    best = min(np.sum(np.where((x >= lo) & (x <= hi), d, 0) ** 2) for x, d in ds)
    close(L.model_windowed_loss(B, R, lo, hi), (best / n) ** .5, 1e-10, 1e-10, "windowed loss")
    N = c["N"]
    x, h = L.model_error_hist(B, R, N=N)
    a, b = max(B.min(), R.min()), min(B.max(), R.max())
    close(x, np.linspace(a, b, N), 1e-12, 1e-12, "bin centres")
    u, d = ds[int(np.argmin([np.sum(d ** 2) for _, d in ds]))]
    q = (u - a) / (b - a) * (N - 1)
    k = np.floor(q + .5).astype(int).ravel()
    sure = np.abs(q.ravel() + .5 - np.round(q.ravel() + .5)) > 1e-6
    want = np.zeros(N)
    for z, v, y in zip(k, d.ravel(), sure):
        if 0 <= z < N and y:
            want[z] = max(want[z], v)
    if np.all(sure):
        close(h, want, 1e-11, 1e-11, "error histogram")


SUBS = [Sub("loss", s_bands("model"), t_loss, quick=6000, thorough=120000),
        Sub("windowed", s_win(), t_win, quick=5000, thorough=120000),
        Sub("hist", s_hist(), t_hist, quick=5000, thorough=100000),
        Sub("entry", s_entry(), t_entry, quick=2500, thorough=60000),
        Sub("large", s_large(), t_large, quick=60, thorough=2000)]
