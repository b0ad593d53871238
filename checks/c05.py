"""C05: saved models load back as the same model."""
import json
import os
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises
from models import build, layout, restrict, AsymTightBindingModel, HermitianFourierSeries, BandStructureModel, Symmetry, neighbors_of
from c01 import GROUPS

RULE = "at least one coupling besides the on-site matrix is non-zero and the file was written and read back"
ASSUMPTIONS = ["JSON stores one coupling per listed lattice vector and no symmetry, so models whose coefficients are shared by symmetry are only saved in the python format",
               "an overlap matrix is not part of the JSON format (documented TODO) and is not saved here"]

PRINT = [dict(), dict(precision=2, suppress=True), dict(threshold=3), dict(precision=17, floatmode="fixed"), dict(linewidth=20), dict(sign="+"), dict(threshold=3, edgeitems=1, precision=1),
         dict(legacy="1.13"), dict(nanstr="x", infstr="y")]


def with_print(i, f):
    old = np.get_printoptions()
    try:
        np.set_printoptions(**PRINT[i % len(PRINT)])
        a = np.get_printoptions()
        r = f()
        b = np.get_printoptions()
        require({k: str(v) for k, v in a.items()} == {k: str(v) for k, v in b.items()}, f"numpy print settings changed: {a} -> {b}")
        return r
    finally:
        np.set_printoptions(**old)


@st.composite
def case_json(draw):
    c = draw(gen.tb(big=True))
    return {"tb": c, "lay": draw(layout()), "lay2": draw(layout(inv=False)), "k": draw(gen.kpts(c["dim"], 1, 4)), "print": draw(st.integers(0, 8)), "ext": draw(st.booleans()),
            "frac": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 1e-10, 1e-14, 3.3e8, 1 / 3])), "big": draw(st.booleans())}


def check_json(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    lay = list(c["lay"])
    if lay[0] == "inv" and dim == 2:
        lay[0] = "none"
    H = restrict(lay, H) * c["scale"]
    if c["frac"]:
        nb = nb @ (np.eye(dim) * np.pi / 3 + np.triu(np.ones((dim, dim)), 1) / 7)
    if len(H) < 2 or not np.any(np.abs(H[1:]) > 1e-13):
        ctx.trivial()
    ctx.label("/".join(map(str, lay)))
    m = build(lay, nb, H)
    k = gen.dec_k(c["k"], dim)
    b0, p0 = m(k), np.array(m.params_complex())
    fn = "model.json" if c["ext"] else "model.txt"
    fmt = None if c["ext"] else "json"
    with_print(c["print"], lambda: m.save(fn, format=fmt))
    close(m(k), b0, 1e-12, 1e-12, "bands of the saved model after saving")
    require(np.array_equal(np.array(m.params_complex()), p0), "saving changed the couplings")
    if c["lay2"][0] == "asym":
        m2 = with_print(c["print"], lambda: AsymTightBindingModel.load(fn, format=fmt))
    else:
        m2 = with_print(c["print"], lambda: BandStructureModel.load(fn, format=fmt, cos_reduced=c["lay2"][1], exp=c["lay2"][2]))
        require(m2.cos_reduced == c["lay2"][1] and m2.exp == c["lay2"][2], "requested layout of the loaded model")
    tot = np.sum(np.abs(H))
    close(m2(k), b0, 1e-11 * (c["scale"] + tot) + 2e-13 * H.size, 0, "bands of the loaded model")
    n2 = np.array(neighbors_of(m2))
    require(n2.shape == nb.shape, f"loaded lattice vectors {n2.shape} instead of {nb.shape}")
    require(not np.any(n2[0]), "first loaded lattice vector is not the origin")
    require(np.all(np.diff(np.linalg.norm(n2, axis=1)) >= -1e-12), "loaded lattice vectors are not sorted by length")
    h2 = m2.params_complex()
    used = set()
    for r, h in zip(nb, p0):
        j = [j for j in range(len(n2)) if np.array_equal(n2[j], r) and j not in used]
        require(len(j) == 1, f"lattice vector {r} is not (once) in the loaded model")
        used.add(j[0])
        if c["lay2"][0] == "asym" or c["lay2"] == ["none", False, True]:
            hr = np.where(np.abs(h.real) < 1e-14, 0, h.real) + 1j * np.where(np.abs(h.imag) < 1e-14, 0, h.imag)
            require(np.array_equal(h2[j[0]], hr), f"coupling of {r} is not bit-identical: {h2[j[0]]} instead of {hr}")
        else:
            close(h2[j[0]], h, 1e-12 * (c["scale"] + tot) + 2.1e-14, 0, f"coupling of {r}")
    os.remove(fn)


@st.composite
def case_ext(draw):
    c = draw(gen.tb(big=True))
    return {"tb": c, "real": draw(st.booleans()), "perm": draw(st.integers(0, 10 ** 6)), "int": draw(st.booleans()), "lay": draw(layout(inv=False)), "k": draw(gen.kpts(c["dim"], 1, 4)), "order": draw(st.permutations(["band_count", "params", "neighbors"]))}


def check_ext(c, ctx):
    """a file of another program in the stated exchange format: any order of the lattice vectors, complex or real numbers"""
    nb, H = gen.dec_tb(c["tb"])
    dim, b = nb.shape[1], H.shape[1]
    if c["real"]:
        H = H.real + 0j
        H[0] = gen.herm(H[0])
    o = np.random.RandomState(c["perm"]).permutation(len(nb))
    num = (lambda x: float(x.real)) if c["real"] else (lambda x: [float(x.real), float(x.imag)])
    d = {"band_count": b, "params": [{"v": 1, "dim": [b, b], "data": [num(x) for x in H[j].ravel()]} for j in o], "neighbors": [[int(x) if c["int"] and x == int(x) else float(x) for x in nb[j]] for j in o]}
    with open("other.json", "w") as f:
        json.dump({a: d[a] for a in c["order"]}, f)
    ctx.label("real" if c["real"] else "complex")
    if len(H) < 2 or b < 2 or not np.any(H[1:]):
        ctx.trivial()
    k = gen.dec_k(c["k"], dim)
    ref = np.linalg.eigvalsh(gen.series(k, nb, H))
    m = AsymTightBindingModel.load("other.json") if c["lay"][0] == "asym" else BandStructureModel.load("other.json", cos_reduced=c["lay"][1], exp=c["lay"][2])
    tol = 1e-11 * (1 + np.sum(np.abs(H)))
    close(m(k), ref, tol, 1e-11, "bands of the loaded file")
    n2, h2 = np.array(neighbors_of(m)), m.params_complex()
    require(not np.any(n2[0]) and np.all(np.diff(np.linalg.norm(n2, axis=1)) >= -1e-12) and n2.shape == nb.shape, f"loaded lattice vectors {n2.tolist()}")
    for r, h in zip(nb, H):
        j = np.flatnonzero(np.all(n2 == r, axis=1))
        require(len(j) == 1, f"lattice vector {r} of the file is not (once) in the model")
        close(h2[j[0]], h, tol, 0, f"coupling of {r}")
    os.remove("other.json")


@st.composite
def case_file(draw):
    c = draw(gen.tb(big=True))
    return {"tb": c, "mem": draw(st.sampled_from(["c", "f", "swap", "stride", "flip", "list", "real"])), "nb": draw(st.sampled_from(["float", "int", "list", "f"])), "perm": draw(st.integers(0, 10 ** 6))}


def check_file(c, ctx):
    """the module functions on arrays of any memory layout: every matrix of the file belongs to its lattice vector, row by row"""
    from tight_binding_redweasel import json_tb_format as jf
    nb, H = gen.dec_tb(c["tb"])
    if c["mem"] == "real":
        H = H.real.copy()
    o = np.random.RandomState(c["perm"]).permutation(len(nb))
    nb, H = nb[o], H[o]
    integer = bool(np.all(nb == np.round(nb)))
    n = nb.astype(int) if c["nb"] == "int" and integer else nb.tolist() if c["nb"] == "list" else np.asfortranarray(nb) if c["nb"] == "f" else nb
    big = np.zeros((2 * len(H), H.shape[1], 3 * H.shape[2]), H.dtype)
    big[::2, :, ::3] = H
    X = {"f": lambda: np.asfortranarray(H), "swap": lambda: np.ascontiguousarray(H.swapaxes(1, 2)).swapaxes(1, 2), "stride": lambda: big[::2, :, ::3], "flip": lambda: H[:, ::-1, ::-1].copy()[:, ::-1, ::-1],
         "list": lambda: list(H)}.get(c["mem"], lambda: H)()
    jf.save("file.dat", n, X)
    require(all(np.array_equal(a, b) for a, b in zip(X, H)) and np.array_equal(np.asarray(n), nb), "saving changed its arguments")
    d = json.load(open("file.dat"))
    require(d["band_count"] == H.shape[1] and len(d["params"]) == len(H) == len(d["neighbors"]), "sizes in the file")
    z = lambda x: np.where(np.abs(x) < 1e-14, 0, x)
    for r, h, q in zip(nb, H, range(len(H))):
        require(d["neighbors"][q] == r.tolist(), lambda: f"lattice vector {d['neighbors'][q]} in the file instead of {r}")
        v = np.array(d["params"][q]["data"], float).reshape(h.shape + (2,))
        require(d["params"][q]["dim"] == list(h.shape), "matrix dimension in the file")
        require(np.array_equal(v[..., 0], z(h.real)) and np.array_equal(v[..., 1], z(h.imag)), lambda: f"matrix of {r} in the file is {v.tolist()} instead of {h.tolist()}")
    n2, h2 = jf.load("file.dat")
    require(np.all(np.diff(np.linalg.norm(n2, axis=1)) >= -1e-12) and n2.shape == nb.shape and h2.shape == H.shape, "order or shape of the loaded data")
    for r, h in zip(nb, H):
        j = np.flatnonzero(np.all(n2 == r, axis=1))
        require(len(j) == 1, f"lattice vector {r} is not (once) in the loaded data")
        require(np.array_equal(h2[j[0]], z(h.real) + 1j * z(h.imag)), lambda: f"loaded matrix of {r}: {h2[j[0]].tolist()} instead of {h.tolist()}")
    os.remove("file.dat")
    ctx.label(c["mem"])
    ctx.trivial(len(H) < 2 or H.shape[1] < 2 or not np.any(H[1:]))


@st.composite
def case_repr(draw):
    c = draw(gen.tb(max_b=3, max_n=4, big=True))
    return {"tb": c, "g": draw(st.integers(-3, 20)), "cr": draw(st.booleans()), "ex": draw(st.booleans()), "k": draw(gen.kpts(c["dim"], 1, 4)), "print": draw(st.integers(0, 8)), "ext": draw(st.booleans()),
            "scale": draw(st.sampled_from([1.0, 1 / 3, 1e-9]))}


def check_repr(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    dim = nb.shape[1]
    H = H * c["scale"]
    sym = Symmetry.none(dim) if c["g"] < 0 else GROUPS[dim][c["g"] % len(GROUPS[dim])]()
    if sym.inversion:
        H = gen.herm(H)
    if len(H) < 2 or not np.any(np.abs(H[1:]) > 1e-13):
        ctx.trivial()
    ctx.label(f"order{len(sym)} cr={c['cr']} exp={c['ex']}")
    m = BandStructureModel.init_tight_binding(sym, nb.copy(), H.shape[1], cos_reduced=c["cr"], exp=c["ex"])
    m.set_params_complex(H)
    k = gen.dec_k(c["k"], dim)
    b0 = m(k)
    fn = "model.repr" if c["ext"] else "model"
    fmt = None if c["ext"] else "python"
    with_print(c["print"], lambda: m.save(fn, format=fmt))
    m2 = with_print(c["print"], lambda: BandStructureModel.load(fn, format=fmt))
    tot = np.sum(np.abs(H)) * len(sym)
    close(m2(k), b0, 1e-11 * (c["scale"] + tot), 1e-11, "bands of the loaded model")
    close(m2.params_complex(), m.params_complex(), 1e-12 * (c["scale"] + tot), 1e-12, "couplings of the loaded model")
    close(m2.neighbors, nb, 1e-15, 1e-15, "lattice vectors of the loaded model")
    require(m2.sym == sym, "symmetry of the loaded model")
    if len(sym) == 1:
        m3 = AsymTightBindingModel.load(fn, format=fmt)
        close(m3(k), b0, 1e-11 * (c["scale"] + tot), 1e-11, "bands of the model loaded as AsymTightBindingModel")
    os.remove(fn)


@st.composite
def case_bad(draw):
    c = draw(gen.tb(max_b=2, max_n=2))
    return {"tb": c, "ext": draw(st.sampled_from(["model.txt", "model", "model.JSON", "json", "model.json.bak", "model.npz", "model_hr.datx"])), "fmt": draw(st.sampled_from(["yaml", "JSON", "", "npz", "wannier"])),
            "print": draw(st.integers(0, 8)), "asym": draw(st.booleans()), "which": draw(st.sampled_from(["ext", "fmt", "lext", "lfmt", "wannier", "nosym"]))}


def check_bad(c, ctx):
    nb, H = gen.dec_tb(c["tb"])
    m = build(["asym", None, None] if c["asym"] else ["none", False, True], nb, H)
    cls = AsymTightBindingModel if c["asym"] else BandStructureModel
    w = c["which"]
    ctx.label(w)
    before = sorted(os.listdir("."))
    if w == "ext":
        with_print(c["print"], lambda: raises(ValueError, lambda: m.save(c["ext"]), f"saving to {c['ext']}"))
    elif w == "fmt":
        with_print(c["print"], lambda: raises(ValueError, lambda: m.save("x.json", format=c["fmt"]), f"saving in format {c['fmt']!r}"))
    elif w == "lext":
        with_print(c["print"], lambda: raises(ValueError, lambda: cls.load(c["ext"]), f"loading {c['ext']}"))
    elif w == "lfmt":
        with_print(c["print"], lambda: raises(ValueError, lambda: cls.load("x.json", format=c["fmt"]), f"loading format {c['fmt']!r}"))
    elif w == "wannier" and not c["asym"]:
        # not implemented: has to be an error that leaves the print settings alone
        with_print(c["print"], lambda: raises(Exception, lambda: m.save("x.dat"), "saving in wannier90 format"))
    elif w == "nosym" and not c["asym"]:
        m.sym = None
        with_print(c["print"], lambda: raises(Exception, lambda: m.save("y.repr"), "python format without a symmetry"))
    for f in set(os.listdir(".")) - set(before):
        s = os.path.getsize(f)
        os.remove(f)
        require(s == 0 and w in ("wannier", "nosym"), f"a rejected save left the file {f} with {s} bytes")
    general = BandStructureModel(lambda k, i: np.ones(np.shape(k)[:-1]), lambda k, i: np.zeros(np.shape(k)), H)
    raises(ValueError, lambda: general.save("z.json"), "saving a model without lattice vectors")
    require(not os.path.exists("z.json"), "rejected save wrote a file")


@st.composite
def case_large(draw):
    return {"seed": draw(st.integers(0, 10**6)), "b": draw(st.sampled_from([64, 72])), "n": draw(st.sampled_from([25, 26])), "fmt": draw(st.sampled_from(["model.repr", "model.repr", "model.json"]))}


def check_large(c, ctx):
    """more numbers than any print threshold"""
    r = np.random.RandomState(c["seed"])
    nb = gen.half_box(3, 2)[:c["n"]]
    H = (r.randint(-99, 100, (c["n"], c["b"], c["b"])) + 1j * r.randint(-99, 100, (c["n"], c["b"], c["b"]))) / 8
    H[0] = gen.herm(H[0])
    m = build(["none", True, False], nb, H)
    m.save(c["fmt"])
    m2 = BandStructureModel.load(c["fmt"], cos_reduced=True, exp=False)
    close(m2.params_complex(), H, 1e-9, 1e-12, "couplings of a large model")
    os.remove(c["fmt"])


SUBS = [
    Sub("large", case_large(), check_large, quick=3, thorough=12),
    Sub("external", case_ext(), check_ext, quick=500, thorough=10000),
    Sub("file", case_file(), check_file, quick=400, thorough=8000),
    Sub("json", case_json(), check_json, quick=1200, thorough=30000, shards=3),
    Sub("python", case_repr(), check_repr, quick=500, thorough=15000, shards=2),
    Sub("rejected", case_bad(), check_bad, quick=400, thorough=5000),
]
