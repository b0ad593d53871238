"""C06: Wannier90 hr/tb files are read as the Hamiltonian they define."""
import os
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises
from models import AsymTightBindingModel, BandStructureModel
from tight_binding_redweasel import wannier90_tb_format as w90

RULE = "the file lists at least one +-R pair with a non-zero matrix and at least one degeneracy larger than one"
ASSUMPTIONS = ["well-formed files: complete +-R pairs with H(-R) = H(R)^dagger and equal degeneracies, one block per R, as wannier90 writes them"]


@st.composite
def case(draw):
    nb = draw(gen.neighbors_int(3, draw(gen.often(st.just(6), [24, 40], 16))))
    b = draw(gen.often(st.integers(1, 3), [8, 12], 16)) if len(nb) < 20 else draw(st.integers(1, 3))
    return finish(draw, nb, b)


def finish(draw, nb, b):
    n = len(nb)
    return {"nb": nb, "b": b, "H": draw(gen.nums(2 * n * b * b)), "R": draw(gen.nums(6 * n * b * b)), "deg": draw(gen.i8(n)), "perm": draw(st.integers(0, 10**6)), "perline": draw(st.sampled_from([15, 15, 1, 4])),
            "prec": draw(st.sampled_from(["f6", "e8", "repr"])), "k": draw(gen.kpts(3, 1, 4)), "A": draw(gen.i8(9)), "blank": draw(st.booleans()), "inner": draw(st.integers(0, 3)), "nperm": draw(st.booleans()), "header": draw(st.sampled_from(["written on 1Jan2024 at 12:00:00", "", " 5 ", "1 2 3"]))}


def fmt(x, prec):
    s = {"f6": f"{x:12.6f}", "e8": f"{x:16.8E}", "repr": f" {float(x)!r}"}[prec]
    return s, float(s)


def content(c):
    """full list of (R, degeneracy, H(R), r(R)) with the numbers exactly as written"""
    b = c["b"]
    nb = np.array(c["nb"], dtype=int).reshape(-1, 3)
    n = len(nb)
    H = gen.dec_complex(c["H"], (n, b, b)) / 3
    H[0] = gen.herm(H[0])
    X = gen.dec_complex(c["R"], (n, b, b, 3)) / 7
    X[0] = (X[0] + np.conj(np.swapaxes(X[0], 0, 1))) / 2
    rd = np.vectorize(lambda x: fmt(x, c["prec"])[1])
    H = rd(H.real) + 1j * rd(H.imag)
    X = rd(X.real) + 1j * rd(X.imag)
    H[0] = np.where(np.tri(b, k=-1).T > 0, H[0], 0)
    H[0] = H[0] + H[0].conj().T + np.diag(np.diag(H[0] * 0 + rd(np.diag(gen.dec_complex(c["H"], (n, b, b))[0]).real)))
    deg = [1 + abs(x) % 8 for x in c["deg"]]
    blocks = []
    for i in range(n):
        blocks.append((tuple(int(x) for x in nb[i]), deg[i], H[i], X[i]))
        if i:
            blocks.append((tuple(int(-x) for x in nb[i]), deg[i], H[i].conj().T, np.conj(np.swapaxes(X[i], 0, 1))))
    order = np.random.RandomState(c["perm"]).permutation(len(blocks)) if c["nperm"] else np.argsort([b_[0] for b_ in blocks], axis=0)[:, 0]
    return [blocks[i] for i in order]


def deglines(blocks, per):
    d = [b[1] for b in blocks]
    return ["".join(f"{x:5d}" for x in d[i:i + per]) for i in range(0, len(d), per)]


def write_hr(fn, c, blocks):
    b = c["b"]
    L = [c["header"], f"{b:12d}", f"{len(blocks):12d}"] + deglines(blocks, c["perline"])
    it = [(B, m, n) for B in blocks for n in range(b) for m in range(b)]
    if c.get("inner") == 3:  # every line names its lattice vector and orbitals: the vectors may also be the inner loop
        it = [(B, m, n) for n in range(b) for m in range(b) for B in blocks]
    for j, ((R, _, H, _), m, n) in enumerate(it):
        L.append("".join(f"{x:5d}" for x in R) + f"{m + 1:5d}{n + 1:5d}" + fmt(H[m, n].real, c["prec"])[0] + fmt(H[m, n].imag, c["prec"])[0])
        if c["blank"] and (j + 1) % (b * b) == 0:
            L.append("")
    open(fn, "w").write("\n".join(L) + "\n")


def write_tb(fn, c, blocks, A):
    b = c["b"]
    L = [c["header"]] + ["".join(f" {float(x)!r}" for x in r) for r in A] + [f"{b:12d}", f"{len(blocks):12d}"] + deglines(blocks, c["perline"])
    for R, _, H, _ in blocks:
        L += ["", "".join(f"{x:5d}" for x in R)]
        for n in range(b):
            for m in range(b):
                L.append(f"{m + 1:5d}{n + 1:5d}" + fmt(H[m, n].real, c["prec"])[0] + fmt(H[m, n].imag, c["prec"])[0])
    for R, _, _, X in blocks:
        L += ["", "".join(f"{x:5d}" for x in R)]
        for n in range(b):
            for m in range(b):
                L.append(f"{m + 1:5d}{n + 1:5d}" + "".join(fmt(X[m, n, d].real, c["prec"])[0] + fmt(X[m, n, d].imag, c["prec"])[0] for d in range(3)))
    open(fn, "w").write("\n".join(L) + "\n")


def check_read(c, ctx):
    blocks = content(c)
    b = c["b"]
    A = np.array(c["A"], dtype=float).reshape(3, 3) / 16 + np.eye(3)
    if len(blocks) < 2 or not any(np.any(x[2]) for x in blocks if any(x[0])) or all(x[1] == 1 for x in blocks):
        ctx.trivial()
    ctx.label(c["prec"])
    k = gen.dec_k(c["k"], 3)
    ref = np.array([sum(np.exp(2j * np.pi * np.dot(kk, R)) * H / g for R, g, H, _ in blocks) for kk in k])
    tol = 1e-9 * (1 + sum(np.sum(np.abs(x[2])) for x in blocks))
    bands = np.linalg.eigvalsh(ref)
    write_hr("x_hr.dat", c, blocks)
    write_tb("x_tb.dat", c, blocks, A)
    hr = w90.load_hr("x_hr.dat")
    tb = w90.load_tb("x_tb.dat")
    d = {x[0]: x for x in blocks}
    for name, (nb, H) in (("hr", hr[:2]), ("tb", tb[:2])):
        nb = np.asarray(nb)
        keys = [tuple(int(x) for x in r) for r in nb]
        require(H.shape == (len(nb), b, b), f"{name}: coupling shape {H.shape}")
        require(not any(keys[0]), f"{name}: origin is not first")
        require(np.all(np.diff(np.linalg.norm(nb, axis=1)) >= -1e-12), f"{name}: vectors not sorted by length")
        want = {max(k_, tuple(-x for x in k_)) for k_ in d}
        require(len(keys) == len(want) and {max(k_, tuple(-x for x in k_)) for k_ in keys} == want, f"{name}: vectors {keys} instead of one of each pair of {sorted(d)}")
        for k_, h in zip(keys, H):
            close(h, d[k_][2] / d[k_][1], 1e-12, 1e-12, f"{name}: H(R)/degeneracy of R={k_}")
        close(gen.series(k, nb, H), ref, tol, 1e-10, f"{name}: H(k)")
    nb, H, X, deg, A2 = tb
    close(A2, A, 0, 0, "lattice vectors of the tb file")
    require(list(deg) == [x[1] for x in blocks], "degeneracies are returned as listed")
    require(X.shape == (len(nb), b, b, 3), f"shape of position matrix elements {X.shape}")
    for k_, x in zip([tuple(int(v) for v in r) for r in nb], X):
        close(x, d[k_][3], 0, 0, f"position matrix elements of R={k_}")
    for fn in ("x_hr.dat", "x_tb.dat"):
        close(AsymTightBindingModel.load(fn)(k), bands, tol, 1e-10, f"bands of AsymTightBindingModel.load({fn})")
        for cr, ex in ((False, True), (True, True), (True, False), (False, False)):
            m = BandStructureModel.load(fn, cos_reduced=cr, exp=ex)
            close(m(k), bands, tol, 1e-10, f"bands of BandStructureModel.load({fn}, {cr}, {ex})")
            require(m.cos_reduced == cr and m.exp == ex, f"load({fn}) with cos_reduced={cr}, exp={ex} returned a model with {m.cos_reduced}, {m.exp}")
    os.rename("x_hr.dat", "data")
    close(BandStructureModel.load("data", format="wannier90hr")(k), bands, tol, 1e-10, "explicit hr format")
    os.rename("x_tb.dat", "data")
    close(AsymTightBindingModel.load("data", format="wannier90tb")(k), bands, tol, 1e-10, "explicit tb format")
    os.remove("data")


@st.composite
def case_large(draw):
    """files with the hundreds of lattice vectors a real calculation writes"""
    box = gen.half_box(3, draw(st.sampled_from([4, 3, (4, 4, 3), (5, 4, 4)])))
    n = len(box) - 1 - draw(st.integers(0, 40))
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    nb = [[0, 0, 0]] + [[int(x) for x in v * (1 if u < .5 else -1)] for v, u in zip(box[1 + np.sort(r.permutation(len(box) - 1)[:n])], r.rand(n))]
    return finish(draw, nb, draw(st.sampled_from([1, 2])))


@st.composite
def case_bad(draw):
    c = draw(case())
    c["tb"] = draw(st.booleans())
    c["kind"] = draw(st.sampled_from(["drop", "add", "text", "count", "cut"]))
    c["line"] = draw(st.integers(0, 1000))
    c["col"] = draw(st.integers(0, 7))
    return c


def check_bad(c, ctx):
    blocks = content(c)
    ctx.label(("tb " if c["tb"] else "hr ") + c["kind"])
    if c["tb"]:
        write_tb("x", c, blocks, np.eye(3))
        load = w90.load_tb
    else:
        write_hr("x", c, blocks)
        load = w90.load_hr
    L = open("x").read().split("\n")
    first = (4 if c["tb"] else 1) + 2 + len(deglines(blocks, c["perline"]))
    data = [i for i in range(first, len(L)) if len(L[i].split()) in ((4, 8) if c["tb"] else (7,))]
    i = data[c["line"] % len(data)]
    p = L[i].split()
    if c["kind"] == "drop":
        del p[c["col"] % len(p)]
        if c["tb"] and len(p) in (3, 4, 8):
            del p[0]  # 3 numbers would be a new lattice vector
    elif c["kind"] == "add":
        p.append("0.5")
        if c["tb"] and len(p) in (3, 4, 8):
            p.append("1")
    elif c["kind"] == "text":
        # a number that is not one, in a line which is not skipped
        pos = {tuple(-x for x in blocks[0][0])} if False else None
        i = data[0]
        p = L[i].split()
        p[-1] = "x1.0"
    elif c["kind"] == "count":
        L[first - 1 - len(deglines(blocks, c["perline"]))] = str(len(blocks) + 1)
        if not c["tb"] and c["perline"] >= len(blocks) + 7:
            ctx.label("hr-long")
    elif c["kind"] == "cut":
        L = L[:first - 1] if len(blocks) > 1 else L[:2]
    if c["kind"] in ("drop", "add", "text"):
        L[i] = " ".join(p)
    open("x", "w").write("\n".join(L) + "\n")
    if c["kind"] == "cut" and not c["tb"]:
        os.remove("x")
        ctx.trivial()
        return  # load_hr would wait for the rest of the degeneracy list
    raises(Exception, lambda: load("x"), f"malformed file ({c['kind']})")
    os.remove("x")


SUBS = [
    Sub("read", case(), check_read, quick=900, thorough=25000, shards=4),
    Sub("large", case_large(), check_read, quick=40, thorough=600, shards=4),
    Sub("malformed", case_bad(), check_bad, quick=500, thorough=8000),
]
