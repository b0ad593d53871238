"""C23: fitting reports the loss it leaves behind and keeps its invariants."""
import contextlib, io, os, re, tempfile
import numpy as np
from hypothesis import strategies as st
import gen, models
from core import Sub, close, require, raises, fail, Skip
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries, autofit_asym
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.logger import OptimisationLogger

RULE = "at least one iteration that changes the parameters of a model with k dependence"
ASSUMPTIONS = ["monotone loss: not for exponential storage with inversion, where the final normalisation makes the couplings Hermitian", "monotone loss: pseudoinverse steps with unit weights on all bands (a contraction by the Hoffman-Wielandt inequality); other options may overshoot",
               "recovery: models within a few percent of the data, more k-points than coefficients, energies of order 1", "structural zeros: blocks of bands that never couple, with different on-site energies, energies of order 1",
               "stationary points: gradient steps with unit weights only (they apply the weights once and not squared)", "structural zeros: only exact data bounds the loss, since removed directions may make the linearised steps diverge", "use_lstsq_stepsize (undocumented, its step can be twice too long) and gradient steps with an overlap at full learning rate: only the report is checked", "train_S is checked for energies below the overlap scale, where its step is stable", "the averaged momentum options and regularisation are checked for consistency of the report only"]


# ------------------------------------------------------------------- models
LAY = models.LAYOUTS + [("custom", None, None), ("overlap", None, None), ("realcustom", None, None)]


@st.composite
def s_model(draw, lays=tuple(LAY), max_b=3, min_b=1):
    dim = draw(st.sampled_from([1, 2, 3]))
    lay = list(draw(st.sampled_from(list(lays))))
    if lay[0] == "inv" and dim == 2:
        lay[0] = "none"
    b = draw(st.sampled_from([x for x in (2, 1, 3, 4) if min_b <= x <= max_b]))
    if max_b == 3 and draw(st.integers(0, 24)) == 11:
        b = draw(st.sampled_from([5, 7]))
    nb = draw(gen.neighbors_int(dim, 3, 1))
    return {"dim": dim, "lay": lay, "b": b, "nb": nb, "H": draw(gen.nums(2 * len(nb) * b * b, modes=("dense", "dense", "small"))), "S": draw(gen.i8(2 * 2 * b * b))}


def custom(c):
    w = np.array(c["S"][:3], float) / 128 + [.5, .3, .2]
    return lambda k, i: np.asarray(k)[..., 0] * 0 + 1 if i == 0 else np.cos(2 * np.pi * i * (np.asarray(k) @ w[:c["dim"]]))


def make(c, fac=None):
    """the model; fac multiplies the couplings entry by entry"""
    nb = np.array(c["nb"], float).reshape(-1, c["dim"])
    b = c["b"]
    H = gen.dec_complex(c["H"], (len(nb), b, b))
    if fac is not None:
        H = H * fac.reshape(H.shape)
    H[0] = gen.herm(H[0])
    lay = c["lay"]
    if lay[0] in ("custom", "realcustom"):
        H = gen.herm(H)
        if lay[0] == "realcustom":
            H = np.array(H.real)
        return BandStructureModel(custom(c), None, H)
    if lay[0] == "overlap":
        nS = np.array([nb[0], nb[-1]]) if len(nb) > 1 else nb[:1]
        v = np.resize(np.array(c["S"], float) / 64, (len(nS) * b * b * 2,))
        S = models.pd_series(nS, {"m": "small", "v": (v * 64).astype(int).tolist()}, b)
        return AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(nS, S))
    return models.build(lay, nb, models.restrict(lay, H))


def par(m):
    return np.array(m.params if hasattr(m, "params") else m.H.H_r)


def fit(m, method, k, kw, R, w, off, it, **o):
    """one entry for the four optimisers"""
    if hasattr(m, "H"):
        return m.optimize(k, kw, R, w, off, it, **o) if method == "gd" else m.optimize_cg(k, R, w, off, it, **o)
    return m.optimize(k, kw, R, w, off, it, **o) if method == "gd" else m.optimize_cg(k, kw, R, w, off, it, **o)


def points(v, n, dim):
    r = np.random.RandomState((abs(int(v[0])) * 256 + abs(int(v[1]))) * 256 + abs(int(v[2])))
    return np.round(r.rand(n, dim) * 2 - 1, 4), r


def rms(B, R, w, off):
    d = (np.asarray(B)[:, off:off + R.shape[1]] - R) * w
    return float(np.sqrt(np.sum(d * d) / len(R)))


# --------------------------------------------------------------------- fits
OPTS_GD = [{}, {"use_pinv": False}, {"batch_div": 2}, {"batch_div": 3, "use_pinv": False}, {"learning_rate": .5}, {"regularization": .9}, {"keep_zeros": True}, {"max_accel_global": 3.0}]
OPTS_CG = [{}, {"precond": False}, {"keep_zeros": True}, {"max_cg_iterations": 2}, {"precond": False, "max_cg_iterations": 20}]


@st.composite
def s_fit(draw):
    m = draw(s_model())
    meth = draw(st.sampled_from(["gd", "cg", "gd"]))
    return {"m": m, "meth": meth, "opt": draw(st.integers(0, 7)), "lst2": draw(st.integers(0, 1)), "n": draw(st.sampled_from([1, 3, 6, 12])), "it": draw(st.sampled_from([0, 1, 2, 3, 6, 40])), "nr": draw(st.integers(1, 3)), "off": draw(st.integers(0, 2)),
            "w": draw(st.sampled_from(["one", "one", "scalar", "vec", "veclist"])), "kw": draw(st.sampled_from(["one", "one", "vec"])), "v": draw(gen.i8(8)), "ref": draw(st.sampled_from(["far", "near", "near", "exact"])), "lists": draw(st.booleans()),
            "log": draw(st.sampled_from(["no", "no", "yes", "own", "count"])), "conv": draw(st.sampled_from([None, None, 0, .05, .5])), "lt": draw(st.sampled_from([None, None, 1e-1, 1e-2, 0]))}


def options(c, m):
    o = dict((OPTS_GD if c["meth"] == "gd" else OPTS_CG)[c["opt"] % (len(OPTS_GD) if c["meth"] == "gd" else len(OPTS_CG))])
    if hasattr(m, "H") and c["meth"] == "gd" and c["opt"] == 0 and c["lst2"]:
        o["use_lstsq_stepsize"] = True
    if o.get("batch_div", 1) > c["n"]:
        o.pop("batch_div")
    if c["conv"] is not None:
        o["convergence_threshold"] = c["conv"]
    if c["lt"] is not None:
        o["loss_threshold"] = c["lt"]
    return o


def weights(c, nr):
    w = np.abs(np.array(c["v"][3:3 + nr], float)) / 64 + .05
    w = np.resize(w, nr)
    return {"one": (1.0, np.ones(nr)), "scalar": (1.7, 1.7 * np.ones(nr)), "vec": (w, w), "veclist": (w.tolist(), w)}[c["w"]]


def check_log(log, start, it, o, bd, sl, lay=None):
    """the entries of one run, appended to a log that had `start` entries; sl: loss before or None"""
    final = not (lay and lay[0] == "inv" and lay[2])  # there, the final normalisation may change the loss
    thr, lt = o.get("convergence_threshold", 1e-3), o.get("loss_threshold", 1e-16)
    data = [e for e in log.stream if not isinstance(e, str)][start:]
    its = [e[0] for e in data]
    loss = [e[1] for e in data]
    require(len(data) >= 1, "nothing was logged")
    require(log.loss[start:] == loss, "list of losses differs from the stream")
    conv = any(isinstance(e, str) and "converged" in e for e in log.stream)
    if bd == 1:
        require(its == list(range(len(its))), f"logged iterations {its}")
        require(len(its) == it + 1 or (conv and len(its) <= it), f"{len(its)} logged losses of {it} iterations, converged {conv}")

        def stops(i):  # criterion of the i-th evaluation, None: too close to tell
            if loss[i] < max(lt * .999, 0) and lt > 1e-6:
                return True
            if loss[i] < 1e-11:
                return None
            if loss[i] < lt:
                return None
            if i == 0:
                return False if loss[i] > lt * 1.001 else None
            q = abs(loss[i - 1] / loss[i] - 1)
            return None if abs(q - thr) < 1e-6 * (1 + q) or abs(loss[i] - lt) <= 1e-9 else bool(q < thr)

        for i in range(len(its) - 1):
            require(stops(i) is not True, f"continued after iteration {i} although converged: {loss[:i + 2]}, thresholds {thr} {lt}")
        if len(its) <= it:
            require(stops(len(its) - 1) is not False or not final, f"stopped after {len(its)} of {it} iterations with losses {loss}, thresholds {thr} {lt}")
        if sl is not None and it:
            close(loss[0], sl, 1e-8 * (1 + abs(sl)), 1e-8, "first logged loss is the loss before")
    else:
        require(its == sorted(its) and its[-1] <= it, f"logged iterations {its}")
        if sl is not None and it and its[0] == 0:
            close(loss[0], sl, 1e-8 * (1 + abs(sl)), 1e-8, "first logged loss of a batched fit is the loss before")


def t_fit(c, ctx):
    np.random.seed(1)
    m = make(c["m"])
    dim, b = c["m"]["dim"], c["m"]["b"]
    k, r = points(c["v"], c["n"], dim)
    nr = min(c["nr"], b)
    off = c["off"] % (b - nr + 1)
    B0 = m.bands(k)
    R = np.sort(B0[:, off:off + nr] + {"far": 1.0, "near": .05, "exact": 0}[c["ref"]] * r.randn(c["n"], nr), axis=1)
    w, wv = weights(c, nr)
    kw = 1.0 if c["kw"] == "one" else r.rand(c["n"]) + .3
    o = options(c, m)
    bd = o.get("batch_div", 1)
    ctx.label(f"{c['m']['lay'][0]} {c['meth']}")
    log = {"no": False, "yes": True, "own": OptimisationLogger(print_loss=False, verbose=False), "count": OptimisationLogger(print_loss=False, verbose=False)}[c["log"]]
    start = 0
    if c["log"] in ("own", "count"):
        log.count = c["log"] == "count"
        if c["off"]:
            log.add_data(0, 5.0, [1.0])
            start = 1
    args = [x.tolist() if c["lists"] else x for x in (k, R)]
    keep = [k.copy(), R.copy(), np.array(w, copy=True), np.array(kw, copy=True)]
    k2 = points([7, 3, c["n"]], 4, dim)[0]
    P0, B2 = par(m), m.bands(k2)
    shape = P0.shape
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            res = fit(m, c["meth"], args[0], kw, args[1], w, off, c["it"], log=log, **o)
        div = not np.all(np.isfinite(par(m))) or np.max(np.abs(par(m))) > 1e8
    except (ValueError, np.linalg.LinAlgError):
        if np.all(np.isfinite(par(m))):
            raise
        div = True
    if div:  # the linearised steps may diverge far from the optimum
        raise Skip()
    for a, x, n in zip(keep, (np.asarray(args[0]), np.asarray(args[1]), np.asarray(w), np.asarray(kw)), ("k-points", "reference", "weights", "k-weights")):
        require(np.array_equal(a, x), f"{n} modified")
    if c["log"] in ("own", "count"):
        require(res is log, "another logger was returned")
    require(isinstance(res, OptimisationLogger), "no logger was returned")
    P = par(m)
    require(P.shape == shape, "parameters changed their shape")
    herm = np.max(np.abs(P[0] - P[0].conj().T))
    require(herm <= 1e-9 * (1 + np.max(np.abs(P))), f"on-site matrix is not Hermitian by {herm}")
    B1 = m.bands(k)
    l1 = rms(B1, R, wv, off)
    sc = 1 + np.max(np.abs(B1)) + np.max(np.abs(R))
    close(res.last_loss(), l1, 1e-9 * sc * np.max(wv), 1e-8, "last logged loss and loss of the model")
    close(m.loss(k, R, wv, off), l1, 1e-9 * sc * np.max(wv), 1e-8, "loss of the model")
    close([e for e in res.stream if not isinstance(e, str)][-1][2], np.max(np.abs(B1[:, off:off + nr] - R), axis=0), 1e-9 * sc, 1e-8, "last logged maximal errors")
    check_log(res, start, c["it"], o, bd, None if o.get("regularization") else rms(B0, R, wv, off), c["m"]["lay"])
    if c["log"] == "count":
        require(res.iterations == list(range(0, len(res.iterations))), f"counted iterations {res.iterations}")
    if c["log"] == "yes":
        require(f"loss{res.last_loss():9.2e}" in out.getvalue(), "the printed log does not contain the last loss")
        require(len(re.findall("loss", out.getvalue())) == len(res.loss), "not every loss was printed")
    else:
        require(out.getvalue() == "", f"a silent fit printed {out.getvalue()[:80]!r}")
    if c["it"] == 0:
        close(m.bands(k2), B2, 1e-9 * sc, 1e-9, "bands after a fit with 0 iterations")
        ctx.trivial()
    elif len(c["m"]["nb"]) < 2 or c["ref"] == "exact":
        ctx.trivial()


# ------------------------------------------------------------------ stopping
@st.composite
def s_end(draw):
    lay = draw(st.sampled_from(["overlap", "overlap", "asym", "asym", "tb"]))
    lays = {"overlap": (("overlap", None, None),), "asym": tuple(l for l in LAY if l[0] == "asym") or LAY, "tb": tuple(l for l in LAY if l[0] not in ("overlap", "asym"))}[lay]
    return {"m": draw(s_model(lays=lays)), "meth": draw(st.sampled_from(["gd", "gd", "cg"])), "n": draw(st.sampled_from([4, 9, 20, 40])), "v": draw(gen.i8(8)), "it": draw(st.sampled_from([2, 5, 12, 30])),
            "o": draw(st.sampled_from([{}, {}, {"use_pinv": False}, {"learning_rate": .5}, {"learning_rate": .2}, {"keep_zeros": True}, {"precond": False}])), "d": draw(st.sampled_from([2., 1., .3, .05])),
            "conv": draw(st.sampled_from([None, .5, .2, .05, .01, 2.])), "lt": draw(st.sampled_from([None, None, .5, .1, .02]))}


def t_end(c, ctx):
    """a fit goes on until it converged, and no further"""
    np.random.seed(1)
    m = make(c["m"])
    k, r = points(c["v"], c["n"], c["m"]["dim"])
    B0 = m.bands(k)
    R = np.sort(B0 + c["d"] * r.randn(*B0.shape), axis=1)
    o = {a: x for a, x in c["o"].items() if (a == "precond") == (c["meth"] == "cg") or a == "keep_zeros"}
    if c["conv"] is not None:
        o["convergence_threshold"] = c["conv"]
    if c["lt"] is not None:
        o["loss_threshold"] = c["lt"]
    log = OptimisationLogger(print_loss=False, verbose=False)
    try:
        fit(m, c["meth"], k, 1.0, R, 1.0, 0, c["it"], log=log, **o)
    except (ValueError, np.linalg.LinAlgError):
        if np.all(np.isfinite(par(m))):
            raise
        raise Skip()
    if not np.all(np.isfinite(par(m))) or np.max(np.abs(par(m))) > 1e8:
        raise Skip()
    check_log(log, 0, c["it"], o, 1, rms(B0, R, 1, 0), c["m"]["lay"])
    n = len(log.loss)
    ctx.label(f"{c['m']['lay'][0]} {c['meth']} {'all' if n > c['it'] else 'stopped'}")
    if n < 2 or c["it"] < 5 or n > c["it"]:
        ctx.trivial()


# ---------------------------------------------------------- monotone descent
@st.composite
def s_mono(draw):
    return {"m": draw(s_model(lays=tuple(l for l in LAY if l[0] != "overlap" and not (l[0] == "inv" and l[2])))), "n": draw(st.sampled_from([1, 1, 4, 9, 15])), "v": draw(gen.i8(8)), "it": draw(st.sampled_from([1, 4, 12])), "w": draw(st.sampled_from([1.0, .3, 2.5])), "lr": draw(st.sampled_from([1.0, 1.0, .6])), "far": draw(st.booleans()), "pinv": draw(st.booleans())}


def t_mono(c, ctx):
    m = make(c["m"])
    k, r = points(c["v"], c["n"], c["m"]["dim"])
    one = c["n"] == 1
    B0 = m.bands(k)
    R = np.sort(B0 + (2 if c["far"] else .1) * r.randn(*B0.shape), axis=1)
    o = {"use_pinv": False} if one and not c["pinv"] and c["m"]["lay"][0] not in ("custom", "realcustom") else {}
    log = m.optimize(k, 1.0, R, c["w"], 0, c["it"], learning_rate=c["lr"], convergence_threshold=0, log=False, **o)
    ctx.label(c["m"]["lay"][0])
    sc = (1 + np.max(np.abs(B0)) + np.max(np.abs(R))) * c["w"]
    for i in range(1, len(log.loss)):
        require(log.loss[i] <= log.loss[i - 1] * (1 + 1e-9) + 1e-10 * sc, lambda: f"loss grew in iteration {i}: {log.loss}")
    if one and c["lr"] == 1.0:
        require(log.loss[-1] <= 1e-8 * sc, f"one k-point was not fitted by one step: {log.loss}")
    if len(c["m"]["nb"]) < 2:
        ctx.trivial()


# ----------------------------------------------------------- constant models
@st.composite
def s_const(draw):
    return {"lay": draw(st.sampled_from([l for l in models.LAYOUTS if l[0] != "inv"])), "dim": draw(st.sampled_from([1, 2, 3])), "b": draw(st.integers(1, 4)), "off": draw(st.integers(0, 3)), "nr": draw(st.integers(1, 4)), "v": draw(gen.i8(8)), "n": draw(st.sampled_from([1, 2, 7, 30])), "meth": draw(st.sampled_from(["cg", "cg", "gd"])), "pre": draw(st.booleans()), "rep": draw(st.integers(1, 3)), "w": draw(st.sampled_from([1.0, .4, 3.0]))}


def t_const(c, ctx):
    """a model without k dependence has its optimum at the mean energies, and stays there"""
    b, dim = c["b"], c["dim"]
    k, r = points(c["v"], c["n"], dim)
    nr = min(c["nr"], b)
    off = c["off"] % (b - nr + 1)
    H = np.diag(np.arange(b) * 1.5 + 0j)[None] + gen.herm(.1 * (r.randn(1, b, b) + 1j * r.randn(1, b, b)))
    m = models.build(c["lay"], np.zeros((1, dim)), H)
    e = np.linalg.eigvalsh(H[0])[off:off + nr]
    R = e + .2 * r.rand(c["n"], nr) + .1 * r.randn(nr)
    ctx.label(f"{c['lay'][0]} {c['meth']}")
    best = rms(np.tile(R.mean(0), (c["n"], 1)), R, c["w"], 0)
    for _ in range(c["rep"]):
        o = {"precond": c["pre"]} if c["meth"] == "cg" else {}
        log = fit(m, c["meth"], k, 1.0, R, c["w"], off, 12, log=False, convergence_threshold=0, **o)
        close(log.last_loss(), best, 1e-6, 1e-5, "loss of the best constant bands")
    close(m.bands(k)[:, off:off + nr], np.tile(R.mean(0), (c["n"], 1)), 1e-4, 1e-5, "best constant bands")
    if c["n"] < 2:
        ctx.trivial()


# ----------------------------------------------------------- stationary points
@st.composite
def s_stat(draw):
    return {"lay": draw(models.layout(inv=False)), "dim": draw(st.sampled_from([1, 2, 3])), "b": draw(st.sampled_from([1, 2, 2, 3])), "off": draw(st.integers(0, 1)), "nr": draw(st.sampled_from([1, 2, 3])), "nn": draw(st.integers(2, 4)), "v": draw(gen.i8(8)),
            "w": [draw(st.sampled_from([1., .3, 3., 2.])) for _ in range(3)], "meth": draw(st.sampled_from(["cg", "cg", "gd"])), "pre": draw(st.booleans()), "n": draw(st.sampled_from([20, 40])), "d": draw(st.sampled_from([.03, .1]))}


def t_stat(c, ctx):
    """where a fit comes to rest, no small change of the couplings improves the stated loss"""
    k, r = points(c["v"], c["n"], c["dim"])
    b, n = c["b"], c["nn"]
    nb = gen.half_box(c["dim"], 3 if c["dim"] == 1 else 1)[:n]
    H = r.randn(n, b, b) + 1j * r.randn(n, b, b)
    H[1:] *= .4
    H[0] = gen.herm(H[0]) + np.diag(np.arange(b) * 2.)
    m = models.build(c["lay"], nb, H)
    nr = min(c["nr"], b)
    off = min(c["off"], b - nr)
    R = np.sort(m.bands(k)[:, off:off + nr] + c["d"] * r.randn(c["n"], nr), axis=1)
    w = np.array(c["w"][:nr]) if c["meth"] == "cg" else np.ones(nr)
    o = {"precond": c["pre"]} if c["meth"] == "cg" else {}
    log = fit(m, c["meth"], k, 1.0, R, w, off, 40 if c["meth"] == "cg" else 200, log=False, convergence_threshold=0, **o)
    ctx.label(f"{c['lay'][0]} {c['meth']}")
    L = log.loss
    if not np.all(np.isfinite(L)) or np.max(np.abs(np.array(L[-4:]) / L[-1] - 1)) > 1e-6:
        ctx.trivial()  # still moving
        return
    h = np.array(m.params_complex())
    e = rms(m.bands(k), R, w, off)

    def f(x):
        return rms(models.build(c["lay"], nb, h + x).bands(k), R, w, off) ** 2
    gain = 0
    for _ in range(5):
        d = r.randn(n, b, b) + 1j * r.randn(n, b, b)
        d[0] = gen.herm(d[0])
        g = (f(1e-5 * d) - f(-1e-5 * d)) / 2e-5
        cv = abs(f(1e-3 * d) + f(-1e-3 * d) - 2 * e * e) / 1e-6 + 1e-3
        gain = max(gain, g * g / (2 * cv) / (e * e))  # relative decrease of the squared loss in this direction
    require(gain < 1e-5, lambda: f"the fit rests at a loss {e:.6f}, but a small change reduces its square by a fraction {gain:.2e}: {L[-3:]}")
    ctx.label("at rest")
    if np.ptp(w) == 0 or b < 2:
        ctx.trivial()


# ------------------------------------------------------------------- options
@st.composite
def s_opt(draw):
    return {"m": draw(s_model(lays=tuple(l for l in LAY if l[0] != "overlap"))), "n": draw(st.sampled_from([2, 5, 12])), "v": draw(gen.i8(8)), "lr": draw(st.sampled_from([.5, .1, 1.5, .9])), "reg": draw(st.sampled_from([.9, .5, .99])), "bd": draw(st.integers(1, 2)), "pinv": draw(st.booleans()), "w": draw(st.sampled_from([1., .4, 3.])), "nr": draw(st.integers(1, 3)), "off": draw(st.integers(0, 2)), "train_k0": draw(st.booleans())}


def t_opt(c, ctx):
    """documented options of one step: learning_rate scales the step, regularization scales the parameters before it"""
    m0 = make(c["m"])
    k, r = points(c["v"], c["n"], c["m"]["dim"])
    nr = min(c["nr"], c["m"]["b"])
    off = min(c["off"], c["m"]["b"] - nr)
    B0 = m0.bands(k)[:, off:off + nr]
    R = np.sort(B0 + .4 * r.randn(*B0.shape), axis=1)
    bs = not hasattr(m0, "H")

    def step(m, **o):
        m = m.copy()
        if bs:
            m.symmetrizer = np.array  # leaves the parameters alone, so that the basis of the bands stays the same
            if c["m"]["lay"][1] and not c["train_k0"]:
                o["train_k0"] = False
        fit(m, "gd", k, 1.0, R, c["w"], off, 1, log=False, convergence_threshold=0, loss_threshold=0, use_pinv=c["pinv"], batch_div=c["bd"], **o)
        return par(m) if bs else np.array([np.trace(x) for x in par(m)])  # the other class changes the basis of the bands
    P = par(m0) if bs else np.array([np.trace(x) for x in par(m0)])
    d = step(m0) - P
    sc = 1e-9 * (1 + np.max(np.abs(P)) + np.max(np.abs(d)))
    ctx.label(c["m"]["lay"][0])
    close(step(m0, learning_rate=c["lr"]) - P, c["lr"] * d, sc, 0, "one step with a learning rate against the full step")
    close(step(m0, learning_rate=0.0), P, sc, 0, "one step with learning rate 0")
    m1 = m0.copy()
    if bs:
        m1.params = P.copy()
        m1.params[1:] *= c["reg"]
    else:
        m1.H.H_r[1:] *= c["reg"]
    close(step(m0, regularization=c["reg"]), step(m1), sc * 10, 0, "one step with regularization")
    if len(P) < 2 or np.max(np.abs(d)) < 1e-6:
        ctx.trivial()


# ------------------------------------------------------------------ recovery
@st.composite
def s_rec(draw):
    return {"m": draw(s_model(min_b=1)), "v": draw(gen.i8(8)), "meth": draw(st.sampled_from(["cg", "cg", "gd"])), "part": draw(st.booleans()), "pre": draw(st.booleans())}


def t_rec(c, ctx):
    m0 = make(c["m"])
    n = len(par(m0)) * c["m"]["b"] * 2 + 12
    k, r = points(c["v"], n, c["m"]["dim"])
    R = m0.bands(k)
    b = c["m"]["b"]
    off, nr = (r.randint(0, b), 1) if c["part"] and b > 1 else (0, b)
    R = R[:, off:off + nr]
    fac = 1 + .02 * r.randn(par(m0).size if not hasattr(m0, "H") else m0.H.H_r.size)
    fac = fac[:len(c["m"]["nb"]) * b * b]
    m = make(c["m"], fac)
    ctx.label(f"{c['m']['lay'][0]} {c['meth']}")
    l0 = rms(m.bands(k), R, 1, off)
    if l0 < 1e-9 or np.ptp(R) < 1e-9:
        ctx.trivial()
        return
    if c["meth"] == "cg":
        log = fit(m, "cg", k, 1.0, R, 1.0, off, 30, log=False, convergence_threshold=0, precond=c["pre"], max_cg_iterations=25)
        f = .35
    else:
        o = {"learning_rate": .1} if c["m"]["lay"][0] == "overlap" else {}
        log = fit(m, "gd", k, 1.0, R, 1.0, off, 120, log=False, convergence_threshold=0, **o)
        f = .95 if o else .8
    l1 = rms(m.bands(k), R, 1, off)
    close(log.last_loss(), l1, 1e-9 * (1 + np.max(np.abs(R))), 1e-8, "last logged loss")
    require(l1 <= f * l0 + 1e-9, lambda: f"data of the same form is not recovered: {log.loss[:3]} ... {log.loss[-3:]}")


# -------------------------------------------------------------- keeping zeros
@st.composite
def s_zeros(draw):
    return {"lay": draw(models.layout(inv=False)), "dim": draw(st.sampled_from([1, 2, 3])), "blocks": draw(st.sampled_from([[2, 1], [1, 1], [1, 2], [2, 2], [1, 1, 2], [3, 1]])), "perm": draw(gen.i8(4)), "v": draw(gen.i8(8)), "nn": draw(st.integers(2, 4)), "meth": draw(st.sampled_from(["gd", "cg"])), "pre": draw(st.booleans()), "exact": draw(st.booleans()), "pinv": draw(st.booleans()), "small": draw(st.sampled_from([1., 1., 1e-3, 1e-5]))}


def components(M, tol):
    """sizes of the sets of bands that couple"""
    G = np.max(np.abs(M), axis=0) > tol
    b = len(G)
    G = (G | G.T).astype(int) + np.eye(b, dtype=int)
    C = np.linalg.matrix_power(G, b) > 0
    return sorted(len(x) for x in {tuple(np.flatnonzero(r)) for r in C})


def t_zeros(c, ctx):
    k, r = points(c["v"], 14, c["dim"])
    nb = gen.half_box(c["dim"], 3 if c["dim"] == 1 else 1)[:c["nn"]]
    b = sum(c["blocks"])
    lab = np.repeat(np.arange(len(c["blocks"])), c["blocks"])
    lab = lab[np.argsort(c["perm"][:b], kind="stable")]
    H = r.randn(len(nb), b, b) + 1j * r.randn(len(nb), b, b)
    H[1:] *= .4
    H[:, lab[:, None] != lab[None]] = 0
    H[0] = gen.herm(H[0])
    H[0] += np.diag(r.permutation(b)) * .7
    m0 = models.build(c["lay"], nb, H)
    R = m0.bands(k) + (0 if c["exact"] else .1 * r.randn(14, b))
    R = np.sort(R, axis=1)
    H2 = H * (1 + .03 * r.randn(*H.shape)) if not c["exact"] else H.copy()
    H2[0] = gen.herm(H2[0])
    if not c["exact"]:
        H2[1:] *= c["small"]  # small couplings are no zeros
    m = models.build(c["lay"], nb, H2)
    e = np.linalg.eigvalsh(gen.series(np.zeros((1, c["dim"])), nb, H2))[0]
    e2 = np.linalg.eigvalsh(H2[0])
    if b > 1 and (np.min(np.diff(e)) < .05 or np.min(np.diff(e2)) < .05):
        raise Skip()
    ctx.label(f"{c['lay'][0]} {c['meth']}")
    o = {} if c["meth"] == "gd" else {"precond": c["pre"]}
    if c["meth"] == "gd" and not c["pinv"]:
        o["learning_rate"] = .5
    log = fit(m, c["meth"], k, 1.0, R, 1.0, 0, 8, log=False, keep_zeros=True, loss_threshold=1e-9 if c["exact"] else 1e-16, **o)
    h = np.array(m.params_complex())
    got = components(h, 1e-8)
    want = sorted(c["blocks"])
    # generic blocks: every block stays together, no coupling appears between them
    require(got == want, lambda: f"blocks {want} became {got}, losses {log.loss}")
    if c["exact"]:
        require(log.last_loss() < 1e-8, f"a perfect model was changed: {log.loss}")
    close(log.last_loss(), rms(m.bands(k), R, 1, 0), 1e-8, 1e-8, "last logged loss")
    if c["meth"] == "gd":
        # randomising inside of the zero structure
        np.random.seed(c["nn"])
        z = np.abs(par(m)) < 1e-8
        old = par(m)
        m.randomize(.3, keep_zeros=True)
        d = par(m) - old
        require(np.all(d[z] == 0), "randomize(keep_zeros=True) filled a zero")
        require(np.all(d[~z] != 0), "randomize(keep_zeros=True) did not change a parameter")
        require(.05 < np.std(d[~z].real) < 1. and .05 < np.std(d[~z].imag) < 1. if np.sum(~z) >= 10 else True, "size of the random change")


# ------------------------------------------------------------------- symmetry
@st.composite
def s_sym(draw):
    return {"g": draw(st.sampled_from(["square", "c4", "mirror"])), "rep": draw(st.sampled_from(["p", "s", "sp"])), "v": draw(gen.i8(8)), "nn": draw(st.sampled_from([[0], [0, 1], [0, 1, 2]])), "meth": draw(st.sampled_from(["gd", "cg"])), "it": draw(st.sampled_from([0, 1, 5])), "exp": draw(st.booleans()), "cos": draw(st.booleans()), "k0": draw(st.booleans()), "pinv": draw(st.booleans())}


def t_sym(c, ctx):
    """a symmetriser keeps H(s k) = U H(k) U^+ through the fit"""
    ops = {"square": [[[0, -1], [1, 0]], [[1, 0], [0, -1]]], "c4": [[[0, -1], [1, 0]]], "mirror": [[[1, 0], [0, -1]]]}[c["g"]]
    import groups
    G = groups.closure(ops)
    rep = lambda s: {"s": np.eye(1), "p": s, "sp": np.block([[np.eye(1), np.zeros((1, 2))], [np.zeros((2, 1)), s]])}[c["rep"]]
    U = np.array([rep(s) for s in G])
    nb = [[0, 0]] + [x for i, x in enumerate([[[1, 0], [0, 1]], [[1, 1], [1, -1]], [[2, 0], [0, 2]]]) if i in c["nn"] for x in x]
    nb = np.array(nb, float)
    b = len(U[0])
    k, r = points(c["v"], 16, 2)

    def project(H):
        H = np.asarray(H)
        out = np.zeros(H.shape, complex)
        for s, u in zip(G, U):
            for i, R in enumerate(nb):
                T = s @ R
                j = np.flatnonzero(np.linalg.norm(nb - T, axis=1) < 1e-9)
                if len(j):
                    out[j[0]] += u @ H[i] @ u.conj().T
                else:
                    j = np.flatnonzero(np.linalg.norm(nb + T, axis=1) < 1e-9)
                    out[j[0]] += (u @ H[i] @ u.conj().T).conj().T
        out /= len(G)
        out[0] = gen.herm(out[0])
        return out

    m = BandStructureModel.init_tight_binding(Symmetry.none(2), nb, b, cos_reduced=c["cos"], exp=c["exp"])

    def symmetrizer(p):  # acts on the stored parameters
        t = BandStructureModel.init_tight_binding(Symmetry.none(2), nb, b, cos_reduced=c["cos"], exp=c["exp"])
        t.params = np.array(p, complex)
        h = project(t.params_complex())
        t.set_params_complex(h)
        return t.params

    H = project(r.randn(len(nb), b, b) + 1j * r.randn(len(nb), b, b))
    m.set_params_complex(H)
    R = np.sort(m.bands(k) + .2 * r.randn(16, b), axis=1)
    m.symmetrizer = symmetrizer
    if c["v"][7] % 2:
        m = m.copy()  # keeps the symmetriser
    ctx.label(f"{c['g']} {c['rep']} {c['meth']}")
    q = np.array([[0, 0], [.1, .27], [-.33, .4]])
    f0 = np.linalg.eigvalsh(m.f(q[:1]))
    o = {"train_k0": False} if c["k0"] and c["cos"] and c["meth"] == "gd" else {}
    if c["meth"] == "gd" and not c["pinv"]:
        o["use_pinv"] = False
    with contextlib.redirect_stdout(io.StringIO()):
        log = fit(m, c["meth"], k, 1.0, R, 1.0, 0, c["it"], log=False, **o)
    if "train_k0" in o:
        close(np.linalg.eigvalsh(m.f(q[:1])), f0, 1e-9 * (1 + np.max(np.abs(f0))), 1e-9, "bands at k=0 with train_k0=False")
    close(log.last_loss(), rms(m.bands(k), R, 1, 0), 1e-9, 1e-8, "last logged loss")
    h = m.f(q)
    for s, u in zip(G, U):
        close(m.f(q @ s.T), u @ h @ u.conj().T, 1e-8 * (1 + np.max(np.abs(h))), 1e-8, "symmetry of the fitted Hamiltonian")
    if not c["it"]:
        ctx.trivial()


@st.composite
def s_k0(draw):
    return {"m": draw(s_model(lays=tuple(l for l in models.LAYOUTS if l[1]))), "v": draw(gen.i8(8)), "pinv": draw(st.booleans()), "it": draw(st.integers(1, 5)), "kz": draw(st.booleans())}


def t_k0(c, ctx):
    """cos_reduced models: train_k0=False keeps the bands at k=0"""
    m = make(c["m"])
    k, r = points(c["v"], 9, c["m"]["dim"])
    z = np.zeros((1, c["m"]["dim"]))
    e = m.bands(z)
    R = np.sort(m.bands(k) + .3 * r.randn(9, c["m"]["b"]), axis=1)
    B = m.bands(k)
    log = m.optimize(k, 1.0, R, 1.0, 0, c["it"], train_k0=False, use_pinv=c["pinv"], keep_zeros=c["kz"], log=False, learning_rate=.5)
    close(m.bands(z), e, 1e-9 * (1 + np.max(np.abs(e))), 1e-9, "bands at k=0 with train_k0=False")
    close(log.last_loss(), rms(m.bands(k), R, 1, 0), 1e-9 * (1 + np.max(np.abs(e))), 1e-8, "last logged loss")
    if len(c["m"]["nb"]) < 2 or np.max(np.abs(m.bands(k) - B)) < 1e-9:
        ctx.trivial()


# ---------------------------------------------------------------- interrupted
class Stop(OptimisationLogger):
    """raises KeyboardInterrupt at the n-th logged loss, like the user would"""

    def __init__(self, n):
        super().__init__(print_loss=False, verbose=False)
        self.n = n

    def add_data(self, *a):
        super().add_data(*a)
        self.n -= 1
        if self.n == 0:
            raise KeyboardInterrupt()


@st.composite
def s_stop(draw):
    return {"m": draw(s_model()), "meth": draw(st.sampled_from(["gd", "cg"])), "v": draw(gen.i8(8)), "at": draw(st.integers(1, 4))}


def t_stop(c, ctx):
    m = make(c["m"])
    k, r = points(c["v"], 8, c["m"]["dim"])
    R = np.sort(m.bands(k) + .4 * r.randn(8, c["m"]["b"]), axis=1)
    l0 = rms(m.bands(k), R, 1, 0)
    log = Stop(c["at"])
    res = fit(m, c["meth"], k, 1.0, R, 1.0, 0, 12, log=log, convergence_threshold=0)
    ctx.label(f"{c['m']['lay'][0]} {c['meth']}")
    require(res is log, "another logger was returned")
    require(log.aborted, "the interruption is not noted")
    require(log.stream.count("aborted") == 1, f"messages {log.stream}")
    close(log.last_loss(), rms(m.bands(k), R, 1, 0), 1e-8 * (1 + l0), 1e-8, "last logged loss after an interruption")
    require(len(log.loss) == c["at"] + 1, f"{len(log.loss)} losses, interrupted at {c['at']}")
    require(log.iterations == sorted(log.iterations), f"iterations {log.iterations}")
    P = par(m)
    close(P[0], P[0].conj().T, 1e-9 * (1 + np.max(np.abs(P))), 0, "on-site matrix after an interruption")
    raises(ValueError, log.abort, "aborting the same log again")


# --------------------------------------------------------------------- logger
@st.composite
def s_log(draw):
    return {"ops": draw(st.lists(st.sampled_from(["d", "d", "d", "m", "c", "a"]), min_size=1, max_size=12)), "v": draw(gen.i8(72)), "pl": draw(st.booleans()), "ul": draw(st.booleans()), "vb": draw(st.booleans()), "nb": draw(st.integers(1, 6))}


def t_log(c, ctx):
    log = OptimisationLogger(print_loss=c["pl"], update_line=c["ul"], verbose=c["vb"])
    stream, its, loss, text = [], [], [], []
    aborted, count = False, False
    v = np.abs(np.array(c["v"], float))
    require(log.iteration_count() == -1, "iterations of an empty log")
    out = io.StringIO()
    it = 0
    with contextlib.redirect_stdout(out):
        for j, op in enumerate(c["ops"]):
            x = v[6 * j:6 * j + 6]
            if op == "d":
                it += int(x[0]) % 5
                err = np.resize(x, c["nb"]) * 10.0 ** (int(x[1]) % 7 - 3) * (0 if x[2] == 3 else 1)
                l = float(x[3]) / 7
                log.add_data(it, l, err)
                stream.append((it, l, err))
                its.append((its[-1] + 1 if its else 0) if count else it)
                loss.append(l)
                if c["pl"]:
                    text.append((it, l, err))
            elif op == "m":
                log.add_message(f"msg {j}")
                stream.append(f"msg {j}")
                if c["vb"]:
                    text.append(f"msg {j}")
            elif op == "c":
                count = not count
                log.count = count
            elif aborted:
                raises(ValueError, log.abort, "aborting again")
            else:
                log.abort()
                stream.append("aborted")
                aborted = True
                if c["vb"]:
                    text.append("aborted")
    require(len(log.stream) == len(stream) and all((a == b) if isinstance(a, str) or isinstance(b, str) else (a[:2] == b[:2] and np.array_equal(a[2], b[2])) for a, b in zip(log.stream, stream)), lambda: f"stream {log.stream} instead of {stream}")
    require(log.iterations == its and log.loss == loss and log.aborted == aborted, lambda: f"iterations {log.iterations} {log.loss} instead of {its} {loss}")
    if its:
        require(log.iteration_count() == its[-1] and log.last_loss() == loss[-1], "last entry")
    parts = [s for s in re.split(r"[\r\n]+", out.getvalue()) if s]
    require(len(parts) == len(text), lambda: f"printed {parts} for {text}")
    for p, t in zip(parts, text):
        if isinstance(t, str):
            require(p == t, f"printed {p!r} for {t!r}")
            continue
        q = re.match(r"\s*(\d+): loss\s*(\S+?)\s*(\d\.\de[+-]\d+)×\[(.*)\]$", p)
        require(q, f"printed {p!r}")
        require(int(q[1]) == t[0] and q[2] == f"{t[1]:.2e}" and q[3] == f"{np.max(t[2]):.1e}", f"printed {p!r} for {t}")
        require(len(q[4]) == c["nb"], f"bars {q[4]!r} for {t[2]}")
        top = np.max(t[2])
        for ch, e in zip(q[4], t[2]):
            hgt = 0 if ch == " " else (ord(ch) - 0x2580) / 8
            require(0 <= hgt <= 1 and abs(hgt - (e / top if top > 0 else 0)) <= 1 / 16 + 1e-9, f"bar of height {hgt} for {e} of {top}")
    if len(loss) < 2:
        ctx.trivial()


# ------------------------------------------------------------ initial guesses
@st.composite
def s_init(draw):
    return {"dim": draw(st.sampled_from([1, 2, 3])), "b": draw(st.integers(1, 3)), "n": draw(st.integers(1, 5)), "at": draw(st.integers(0, 4)), "v": draw(gen.i8(20)), "off": draw(st.integers(0, 2)), "add": draw(st.integers(0, 2)), "lay": draw(st.sampled_from([l for l in models.LAYOUTS if l[1] is not False])), "nb": draw(st.integers(0, 4)), "S": draw(st.booleans())}


def t_init(c, ctx):
    """models initialised from data start at the bands of k=0, up to the documented small random couplings"""
    np.random.seed(abs(c["v"][0]) + 1)
    k, r = points(c["v"], c["n"], c["dim"])
    at = c["at"] % c["n"]
    k[at] = 0
    R = np.sort(np.resize(np.array(c["v"], float) / 32, (c["n"], c["b"])) + r.rand(c["n"], c["b"]), axis=1)
    nb = gen.half_box(c["dim"], 1 if c["dim"] > 1 else 4)[:1 + c["nb"]]
    keep = (k.copy(), R.copy(), nb.copy())
    z = np.zeros((1, c["dim"]))
    lay = list(c["lay"])
    kn = k.copy()
    kn[at] = np.roll([.25, 0., 0.][:c["dim"]], c["v"][1] % c["dim"])
    kn[np.linalg.norm(kn, axis=1) == 0] += .1
    raises(AssertionError, lambda: AsymTightBindingModel.init_from_ref(nb, kn, R), "initial model from data without k=0")
    raises(AssertionError, lambda: BandStructureModel.init_tight_binding_from_ref(Symmetry.none(c["dim"]), nb, kn, R, 0, 0, cos_reduced=True), "initial model from data without k=0")
    if lay[0] == "inv" and c["dim"] == 2:
        lay[0] = "none"
    ctx.label(lay[0])
    if lay[0] == "asym":
        m = AsymTightBindingModel.init_from_ref(nb, k, R, use_S=c["S"])
        want = R[at]
        tol = .02 * np.ptp(want) * len(nb) * c["b"] + 1e-9
        e0 = m.bands(z)[0]
    else:
        off = min(c["off"], c["add"])
        m = BandStructureModel.init_tight_binding_from_ref(Symmetry.none(c["dim"]) if lay[0] == "none" else Symmetry.inv(c["dim"]), nb, k, R, off, c["add"], cos_reduced=True, exp=lay[2])
        want = np.concatenate([[R[at][0]] * off, R[at], [R[at][-1]] * (c["add"] - off)])
        tol = 1e-9
        e0 = m.bands(z)[0]
        require(m.band_count() == c["b"] + c["add"], "number of bands")
        close(np.asarray(m.neighbors), nb, 0, 0, "neighbors")
        l = m.optimize(k, 1.0, R, 1.0, off, 2, log=False)
        close(l.last_loss(), rms(m.bands(k), R, 1, off), 1e-9 * (1 + np.max(np.abs(R))), 1e-8, "last logged loss")
    close(e0, want, tol, 0, "bands at k=0 of a model initialised from data")
    for a, x in zip(keep, (k, R, nb)):
        require(np.array_equal(a, x), "input modified")
    if c["n"] < 2:
        ctx.trivial()


# ---------------------------------------------------- representation based fit
@st.composite
def s_tbm(draw):
    return {"inv": draw(st.booleans()), "dim": draw(st.sampled_from([1, 2, 3])), "nb": draw(st.integers(1, 3)), "v": draw(gen.i8(8)), "it": draw(st.sampled_from([0, 1, 5, 101])), "off": draw(st.integers(0, 1)), "nr": draw(st.integers(1, 2))}


def t_tbm(c, ctx):
    k, r = points(c["v"], 10, c["dim"])
    nb = gen.half_box(c["dim"], 1 if c["dim"] > 1 else 4)[:1 + c["nb"]]
    if c["inv"]:
        u = UnitaryRepresentation(Symmetry([np.eye(c["dim"])], inversion=True), 2)
        u.U = np.array([np.eye(2)])
        u.inv_split = 1
    else:
        u = UnitaryRepresentation(Symmetry.none(c["dim"]), 2)
    m = TightBindingModel(u, nb, None)
    P = r.randn(*m.params.shape) + 1j * r.randn(*m.params.shape)
    m.params = np.asarray(m.symmetrizer(gen.herm(P)))
    nr, off = (2, 0) if c["nr"] == 2 else (1, c["off"])
    B0 = m.bands(k)
    R = B0[:, off:off + nr] + .1 * r.randn(10, nr)
    keep = (k.copy(), R.copy())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.optimize(k, 1.0, R, 1.0, off, c["it"])
    l1 = rms(m.bands(k), R, 1, off)
    q = re.findall(r"final loss: (\S+)", out.getvalue())
    require(len(q) == 1 and abs(float(q[0]) - l1) <= .006 * l1 + 1e-12, f"printed {out.getvalue()[-60:]!r}, the loss is {l1}")
    require(np.array_equal(keep[0], k) and np.array_equal(keep[1], R), "input modified")
    close(m.params[0], m.params[0].conj().T, 1e-9 * (1 + np.max(np.abs(m.params))), 0, "on-site matrix")
    if c["it"] == 0:
        close(m.bands(k), B0, 1e-8, 1e-8, "bands after 0 iterations")
    if c["it"] >= 100:
        require(l1 < rms(B0, R, 1, off) * 1.5 + .02, f"the fit made the model worse: {rms(B0, R, 1, off)} {l1}")
    if not c["it"]:
        ctx.trivial()


# -------------------------------------------- representation, from reference data
@st.composite
def s_rinit(draw):
    return {"leaves": draw(st.lists(st.sampled_from(["o3", "so3", "o3r", "o3ri", "a", "b", "c"]), min_size=1, max_size=3)), "v": draw(gen.i8(8)), "nb": draw(st.integers(1, 3)), "n": draw(st.integers(1, 5)), "at": draw(st.integers(0, 4)), "it": draw(st.sampled_from([0, 2]))}


def t_rinit(c, ctx):
    """a representation based model made from data has the multiplets of the data at k=0 and the declared symmetry, also after a fit"""
    UR = UnitaryRepresentation
    leaves = {"o3": UR.o3, "so3": UR.so3, "o3r": UR.o3r, "o3ri": UR.o3ri, "a": lambda: UR.one_dim(False, False), "b": lambda: UR.one_dim(True, False), "c": lambda: UR.one_dim(False, True)}
    u = leaves[c["leaves"][0]]()
    for x in c["leaves"][1:]:
        u = u + leaves[x]()
    sym = u.sym
    nb = sym.complete_neighbors([(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)][:1 + c["nb"]])
    np.random.seed(abs(c["v"][0]) + 11)
    k, r = points(c["v"], c["n"], 3)
    at = c["at"] % c["n"]
    k[at] = 0
    dims = [1 if x in "abc" else 3 for x in c["leaves"]]
    e = np.round(np.arange(len(dims)) * .6 + r.rand(len(dims)) * .4 - 1, 3)
    r.shuffle(e)
    want = np.sort(np.concatenate([[x] * d for x, d in zip(e, dims)]))
    R = np.sort(want[None, :] + .1 * (k ** 2).sum(1)[:, None], axis=1)
    keep = (k.copy(), R.copy())
    with contextlib.redirect_stdout(io.StringIO()):
        m = TightBindingModel.init_from_ref(u, nb, k, R, verbose=bool(c["v"][1] % 2))
    require(m.band_count() == len(want), "number of bands")
    z = np.zeros((1, 3))
    tol = .001 * np.ptp(want) * len(nb) * 2 * len(want) * 3 + 1e-9
    close(m.bands(z)[0], want, tol, 0, "bands at k=0 of a model initialised from data")
    if c["it"]:
        with contextlib.redirect_stdout(io.StringIO()):
            m.optimize(k, 1.0, R, 1.0, 0, c["it"])
    q = r.randn(3)
    img = np.array([s * (S @ q) for S in sym.S for s in (1, -1)])
    E = m.bands(img)
    close(E, np.broadcast_to(E[0], E.shape), 1e-8 * (1 + np.max(np.abs(E))), 0, "bands at the symmetry images of a k-point")
    require(np.array_equal(keep[0], k) and np.array_equal(keep[1], R), "input modified")
    if len(want) < 2:
        ctx.trivial()


# ----------------------------------------------------------------- overlap fit
@st.composite
def s_trs(draw):
    return {"b": draw(st.integers(1, 2)), "v": draw(gen.i8(8)), "it": draw(st.sampled_from([1, 20])), "kz": draw(st.booleans()), "pinv": draw(st.booleans()), "bd": draw(st.sampled_from([1, 1, 2])), "sep": draw(st.booleans()), "none": draw(st.integers(0, 2))}


def t_trs(c, ctx):
    """training the overlap as well: small energies, where the step is stable"""
    k, r = points(c["v"], 16, 1)
    b = c["b"]
    nb = np.array([[0.], [1]])
    H = .15 * (r.randn(2, b, b) + 1j * r.randn(2, b, b))
    H[0] = gen.herm(H[0])
    S = np.array([np.eye(b), .05 * r.randn(b, b)], complex)
    if c["none"] == 1:
        S[1] = 0  # a lattice vector without overlap
    elif c["none"] == 2:
        H[1] = 0
    if c["sep"]:  # bands that do not couple
        H, S = H * np.eye(b) + np.array([.6, 0])[:, None, None] * np.diag(np.arange(b)), S * np.eye(b)
    m = AsymTightBindingModel(HermitianFourierSeries(nb, H), HermitianFourierSeries(nb, S))
    R = m.bands(k)
    m.H.H_r = m.H.H_r + .01 * r.randn(2, b, b) * (np.abs(H) > 1e-9)
    m.H.H_r[0] = gen.herm(m.H.H_r[0])
    l0 = rms(m.bands(k), R, 1, 0)
    log = m.optimize(k, 1.0, R, 1.0, 0, c["it"], train_S=True, keep_zeros=c["kz"], log=False, use_pinv=c["pinv"], batch_div=c["bd"], convergence_threshold=0, learning_rate=.5)
    l1 = rms(m.bands(k), R, 1, 0)
    close(log.last_loss(), l1, 1e-9, 1e-8, "last logged loss")
    if c["sep"] and c["kz"]:
        x = max(np.max(np.abs(M * (1 - np.eye(b)))) for M in (m.H.H_r, m.S.H_r))
        require(x < 1e-8, f"keep_zeros: bands that did not couple do so by {x}")
    if c["kz"] and c["none"]:
        x = np.max(np.abs((m.H if c["none"] == 2 else m.S).H_r[1]))
        require(x < 1e-8, f"keep_zeros: a matrix of zeros was filled with {x}")
    B = m.bands(k)
    m.optimize(k, 1.0, R, 1.0, 0, 3, train_S=True, log=False, use_pinv=c["pinv"], batch_div=c["bd"], convergence_threshold=0, learning_rate=0.0)
    close(m.bands(k), B, 1e-9, 1e-9, "bands after steps with learning rate 0")
    close(m.S.H_r[0], m.S.H_r[0].conj().T, 1e-9, 0, "on-site overlap")
    e = np.linalg.eigvalsh(gen.series(k, nb, np.asarray(m.S.H_r)))
    require(np.min(e) > 0, f"overlap is not positive {np.min(e)}")
    close(gen.series(np.zeros((1, 1)), nb, np.asarray(m.S.H_r))[0], np.eye(b), 1e-8, 0, "normalised overlap at k=0")
    if c["bd"] == 1 and c["pinv"]:
        require(l1 <= l0 * (1 + 1e-6) + 1e-9, f"training the overlap made it worse: {log.loss}")


# --------------------------------------------------------------------- autofit
@st.composite
def s_auto(draw):
    return {"dim": draw(st.sampled_from([1, 2])), "b": draw(st.integers(1, 2)), "v": draw(gen.i8(8)), "lo": draw(st.integers(0, 1)), "hi": draw(st.integers(0, 1)), "n": draw(st.integers(2, 4)), "start": draw(st.integers(0, 1)), "sym": draw(st.booleans())}


def t_auto(c, ctx):
    np.random.seed(abs(c["v"][3]) + 5)
    k, r = points(c["v"], 25, c["dim"])
    k[r.randint(25)] = 0
    sym = (Symmetry.inv(1) if c["dim"] == 1 else Symmetry.square()) if c["sym"] else Symmetry.none(c["dim"])
    src = gen.half_box(c["dim"], 1)[:3] if c["dim"] == 2 else np.array([[0.], [1], [2], [3]])
    if c["dim"] == 2:
        src = np.array([[0., 0], [1, 0], [1, 1], [2, 0]])
    src = src[:c["n"]]
    b = c["b"]
    ks = np.linalg.norm(k, axis=1)
    R = np.sort(np.cos(2 * np.pi * (k if c["sym"] else k[:, :1])).sum(1)[:, None] * np.linspace(.5, .3, b) + np.arange(b) * .8, axis=1)
    keep = (k.copy(), R.copy(), src.copy())
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                m = autofit_asym("x", src, k, R, np.ones(b), sym, start_neighbors_count=min(c["start"], c["n"] - 1), add_bands_below=c["lo"], add_bands_above=c["hi"], randomize=False, restarts=1)
            files = sorted(os.listdir(d))
            last = f"asym_x_{c['n']}.json" if min(c["start"], c["n"] - 1) + 1 < c["n"] else "asym_x_start.json"
            require("asym_x_start.json" in files and last in files, f"files {files}, expected {last}")
            m2 = AsymTightBindingModel.load(last)
        finally:
            os.chdir(cwd)
    close(m2.bands(k), m.bands(k), 1e-8, 1e-8, "bands of the last checkpoint")
    require(m.band_count() == b + c["lo"] + c["hi"], f"{m.band_count()} bands")
    for a, x in zip(keep, (k, R, src)):
        require(np.array_equal(a, x), "input modified")
    want = sym.complete_neighbors(src)
    got = np.asarray(m.H.neighbors)
    require(len(got) == len(want) and all(np.min(np.linalg.norm(want - x, axis=1)) < 1e-9 or np.min(np.linalg.norm(want + x, axis=1)) < 1e-9 for x in got), f"lattice vectors {got.tolist()}")
    l = rms(m.bands(k), R, 1, c["lo"])
    l_const = float(np.sqrt(np.sum((R - R.mean(0)) ** 2) / len(R)))
    if src.shape[0] >= 2:
        require(l < .5 * l_const, f"fit of a cosine band has the loss {l}, a constant has {l_const}")


SUBS = [
    Sub("stationary", s_stat(), t_stat, quick=300, shards=2),Sub("fit", s_fit(), t_fit, quick=1600, thorough=40000, shards=3, max_case_s=20),
        Sub("stopping", s_end(), t_end, quick=1200, thorough=30000, shards=3, max_case_s=20),
        Sub("monotone", s_mono(), t_mono, quick=1500, thorough=40000, shards=2),
        Sub("constant", s_const(), t_const, quick=600, thorough=15000),
        Sub("options", s_opt(), t_opt, quick=600, thorough=15000),
        Sub("recover", s_rec(), t_rec, quick=250, thorough=5000, shards=3, max_case_s=30),
        Sub("zeros", s_zeros(), t_zeros, quick=700, thorough=15000),
        Sub("symmetry", s_sym(), t_sym, quick=300, thorough=6000),
        Sub("train_k0", s_k0(), t_k0, quick=500, thorough=10000),
        Sub("interrupted", s_stop(), t_stop, quick=500, thorough=10000),
        Sub("logger", s_log(), t_log, quick=2000, thorough=40000),
        Sub("initial", s_init(), t_init, quick=600, thorough=15000),
        Sub("representation_initial", s_rinit(), t_rinit, quick=120, thorough=2500),
        Sub("representation", s_tbm(), t_tbm, quick=200, thorough=4000),
        Sub("overlap", s_trs(), t_trs, quick=200, thorough=4000),
        Sub("autofit", s_auto(), t_auto, quick=30, thorough=600, max_case_s=60)]
