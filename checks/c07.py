"""C07: model arithmetic acts on the bands as written and never on the operands (model-based op sequences)."""
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises, fail
from models import build, layout, restrict, pd_series, neighbors_of, hk, AsymTightBindingModel, HermitianFourierSeries, BandStructureModel, Symmetry
from c02 import geig_ref
from c03 import basis
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation

RULE = "a sequence with at least two operations of different kinds on a model with k-dependent couplings and at least two bands"
ASSUMPTIONS = ["reference model: plain arrays of lattice vectors and couplings (and overlap) that every operation is applied to by definition; after every operation all live models are compared with their reference",
               "copies of a BandStructureModel share the lattice vectors (documented), so transform is expected to act on all of them"]

OPS = ["mul", "add", "sum", "permute", "transform", "copy", "mutate", "normalize", "imul", "iadd", "set", "limit", "limitn", "clean", "addnb", "addnb1", "neg"]


@st.composite
def case_seq(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    b = draw(gen.often(st.integers(1, 3), [6], 24))
    nb = draw(gen.neighbors_int(dim, draw(gen.often(st.just(4), [16], 24)), 4 if dim == 2 else 20 if dim == 1 else 2)) if b < 4 else draw(gen.neighbors_int(dim, 4))
    lay = draw(st.one_of(layout(), st.just(["asym", None, None])))
    asym = lay[0] == "asym"
    n = draw(st.integers(1, 8))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS if asym or draw(st.booleans()) else OPS[:11]), st.integers(0, 5), gen.i8(12)), min_size=n, max_size=n))
    c = {"dim": dim, "b": b, "nb": nb, "lay": lay, "H": draw(gen.nums(2 * len(nb) * b * b)), "k": draw(gen.kpts(dim, 2, 3)), "ops": [list(o) for o in ops]}
    if asym and draw(st.booleans()):
        sn = draw(gen.neighbors_int(dim, 3))
        c["sn"] = sn
        c["S"] = draw(gen.nums(2 * len(sn) * b * b))
    return c


class Box:
    """lattice vectors that may be shared between models"""
    def __init__(self, v):
        self.v = np.array(v)


class Ref:
    def __init__(self, model, box, H, sn=None, S=None):
        self.m, self.box, self.H, self.sn, self.S = model, box, H, sn, S

    def bands(self, k):
        h = gen.series(k, self.box.v, self.H)
        if self.S is None:
            return np.linalg.eigvalsh(h)
        return np.array([geig_ref(a, b) for a, b in zip(h, gen.series(k, self.sn, self.S))])

    def scale(self):
        return 1 + np.sum(np.abs(self.H))


def dsum(a, b):
    r = np.zeros((len(a), a.shape[1] + b.shape[1], a.shape[1] + b.shape[1]), complex)
    r[:, :a.shape[1], :a.shape[1]] = a
    r[:, a.shape[1]:, a.shape[1]:] = b
    return r


def verify(pool, k, what):
    for i, p in enumerate(pool):
        sc = p.scale()
        close(p.m(k), p.bands(k), 1e-8 * sc, 1e-8, f"bands of model {i} of {len(pool)} after {what}")
        require(p.m.band_count() == p.H.shape[1], f"band count of model {i} after {what}")


def check_seq(c, ctx):
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    lay = c["lay"]
    if lay[0] == "inv" and dim == 2:
        lay = ["none"] + lay[1:]
    asym = lay[0] == "asym"
    H = gen.dec_complex(c["H"], (len(nb), b, b))
    H[0] = gen.herm(H[0])
    H = restrict(lay, H)
    k = gen.dec_k(c["k"], dim)
    sn = S = None
    if asym and "S" in c:
        sn = np.array(c["sn"], dtype=float).reshape(-1, dim)
        S = pd_series(sn, c["S"], b)
        m = AsymTightBindingModel(HermitianFourierSeries(nb.copy(), H.copy()), HermitianFourierSeries(sn.copy(), S.copy()))
    else:
        m = build(lay, nb, H)
    pool = [Ref(m, Box(nb), H, sn, S)]
    verify(pool, k, "construction")
    kinds = set()
    for op, which, v in c["ops"]:
        p = pool[which % len(pool)]
        m = p.m
        before = [(id(q), q.m.params_complex().copy()) for q in pool]
        f = v[0] / 32
        if op in ("mul", "imul", "neg"):
            if op == "neg":
                f = -1.0
            if p.scale() * abs(f) > 1e5:
                continue
            if op == "imul":
                old = m
                m *= f
                p2 = Ref(m, p.box, p.H * f, p.sn, p.S)
            else:
                p2 = Ref(m * f, p.box, p.H * f, p.sn, p.S)
            pool.append(p2)
            close(p2.m(k), np.sort(p.bands(k) * f, axis=1), 1e-8 * p.scale(), 1e-8, f"bands times {f}")
        elif op in ("add", "iadd"):
            nv = p.box
            if asym:
                p2m = m + f
                nbx = neighbors_of(p2m)
                p2 = Ref(p2m, Box(nbx), np.array(p2m.params_complex()), p.sn, p.S)
            else:
                p2m = m + f
                Hn = p.H.copy()
                Hn[0] = Hn[0] + f * np.eye(len(Hn[0]))
                p2 = Ref(p2m, nv, Hn, p.sn, p.S)
            pool.append(p2)
            close(p2.m(k), p.bands(k) + f, 1e-8 * (p.scale() + abs(f)), 1e-8, f"bands plus {f}")
        elif op == "sum":
            q = pool[v[0] % len(pool)]
            compatible = p.box.v.shape == q.box.v.shape and np.allclose(p.box.v, q.box.v)
            if p.H.shape[1] + q.H.shape[1] > 12:
                continue
            if not compatible:
                raises((AssertionError, ValueError, NotImplementedError), lambda: m + q.m, "sum of models with different lattice vectors")
                continue
            exact = np.array_equal(p.box.v, q.box.v) and (p.S is None or np.array_equal(p.sn, q.sn))
            try:
                r = m + q.m
            except (AssertionError, ValueError, NotImplementedError):
                if exact:
                    raise
                continue
            p2 = Ref(r, p.box, dsum(p.H, q.H), p.sn, None if p.S is None else dsum(p.S, q.S))
            pool.append(p2)
            close(r(k), np.sort(np.concatenate([p.bands(k), q.bands(k)], axis=1), axis=1), 1e-8 * (p.scale() + q.scale()), 1e-8, "union of the bands")
        elif op == "permute":
            o = list(np.argsort(np.random.RandomState(abs(v[0])).rand(p.H.shape[1])))
            m.permute(o)
            p.H = p.H[:, o][:, :, o]
            if p.S is not None:
                p.S = p.S[:, o][:, :, o]
            h = gen.series(k, p.box.v, p.H)
            close(hk(m, k), h, 1e-8 * p.scale(), 1e-8, "permuted H(k)")
        elif op == "transform":
            A = basis(v[:dim * dim], dim) * (1 if v[9] % 2 else -0.7)
            want = Ref(None, p.box, p.H, p.sn, p.S).bands(k @ A)
            m.transform(A)
            if asym:
                p.box = Box(p.box.v @ A.T)
            else:
                p.box.v = p.box.v @ A.T
            if p.S is not None:
                p.sn = p.sn @ A.T
            close(m(k), want, 1e-7 * p.scale(), 1e-7, "bands of the transformed model")
        elif op == "copy":
            pool.append(Ref(m.copy(), Box(p.box.v) if asym else p.box, p.H.copy(), p.sn, p.S))
            for what in ("bands_grad", "bands_grad_hess"):  # a copy can do what the original can
                try:
                    d1 = getattr(m, what)(k)
                except NotImplementedError:
                    continue
                for x, y in zip(d1, getattr(pool[-1].m, what)(k)):
                    close(y, x, 1e-9 * p.scale() * (1 + np.max(np.abs(x))), 0, f"{what} of a copy")
        elif op == "mutate":
            s = abs(v[0]) / 128
            kz = v[1] % 2 == 0
            old = m.params_complex().copy()
            m.randomize(s, keep_zeros=kz)
            m.normalize()
            p.H = m.params_complex().copy()
            if p.S is not None:
                p.sn, p.S = m.S.neighbors.copy(), m.S.H_r.copy()
        elif op == "normalize":
            m.normalize()
            want = p.bands(k)
            close(m(k), want, 1e-7 * p.scale(), 1e-7, "bands after normalising")
            p.H = m.params_complex().copy()
            if p.S is not None:
                p.sn, p.S = m.S.neighbors.copy(), m.S.H_r.copy()
        elif op == "set":
            n = p.H.shape[1]
            r = np.random.RandomState(abs(v[0]) * 7 + abs(v[1]))
            Hn = r.standard_normal(p.H.shape) + 1j * r.standard_normal(p.H.shape)
            Hn[0] = gen.herm(Hn[0])
            Hn = restrict(lay, Hn)
            arg = Hn.copy()
            (m.set_from_complex if asym else m.set_params_complex)(arg)
            p.H = Hn
            if not asym:
                close(arg, Hn, 0, 0, "couplings passed in were changed by setting them")
        elif op in ("limit", "limitn", "clean", "addnb", "addnb1"):
            if not asym:
                continue
            series = m.H
            r = np.linalg.norm(p.box.v, axis=1)
            if op == "limit":
                # also exactly at a length
                L = max(0.0, r[abs(v[0]) % len(r)] + (v[2] % 3 - 1) * 1e-12) if v[1] % 2 else abs(v[0]) / 40
                if np.any((np.abs(r - L) < 1e-6) & (np.abs(r - L) > 1e-9)):
                    continue
                keep = r <= L + 1e-8
                n = series.limit_neighbors(L)
            elif op == "limitn":
                cnt = 1 + abs(v[0]) % (len(r) + 1)
                n = series.limit_neighbor_count(cnt)
                left = series.neighbors
                require(len(left) == min(cnt, len(r)) and n == len(r) - len(left), f"{len(left)} of {len(r)} lattice vectors left for a limit of {cnt}, reported {n} removed")
                require(np.linalg.norm(left[0]) == 0, "the origin is not first any more")
                idx = [int(np.argmin(np.linalg.norm(p.box.v - x, axis=1))) for x in left]
                require(len(set(idx)) == len(idx), "a lattice vector is listed twice after limiting")
                rest = [i for i in range(len(r)) if i not in idx]
                if rest:
                    require(max(r[idx]) <= min(r[rest]) + 1e-9, "a longer lattice vector was kept instead of a shorter one")
                close(left, p.box.v[idx], 1e-9, 1e-12, "lattice vectors")
                close(series.H_r, p.H[idx], 1e-9 * p.scale(), 0, "couplings of the kept lattice vectors")
                p.box, p.H = Box(p.box.v[idx]), p.H[idx]
                n = None
            elif op == "clean":
                nr = np.linalg.norm(p.H, axis=(1, 2))
                L = sorted(nr)[abs(v[0]) % len(nr)] * (1 + (v[1] % 3 - 1) * 0.01) if v[2] % 2 else abs(v[0]) / 30
                if np.any(np.abs(nr - L) < 1e-7 * p.scale()):
                    continue
                keep = nr >= L
                keep[0] = True
                n = series.cleanup_neighbors(L)
            else:
                cand = gen.half_box(dim, 3)[1:] if dim < 3 else gen.half_box(3, 1)[1:]
                if v[3] % 3 == 0:  # vectors close to others, like in a cell that is large in units of the distances
                    cand = p.box.v[[abs(v[4]) % len(p.box.v)]] + np.array([[.02], [.003], [.2]]) * (1 if v[5] % 2 else -1) * np.eye(dim)[abs(v[4]) % dim]
                new = [x for x in cand if np.min(np.linalg.norm(p.box.v - x, axis=1)) > 1e-3 and np.min(np.linalg.norm(p.box.v + x, axis=1)) > 1e-3]
                new = np.array(new[abs(v[0]) % 3:][:1 if op == "addnb1" else 3])
                if len(new) == 0:
                    continue
                arg = new.copy()
                series.add_neighbors(arg)
                p.box = Box(np.concatenate([p.box.v, new]))
                p.H = np.concatenate([p.H, np.zeros((len(new),) + p.H.shape[1:])])
                close(series.neighbors, p.box.v, 1e-9, 1e-12, "lattice vectors after adding some")
                dup = [new[0], new[0] + 1.0] if v[2] % 2 else [new[-1]]
                if len(dup) > 1:
                    raises(ValueError, lambda: series.add_neighbors(np.array(dup)), "adding a lattice vector twice")
                else:
                    series.add_neighbors(np.array(dup))
                n = None
            if op in ("limit", "clean"):
                require(n == np.sum(~keep), f"{op}: {n} reported as removed instead of {np.sum(~keep)}")
                p.box, p.H = Box(p.box.v[keep]), p.H[keep]
            close(series.neighbors, p.box.v, 1e-9, 1e-12, f"lattice vectors after {op}")
            close(series.H_r, p.H, 1e-9 * p.scale(), 0, f"couplings after {op}")
        kinds.add(op)
        if len(pool) > 5:
            pool = pool[-5:]
        verify(pool, k, op)
    for o in kinds:
        ctx.label(o)
    if len(kinds) < 2 or pool[-1].H.shape[1] < 2 or not np.any(H[1:]):
        ctx.trivial()


@st.composite
def case_series(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    nb = draw(gen.neighbors_int(dim, 4))
    b1, b2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {"dim": dim, "nb": nb, "b1": b1, "b2": b2, "A": draw(gen.nums(2 * len(nb) * b1 * b1)), "B": draw(gen.nums(2 * len(nb) * b2 * b2)), "k": draw(gen.kpts(dim)),
            "other": draw(st.integers(0, 5)), "lay": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "diff": draw(st.booleans()), "syms": draw(st.integers(0, 6))}


def check_series(c, ctx):
    """Fourier series objects: direct sum, copy, identity"""
    dim = c["dim"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    A = gen.dec_complex(c["A"], (len(nb), c["b1"], c["b1"]))
    B = gen.dec_complex(c["B"], (len(nb), c["b2"], c["b2"]))
    A[0], B[0] = gen.herm(A[0]), gen.herm(B[0])
    k = gen.dec_k(c["k"], dim)
    a, b = HermitianFourierSeries(nb, A.copy()), HermitianFourierSeries(nb.copy(), B.copy())
    fa, fb = gen.series(k, nb, A), gen.series(k, nb, B)
    if len(nb) < 2 or not np.any(A[1:]) or not np.any(B[1:]):
        ctx.trivial()
    for s in (a + b, a.direct_sum(b)):
        close(s.f(k), dsum(fa, fb), 1e-9 * (1 + np.sum(np.abs(A)) + np.sum(np.abs(B))), 0, "direct sum of Fourier series")
        s.H_r[:] = 0
    close(a.f(k), fa, 1e-9 * (1 + np.sum(np.abs(A))), 0, "operand after the sum was changed")
    cp = a.copy()
    cp.H_r[:] += 1
    cp.neighbors[:] *= 2
    close(a.f(k), fa, 1e-9 * (1 + np.sum(np.abs(A))), 0, "series after its copy was changed")
    close(HermitianFourierSeries.unit_matrix(nb, 3).f(k), np.broadcast_to(np.eye(3), (len(k), 3, 3)), 1e-12, 0, "identity series")
    if c["diff"]:
        nb2 = nb.copy()
        nb2 = np.concatenate([nb2, nb2[-1:] + 5])
        d = HermitianFourierSeries(nb2, np.concatenate([B, B[-1:]]))
        raises((NotImplementedError, AssertionError, ValueError), lambda: a + d, "sum of series with different lattice vectors")
        raises((NotImplementedError, AssertionError, ValueError), lambda: a.direct_sum(d), "sum of series with different lattice vectors")
    # the same number of lattice vectors, but others, other storage: refused, or the union of the bands
    kind = c["other"]
    nb2 = nb.copy()
    if len(nb) > 1:
        if kind == 0:
            nb2[-1] = nb2[-1][::-1] if dim > 1 else nb2[-1] * 2
        elif kind == 1:
            nb2[1:] = nb2[1:][::-1]
        elif kind == 2:
            nb2[1:] *= -1
        elif kind == 3:
            nb2[-1] = nb2[-1] + ([0.0] * (dim - 1) + [.25])
    both = dsum(fa, gen.series(k, nb2, B))
    sc = 1 + np.sum(np.abs(A)) + np.sum(np.abs(B))
    union = np.sort(np.concatenate([np.linalg.eigvalsh(fa), np.linalg.eigvalsh(gen.series(k, nb2, B))], axis=1), axis=1)
    refuse = (NotImplementedError, AssertionError, ValueError)
    for f in (lambda: a + HermitianFourierSeries(nb2, B), lambda: a.direct_sum(HermitianFourierSeries(nb2, B))):
        try:
            r = f()
        except refuse:
            continue
        close(r.f(k), both, 1e-9 * sc, 0, "sum of series with other lattice vectors")
    inv = "inv" if dim != 2 and c["syms"] % 2 else "none"
    la, lb = [inv, c["lay"][0], c["lay"][1]], [inv, c["lay"][2], c["lay"][3]]
    A2, B2 = restrict(la, A), restrict(lb, B)
    fa, fb = gen.series(k, nb, A2), gen.series(k, nb2, B2)
    union = np.sort(np.concatenate([np.linalg.eigvalsh(fa), np.linalg.eigvalsh(fb)], axis=1), axis=1)
    ma, mb = build(la, nb, A2), build(lb, nb2, B2)
    try:
        r = ma + mb
    except refuse:
        require(ma.cos_reduced != mb.cos_reduced or ma.exp != mb.exp or not np.array_equal(nb, nb2), "sum of models of the same type was refused")
    else:
        close(r(k), union, 1e-8 * sc, 1e-8, "sum of models with other lattice vectors or another storage")
    for m1, F in ((ma, fa), (mb, fb)):
        close(m1(k), np.linalg.eigvalsh(F), 1e-8 * sc, 1e-8, "operand of a sum")
    # band structure models whose coefficients are shared by different symmetries cannot be mixed silently
    syms = [Symmetry.none(dim), Symmetry.inv(dim), {1: Symmetry.inv(1), 2: Symmetry.square(), 3: Symmetry.cubic(True)}[dim], Symmetry.none(dim)]
    s1, s2 = syms[c["syms"] % 4], syms[(c["syms"] + 1) % 4]
    if c["syms"] > 3:  # of the same size
        d = np.ones(dim)
        d[c["syms"] % dim] = -1
        s1, s2 = [Symmetry([np.eye(dim), np.diag(x)], inversion=False) for x in (d, d[::-1] if dim > 1 else d)]
    ms = []
    for sy, X in ((s1, A), (s2, B)):
        m = BandStructureModel.init_tight_binding(sy, nb, X.shape[1], cos_reduced=False, exp=True)
        m.params = X.copy()
        ms.append(m)
    bands = [m(k) for m in ms]
    try:
        r = ms[0] + ms[1]
    except (AssertionError, ValueError, NotImplementedError):
        return  # rejecting the mixture is fine
    close(r(k), np.sort(np.concatenate(bands, axis=1), axis=1), 1e-8 * (1 + np.sum(np.abs(A)) + np.sum(np.abs(B))) * 50, 1e-8, "sum of models with different coefficient symmetries")


@st.composite
def case_tbm(draw):
    dim = draw(st.sampled_from([1, 2, 3]))
    b = draw(st.integers(1, 3))
    nb = draw(gen.neighbors_int(dim, 3))
    return {"dim": dim, "b": b, "nb": nb, "H": draw(gen.nums(2 * len(nb) * b * b)), "k": draw(gen.kpts(dim, 1, 3))}


def check_tbm(c, ctx):
    dim, b = c["dim"], c["b"]
    nb = np.array(c["nb"], dtype=float).reshape(-1, dim)
    H = gen.dec_complex(c["H"], (len(nb), b, b))
    H[0] = gen.herm(H[0])
    k = gen.dec_k(c["k"], dim)
    m = TightBindingModel(UnitaryRepresentation(Symmetry.none(dim), b), nb, None)
    m.set_from_complex(H)
    ref = np.linalg.eigvalsh(gen.series(k, nb, H))
    if not np.any(H[1:]):
        ctx.trivial()
    cp = m.copy()
    tol = 1e-9 * (1 + np.sum(np.abs(H)))
    close(cp(k), ref, tol, 0, "bands of a copy")
    cp.set_from_complex(H * 2)
    close(m(k), ref, tol, 0, "bands after the copy was changed")
    close(cp(k), ref * 2, tol * 2, 0, "bands of the changed copy")
    cp2 = m.copy()
    cp2.params[:] = 0
    cp2.neighbors[:] = 0
    close(m(k), ref, tol, 0, "bands after the copy was cleared")
    m.normalize()
    close(m(k), ref, tol, 0, "bands after normalising")


SUBS = [
    Sub("sequences", case_seq(), check_seq, quick=1200, thorough=40000, shards=4),
    Sub("series", case_series(), check_series, quick=500, thorough=10000),
    Sub("tight_binding_model", case_tbm(), check_tbm, quick=200, thorough=4000),
]
