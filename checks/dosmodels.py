"""Band-structure models on the crystal torus and reference state counts (independent of the repository)."""
import numpy as np
from hypothesis import strategies as st
import gen

EPS = 1e-4  # documented rounding of tiny gradient components in the cube functions
LATTICES = {
    "id": np.eye(3),
    "tri": np.array([[1.2, .3, .1], [0, .8, -.2], [.3, 0, 1.5]]),
    "left": np.array([[1.2, .3, -.1], [0, .8, .2], [.3, 0, -1.5]]),
    "diag": np.diag([.5, 1.5, 2.5]),
    "big": np.array([[0, 3., 3.], [3., 0, 3.], [3., 3., 0]]),
    "rot": np.array([[.6, -.8, 0], [.8, .6, 0], [0, 0, 1.]]),
}


@st.composite
def spec(draw, kinds=("tb", "tb", "cos", "gap", "flat"), lattices=("id", "tri", "left", "diag", "big", "rot"), max_b=3):
    b = draw(st.integers(1, max_b))
    kind = draw(st.sampled_from(kinds))
    if kind == "gap":
        b = max(b, 2)
    return {"kind": kind, "b": b, "A": draw(st.sampled_from(lattices)), "v": draw(gen.i8(120)), "hess": draw(st.booleans())}


class _Model:
    """sorted bands E(x), x = k @ A, with analytic gradients"""

    def __init__(self, c, scale=1.0, shift=0.0, perm=(0, 1, 2), sign=1, offset=(0, 0, 0), A=None, order=None):
        self.c, self.scale, self.shift = c, scale, shift
        self.perm, self.sign, self.offset = list(perm), sign, np.array(offset, float)
        self.A = LATTICES[c["A"]] if A is None else np.asarray(A, float)
        self.order = order
        v = np.array(c["v"], float) / 64
        b = self.b = c["b"]
        if c["kind"] in ("tb",):
            full = gen.half_box(3, 1)[1:7]
            n = 2 + int(abs(c["v"][0])) % 3
            self.R = full[[int(abs(x)) % 6 for x in c["v"][1:1 + n]]]
            H = (v[8:8 + 18 * 3].reshape(-1, 2)[:, 0] + 1j * v[8:8 + 54].reshape(-1, 2)[:, 1])
            self.H = np.array([H[i * 3:i * 3 + b * b] if len(H[i * 3:i * 3 + b * b]) == b * b else np.resize(H, b * b) for i in range(n)]).reshape(n, b, b)
            self.H0 = gen.herm(np.resize(v[60:90], b * b).reshape(b, b) + 1j * np.resize(v[70:95], b * b).reshape(b, b))
        else:
            self.amp = np.resize(v[3:40], (b, 3)) + .05
            self.sec = np.resize(v[40:60], (b, 3)) * .3
            if c["kind"] == "flat":
                self.amp = self.amp * np.resize([1, 0, 0, 0, 1, 0, 0, 0, 1], (b, 3))
                self.sec = self.sec * 0
            if "gap" in c:  # the edges are reached at the symmetric points
                self.sec = self.sec * 0
            off = np.cumsum(np.abs(np.resize(v[60:70], b)) + .1)
            width = np.sum(np.abs(self.amp), 1) + np.sum(np.abs(self.sec), 1)
            self.off = np.zeros(b)
            if c["kind"] == "gap":
                for i in range(1, b):
                    self.off[i] = self.off[i - 1] + width[i - 1] + width[i] + c.get("gap", .02 + abs(v[70 + i]))
            else:
                self.off = off

    def x(self, k):
        x = np.asarray(k, float) @ self.A
        return self.sign * x[..., self.perm] + self.offset

    def _raw(self, x):
        """unsorted/sorted bands and crystal gradients (n, b), (n, 3, b) in model coordinates"""
        if self.c["kind"] == "tb":
            ph = np.exp(2j * np.pi * (x @ self.R.T))
            H = self.H0 + np.einsum("nr,rij->nij", ph, self.H) + np.einsum("nr,rji->nij", ph.conj(), self.H.conj())
            e, u = np.linalg.eigh(H)
            g = np.empty((len(x), 3, self.b))
            for d in range(3):
                dH = np.einsum("nr,r,rij->nij", ph, 2j * np.pi * self.R[:, d], self.H)
                dH = dH + np.conj(np.swapaxes(dH, 1, 2))
                g[:, d] = np.einsum("nib,nij,njb->nb", u.conj(), dH, u).real
            return e, g
        w = 2 * np.pi * x
        e = self.off + np.cos(w) @ self.amp.T + np.sin(2 * w) @ self.sec.T
        g = 2 * np.pi * (-np.sin(w)[:, :, None] * self.amp.T[None] + 2 * np.cos(2 * w)[:, :, None] * self.sec.T[None])
        o = np.argsort(e, axis=1, kind="stable")
        return np.take_along_axis(e, o, 1), np.take_along_axis(g, o[:, None, :], 2)

    def bands_x(self, x):
        e, _ = self._raw(np.asarray(x, float).reshape(-1, 3))
        e = e * self.scale + self.shift
        if self.scale < 0:
            e = e[:, ::-1]
        return e if self.order is None else e[:, self.order]

    def _bands_grad(self, k):
        k = np.asarray(k, float)
        e, g = self._raw(self.x(k).reshape(-1, 3))
        e, g = e * self.scale + self.shift, g * self.scale
        if self.scale < 0:
            e, g = e[:, ::-1], g[:, :, ::-1]
        h = np.empty_like(g)
        h[:, self.perm] = g * self.sign
        return e, np.einsum("ij,njb->nib", self.A, h)

    def __call__(self, k):
        k = np.asarray(k, float)
        return self.bands_x(self.x(k)).reshape(k.shape[:-1] + (self.b,))


class PlainModel(_Model):
    """no gradients available"""


class GradModel(_Model):
    def bands_grad(self, k):
        return self._bands_grad(k)


class HessModel(GradModel):
    """also second derivatives (finite differences of the analytic gradient)"""

    def bands_grad_hess(self, k):
        e, g = self._bands_grad(k)
        h = 1e-5
        H = np.stack([(self._bands_grad(k + h * d)[1] - self._bands_grad(k - h * d)[1]) / (2 * h) for d in np.eye(3)], axis=2)
        return e, g, (H + np.swapaxes(H, 1, 2)) / 2


def grid(N, A, ranges=((-.5, .5),) * 3, wrap=True, midpoint=False):
    if wrap:
        xyz = [np.linspace(*r, N, endpoint=False) + ((r[1] - r[0]) / 2 / N if midpoint else 0) for r in ranges]
    else:
        xyz = [np.linspace(*r, N + 1) for r in ranges]
    return np.stack(np.meshgrid(*xyz, indexing="ij"), -1), np.array([(r[1] - r[0]) / N for r in ranges])


def corners(v, wrap):
    """corner values (2,2,2, cells...) of all cells"""
    out = np.empty((2, 2, 2) + (v.shape if wrap else tuple(n - 1 for n in v.shape)))
    for i in range(2):
        for j in range(2):
            for k in range(2):
                out[i, j, k] = np.roll(v, (-i, -j, -k), (0, 1, 2)) if wrap else v[i:i - 1 or None, j:j - 1 or None, k:k - 1 or None]
    return out


def cube(a0, a, e):
    """fraction of the unit cube around a cell below energy e and its derivative, linear dispersion a0 + a.x"""
    a = np.abs(a)
    n = np.sqrt(np.sum(a * a, 0)) + 1e-40
    a = np.maximum(a / n, EPS)
    h0 = (e - a0) / n
    V = np.zeros_like(a0)
    D = np.zeros_like(a0)
    low = h0 < 0
    h0 = -np.abs(h0)
    for s in np.ndindex(2, 2, 2):
        h = np.maximum(0, h0 + a.sum(0) / 2 - a[0] * s[0] - a[1] * s[1] - a[2] * s[2])
        w = (-1) ** sum(s)
        V += w * h ** 3
        D += w * h ** 2
    p = a[0] * a[1] * a[2]
    out = h0 <= -3 ** .5 / 2
    V = np.where(out, 0, np.clip(V / (6 * p), 0, 1))
    D = np.where(out, 0, D / (2 * p) / n)
    return np.where(low, V, 1 - V), D


def tetra(v, e):
    """mean over the corner values v (4, ...) of Jepsen-Andersen fractions and derivatives"""
    v = np.sort(v, axis=0)
    e1, e2, e3, e4 = v
    with np.errstate(all="ignore"):
        q1 = (e2 - e1) * (e3 - e1) * (e4 - e1)
        A = (e - e1) ** 3 / q1, 3 * (e - e1) ** 2 / q1
        q = (e3 - e1) * (e4 - e1)
        r = ((e3 - e1) + (e4 - e2)) / ((e3 - e2) * (e4 - e2))
        x, y = e - e2, e2 - e1
        B = (y * y + 3 * y * x + 3 * x * x - r * x ** 3) / q, (3 * y + 6 * x - 3 * r * x * x) / q
        q3 = (e4 - e1) * (e4 - e2) * (e4 - e3)
        C = 1 - (e4 - e) ** 3 / q3, 3 * (e4 - e) ** 2 / q3
    c = [e <= e1, e >= e4, e < e2, e < e3]
    return np.select(c, [0 * e1, 0 * e1 + 1, A[0], B[0]], C[0]), np.select(c, [0 * e1, 0 * e1, A[1], B[1]], C[1])


def sphere(a0, a, e):
    n = np.sqrt(np.sum(a * a, 0)) + 1e-50
    r = (3 / 4 / np.pi) ** (1 / 3)
    d = np.clip((e - a0) / (n * r), -1, 1)
    return (2 + 3 * d - d ** 3) / 4, 3 / 4 * (1 - d * d) / (r * n)


class Ref:
    """independent state count of every cell for the interpolation methods"""

    def __init__(self, c, model, N, method, wrap=True, midpoint=False, ranges=((-.5, .5),) * 3, use_gradients=False):
        A = model.A
        self.method = method
        self.x, self.step = grid(N, A, ranges, wrap, midpoint)
        self.k = self.x @ np.linalg.inv(A)
        self.N = N
        self.bands = model(self.k.reshape(-1, 3)).reshape(self.x.shape[:3] + (-1,))
        self.nb = self.bands.shape[-1]
        self.wrap = wrap
        self.cells = []
        for i in range(self.nb):
            v = self.bands[..., i]
            if use_gradients:
                g = model.bands_grad(self.k.reshape(-1, 3))[1][..., i].reshape(v.shape + (3,))
                if method == "cubes":
                    a = np.moveaxis(g @ np.linalg.inv(A).T * self.step, -1, 0)
                else:
                    a = np.moveaxis(g, -1, 0) * (abs(np.linalg.det(np.linalg.inv(A))) / v.size) ** (1 / 3)
                self.cells.append([(v, a)])
                continue
            lin = []
            for s in ((1, 2) if method == "cubes+" else (1,)):
                w = v[::s, ::s, ::s]
                c8 = corners(w, wrap)
                lin.append((c8.mean((0, 1, 2)), np.array([(c8[1] - c8[0]).mean((0, 1)), (c8[:, 1] - c8[:, 0]).mean((0, 1)), (c8[:, :, 1] - c8[:, :, 0]).mean((0, 1))])))
            if method == "tetras":
                order = [(1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1), (1, 0, 1), (1, 0, 0)]
                lin = [np.array([[c8[0, 0, 0], c8[1, 1, 1], c8[p], c8[q]] for p, q in zip(order, order[1:])])]
            self.cells.append(lin)

    def range(self, i):
        return self.bands[..., i].min(), self.bands[..., i].max()

    def raw(self, e, i):
        """mean volume and density of band i without looking at the band range"""
        lin = self.cells[i]
        if self.method == "tetras":
            r = [tetra(t, e) for t in lin[0]]
            return np.mean([x[0] for x in r]), np.mean([x[1] for x in r])
        if self.method == "spheres":
            r = sphere(*lin[0], e)
            return r[0].mean(), r[1].mean()
        r = [tuple(y.mean() for y in cube(*l, e)) for l in lin]
        if len(r) == 1:
            return r[0]
        # cubes+: extrapolation of the fine (step 1) and the coarse (step 2) grid
        return tuple(f + (f - c) / 3 for f, c in zip(*r))

    def band(self, e, i, rng=None):
        lo, hi = self.range(i) if rng is None else rng
        if lo < e < hi:
            return self.raw(e, i)
        return (1.0, 0.0) if e >= hi else (0.0, 0.0)
