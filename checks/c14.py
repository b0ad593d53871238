"""C14: symmetrised Hamiltonians are symmetric in every band and k-point."""
import functools
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
import groups as G
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry

RULE = "the group has at least 2 operations, there are at least 2 orbitals and at least 2 lattice vectors with a coupling that survives"
ASSUMPTIONS = ["atoms are mapped to themselves up to lattice vectors by every operation (atoms that are exchanged are not part of the class)", "1D to 3D lattices, up to 3 sites, up to 10 orbitals; complex (one dimensional) representations with complex matrices; couplings whose symmetry images are not all in the list are dropped (as the class documents)",
               "oracle: explicit average over all operations and independent Slater-Koster couplings"]

# lattices: dimension -> {name: cell (columns)}
h3 = 3 ** .5 / 2
LATT = {
    "line": np.eye(1), "square": np.eye(2), "rect": np.diag([1, 1.25]), "hex2": np.array([[1, -.5], [0, h3]]), "obl": np.array([[1, .3], [0, 1.1]]),
    "cubic": np.eye(3), "tetra": np.diag([1, 1, 1.25]), "ortho": np.diag([1, 1.2, .9]), "hex": np.array([[1, -.5, 0], [0, h3, 0], [0, 0, 1.3]]),
    "fcc": np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), "bcc": np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
}
SITES = {1: [[0], [.5], [.25]], 2: [[0, 0], [.5, .5], [.5, 0], [1 / 3, 2 / 3], [.25, .1]],
         3: [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, .5], [.25, .25, .25], [.5, 0, 0], [0, 0, .5], [.1, .3, .2]]}


@functools.lru_cache(None)
def point_group(name):
    """all orthogonal matrices that keep the lattice (Cartesian)"""
    A = LATT[name]
    d = len(A)
    vs = np.array(list(itertools.product((-1, 0, 1), repeat=d)), float) @ A.T
    ln = np.linalg.norm(vs, axis=1)
    cols = [vs[np.abs(ln - np.linalg.norm(A[:, i])) < 1e-9] for i in range(d)]
    out = []
    for c in itertools.product(*cols):
        M = np.array(c).T @ np.linalg.inv(A)
        if np.linalg.norm(M @ M.T - np.eye(d)) < 1e-9:
            out.append(M)
    out.sort(key=lambda m: np.linalg.norm(m - np.eye(d)))
    return np.array(out)


def orb_tensors(kind, d):
    """orthonormal tensors that transform like the orbitals: list of (rank, tensor)"""
    if kind == "s":
        return 0, [np.array(1.0)]
    if kind == "p":
        return 1, [e for e in np.eye(d)]
    yz, xz, xy = [np.zeros((d, d)) for _ in range(3)]
    if d == 3:
        yz[1, 2] = yz[2, 1] = xz[0, 2] = xz[2, 0] = xy[0, 1] = xy[1, 0] = .5 ** .5
        z2 = np.diag([-1, -1, 2]) / 6 ** .5
        x2 = np.diag([1, -1, 0]) / 2 ** .5
        return 2, {"d3": [yz, xz, xy], "d2": [z2, x2], "d5": [z2, xz, yz, x2, xy]}[kind]
    xy = np.array([[0, 1], [1, 0]]) / 2 ** .5
    x2 = np.diag([1, -1]) / 2 ** .5
    return 2, {"d3": [xy], "d2": [x2], "d5": [x2, xy]}[kind]


def orb_matrix(kind, s):
    """matrix of the (Cartesian, orthogonal) operation in the orbitals"""
    r, T = orb_tensors(kind, len(s))
    if r == 0:
        return np.eye(1)
    if r == 1:
        return s
    return np.array([[np.sum(a * (s @ b @ s.T)) for b in T] for a in T])


def turns(ops):
    """angles about the z axis if the operations are turns about it, possibly with a reflection of z"""
    if len(ops[0]) < 2 or any(abs(np.linalg.det(s[:2, :2]) - 1) > 1e-9 or np.linalg.norm(s[2:, :2]) > 1e-9 for s in ops):
        return None
    return np.array([np.arctan2(s[1, 0], s[0, 0]) for s in ops])


def parity(kind):
    return -1 if kind == "p" else 1


@st.composite
def crystal(draw, latt=None, orbs=("s", "p", "d5", "s", "p", "s", "d3", "d2", "x", "c"), maxdim=9):
    name = draw(st.sampled_from(latt or ["square", "hex2", "cubic", "hex", "fcc", "line", "rect", "obl", "tetra", "ortho", "bcc", "cubic", "hex"]))
    d = len(LATT[name])
    ns = draw(st.sampled_from([2, 1, 2, 3]))
    sites = draw(st.lists(st.integers(0, len(SITES[d]) - 1), min_size=ns, max_size=ns))
    ob = [draw(st.sampled_from(orbs)) for _ in range(ns)]
    return {"latt": name, "sites": sites, "orbs": ob, "sub": draw(st.sampled_from([None, None, None, 2, 1])), "sv": draw(gen.i8(3)), "crystal": draw(st.booleans()), "auto": draw(st.booleans()),
            "shift": draw(gen.i8(ns * d)), "filter": draw(st.sampled_from([True, True, True, False])), "maxdim": maxdim, "neg": draw(st.booleans()), "inv": draw(st.booleans())}


class Crystal:
    def __init__(self, c):
        A = LATT[c["latt"]]
        d = self.d = len(A)
        self.A = A
        pos = np.array([SITES[d][i] for i in c["sites"]], float)
        # sites may be given in any cell
        pos = pos + np.sign(np.array(c["shift"], float).reshape(-1, d)) * (np.abs(np.array(c["shift"]).reshape(-1, d)) > 100)
        self.frac = pos
        ops = point_group(c["latt"])
        ok = []
        for s in ops:
            f = np.linalg.inv(A) @ s @ A
            D = pos[:, None] - pos[None]
            x = D @ f.T - D
            if not c["filter"] or np.all(np.abs(x - np.round(x)) < 1e-6):
                ok.append(s)
        ops = np.array(ok)
        kinds = list(c["orbs"])
        if "c" in kinds and d > 1:  # only the turns about z
            ops = np.array([s for s in ops if turns([s]) is not None])
        if c["sub"]:
            g = [ops[v % len(ops)] for v in c["sv"][:c["sub"]]]
            if c["inv"] and (not c["filter"] or any(np.linalg.norm(s + np.eye(d)) < 1e-9 for s in ops)):
                g.append(-np.eye(d))
            ops = G.closure(g)
            ops = np.array(sorted(ops, key=lambda m: np.linalg.norm(m - np.eye(d))))
        self.ops = ops  # all operations, Cartesian
        B = A if c["crystal"] else np.eye(d)
        Bi = np.linalg.inv(B)
        self.B = B
        self.sym = Symmetry(np.array([Bi @ s @ B for s in ops]))
        self.S = np.asarray(self.sym.S)
        require(len(self.S) * (2 if self.sym.inversion else 1) == len(ops), "harness: order of the group")
        self.cartS = np.array([B @ s @ Bi for s in self.S])
        self.pos = pos @ (np.eye(d) if c["crystal"] else A).T
        signed = all(np.sum(np.abs(s) > 1e-9) == d for s in self.cartS)
        self.hsym = HamiltonianSymmetry(self.sym)
        self.blocks, self.kinds, self.us, self.par = [], [], [], []
        n = 0
        ang = turns(self.cartS)
        if "c" in kinds and ang is None:
            kinds = ["x" if k == "c" else k for k in kinds]
        for num, (kind, r) in enumerate(zip(kinds, self.pos)):
            if kind == "x" or (kind in ("d2", "d3") and not signed) or (kind == "d2" and len(self.S) < 24):
                kind = "s" if kind != "x" else "x"
            if kind == "c" and n + 1 > c["maxdim"]:
                kind = "s"
            if kind[0] == "d" and d == 1:
                kind = "s"
            size = {"s": 1, "p": d, "d5": 5 if d == 3 else 2, "d3": 3 if d == 3 else 1, "d2": 2 if d == 3 else 1, "x": 1, "c": 1}[kind]
            if n + size > c["maxdim"]:
                kind, size = "s", 1
            if kind == "x":  # one dimensional representation: determinant, odd or even under inversion
                U = np.array([[[np.linalg.det(s)]] for s in self.cartS])
                p = -1 if c["neg"] else 1
            elif kind == "c":  # complex one dimensional representation: angular momentum about the z axis
                m = (1, -1, 2, 3, -2)[abs(c["sv"][num % 3]) // 4 % 5]
                U = np.exp(1j * m * ang)[:, None, None]
                p = (-1) ** (m % 2)
            else:
                U = np.array([orb_matrix(kind, s) for s in self.cartS])
                p = parity(kind)
            auto = c["auto"] and kind in ("s", "p", "d3", "d2") and (kind in ("s",) or not c["crystal"])
            if kind == "d2" and d == 2:
                auto = False
            if auto:
                {"s": self.hsym.append_s, "p": self.hsym.append_p, "d3": self.hsym.append_d3, "d2": self.hsym.append_d2}[kind](r, kind)
            else:
                u = UR(self.sym, size)
                u.U = U.copy()
                u.inv_split = size if p > 0 else 0
                r = np.array(r)
                self.hsym.append(u, r, kind)
                r += 5  # the position is a value, not the array of the caller
            self.blocks.append((n, n + size))
            self.kinds.append(kind)
            self.us.append(U)
            self.par.append(p)
            n += size
        self.dim = n
        # all operations with their matrices
        self.full = [(s, [u[i] for u in self.us]) for i, s in enumerate(self.S)]
        if self.sym.inversion:
            self.full += [(-s, [u[i] * p for u, p in zip(self.us, self.par)]) for i, s in enumerate(self.S)]

    def lattice(self, v):
        return np.asarray(v, float) @ (np.eye(self.d) if np.allclose(self.B, self.A) else self.A).T


class Lookup:
    def __init__(self, nb):
        self.nb = np.asarray(nb, float)
        self.d = {}
        for i, r in enumerate(self.nb):
            self.d.setdefault(self.k(r), (i, False))
        for i, r in enumerate(self.nb):
            self.d.setdefault(self.k(-r), (i, True))

    @staticmethod
    def k(r):
        return tuple(np.floor(np.asarray(r) * 1000 + .3137).astype(int))

    def __call__(self, r):
        return self.d.get(self.k(r), (None, None))


def neighbors(cr, c):
    """half list: symmetry images of a few lattice vectors for every pair of sites, optionally thinned out"""
    d = cr.d
    seeds = np.array(c["seeds"], float).reshape(-1, d)
    seeds = np.sign(seeds) * (np.abs(seeds) % 3)
    out = [np.zeros(d)] if c["origin"] else []
    known = {Lookup.k(np.zeros(d))} if c["origin"] else set()

    def add(r):
        if Lookup.k(r) not in known and Lookup.k(-r) not in known and len(out) < c["maxn"]:
            known.add(Lookup.k(r))
            out.append(r)
    for v in seeds:
        R = cr.lattice(v)
        for r1 in cr.pos:
            for r2 in cr.pos:
                for s, _ in cr.full:
                    add(s @ (R + r2 - r1) - r2 + r1)
    out = [np.where(np.abs(r) < 1e-9, 0.0, r) for r in out]
    out = [r if i % 3 else -r for i, r in enumerate(out)]
    for v in c["drop"]:
        if len(out) > 2 and v % 2:
            out.pop(1 + v % (len(out) - 1))
    if c["perm"]:
        out = out[::-1]
    return np.array(out).reshape(-1, d)


def matrices(c, n, dim, off=0):
    r = np.random.RandomState(c["rs"] + off)
    m = r.randint(-64, 65, (2, n, dim, dim)) / 32
    return m[0] + 1j * m[1] if c["cplx"] else m[0]


def reference(cr, nb, H):
    look = Lookup(nb)
    H = np.array(H, dtype=complex)
    o = look(np.zeros(cr.d))[0]
    if o is not None:
        H[o] = (H[o] + H[o].conj().T) / 2
    Hc = np.conj(np.swapaxes(H, 1, 2))
    out = np.zeros_like(H)
    for i, R in enumerate(np.asarray(nb)):
        for a, (a0, a1) in enumerate(cr.blocks):
            for b, (b0, b1) in enumerate(cr.blocks):
                dd = cr.pos[b] - cr.pos[a]
                acc = np.zeros((a1 - a0, b1 - b0), complex)
                for s, us in cr.full:
                    j, m = look(s @ (R + dd) - dd)
                    if j is None:
                        acc = None
                        break
                    acc += us[a].conj().T @ (Hc if m else H)[j, a0:a1, b0:b1] @ us[b]
                if acc is not None:
                    out[i, a0:a1, b0:b1] = acc / len(cr.full)
    return out


def hk(nb, H, k):
    """sum over the half list and its mirror image"""
    m = np.zeros(H.shape[1:], complex)
    for R, h in zip(nb, H):
        if np.linalg.norm(R) < 1e-9:
            m = m + h
        else:
            p = np.exp(2j * np.pi * (k @ R))
            m = m + p * h + np.conj(p) * h.conj().T
    return m


@st.composite
def case(draw, cplx=False):
    n = draw(st.integers(1 if cplx else 0, 2))
    cr = draw(crystal(("hex2", "square", "hex", "cubic", "tetra"), ("c", "p", "c", "s", "c"))) if cplx else draw(crystal())
    if cplx:
        cr["sub"], cr["filter"] = None, True
    d = len(LATT[cr["latt"]])
    return {"cr": cr, "seeds": draw(gen.i8(max(n, 1) * d))[:n * d], "origin": draw(st.sampled_from([True, True, True, False])), "drop": draw(gen.i8(draw(st.sampled_from([0, 0, 3, 8])))), "perm": draw(st.booleans()), "maxn": 30,
            "rs": draw(st.integers(0, 9999)), "cplx": draw(st.booleans()), "x": draw(st.integers(-3, 3)), "k": draw(gen.i8(2 * d))}


def setup(c, ctx):
    cr = Crystal(c["cr"])
    nb = neighbors(cr, c)
    if len(nb) == 0:
        raise Skip
    ctx.label(c["cr"]["latt"])
    if any(np.iscomplexobj(u) and np.max(np.abs(np.imag(u))) > .1 for u in cr.us):
        ctx.label("complex representation")
    ctx.label("inversion flag" if cr.sym.inversion else "no inversion flag")
    return cr, nb


def check_sym(c, ctx):
    cr, nb = setup(c, ctx)
    H, K = matrices(c, len(nb), cr.dim), matrices(c, len(nb), cr.dim, 20000)
    if any(np.iscomplexobj(u) for u in cr.us):  # real matrices are only meant for real representations
        H, K = H.astype(complex), K.astype(complex)
    want = reference(cr, nb, H)
    alive = sum(np.linalg.norm(w) > 1e-9 for w in want)
    if len(cr.ops) < 2 or cr.dim < 2 or alive < 2:
        ctx.trivial()
    H0 = H.copy()
    f = cr.hsym.symmetrizer(nb)
    for name, fn in (("symmetrizer", f), ("symmetrize", lambda x: cr.hsym.symmetrize(x, nb))):
        got = np.asarray(fn(H))
        require(np.array_equal(H, H0), f"{name}: the input is not changed")
        close(got, want, 1e-9, 1e-9, f"{name}: average over the group")
        close(np.asarray(fn(got)), got, 1e-9, 1e-9, f"{name}: idempotent")
        if name == "symmetrizer":
            close(np.asarray(fn(H + c["x"] * K)), got + c["x"] * np.asarray(fn(K)), 1e-8, 1e-9, f"{name}: linear")
    require(cr.hsym.dim() == cr.dim, "dimension")
    require(len(cr.hsym) == len(cr.sym), "order of the symmetry")


def check_k(c, ctx):
    """H(S^-T k) is the transformed H(k): bands, apply, realize_symmetric"""
    cr, nb = setup(c, ctx)
    H = np.asarray(cr.hsym.symmetrizer(nb)(matrices(c, len(nb), cr.dim).astype(complex)))
    if len(cr.ops) < 2 or cr.dim < 2 or sum(np.linalg.norm(w) > 1e-9 for w in H) < 2:
        ctx.trivial()
    ks = np.array(c["k"], float).reshape(2, -1) / 61
    ks[1] = np.round(ks[1] * 2) / 4
    copy = cr.hsym.copy()
    for k in ks:
        M = hk(nb, H, k)
        close(M, M.conj().T, 1e-9, 1e-9, "Hermitian")
        e = np.linalg.eigvalsh(M)
        for i, s in enumerate(cr.S):
            for inv in ((False, True) if cr.sym.inversion else (False,)):
                k2 = np.linalg.inv(s).T @ k * (-1 if inv else 1)
                M2 = hk(nb, H, k2)
                close(np.linalg.eigvalsh(M2), e, 1e-8, 1e-8, "bands at a symmetry image")
                close(np.asarray(cr.hsym.apply(k, M, i, inv)), M2, 1e-8, 1e-8, "apply")
        M0 = M.copy()
        close(np.asarray(copy.apply(k, M, len(cr.S) - 1)), hk(nb, H, np.linalg.inv(cr.S[-1]).T @ k), 1e-8, 1e-8, "apply of a copy")
        require(np.array_equal(M, M0), "apply does not change its input")
        fk, fm, order = cr.hsym.realize_symmetric(k[None], M[None])
        star = G.orbit([np.linalg.inv(s).T for s, _ in cr.full], k)
        if np.linalg.norm(k) > 1e-9:
            close(len(fk), len(star), 0, 0, "number of points in the star")
        require(np.all(np.asarray(order) == 0), "source index")
        for q, m in zip(fk, fm):
            require(np.min(np.linalg.norm(star - q, axis=1)) < 1e-7, "point of the star")
            close(m, hk(nb, H, q), 1e-8, 1e-8, "realised matrix")


@st.composite
def case_sk(draw):
    cr = draw(crystal(latt=["cubic", "hex", "square", "hex2", "tetra", "fcc", "bcc", "line", "ortho", "rect"], orbs=("s", "p", "d5", "d3", "p", "d2")))
    cr["filter"] = True
    return {"cr": cr, "g": draw(gen.i8(64)), "cut": draw(st.sampled_from([1.05, .8, 1.45])), "rs": draw(st.integers(0, 9999)), "cplx": draw(st.booleans())}


def sk_block(cr, a, b, dv, g):
    """Slater-Koster like coupling of the orbitals of site a and site b at the displacement dv (rotation invariant by construction)"""
    (ra, Ta), (rb, Tb) = orb_tensors(cr.kinds[a], cr.d), orb_tensors(cr.kinds[b], cr.d)
    if ra > rb:
        return sk_block(cr, b, a, -dv, g).T
    ln = np.linalg.norm(dv)
    n = dv / ln if ln > 1e-9 else np.zeros(cr.d)
    f = lambda i: np.cos(g[(3 * (min(a, b) * 5 + max(a, b)) + i) % len(g)] * (1 + ln)) / (1 + ln)
    out = np.zeros((len(Ta), len(Tb)))
    for i, x in enumerate(Ta):
        for j, y in enumerate(Tb):
            if (ra, rb) == (0, 0):
                v = f(0)
            elif (ra, rb) == (0, 1):
                v = f(0) * n @ y
            elif (ra, rb) == (0, 2):
                v = f(0) * n @ y @ n
            elif (ra, rb) == (1, 1):
                v = f(0) * (n @ x) * (n @ y) + f(1) * x @ y
            elif (ra, rb) == (1, 2):
                v = f(0) * x @ y @ n + f(1) * (x @ n) * (n @ y @ n)
            else:
                v = f(0) * np.sum(x * y) + f(1) * n @ x @ y @ n + f(2) * (n @ x @ n) * (n @ y @ n)
            out[i, j] = v
    return out


def check_sk(c, ctx):
    """couplings between spherical harmonics along the bonds are symmetric under every point group and are kept"""
    cr = Crystal(c["cr"])
    if any(k in "xc" for k in cr.kinds):
        raise Skip
    ctx.label(c["cr"]["latt"])
    g = np.array(c["g"], float) / 16
    d = cr.d
    box = np.array(list(itertools.product(range(-5, 6), repeat=d)), float)
    cart = box @ cr.A.T
    posc = cr.frac @ cr.A.T
    dmax = max(np.linalg.norm(x - y) for x in posc for y in posc)
    cut = c["cut"]
    keep = np.linalg.norm(cart, axis=1) <= cut + dmax + 1e-6
    if np.sum(keep) > 300:
        raise Skip
    box, cart = box[keep], cart[keep]
    half = [i for i in range(len(box)) if tuple(box[i]) >= tuple(-box[i])]
    box, cart = box[half], cart[half]
    H = np.zeros((len(box), cr.dim, cr.dim))
    for i, R in enumerate(cart):
        for a, (a0, a1) in enumerate(cr.blocks):
            for b, (b0, b1) in enumerate(cr.blocks):
                dv = R + posc[b] - posc[a]
                if np.linalg.norm(dv) <= cut + 1e-6:
                    H[i, a0:a1, b0:b1] = sk_block(cr, a, b, dv, g)
    nb = cr.lattice(box)
    o = int(np.argmin(np.linalg.norm(nb, axis=1)))
    close(H[o], H[o].T, 1e-12, 0, "harness: Hermitian on-site matrix")
    if len(cr.ops) < 2 or cr.dim < 2 or np.sum(np.abs(H) > 1e-9) < 4:
        ctx.trivial()
    ctx.label("crystal coordinates" if c["cr"]["crystal"] else "Cartesian")
    if c["cr"]["auto"]:
        ctx.label("append_*")
    f = cr.hsym.symmetrizer(nb)
    close(np.asarray(f(H)), H, 1e-9, 1e-9, "symmetric Hamiltonian is kept (symmetrizer)")
    if len(nb) * len(cr.S) < 2000:
        close(np.asarray(cr.hsym.symmetrize(H, nb)), H, 1e-9, 1e-9, "symmetric Hamiltonian is kept (symmetrize)")


def check_reject(c, ctx):
    """wrong positions and mixed inversion are rejected; names"""
    cr = Crystal(c["cr"])
    h = cr.hsym
    raises(ValueError, lambda: h.append_s(np.zeros(cr.d + 1), "s"), "position of the wrong dimension")
    if cr.d > 1:
        raises(ValueError, lambda: h.append_s(np.zeros(cr.d - 1), "s"), "position with too few coordinates")
    u = UR(cr.sym, 2)
    u.inv_split = 1
    raises(ValueError, lambda: h.append(u, np.zeros(cr.d), "m"), "mixed inversion behaviour")
    u = UR(Symmetry.none(cr.d + 1), 1)
    raises(ValueError, lambda: h.append(u, np.zeros(cr.d), "m"), "representation of another group")
    require(h.dim() == cr.dim, "rejected representations are not added")
    # copies are independent
    h2 = h.copy()
    require(h2.dim() == cr.dim and len(h2) == len(h), "copy has the same orbitals")
    h2.append_s(np.zeros(cr.d), "extra")
    h2.U[0].U *= -1
    h2.pos[0] += 1
    require(h.dim() == cr.dim and len(h.pos) == len(h.U) == len(h.names) == len(cr.blocks), "appending to a copy changed the source")
    for u1, w, r, p in zip(h.U, cr.us, h.pos, cr.pos):
        close(u1.U, w, 1e-12, 0, "representation after changing a copy")
        close(r, p, 1e-12, 0, "position after changing a copy")
    names = [h.get_band_name(i) for i in range(cr.dim)]
    for (a0, a1), kind in zip(cr.blocks, cr.kinds):
        for i in range(a0, a1):
            require(names[i].startswith(kind), f"band name {names[i]}")
            require(a1 - a0 == 1 or names[i] == f"{kind}{i - a0}", f"band name {names[i]}")
    raises(IndexError, lambda: h.get_band_name(cr.dim), "band index out of range")
    if cr.d == 3 and not all(np.sum(np.abs(s) > 1e-9) == 3 for s in cr.cartS) and not c["cr"]["crystal"]:
        ctx.label("d_yz not closed")
        raises(ValueError, lambda: h.append_d3(np.zeros(3), "d"), "d_yz, d_xz, d_xy under a group that mixes them with others")
    else:
        ctx.trivial()


SUBS = [
    Sub("symmetrize", case(), check_sym, quick=500, thorough=8000, shards=4),
    Sub("kspace", case(), check_k, quick=500, thorough=6000, shards=3),
    Sub("complex", case(True), lambda c, ctx: (check_sym(c, ctx), check_k(c, ctx)), quick=100, thorough=2000, shards=2),
    Sub("slater_koster", case_sk(), check_sk, quick=250, thorough=3000, shards=5),
    Sub("reject", case(), check_reject, quick=100, thorough=1000, shards=1),
]
