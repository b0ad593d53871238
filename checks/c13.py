"""C13: unitary representations multiply like their group and symmetrise matrices."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
import groups as G
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR

RULE = "the group has at least 2 operations and the representation at least 2 dimensions"
ASSUMPTIONS = ["real orthogonal groups up to order 60 and representations up to dimension 24", "matrices C(r) of r and -r are related by the inversion sign, without inversion the list of positions is closed under the group",
               "oracle: explicit operations, characters and averages over all operations one by one"]
NB = ["o3", "so3", "o3r", "o3ri", "d3.0", "d3.1", "one.00", "one.01", "one.10", "one.11"]


def perm_sign(s):
    """sign of the coordinate permutation of a signed permutation"""
    return np.round(np.linalg.det(np.abs(s)))


def builtin(name, inversion=True):
    """(representation, character of a proper operation, sign on inversion)"""
    odd = lambda s: perm_sign(s)  # for the rotations of the cube: -1 exactly for the 90 degree and the diagonal 180 degree turns
    if name == "o3":
        return UR.o3(), np.trace, -1
    if name == "so3":
        return UR.so3(), np.trace, 1
    if name == "o3r":
        return UR.o3r(), lambda s: odd(s) * np.trace(s), 1
    if name == "o3ri":
        return UR.o3ri(), lambda s: odd(s) * np.trace(s), -1
    if name.startswith("d3"):
        neg = name[-1] == "1"
        # the squares x^2, y^2, z^2 are permuted, their sum is invariant
        return UR.d3(neg, inversion), lambda s: np.trace(np.abs(s)) - 1, -1 if neg else 1
    a, b = name[-2] == "1", name[-1] == "1"
    return UR.one_dim(a, b, inversion), (odd if a else lambda s: 1.0), -1 if b else 1


def inv_matrix(u):
    return np.diag([1.0] * u.inv_split + [-1.0] * (u.dim() - u.inv_split))


def check_rep(u, chi, inv, dim, what):
    """u is a representation of its group with the given characters"""
    S, U = np.asarray(u.sym.S), np.asarray(u.U)
    require(u.dim() == dim, f"{what}: dimension {u.dim()} instead of {dim}")
    require(U.shape == (len(S), dim, dim), f"{what}: one matrix per operation {U.shape}")
    close(U @ np.conj(np.swapaxes(U, -1, -2)), np.broadcast_to(np.eye(dim), U.shape), 1e-9, 0, f"{what}: unitary")
    idx = {G.key(s): i for i, s in enumerate(S)}
    require(len(idx) == len(S), f"{what}: operations are distinct")
    prod = np.einsum("aij,bjk->abik", S, S)
    t = np.array([[idx.get(G.key(p), -1) for p in row] for row in prod])
    require(np.all(t >= 0), f"{what}: operations are closed")
    close(np.einsum("aij,bjk->abik", U, U), U[t], 1e-8, 0, f"{what}: homomorphism")
    close(np.einsum("nii->n", U), [chi(s) for s in S], 1e-8, 0, f"{what}: characters")
    if u.sym.inversion:
        P = inv_matrix(u)
        close(P @ U, U @ P, 1e-9, 0, f"{what}: inversion commutes")
        close(np.trace(P), inv, 1e-9, 0, f"{what}: inversion character")
    require(bool(u.check()), f"{what}: check()")


@st.composite
def leaf(draw, fam):
    if fam == "cubic":
        return {"k": draw(st.sampled_from(NB))}
    return {"k": draw(st.sampled_from(["vec", "vdet", "triv", "det", "reg", "sq"])), "neg": draw(st.booleans()), "n": draw(st.integers(1, 3)), "rot": draw(st.sampled_from([None, None, 1])), "q": draw(gen.i8(36)), "make": draw(st.sampled_from(["set", "gen"]))}


@st.composite
def rep(draw, max_steps=3):
    fam = draw(st.sampled_from(["gen", "cubic", "gen"]))
    c = {"fam": fam, "leaf": draw(leaf(fam)), "steps": []}
    if fam != "cubic":
        d = draw(st.sampled_from([3, 3, 2, 1, 4]))
        g = draw(G.group(dim=d, max_order=60, kinds=("id", "orth")))
        c["g"] = g
    for _ in range(draw(st.integers(0, max_steps))):
        op = draw(st.sampled_from(["add", "addl", "int", "mul", "mull", "perm"]))
        s = {"op": op}
        if op == "int":
            s["n"] = draw(st.integers(1, 3))
        elif op == "perm":
            s["q"] = draw(gen.i8(24))
        else:
            s["leaf"] = draw(leaf(fam))
        c["steps"].append(s)
    return c


def few_generators(S, q):
    """a small generating set of the group of all S, picked in a generated order"""
    S = np.asarray(S, float)
    gens, n = [], 1
    for i in np.argsort(np.resize(np.array(q), len(S)), kind="stable"):
        if n == len(S):
            break
        m = len(G.closure(gens + [S[i]]))
        if m > n:
            gens, n = gens + [S[i]], m
    return gens or [S[0]]


def make_leaf(lf, sym):
    if sym is None:
        u, chi, inv = builtin(lf["k"])
        return u, chi, inv * u.dim()
    S = np.asarray(sym.S, float)
    d = S.shape[1]
    k = lf["k"]
    if k == "reg" and len(S) > 12:
        k = "sq"
    if k == "vec":
        f, chi = (lambda s: s), np.trace
    elif k == "vdet":
        f, chi = (lambda s: s * np.linalg.det(s)), (lambda s: np.trace(s) * np.linalg.det(s))
    elif k == "triv":
        n = lf["n"]
        f, chi = (lambda s: np.eye(n)), (lambda s: n)
    elif k == "det":
        f, chi = (lambda s: np.linalg.det(s).reshape(1, 1)), np.linalg.det
    elif k == "sq":
        f, chi = (lambda s: np.kron(s, s)), (lambda s: np.trace(s) ** 2)
    else:
        idx = {G.key(s): i for i, s in enumerate(S)}

        def f(s):
            m = np.zeros((len(S), len(S)))
            for j, g in enumerate(S):
                m[idx[G.key(s @ g)], j] = 1
            return m
        chi = lambda s: len(S) if np.linalg.norm(s - np.eye(d)) < 1e-9 else 0
    n = len(f(np.eye(d)))
    Q = np.eye(n)
    if lf["rot"] and n > 1:
        Q, _ = np.linalg.qr(np.resize(np.array(lf["q"], float), (n, n)) / 64 + np.eye(n) * 0.37 + np.arange(n * n).reshape(n, n) * 0.011)
    if lf["make"] == "gen" and (d % 2 == 0 or np.all(np.linalg.det(S) > 0)):
        gens = few_generators(S, lf["q"]) if lf["q"][0] % 2 else [s for s in S[1:]] or [S[0]]
        u = UR.from_generator(gens[::-1], [Q @ f(s) @ Q.T for s in gens[::-1]], sym.inversion, lf["neg"])
    else:
        u = UR(sym, n)
        u.U = np.array([Q @ f(s) @ Q.T for s in S])
        u.inv_split = 0 if lf["neg"] else n
    return u, chi, -n if lf["neg"] else n


def build(c, limit=24):
    """(representation, character, inversion character, dimension)"""
    sym = None if c["fam"] == "cubic" else G.dec_sym(c["g"])
    u, chi, inv = make_leaf(c["leaf"], sym)
    dim = u.dim()
    for s in c["steps"]:
        if s["op"] == "int":
            if dim * s["n"] > limit:
                continue
            u, dim, inv = u * s["n"], dim * s["n"], inv * s["n"]
            chi = (lambda s_, a=chi, n=s["n"]: n * a(s_))
            continue
        if s["op"] == "perm":
            k = u.inv_split
            w = np.resize(np.array(s["q"]), dim)
            u.permute(list(np.argsort(w[:k], kind="stable")) + [k + int(i) for i in np.argsort(w[k:], kind="stable")])
            continue
        v, chi2, inv2 = make_leaf(s["leaf"], sym)
        n2 = v.dim()
        U1, U2 = np.array(u.U), np.array(v.U)
        if s["op"].startswith("add"):
            if dim + n2 > limit:
                continue
            w = u + v if s["op"] == "add" else v + u
            dim, inv = dim + n2, inv + inv2
            chi = (lambda s_, a=chi, b=chi2: a(s_) + b(s_))
        else:
            if dim * n2 > limit:
                continue
            w = u * v if s["op"] == "mul" else v * u
            dim, inv = dim * n2, inv * inv2
            chi = (lambda s_, a=chi, b=chi2: a(s_) * b(s_))
        require(np.array_equal(U1, u.U) and np.array_equal(U2, v.U), "operands of + and * are not changed")
        u = w
    return u, chi, inv, dim


def check_algebra(c, ctx):
    u, chi, inv, dim = build(c)
    if len(u.sym.S) < 2 or dim < 2:
        ctx.trivial()
    ctx.label(c["fam"])
    for s in c["steps"]:
        ctx.label(s["op"])
    check_rep(u, chi, inv, dim, "expression")
    v = u.copy()
    v.U *= -1
    v.inv_split = -5
    check_rep(u, chi, inv, dim, "after changing a copy")
    # check() notices matrices which do not multiply like the operations
    S = np.asarray(u.sym.S)
    i = c["leaf"].get("n", 1) * 7 % len(S)
    v = u.copy()
    v.U = np.array(v.U, dtype=complex)
    v.U[i] = v.U[i] * np.exp(.3j)
    require(not v.check(), "check() accepts a matrix with a wrong phase")
    # ... also if every single matrix looks right (unitary, same trace)
    if dim > 1 and len(S) > 1:
        q = np.resize(np.array(c["leaf"].get("q", [3, 1, 4]), float), 2 * dim * dim).reshape(2, dim, dim)
        T, _ = np.linalg.qr(q[0] / 8 + 1j * q[1] / 8 + np.diag(np.arange(1, dim + 1)))
        j = 1 + i % (len(S) - 1)
        others = [k for k in range(1, len(S)) if abs(np.trace(u.U[k]) - np.trace(u.U[j])) < 1e-9 and np.linalg.norm(u.U[k] - u.U[j]) > .1]
        for bad in ([(j, T @ u.U[j] @ T.conj().T)] + ([(j, u.U[others[0]]), (others[0], u.U[j])] if others else []),
                    [(j, u.U[others[-1]])] if others else [(j, T @ u.U[j] @ T.conj().T)]):
            v = u.copy()
            v.U = np.array(v.U, dtype=complex)
            for k, w in (bad[1:] if len(bad) > 1 else bad):
                v.U[k] = w
            idx = {G.key(s): k for k, s in enumerate(S)}
            dev = max(np.linalg.norm(v.U[a] @ v.U[b] - v.U[idx[G.key(S[a] @ S[b])]]) for a in range(len(S)) for b in range(len(S)))
            if not u.sym.inversion or all(np.linalg.norm(inv_matrix(u) @ x - x @ inv_matrix(u)) < 1e-9 for x in v.U):
                if dev < 1e-10 or dev > 1e-3:
                    ctx.label("same traces, still a representation" if dev < 1e-10 else "same traces, no representation")
                    require(bool(v.check()) == (dev < 1e-10), f"check() of matrices with the right traces, error of the products {dev:.1e}")
    # an incomplete list of operations
    if len(S) > 2:
        v = u.copy()
        v.sym = v.sym.copy()
        v.sym.S, v.U = np.array(v.sym.S)[:-1], np.array(v.U)[:-1]
        require(not v.check(), "check() accepts an incomplete group")
    if u.sym.inversion and 0 < u.inv_split < dim:
        ctx.label("mixed inversion")
        v = u.copy()
        m = np.eye(dim)
        j, k = u.inv_split - 1, u.inv_split
        m[[j, k]] = m[[k, j]]
        bad = [m @ x @ m.T for x in np.array(u.U)]
        ok = all(np.linalg.norm(inv_matrix(u) @ x - x @ inv_matrix(u)) < 1e-9 for x in bad)
        v.U = np.array(bad)
        require(bool(v.check()) == ok, "check() of matrices that do not commute with the inversion")
        raises((AssertionError, ValueError), lambda: u + u.copy(), "sum of two representations with mixed inversion")
        raises((AssertionError, ValueError), lambda: u * u.copy(), "product of two representations with mixed inversion")
        raises(AssertionError, lambda: u.permute(list(range(1, dim)) + [0]), "permutation that mixes the inversion")
        check_rep(u, chi, inv, dim, "after rejected operations")


@st.composite
def case_match(draw):
    return {"r": draw(rep(2)), "q": draw(gen.i8(128)), "bad": draw(st.integers(0, 3))}


def check_match(c, ctx):
    """match_sym reorders matrices together with their operations; other groups are rejected"""
    u, chi, inv, dim = build(c["r"], 12)
    if len(u.sym.S) < 3:
        ctx.trivial()
    S = np.asarray(u.sym.S)
    order = [0] + [int(1 + i) for i in np.argsort(np.resize(np.array(c["q"]), len(S) - 1), kind="stable")]
    sym2 = Symmetry(S[order], u.sym.inversion)
    require(len(sym2.S) == len(S), "harness: same number of operations")
    want = {G.key(s): m for s, m in zip(S, np.array(u.U))}
    u.match_sym(sym2)
    require(np.allclose(u.sym.S, S[order]), "operations in the requested order")
    for s, m in zip(u.sym.S, u.U):
        close(m, want[G.key(s)], 1e-12, 0, "matrix of an operation")
    check_rep(u, chi, inv, dim, "matched")
    d = len(S[0])
    other = Symmetry(S, not u.sym.inversion)
    if other.inversion != u.sym.inversion or len(other.S) != len(u.sym.S):
        raises(ValueError, lambda: u.match_sym(other), "different inversion")
    raises(ValueError, lambda: u.match_sym(Symmetry.none(d + 1)), "different dimension")
    # the same group, slightly turned
    a = (-1) ** c["bad"] * 10 ** -(1 + np.abs(c["q"][0]) / 40)
    w = np.eye(d)
    if d > 1:
        w[:2, :2] = G.rot2(a)
        if d > 2:
            w2 = np.eye(d)
            w2[-2:, -2:] = G.rot2(a * .7)
            w = w @ w2
    T = w @ S @ w.T
    off = max(np.min(np.linalg.norm(S - t, axis=(1, 2))) for t in T)
    if off > 1e-5:
        ctx.label("turned group")
        turned = Symmetry(T, u.sym.inversion)
        if len(turned.S) == len(u.sym.S) and turned.inversion == u.sym.inversion:
            raises(ValueError, lambda: u.match_sym(turned), f"group whose operations differ by {off:.1e}")
            check_rep(u, chi, inv, dim, "after a failed match")


@st.composite
def case_sym(draw):
    r = draw(rep(2))
    d = 3 if r["fam"] == "cubic" else r["g"]["basis"]["d"]
    n = draw(st.integers(0, 3))
    return {"r": r, "d": d, "seeds": draw(gen.i8(max(n, 1) * d)), "n": n, "origin": draw(st.sampled_from([True, True, True, False])), "v": draw(gen.i8(64)), "cplx": draw(st.booleans()), "herm": draw(st.booleans()), "rs": draw(st.integers(0, 999)), "x": draw(st.integers(-3, 3)), "pert": draw(gen.i8(d))}


def stars(sym, c):
    """positions: stars of the group; one of +-r with inversion, all of them without"""
    d = c["d"]
    S = np.asarray(sym.S, float)
    out = [np.zeros(d)] if c["origin"] else []
    for v in np.array(c["seeds"], float).reshape(-1, d)[:c["n"]]:
        r = np.sign(v) * (np.abs(v) % 4)
        if not np.any(r):
            continue
        for q in G.orbit(S, r):
            if not any(np.linalg.norm(q - o) < 1e-6 for o in out) and not (sym.inversion and any(np.linalg.norm(q + o) < 1e-6 for o in out)):
                out.append(q if not sym.inversion or c["seeds"][0] % 2 else -q)
    return np.array(out).reshape(-1, d)


def average(u, nb, C):
    """mean over the group of u^+ C(S r) u (with C(-r) = P C(r) P)"""
    P = inv_matrix(u)

    def look(r):
        i = int(np.argmin(np.linalg.norm(nb - r, axis=1)))
        if np.linalg.norm(nb[i] - r) < 1e-5:
            return C[i]
        i = int(np.argmin(np.linalg.norm(nb + r, axis=1)))
        assert np.linalg.norm(nb[i] + r) < 1e-5 and u.sym.inversion
        return P @ C[i] @ P
    out = []
    for r in nb:
        m = np.mean([w.conj().T @ look(s @ r) @ w for s, w in zip(u.sym.S, u.U)], axis=0)
        if u.sym.inversion and np.linalg.norm(r) < 1e-9:
            m = (m + P @ m @ P) / 2
        out.append(m)
    return np.array(out)


def matrices(c, n, dim):
    r = np.random.RandomState(c["rs"])
    m = r.randint(-64, 65, (2, n, dim, dim)) / 32
    m = m[0] + 1j * m[1] if c["cplx"] else m[0]
    return gen.herm(m) if c["herm"] else m


def check_symmetrize(c, ctx):
    u, _, _, dim = build(c["r"], 12)
    nb = stars(u.sym, c)
    if len(nb) == 0:
        raise Skip
    if len(u.sym.S) < 2 or dim < 2 or len(nb) < 2:
        ctx.trivial()
    ctx.label("inversion" if u.sym.inversion else "no inversion")
    ctx.label(f"{c['d']}D")
    C, D = matrices(c, len(nb), dim), matrices({**c, "rs": c["rs"] + 1000}, len(nb), dim)
    C0 = C.copy()
    want = average(u, nb, C)
    f = u.symmetrizer(nb)
    for name, fn in (("symmetrize", lambda x: u.symmetrize(x, nb)), ("symmetrizer", f)):
        got = np.asarray(fn(C))
        require(np.array_equal(C, C0), f"{name}: the input is not changed")
        close(got, want, 1e-9, 1e-9, f"{name}: group average")
        close(np.asarray(fn(got)), got, 1e-9, 1e-9, f"{name}: idempotent")
        close(np.asarray(fn(C + c["x"] * D)), got + c["x"] * np.asarray(fn(D)), 1e-8, 1e-9, f"{name}: linear")
    # the result has the symmetry
    for k, (s, w) in enumerate(zip(u.sym.S, u.U)):
        for i, r in enumerate(nb):
            j = int(np.argmin(np.linalg.norm(nb - s @ r, axis=1)))
            if np.linalg.norm(nb[j] - s @ r) < 1e-5:
                close(got[j], w @ got[i] @ w.conj().T, 1e-8, 1e-9, "C(Sr) = U C(r) U^+")


def check_commute(c, ctx):
    """the on-site matrix after symmetrising commutes with the representation; commuting matrices are kept"""
    u, _, _, dim = build(c["r"], 12)
    if len(u.sym.S) < 2 or dim < 2:
        ctx.trivial()
    M = matrices(c, 1, dim)
    P = inv_matrix(u)
    nb = np.zeros((1, c["d"]))
    for fn in (lambda x: u.symmetrize(x, nb), u.symmetrizer(nb)):
        got = np.asarray(fn(M))[0]
        for w in u.U:
            close(w @ got, got @ w, 1e-9, 1e-9, "commutes with the representation")
        if u.sym.inversion:
            close(P @ got, got @ P, 1e-9, 1e-9, "commutes with the inversion")
        close(np.trace(got), np.trace(M[0]), 1e-9, 1e-9, "trace")
        if c["herm"]:
            close(got, got.conj().T, 1e-9, 1e-9, "Hermitian stays Hermitian")
        close(np.asarray(fn(np.eye(dim)[None] * 2.5))[0], np.eye(dim) * 2.5, 1e-9, 0, "unit matrix")
    # little groups: symmetrize2 at arbitrary points
    near = stars(u.sym, c).reshape(-1, c["d"])[:6]
    pts = np.concatenate([nb, near, near + np.array(c["pert"], float) * 10 ** -(2.5 + abs(c["x"]) / 2), np.array(c["v"], float)[:3 * c["d"]].reshape(3, -1) / 16])
    # points which are not clearly on or off a symmetry element cannot be decided
    pts = np.array([r for r in pts if not any(1e-5 < np.linalg.norm(sg * s @ r - r) < 1e-3 for s in u.sym.S for sg in (1, -1))])
    D = matrices({**c, "rs": c["rs"] + 2000}, len(pts), dim)
    got = u.symmetrize2(pts, D)
    for r, m, g in zip(pts, D, got):
        acc = []
        for s, w in zip(u.sym.S, u.U):
            for sg in ((1, -1) if u.sym.inversion else (1,)):
                if np.linalg.norm(sg * s @ r - r) < 1e-5:
                    w_ = w @ P if sg < 0 else w
                    acc.append(w_ @ m @ w_.conj().T)
        close(g, np.mean(acc, axis=0), 1e-9, 1e-9, "symmetrize2: average over the group of the point")


def check_test(c, ctx):
    """check_symmetry accepts symmetric k-functions and rejects others"""
    u, _, _, dim = build(c["r"], 8)
    P = inv_matrix(u)
    d = c["d"]
    M = gen.herm(matrices(c, 3, dim))
    a = np.array(c["v"], float)[:3 * d].reshape(3, d) / 64
    ops = [(s, w) for s, w in zip(u.sym.S, u.U)]
    if u.sym.inversion:
        ops += [(-s, w @ P) for s, w in ops]
    So, Wo = np.array([s for s, _ in ops], float), np.array([w for _, w in ops])

    def symm(ks):
        out = []
        for k in ks:
            q = So @ k
            R = sum(m * np.cos(2 * np.pi * (q @ a[i]) + i)[:, None, None] for i, m in enumerate(M))
            out.append(np.mean(np.conj(np.swapaxes(Wo, 1, 2)) @ R @ Wo, axis=0))
        return np.array(out)
    np.random.seed(c["rs"])
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        require(bool(u.check_symmetry(symm)), "symmetric function accepted")
        # k dependent scalar that is not invariant
        p = np.array(c["pert"], float) / 64
        if len(ops) > 1 and np.linalg.norm(p) > 0.5:
            moved = [s for s, w in ops if np.linalg.norm(s.T @ p - p) > 0.3]
            if moved:
                bad = lambda ks: symm(ks) + np.array([np.sin(p @ k) for k in ks])[:, None, None] * np.eye(dim)
                require(not u.check_symmetry(bad), "function without the symmetry rejected")
            else:
                ctx.trivial()
        else:
            ctx.trivial()


@st.composite
def case_gen(draw):
    return {"n": draw(st.integers(1, 48)), "k": draw(st.sampled_from(["rot", "screw", "dihedral", "product"])), "p": draw(st.integers(1, 47)), "m": draw(st.integers(1, 3)), "q": draw(gen.i8(9)), "inv": draw(st.booleans()), "neg": draw(st.booleans())}


def check_generator(c, ctx):
    """groups generated by one or two operations of any order, in a turned basis"""
    n, p = c["n"], c["p"]
    while np.gcd(n, p) > 1:
        p -= 1
    Q, _ = np.linalg.qr(np.array(c["q"], float).reshape(3, 3) / 64 + np.eye(3) * 2.3)
    Q = Q * np.linalg.det(Q)
    g = [Q @ G.rot([0, 0, 1], 2 * np.pi * p / n) @ Q.T]
    order = n
    # representation: rotations by a multiple of the angle
    rep = [G.rot2(2 * np.pi * p * c["m"] / n)]
    if c["k"] == "dihedral":
        g.append(Q @ np.diag([1., -1, -1]) @ Q.T)
        rep.append(np.diag([1., -1]))
        order = 2 * n
    elif c["k"] == "screw":
        rep = [np.kron(rep[0], np.eye(2))]
    elif c["k"] == "product":
        rep = [np.kron(rep[0], G.rot2(2 * np.pi * p / n))]
    if order < 3:
        ctx.trivial()
    ctx.label(c["k"])
    u = UR.from_generator(g, rep, c["inv"], c["neg"])
    dim = len(rep[0])
    require(len(u.sym.S) == order, f"group of order {order}, got {len(u.sym.S)} operations")
    require(u.sym.inversion == c["inv"] and u.inv_split == (0 if c["neg"] else dim), "inversion as requested")
    S, U = np.asarray(u.sym.S), np.asarray(u.U)
    require(all(np.min(np.linalg.norm(S - s, axis=(1, 2))) < 1e-8 for s in G.closure(g)), "all products of the generators")
    for s, m in zip(g, rep):
        close(U[int(np.argmin(np.linalg.norm(S - s, axis=(1, 2))))], m, 1e-7, 0, "matrix of a generator")
    idx = {G.key(s): i for i, s in enumerate(S)}
    t = np.array([[idx.get(G.key(a @ b), -1) for b in S] for a in S])
    require(np.all(t >= 0), "operations are closed")
    close(np.einsum("aij,bjk->abik", U, U), U[t], 1e-7, 0, "homomorphism")
    require(bool(u.check()), "check()")


SUBS = [
    Sub("generator", case_gen(), check_generator, quick=80, thorough=1500, shards=1),
    Sub("algebra", rep(), check_algebra, quick=500, thorough=10000, shards=3),
    Sub("match", case_match(), check_match, quick=200, thorough=3000, shards=1),
    Sub("symmetrize", case_sym(), check_symmetrize, quick=350, thorough=8000, shards=4),
    Sub("commute", case_sym(), check_commute, quick=300, thorough=6000, shards=2),
    Sub("test", case_sym(), check_test, quick=150, thorough=2000, shards=2),
]
