"""Generators and brute-force oracles for finite matrix groups, shared by C10-C14."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
from tight_binding_redweasel.symmetry import Symmetry


def key(m):
    return tuple((np.round(np.asarray(m, float).ravel() * 1e4 + 0.137).astype(int)).tolist())


def keyset(ms):
    return set(key(m) for m in ms)


def closure(gens, limit=2000):
    """all products of the generators (own code: breadth first on the Cayley graph)"""
    gens = [np.asarray(g, float) for g in gens]
    d = len(gens[0])
    seen = {key(np.eye(d)): np.eye(d)}
    todo = [np.eye(d)]
    while todo:
        new = []
        for a in todo:
            for g in gens:
                b = a @ g
                k = key(b)
                if k not in seen:
                    seen[k] = b
                    new.append(b)
        todo = new
        if len(seen) > limit:
            raise OverflowError
    return np.array(list(seen.values()))


def rot(axis, a):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def rot2(a):
    return np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])


def signed_perms(d, even=None):
    out = []
    for p in itertools.permutations(range(d)):
        for s in itertools.product((1, -1), repeat=d):
            m = np.zeros((d, d))
            for i in range(d):
                m[i, p[i]] = s[i]
            out.append(m)
    return np.array(out)


# name -> (constructor, operations by definition or None, order)
def _named():
    T = {}
    dg = lambda *x: np.diag(np.array(x, float))
    for inv in (False, True):
        both = lambda S, inv=inv: np.concatenate([S, -np.asarray(S)]) if inv else np.asarray(S)
        i = int(inv)
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 12):
            C = [rot([0, 0, 1], 2 * np.pi * j / n) for j in range(n)]
            T[f"cyclic{n}.{i}"] = (lambda n=n, inv=inv: Symmetry.cyclic(n, inv), both(C), 3)
            D = C + [c @ dg(-1, 1, 1) for c in C]
            T[f"dihedral{n}.{i}"] = (lambda n=n, inv=inv: Symmetry.dihedral(n, inv), both(D), 3)
        sp = signed_perms(3)
        O = np.array([s for s in sp if np.linalg.det(s) > 0])
        T[f"cubic.{i}"] = (lambda inv=inv: Symmetry.cubic(inv), both(O), 3)
        P = np.array([s for s in sp if np.min(s) >= 0])
        T[f"perm3.{i}"] = (lambda inv=inv: Symmetry.perm3(inv), both(P), 3)
        # the permutations made proper: S3 in O (documented generators)
        E = closure([[[0, 0, 1], [0, -1, 0], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]])
        T[f"even_perm3.{i}"] = (lambda inv=inv: Symmetry.even_perm3(inv), both(E), 3)
        V = np.array([s for s in sp if np.linalg.det(s) > 0 and np.all(s == np.diag(np.diag(s)))])
        T[f"mirror3.{i}"] = (lambda inv=inv: Symmetry.mirror3(inv), both(V), 3)
        ico = closure([rot([0, 0, 1], 2 * np.pi / 5), rot([2, 0, 1], 2 * np.pi / 5)])
        T[f"icosahedral.{i}"] = (lambda inv=inv: Symmetry.icosahedral(inv), both(ico), 3)
        tet = np.array([s for s in O if abs(np.prod(np.sum(s, axis=1)) - 1) < 1e-9 and np.linalg.norm(np.abs(s) - np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]])) > 1e-9
                        and np.linalg.norm(np.abs(s) - np.array([[1, 0, 0], [0, 0, 1], [0, 1, 0]])) > 1e-9 and np.linalg.norm(np.abs(s) - np.array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])) > 1e-9])
        T[f"tetrahedral.{i}"] = (lambda inv=inv: Symmetry.tetrahedral(inv), O if inv else tet, 3)  # documented: full = octahedral group O
        for d in (1, 2, 3, 4):
            m = np.eye(d)
            m[0, 0] = -1
            T[f"mirror_x{d}.{i}"] = (lambda d=d, inv=inv: Symmetry.mirror_x(inv, d), closure([m] + ([-np.eye(d)] if inv else [])), d)
        for d in (2, 3, 4):
            m = np.eye(d)
            m[0, 0] = m[1, 1] = -1
            T[f"mirror_xy{d}.{i}"] = (lambda d=d, inv=inv: Symmetry.mirror_xy(inv, d), closure([m] + ([-np.eye(d)] if inv else [])), d)
        T[f"o1.{i}"] = (lambda inv=inv: Symmetry.o1(inv), both([np.eye(1)]), 1)
    for d in (1, 2, 3, 4):
        T[f"none{d}"] = (lambda d=d: Symmetry.none(d), np.eye(d)[None], d)
        T[f"inv{d}"] = (lambda d=d: Symmetry.inv(d), np.array([np.eye(d), -np.eye(d)]), d)
    for n in range(1, 13):
        T[f"o2.{n}"] = (lambda n=n: Symmetry.o2(n), np.array([rot2(2 * np.pi * j / n) for j in range(n)]), 2)
    T["square"] = (lambda: Symmetry.square(), signed_perms(2), 2)
    return T


NAMED = _named()
SMALL = [n for n in NAMED if len(NAMED[n][1]) <= 48]


def names(dim=None, max_order=48, crystal=False):
    out = [n for n in NAMED if (dim is None or NAMED[n][2] == dim) and len(NAMED[n][1]) <= max_order]
    if crystal:
        out = [n for n in out if not any(x in n for x in ("cyclic5", "cyclic7", "cyclic8", "cyclic12", "dihedral5", "dihedral7", "dihedral8", "dihedral12", "icosa")) and n not in [f"o2.{i}" for i in (5, 7, 8, 9, 10, 11, 12)]]
    return out + 3 * [n for n in out if len(NAMED[n][1]) >= 6]


@st.composite
def basis(draw, d, kinds=("id", "orth", "int", "gen")):
    return {"d": d, "kind": draw(st.sampled_from(kinds)), "v": draw(gen.i8(2 * d * d + 4))}


def dec_basis(c):
    d = c["d"]
    v = np.array(c["v"], float)
    if c["kind"] == "id":
        return np.eye(d)
    if c["kind"] == "orth":
        q, _ = np.linalg.qr(v[:d * d].reshape(d, d) / 64 + 0.013 * np.arange(d * d).reshape(d, d) + np.eye(d) * 0.37)
        return q
    if c["kind"] == "int":
        B = np.eye(d)
        for t in range(2):
            if d > 1:
                i = int(abs(v[2 * t])) % d
                j = (i + 1 + int(abs(v[2 * t + 1])) % (d - 1)) % d
                E = np.eye(d)
                E[i, j] = 1 if v[2 * t] >= 0 else -1
                B = B @ E
        return B
    return np.eye(d) + 0.3 * v[:d * d].reshape(d, d) / 128


@st.composite
def group(draw, dim=None, max_order=48, crystal=False, kinds=("id", "orth", "int", "gen"), sub=True):
    """a named group or a random subgroup of it, in a random basis"""
    name = draw(st.sampled_from(names(dim, max_order, crystal)))
    d = NAMED[name][2]
    c = {"name": name, "basis": draw(basis(d, kinds)), "gens": None, "inv": False}
    if sub and draw(st.booleans()):
        n = len(NAMED[name][1])
        c["gens"] = [x % n for x in draw(gen.i8(draw(st.sampled_from([2, 1, 3]))))]
        c["inv"] = draw(st.booleans())
    return c


def dec_ops(c):
    """the operations by brute force, in the requested basis"""
    ops = NAMED[c["name"]][1]
    d = NAMED[c["name"]][2]
    if c["gens"] is not None:
        g = [ops[i % len(ops)] for i in c["gens"]] + ([-np.eye(d)] if c["inv"] else [])
        ops = closure(g)
    B = dec_basis(c["basis"])
    return B @ ops @ np.linalg.inv(B)


def dec_sym(c):
    """the same group as built by the code under test"""
    B = dec_basis(c["basis"])
    if c["gens"] is None:
        s = NAMED[c["name"]][0]()
        return s if c["basis"]["kind"] == "id" else s.transform(B)
    ops = NAMED[c["name"]][1]
    g = [B @ ops[i % len(ops)] @ np.linalg.inv(B) for i in c["gens"]]
    return Symmetry.from_generator(g, c["inv"])


def orbit(ops, r, tol=1e-7):
    out = []
    for s in ops:
        q = s @ r
        if not any(np.linalg.norm(q - o) < tol * (1 + np.linalg.norm(r)) for o in out):
            out.append(q)
    return np.array(out)
