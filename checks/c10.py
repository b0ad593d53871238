"""C10: symmetry groups are groups, and group operations obey group theory."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
import groups as G
from groups import key, keyset, closure
from core import Sub, close, require, raises, fail
from tight_binding_redweasel.symmetry import Symmetry

RULE = "the group has at least 3 operations (pairs: neither group is trivial; projective: some translation is non-zero; rejection cases always count)"
ASSUMPTIONS = ["finite groups up to order 120 in 1 to 4 dimensions", "oracle: breadth-first closure and the definitions of coset, conjugacy and normality on the explicit list of matrices", "groups of order >= 200 are rejected by design (documented size limit) and are not generated"]


def is_same(sym, ops, what):
    o = sym.get_symmetry_operations()
    require(len(o) == len(sym), f"{what}: len() {len(sym)} but {len(o)} operations")
    ks = keyset(o)
    require(len(ks) == len(o), f"{what}: {len(o)} operations listed, only {len(ks)} distinct")
    require(np.linalg.norm(o[0] - np.eye(len(o[0]))) < 1e-7, f"{what}: first operation is not the identity")
    require(len(o) == len(ops), f"{what}: order {len(o)} instead of {len(ops)}")
    d = np.array([np.min(np.max(np.abs(o - s), axis=(1, 2))) for s in ops])
    require(np.max(d) < 1e-6, f"{what}: an operation is missing (distance {np.max(d):.2e})")
    # the flag means: the operations are +-S; in odd dimensions it is set exactly when -1 is an operation
    has_inv = np.min(np.max(np.abs(np.asarray(ops) + np.eye(len(o[0]))), axis=(1, 2))) < 1e-6
    require(bool(sym.inversion) == (has_inv and len(o[0]) % 2 == 1), f"{what}: inversion flag {sym.inversion}, -1 is {'' if has_inv else 'not '}an operation in {len(o[0])}D")


def check_named(c, ctx):
    name = c["name"]
    ops = G.NAMED[name][1]
    s = G.NAMED[name][0]()
    require(s.dim() == G.NAMED[name][2] == s.space_dim(), f"{name}: dimension {s.dim()}")
    is_same(s, ops, name)
    require(s.check() is True or s.check() == True, f"{name}: check() says that it is not closed")
    require(bool(s.is_orthogonal()), f"{name}: not orthogonal")
    if len(ops) < 3:
        ctx.trivial()


def check_group(c, ctx):
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    ctx.label(f"dim {s.dim()}")
    ctx.label("generated" if c["g"]["gens"] is not None else "named")
    if len(ops) < 3:
        ctx.trivial()
    is_same(s, ops, "group")
    require(s.check(), "check() rejects a closed group")
    orth = max(np.linalg.norm(o @ o.T - np.eye(s.dim())) for o in ops) < 1e-7
    if orth or max(np.linalg.norm(o @ o.T - np.eye(s.dim())) for o in ops) > 1e-4:
        require(bool(s.is_orthogonal()) == orth, f"is_orthogonal {s.is_orthogonal()} instead of {orth}")
    before = np.array(s.get_symmetry_operations())
    cp = s.copy()
    is_same(cp, ops, "copy")
    is_same(s.transpose(), np.swapaxes(ops, 1, 2), "transpose")
    is_same(s.dual(), np.linalg.inv(np.swapaxes(ops, 1, 2)), "dual")
    is_same(s.dual().dual(), ops, "dual of the dual")
    B = G.dec_basis(c["b"])
    t = s.transform(B)
    is_same(t, B @ ops @ np.linalg.inv(B), "transform")
    is_same(t.transform(np.linalg.inv(B)), ops, "transform there and back")
    require(t.check(), "transformed group is not closed")
    require(t.transform(np.linalg.inv(B)) == s and cp == s and s == s, "group differs from its copy or its back-transformed group")
    require(s in s and cp in s, "group does not contain itself")
    # a shuffled operation list (identity first) is the same group, duplicates are merged by from_generator
    r = np.random.RandomState(c["seed"])
    o = ops[r.permutation(len(ops))]
    if len(ops) < 100:
        o2 = Symmetry.from_generator(list(o) + list(o[:3]), False)
        is_same(o2, ops, "group generated by all of its operations")
        require(o2 == s and s == o2, "group generated by all its operations differs from the group")
    i = int(np.argmin(np.linalg.norm(o - np.eye(s.dim()), axis=(1, 2))))
    o[[0, i]] = o[[i, 0]]
    s3 = Symmetry(o)
    is_same(s3, ops, "group from a full operation list")
    require(s3 == s and s == s3, "equality depends on the order of the operations")
    # without one operation that the rest does not need, it is not closed
    if len(ops) >= 3 and s.dim() < 4:
        bad = Symmetry(o[:-1])
        if len(bad) == len(ops) - 1:
            require(not bad.check(), "check() accepts a list that is not closed")
            require(not (bad == s), "equality accepts a list with a missing operation")
    require(np.array_equal(before, s.get_symmetry_operations()), "operations of the group changed")


@st.composite
def case_group(draw):
    g = draw(G.group(max_order=60))
    return {"g": g, "b": draw(G.basis(g["basis"]["d"])), "seed": draw(st.integers(0, 99))}


@st.composite
def case_pair(draw):
    name = draw(st.sampled_from(G.names(None, 48)))
    n = len(G.NAMED[name][1])
    d = G.NAMED[name][2]
    g = lambda: {"gens": [x % n for x in draw(gen.i8(draw(st.sampled_from([2, 1, 3]))))], "inv": draw(st.booleans())}
    b = draw(G.basis(d, ("id", "orth", "gen")))
    return {"name": name, "basis": b, "g1": g(), "g2": g(), "other": draw(st.booleans())}


def pair(c):
    mk = lambda g: {"name": c["name"], "basis": c["basis"], **g}
    return mk(c["g1"]), mk(c["g2"])


def check_pair(c, ctx):
    a, b = pair(c)
    oa, ob = G.dec_ops(a), G.dec_ops(b)
    A, B = G.dec_sym(a), G.dec_sym(b)
    if len(oa) < 2 or len(ob) < 2:
        ctx.trivial()
    ka, kb = keyset(oa), keyset(ob)
    ctx.label("equal" if ka == kb else "subgroup" if kb < ka or ka < kb else "unrelated")
    require(bool(A == B) == (ka == kb) and bool(B == A) == (ka == kb), f"== gives {A == B}, the operation sets are {'equal' if ka == kb else 'different'} (orders {len(oa)}, {len(ob)})")
    require((B in A) == (kb <= ka), f"contains gives {B in A}, but the operations are {'' if kb <= ka else 'not '}a subset (orders {len(oa)}, {len(ob)})")
    require((A in B) == (ka <= kb), f"contains gives {A in B}, but the operations are {'' if ka <= kb else 'not '}a subset (orders {len(oa)}, {len(ob)})")
    P = A * B
    full = closure(list(oa) + list(ob))
    is_same(P, full, "product group")
    require(A in P and B in P, "factors are not contained in the product")
    require((B * A) == P, "product depends on the order of the factors")
    if c["other"] and A.dim() == 3:
        require(not (A == Symmetry.none(2)), "groups of different dimension are equal")


def find_complement(ops, N):
    """own exhaustive search for a subgroup that meets every coset of N once"""
    ks = {key(o): i for i, o in enumerate(ops)}
    n = len(ops)
    mul = np.array([[ks[key(a @ b)] for b in ops] for a in ops])
    inN = np.zeros(n, bool)
    for x in N:
        inN[ks[key(x)]] = True
    e = ks[key(np.eye(len(ops[0])))]
    cos = np.array([min(mul[i][inN]) for i in range(n)])
    target = n // len(N)

    def gen_sub(els):
        S = {e}
        todo = [e]
        while todo:
            x = todo.pop()
            for g in els:
                y = mul[x, g]
                if y not in S:
                    S.add(y)
                    todo.append(y)
                    if len(S) > target:
                        return None
        return S

    def rec(S):
        if len(S) == target:
            return S
        cov = set(cos[list(S)])
        new = next(x for x in range(n) if cos[x] not in cov)
        for x in np.flatnonzero(cos == cos[new]):
            T = gen_sub(list(S) + [x])
            if T is None or sum(inN[list(T)]) != 1:
                continue
            r = rec(T)
            if r is not None:
                return r
        return None
    return rec({e})


@st.composite
def case_quot(draw):
    g = draw(G.group(max_order=48, kinds=("id", "id", "orth", "gen"), sub=draw(st.sampled_from([False, False, True]))))
    return {"g": g, "n": [abs(x) for x in draw(gen.i8(draw(st.sampled_from([1, 1, 1, 2, 0]))))], "normal": draw(st.sampled_from([True, False])), "seed": draw(st.integers(0, 20))}


def check_quot(c, ctx):
    ops = G.dec_ops(c["g"])
    d = len(ops[0])
    s = G.dec_sym(c["g"])
    # the operations in an order of its own: the result must not depend on it
    r = np.random.RandomState(c["seed"])
    base = [ops[i % len(ops)] for i in c["n"]]
    if c["normal"]:
        base = [g @ x @ np.linalg.inv(g) for x in base for g in ops]
    N = closure(base + [np.eye(d)])
    kN = keyset(N)
    normal = all(key(g @ x @ np.linalg.inv(g)) in kN for g in ops for x in N)
    Ns = Symmetry.from_generator(list(N[r.permutation(len(N))]), False)
    is_same(Ns, N, "divisor")
    if len(ops) < 3:
        ctx.trivial()
    if not normal:
        ctx.label("not normal")
        raises((ValueError, AssertionError), lambda: s / Ns, "quotient by a subgroup that is not normal")
        return
    comp = find_complement(ops, N)
    try:
        Q = s / Ns
    except (ValueError, AssertionError) as e:
        require(comp is None, f"quotient of order {len(ops) // len(N)} exists as a subgroup, but: {type(e).__name__} {e}")
        ctx.label("no complement")
        return
    ctx.label("complement" if 1 < len(N) < len(ops) else "trivial quotient")
    q = Q.get_symmetry_operations()
    require(len(Q) == len(ops) // len(N) == len(q), f"quotient of order {len(Q)} instead of {len(ops)}/{len(N)}")
    ks = keyset(ops)
    require(all(key(x) in ks for x in q), "quotient contains operations that are not in the group")
    is_same(Q, closure(list(q)), "quotient")
    cos = [frozenset(key(x @ n) for n in N) for x in q]
    require(len(set(cos)) == len(q), "quotient represents a coset twice")


@st.composite
def case_classes(draw):
    return {"g": draw(G.group(max_order=48, kinds=("id", "orth", "gen"))), "n": [abs(x) for x in draw(gen.i8(draw(st.sampled_from([1, 1, 1, 2, 0]))))]}


def check_classes(c, ctx):
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = s.dim()
    if len(ops) < 3:
        ctx.trivial()
    cl = s.conjugacy_classes()
    require(sum(len(x) for x in cl) == len(ops), f"conjugacy classes contain {sum(len(x) for x in cl)} of {len(ops)} operations")
    got = set(frozenset(key(m) for m in x) for x in cl)
    inv = np.linalg.inv(ops)
    want = set(frozenset(key(g @ x @ gi) for g, gi in zip(ops, inv)) for x in ops)
    require(got == want, f"conjugacy classes of sizes {sorted(len(x) for x in got)} instead of {sorted(len(x) for x in want)}")
    # any equivalence relation: operations with the same trace
    eq = s.equivalence_classes(lambda a, b: abs(np.trace(a) - np.trace(b)) < 1e-6)
    want = {}
    for o in ops:
        want.setdefault(round(float(np.trace(o)), 4) + 0.0, set()).add(key(o))
    require(set(frozenset(key(m) for m in x) for x in eq) == set(frozenset(x) for x in want.values()), "equivalence classes of the relation 'same trace' are wrong")
    # the subgroup on which a class function is constant
    base = [ops[i % len(ops)] for i in c["n"]]
    N = closure([g @ x @ gi for x in base for g, gi in zip(ops, inv)] + [np.eye(d)])
    kN = keyset(N)
    f = lambda m: 0.0 if key(m) in kN else 1.0
    is_same(s.subgroup(f), N, "subgroup of a class function")
    g = lambda m: np.array([[0.0, 0.0], [0.0, 0.0]]) if key(m) in kN else np.array([[1.0, -1.0], [-0.5, 0.5]])
    is_same(s.subgroup(g), N, "subgroup of a matrix valued class function")
    ctx.label(f"subgroup of order {len(N)} of {len(ops)}" if 1 < len(N) < len(ops) else "trivial subgroup")
    SO = np.array([o for o in ops if np.linalg.det(o) > 0])
    is_same(s.subgroup(lambda m: np.linalg.det(m)), SO, "subgroup with determinant 1")


@st.composite
def case_reject(draw):
    d = draw(st.sampled_from([1, 2, 3]))
    kind = draw(st.sampled_from(["det", "first", "angle", "shear", "det_gen"]))
    return {"d": d, "kind": kind, "v": draw(gen.i8(d * d + 4)), "inv": draw(st.booleans())}


def check_reject(c, ctx):
    d = c["d"]
    v = np.array(c["v"], float)
    if c["kind"] in ("det", "det_gen"):
        f = 1 + (1 + abs(v[0])) / 128 * np.sign(v[1] + 0.5) * (0.5 if v[1] < 0 else 3)
        m = np.eye(d)
        m[int(abs(v[2])) % d, int(abs(v[2])) % d] = f
        if c["kind"] == "det":
            raises(ValueError, lambda: Symmetry([np.eye(d), m], c["inv"]), f"operation with determinant {f}")
        raises(ValueError, lambda: Symmetry.from_generator([np.eye(d), m], c["inv"]), f"generator with determinant {f}")
        raises(ValueError, lambda: Symmetry.from_generator([m], c["inv"]), f"generator with determinant {f}")
    elif c["kind"] == "first":
        m = -np.eye(d)
        raises(ValueError, lambda: Symmetry([m, np.eye(d)], c["inv"]), "first operation is not the identity")
    elif d < 2:
        ctx.trivial()
    elif c["kind"] == "angle":
        m = np.eye(d)
        m[:2, :2] = G.rot2(1 + v[0] / 200)
        raises(ValueError, lambda: Symmetry.from_generator([m], c["inv"]), "generator of infinite order")
    else:
        m = np.eye(d)
        m[0, 1] = 1 if v[0] > 0 else -2
        raises(ValueError, lambda: Symmetry.from_generator([m], c["inv"]), "generator of infinite order")


@st.composite
def case_space(draw):
    g = draw(G.group(max_order=24, kinds=("id", "id", "gen")).filter(lambda c: c["basis"]["d"] <= 3))
    d = g["basis"]["d"]
    return {"g": g, "c": draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, -1]), min_size=d, max_size=d)), "b": draw(G.basis(d))}


def check_space(c, ctx):
    """a point group around another centre: every operation gets the translation (1-s)c"""
    ops = G.dec_ops(c["g"])
    d = len(ops[0])
    cen = np.array(c["c"], float) / 4

    def affine(o, x):
        m = np.zeros((len(o), d + 1, d + 1))
        m[:, :d, :d] = o
        m[:, :d, d] = x - o @ x
        m[:, d, d] = 1
        return m
    S = affine(ops, cen)
    i = int(np.argmin(np.linalg.norm(ops - np.eye(d), axis=(1, 2))))
    S[[0, i]] = S[[i, 0]]
    if not np.any(np.abs(S[:, :d, d]) > 1e-9):
        ctx.trivial()
    sg = Symmetry.space_group(S, dim=d)
    require(sg.projective and sg.space_dim() == d and sg.dim() == d + 1, "space group is not recognised as projective")
    require(keyset(sg.get_symmetry_operations()) == keyset(S) and len(sg) == len(S), "operations of the space group changed")
    is_same(Symmetry.point_group(S, dim=d), ops, "point group")
    is_same(sg.ignore_translation(), ops, "point group of the space group")
    fix = np.array([o for o in ops if np.linalg.norm(o @ cen - cen) < 1e-9])
    is_same(Symmetry.strict_point_group(S, dim=d), fix, "operations without translation")
    is_same(sg.remove_translation(), fix, "operations without translation")
    B = G.dec_basis(c["b"])
    # copies and duals stay space groups: the dual matrices are the inverse transposed ones
    cp = sg.copy()
    require(cp.projective and cp.space_dim() == d and keyset(cp.get_symmetry_operations()) == keyset(S), "copy of the space group")
    du = sg.dual()
    require(du.projective and du.space_dim() == d and du.dim() == d + 1, "dual of the space group is not projective any more")
    require(keyset(du.get_symmetry_operations()) == keyset(np.linalg.inv(np.swapaxes(S, 1, 2))), "dual of the space group")
    dd = du.dual()
    require(dd.projective and keyset(dd.get_symmetry_operations()) == keyset(S), "dual of the dual of the space group")
    t = sg.transform(B)
    require(t.projective and t.space_dim() == d, "transformed space group is not projective any more")
    want = affine(B @ ops @ np.linalg.inv(B), B @ cen)
    o = t.get_symmetry_operations()
    require(len(o) == len(want) and all(np.min(np.max(np.abs(o - w), axis=(1, 2))) < 1e-7 for w in want), "transformed space group")
    pg = Symmetry.point_group(ops[np.argsort(np.linalg.norm(ops - np.eye(d), axis=(1, 2)), kind="stable")], dim=d)
    require(not pg.projective, "point group is projective")
    is_same(pg, ops, "point group of a point group")


@st.composite
def case_near(draw):
    g = draw(G.group(max_order=48, kinds=("id", "orth")).filter(lambda c: c["basis"]["d"] > 1))
    return {"g": g, "rot": draw(G.basis(g["basis"]["d"], ("orth",))), "eps": draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 3e-5]))}


def check_near(c, ctx):
    """a slightly turned group is another group"""
    ops = G.dec_ops(c["g"])
    d = len(ops[0])
    a = np.array(c["rot"]["v"][:d * d], float).reshape(d, d)
    a = (a - a.T) / (1 + np.linalg.norm(a - a.T)) * c["eps"]
    R = np.linalg.solve(np.eye(d) + a / 2, np.eye(d) - a / 2)
    s = G.dec_sym(c["g"])
    t = s.transform(R)
    new = R @ ops @ R.T
    far = np.array([np.min(np.linalg.norm(o - ops, axis=(1, 2))) for o in new])
    if np.max(far) < .2 * c["eps"]:
        ctx.trivial()  # turned about its own axis, or only +-1
        return
    is_same(t, new, "turned group")
    require(not (t == s) and not (s == t), f"a group turned by {c['eps']} equals the original one (operations differ by {np.max(far):.1e})")
    require(t not in s and s not in t, f"a group turned by {c['eps']} is contained in the original one")
    require(s.transform(np.eye(d)) == s, "group differs from itself")


SUBS = [
    Sub("nearly_equal", case_near(), check_near, quick=200, thorough=3000, shards=1),
    Sub("named", st.sampled_from(sorted(G.NAMED)).map(lambda n: {"name": n}), check_named, quick=300, thorough=400, shards=1),
    Sub("group", case_group(), check_group, quick=500, thorough=8000, shards=3),
    Sub("pairs", case_pair(), check_pair, quick=500, thorough=8000, shards=3),
    Sub("quotient", case_quot(), check_quot, quick=400, thorough=6000, shards=4),
    Sub("classes", case_classes(), check_classes, quick=300, thorough=5000, shards=3),
    Sub("reject", case_reject(), check_reject, quick=60, thorough=400, shards=3),
    Sub("space_groups", case_space(), check_space, quick=300, thorough=4000, shards=2),
]
