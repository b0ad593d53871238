"""C12: tensor symmetrisation projects onto the invariant tensors."""
import numpy as np
from hypothesis import strategies as st
import gen
import groups as G
from core import Sub, close, require, raises

RULE = "the group has at least 2 operations and the tensor has rank at least 1"
ASSUMPTIONS = ["ranks up to 4 in 3D (5 in 2D), condition number of the basis below about 20", "oracle: contraction of one index at a time with the explicit operations; left indices transform with s, right indices with the inverse (so that a (1,1) tensor is conjugated)"]


def act(s, t, left, pseudo):
    """the tensor after applying the operation s (one index at a time)"""
    si = np.linalg.inv(s)
    for i in range(t.ndim):
        m = s if i < left else si.T
        t = np.moveaxis(np.tensordot(m, t, axes=(1, i)), 0, i)
    return t * (np.sign(np.linalg.det(s)) if pseudo else 1)


@st.composite
def case(draw):
    g = draw(G.group(max_order=48))
    d = g["basis"]["d"]
    r = draw(st.sampled_from([2, 1, 3, 2, 4, 0, 5]))
    r = min(r, {1: 5, 2: 5, 3: 4, 4: 3}[d])
    left = draw(st.integers(0, r))
    n = max(d ** r, 1)
    return {"g": g, "r": r, "left": left, "pseudo": draw(st.booleans()), "t": draw(gen.nums(2 * n)), "u": draw(gen.nums(2 * n)), "cplx": draw(st.booleans()), "as_list": draw(st.booleans()), "x": draw(st.integers(-3, 3))}


def check(c, ctx):
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d, r, left = len(ops[0]), c["r"], c["left"]
    sh = (d,) * r
    n = int(np.prod(sh)) if r else 1
    dec = lambda x: (gen.dec(x)[:n] + (1j * gen.dec(x)[n:2 * n] if c["cplx"] else 0)).reshape(sh)
    T, U = dec(c["t"]), dec(c["u"])
    ctx.label(f"rank {r}")
    ctx.label("pseudo" if c["pseudo"] else "proper")
    if len(ops) < 2 or r < 1:
        ctx.trivial()
    T0 = T.copy()
    f = lambda t: s.symmetrize(t, rank=(left, r - left), pseudo_tensor=c["pseudo"])
    got = f(T.tolist() if c["as_list"] else T)
    require(np.array_equal(T, T0), "the input tensor changed")
    sc = 1e-9 * max(1.0, np.linalg.norm(ops[0]) * np.max([np.linalg.norm(o) for o in ops]) ** r)
    want = np.mean([act(o, T, left, c["pseudo"]) for o in ops], axis=0)
    close(np.asarray(got), want, sc, 1e-9, "group average")
    for o in ops:
        close(act(o, np.asarray(got), left, c["pseudo"]), np.asarray(got), sc, 1e-8, "invariance under an operation")
    close(np.asarray(f(got)), np.asarray(got), sc, 1e-8, "idempotence")
    close(np.asarray(f(T + c["x"] * U)), np.asarray(got) + c["x"] * np.asarray(f(U)), 4 * sc, 1e-8, "linearity")
    has_inv = any(np.linalg.norm(o + np.eye(d)) < 1e-9 for o in ops)
    sign = (-1) ** r * ((-1) ** d if c["pseudo"] else 1)
    if has_inv and sign < 0:
        ctx.label("odd")
        close(np.asarray(got), np.zeros(sh), sc, 1e-9, "odd tensor with inversion")
    # invariant tensor of the same transformation behaviour stays as it is
    if r == 2 and left == 1 and not c["pseudo"]:
        close(f(np.eye(d) * 2.5), np.eye(d) * 2.5, sc, 1e-9, "unit tensor")
    if r:
        raises(AssertionError, lambda: s.symmetrize(T, rank=(left, r - left + 1), pseudo_tensor=c["pseudo"]), "wrong rank")


@st.composite
def case_default(draw):
    g = draw(G.group(max_order=48))
    d = g["basis"]["d"]
    return {"g": g, "t": draw(gen.nums(d * d))}


def check_default(c, ctx):
    """default rank (1,1): commuting matrices; trace and eigenvalue sum are kept"""
    ops = G.dec_ops(c["g"])
    s = G.dec_sym(c["g"])
    d = len(ops[0])
    T = gen.dec(c["t"], (d, d))
    got = s.symmetrize(T)
    if len(ops) < 2:
        ctx.trivial()
    for o in ops:
        close(o @ got, got @ o, 1e-8 * (1 + np.linalg.norm(o)) ** 2, 1e-8, "commutes with the operation")
    close(np.trace(got), np.trace(T), 1e-9, 1e-9, "trace")
    close(s.symmetrize(T.astype(int)), s.symmetrize(T.astype(int) * 1.0), 1e-9, 1e-9, "integer input")


SUBS = [
    Sub("tensors", case(), check, quick=800, thorough=16000, shards=4),
    Sub("default_rank", case_default(), check_default, quick=300, thorough=4000, shards=2),
]
