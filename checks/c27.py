"""C27: linear algebra helpers satisfy their defining equations."""
import itertools
import numpy as np
from hypothesis import strategies as st
import gen
from core import Sub, close, require, raises, Skip
from tight_binding_redweasel import linalg as L

RULE = "at least two factors / axes / bands, or a system of more than one unknown"
ASSUMPTIONS = ["positive definite systems have a condition number below about 1e4; the residual is judged with a factor 10 for rounding",
               "lattice points within 1e-9 of the sphere surface may be listed or not", "gradients and Hessians of eigenvalues are compared with finite differences, for bands separated by more than 0.05"]


def rng(c):
    return np.random.RandomState(int(c["v"], 16))


seed = st.binary(min_size=4, max_size=4).map(bytes.hex)


def rand(r, shape, kind):
    a = r.randint(-64, 65, shape)
    if kind == "int":
        return a % 7 - 3
    a = a / 32
    if kind != "complex":
        return a
    b = r.randint(-64, 65, shape) / 32
    if len(shape) > 2 and r.rand() < 0.5:
        b[r.randint(0, 2, shape[:-2]) == 0] = 0  # some of the listed matrices are real
    return a + 1j * b


def frozen(args, f, what):
    keep = [np.array(a, copy=True) for a in args]
    out = f(*args)
    for a, k in zip(args, keep):
        require(np.array_equal(np.asarray(a), k) and np.asarray(a).dtype == k.dtype, f"{what} modified its arguments")
    return out


# ------------------------------------------------ direct sums, Kronecker products, axes
@st.composite
def s_sum(draw, kron=False):
    n = draw(gen.often(st.integers(1, 5), [9, 17]))
    m = 3
    if n < (3 if kron else 6):
        m = draw(gen.often(st.just(3), [6, 14]))
    batch = draw(st.sampled_from([[], [], [2], [3, 2], [1]]))
    return {"v": draw(seed), "b": batch, "bc": draw(st.sampled_from([None, None, 0, 1, 2])), "sh": [[draw(st.integers(1, m)), draw(st.integers(1, m))] for _ in range(n)], "k": [draw(st.sampled_from(["real", "int", "complex"])) for _ in range(n)], "lists": draw(st.booleans())}


def t_sum(c, ctx):
    r = rng(c)
    ms = []
    for i, (s, k) in enumerate(zip(c["sh"], c["k"])):
        b = list(c["b"])
        if c["bc"] == i:
            b = [1] * len(b)
        ms.append(rand(r, tuple(b + s), k))
    args = [m.tolist() for m in ms] if c["lists"] and len(ms) > 1 else ms
    out = np.asarray(frozen(args, L.direct_sum, "direct_sum"))
    B = np.broadcast_shapes(*[m.shape[:-2] for m in ms])
    R, C = sum(s[0] for s in c["sh"]), sum(s[1] for s in c["sh"])
    want = np.zeros(B + (R, C), dtype=complex)
    i = j = 0
    for m in ms:
        want[..., i:i + m.shape[-2], j:j + m.shape[-1]] = m
        i, j = i + m.shape[-2], j + m.shape[-1]
    require(out.shape == want.shape, lambda: f"shape {out.shape} instead of {want.shape}")
    require(np.array_equal(out, want), lambda: f"direct sum of {[m.shape for m in ms]} is not block diagonal")
    ctx.label(f"{len(ms)} blocks")
    ctx.trivial(len(ms) < 2)


def t_kron(c, ctx):
    r = rng(c)
    ms = [rand(r, tuple(s), k) for s, k in zip(c["sh"][:4], c["k"])]
    out = frozen(ms, L.kron, "kron")
    want = np.ones((1, 1))
    for m in ms:
        a, b = want.shape, m.shape
        w = np.zeros((a[0] * b[0], a[1] * b[1]), dtype=complex)
        for i, j, k, l in itertools.product(range(a[0]), range(a[1]), range(b[0]), range(b[1])):
            w[i * b[0] + k, j * b[1] + l] = want[i, j] * m[k, l]
        want = w
    close(np.asarray(out, complex), np.asarray(want, complex), 0, 1e-14, "Kronecker product")
    if len(ms) > 1:
        close(np.asarray(L.kron(L.kron(*ms[:-1]), ms[-1]), complex), np.asarray(out, complex), 0, 1e-13, "associativity")
    raises((ValueError, TypeError), lambda: L.kron(), "no factor")
    raises((ValueError, TypeError), lambda: L.direct_sum(), "no summand")
    ctx.label(f"{len(ms)} factors")
    ctx.trivial(len(ms) < 2)


@st.composite
def s_axes(draw):
    nd = draw(st.integers(1, 5))
    a = draw(st.integers(0, nd - 1))
    return {"sh": [draw(st.integers(1, 4)) for _ in range(nd)], "a": a, "n": draw(st.integers(1, nd - a)), "neg": draw(st.booleans()), "default": draw(st.integers(0, 3)) == 0, "v": draw(seed)}


def t_axes(c, ctx):
    x = rand(rng(c), tuple(c["sh"]), "real")
    sh, a, n = c["sh"], c["a"], c["n"]
    if c["default"]:
        if len(sh) < 2:
            raise Skip()
        a, n = len(sh) - 2, 2
        y = frozen([x], L.merge_axes, "merge_axes")
    else:
        y = frozen([x], lambda t: L.merge_axes(t, a - len(sh) if c["neg"] else a, n), "merge_axes")
    want = np.zeros(sh[:a] + [int(np.prod(sh[a:a + n]))] + sh[a + n:])
    for i in np.ndindex(*sh):
        f = 0
        for q in range(a, a + n):
            f = f * sh[q] + i[q]
        want[i[:a] + (f,) + i[a + n:]] = x[i]
    require(y.shape == want.shape and np.array_equal(y, want), lambda: f"merge_axes({sh}, {a}, {n}) has shape {y.shape}")
    raises((AssertionError, ValueError, IndexError), lambda: L.merge_axes(x, len(sh), 1), "axis out of range")
    raises((AssertionError, ValueError), lambda: L.merge_axes(x, 0, 0), "no axis")
    ctx.label(f"{len(sh)} axes")
    ctx.trivial(n < 2)


# ------------------------------------------------ random matrices
@st.composite
def s_rand(draw):
    return {"n": draw(gen.often(st.integers(1, 9), [33, 64])), "v": draw(seed)}


def t_rand(c, ctx):
    state = np.random.get_state()
    try:
        np.random.seed(int(c["v"], 16))
        n = c["n"]
        h, h2, u, u2 = L.random_hermitian(n), L.random_hermitian(n), L.random_unitary(n), L.random_unitary(n)
    finally:
        np.random.set_state(state)
    require(h.shape == (n, n) and np.array_equal(h, h.conj().T), "random_hermitian is not Hermitian")
    require(u.shape == (n, n), "shape")
    close(u @ u.conj().T, np.eye(n), 1e-12, 0, "random_unitary is not unitary")
    require(not np.array_equal(h, h2) and not (n > 1 and np.array_equal(u, u2)), "the matrices are not random")
    require(n == 1 or (np.abs(h.imag).max() > 0 and np.abs(u.imag).max() > 0), "the matrices are not complex")
    ctx.trivial(n < 2)


# ------------------------------------------------ generalised eigenvalue problem
@st.composite
def s_eig(draw):
    return {"n": draw(gen.often(st.integers(1, 6), [16, 40])), "b": draw(gen.often(st.sampled_from([None, 1, 2, 5]), [40])), "kH": draw(st.sampled_from(["complex", "complex", "real", "int"])), "kS": draw(st.sampled_from(["complex", "complex", "real", "int", "eye", "near", "mixed"])),
            "deg": draw(st.integers(0, 3)) == 0, "v": draw(seed), "m": draw(st.integers(1, 3))}


def eig_data(c):
    r = rng(c)
    n, b = c["n"], c["b"]
    B = () if b is None else (b,)
    H = rand(r, B + (n, n), c["kH"])
    H = H + np.conj(np.swapaxes(H, -1, -2))
    if c["deg"]:
        H = np.round(H.real / 3).astype(H.dtype) * 0 + np.eye(n, dtype=H.dtype) * 2
    k = c["kS"]
    if k == "eye":
        S = np.zeros(B + (n, n)) + np.eye(n)
    elif k == "int":
        S = rand(r, B + (n, n), "int")
        S = S @ np.swapaxes(S, -1, -2) + np.eye(n, dtype=int)
    else:
        S = rand(r, B + (n, n), "real" if k == "real" else "complex")
        S = S @ np.conj(np.swapaxes(S, -1, -2)) * (1e-6 if k == "near" else 0.3) / n + np.eye(n)
        if k == "mixed" and b:
            S[0] = np.eye(n)
    return H, S


def eig_ok(H, S, la, ev, what):
    n = H.shape[-1]
    require(la.shape == H.shape[:-1] and ev.shape == H.shape, lambda: f"{what}: shapes {la.shape}, {ev.shape}")
    require(np.isrealobj(la) and np.all(np.diff(la, axis=-1) >= 0), f"{what}: eigenvalues are not real and ascending")
    sc = 1 + np.abs(H).max() + np.abs(S).max()
    near = np.linalg.norm(S - np.eye(n))
    near = near if near < 1e-8 else 0.  # taken as orthogonal
    close(np.conj(np.swapaxes(ev, -1, -2)) @ S @ ev, np.zeros(H.shape) + np.eye(n), 1e-9 * sc + near, 0, f"{what}: eigenvectors are not S-orthonormal")
    R = H @ ev - S @ ev * la[..., None, :]
    close(R, np.zeros_like(R), (1e-9 * sc * sc + near) * (1 + np.abs(la).max()), 0, f"{what}: eigenvalue equation")


def t_eig(c, ctx):
    H, S = eig_data(c)
    la, ev = frozen([H, S], L.geigh, "geigh")
    eig_ok(H, S, np.asarray(la), np.asarray(ev), "geigh")
    lv = np.asarray(frozen([H, S], L.geigvalsh, "geigvalsh"))
    close(lv, np.asarray(la), 1e-8 * (1 + np.abs(la).max()), 1e-8, "geigvalsh and geigh")
    # independent of the basis: congruence with an invertible matrix keeps the eigenvalues
    r = rng(c)
    T = rand(r, (c["n"], c["n"]), "complex") * .3 / c["n"] + np.eye(c["n"])
    if np.linalg.cond(T) < 1e3:
        t = lambda M: T.conj().T @ M @ T
        herm = lambda M: (M + np.conj(np.swapaxes(M, -1, -2))) / 2
        close(L.geigvalsh(herm(t(H)), herm(t(S))), lv, 1e-7 * (1 + np.abs(lv).max()), 1e-7, "eigenvalues change under congruence")
    ctx.label("single" if c["b"] is None else "list", f"S {c['kS']}")
    ctx.trivial(c["n"] < 2)


# ------------------------------------------------ derivatives of eigenvalues
@st.composite
def s_grad(draw):
    return {"n": draw(gen.often(st.integers(1, 4), [9, 16], 20)), "b": draw(gen.often(st.integers(1, 3), [30], 20)), "m": draw(st.integers(1, 3)), "v": draw(seed), "kS": draw(st.sampled_from(["eye", "gen", "gen"]))}


def t_grad(c, ctx):
    r = rng(c)
    n, b, m = c["n"], c["b"], c["m"]
    hm = lambda M: (M + np.conj(np.swapaxes(M, -1, -2))) / 2
    H = hm(rand(r, (b, n, n), "complex")) + np.diag(np.arange(n) * 3.0)
    dH, ddH = hm(rand(r, (b, m, n, n), "complex")), hm(rand(r, (b, m, m, n, n), "complex"))
    ddH = (ddH + np.swapaxes(ddH, 1, 2)) / 2
    S = np.zeros((b, n, n)) + np.eye(n) + (0 if c["kS"] == "eye" else hm(rand(r, (b, n, n), "complex")) * .1 / n)
    dS = np.zeros((b, m, n, n)) if c["kS"] == "eye" else hm(rand(r, (b, m, n, n), "complex")) * .1 / n
    E = np.linalg.eigvalsh(H)
    if n > 1 and np.diff(E, axis=-1).min() < .2:
        raise Skip()

    def bands(x, S0=None, dS0=None):
        M = H + np.einsum("m,bmij->bij", x, dH) + (np.einsum("m,k,bmkij->bij", x, x, ddH) / 2 if S0 is None else 0)
        if S0 is None:
            return np.linalg.eigvalsh(M)
        return L.geigvalsh(M, S0 + np.einsum("m,bmij->bij", x, dS0))
    h = 1e-4
    I = np.eye(m) * h
    num = np.stack([(bands(I[i]) - bands(-I[i])) / (2 * h) for i in range(m)], axis=1)
    la, g, ev = frozen([H, dH], L.eigh_grad, "eigh_grad")
    close(la, E, 1e-10, 1e-10, "eigenvalues")
    eig_ok(H, np.zeros((b, n, n)) + np.eye(n), la, ev, "eigh_grad")
    close(g, num, 1e-4, 1e-4, "first derivatives of the eigenvalues")
    la, g2, hs = frozen([H, dH, ddH], L.eigh_grad_hess, "eigh_grad_hess")
    close(la, E, 1e-10, 1e-10, "eigenvalues with Hessian")
    close(g2, g, 1e-9, 1e-9, "first derivatives with Hessian")
    h = 1e-3
    I = np.eye(m) * h
    nh = np.zeros((b, m, m, n))
    for i in range(m):
        for j in range(m):
            nh[:, i, j] = (bands(I[i] + I[j]) - bands(I[i] - I[j]) - bands(I[j] - I[i]) + bands(-I[i] - I[j])) / (4 * h * h)
    gap = 1.0 if n < 2 else np.diff(E, axis=-1).min()
    close(hs, nh, 1e-3 + 3e-5 / gap ** 3, 1e-3, "second derivatives of the eigenvalues")
    h = 1e-4
    I = np.eye(m) * h
    la, g3, ev = frozen([H, S, dH, dS], L.geigh_grad, "geigh_grad")
    eig_ok(H, S, la, ev, "geigh_grad")
    num = np.stack([(bands(I[i], S, dS) - bands(-I[i], S, dS)) / (2 * h) for i in range(m)], axis=1)
    if n < 2 or np.diff(la, axis=-1).min() > .1:
        close(g3, num, 2e-4, 2e-4, "first derivatives with overlap")
    ctx.label("overlap" if c["kS"] != "eye" else "orthogonal")
    ctx.trivial(n < 2)


# degenerate bands: the sum over a degenerate set is still differentiable
@st.composite
def s_deg(draw):
    return {"n": draw(st.integers(2, 4)), "k": draw(st.integers(2, 4)), "m": draw(st.integers(1, 3)), "b": draw(st.integers(1, 3)), "v": draw(seed), "dd": draw(st.booleans()), "scale": draw(st.sampled_from([1., 1., 1e-2]))}


def t_deg(c, ctx):
    r = rng(c)
    n, m, b = c["n"], c["m"], c["b"]
    k = min(c["k"], n)
    hm = lambda M: (M + np.conj(np.swapaxes(M, -1, -2))) / 2
    U = np.linalg.qr(rand(r, (b, n, n), "complex") + 5 * np.eye(n))[0]
    E = np.concatenate([np.zeros(k), 3.0 + 2 * np.arange(n - k)])
    H = hm(U * E @ np.conj(np.swapaxes(U, -1, -2)))
    dH = hm(rand(r, (b, m, n, n), "complex"))
    la, g, ev = frozen([H, dH], L.eigh_grad, "eigh_grad")
    eig_ok(H, np.zeros((b, n, n)) + np.eye(n), la, ev, "eigh_grad")
    h = 1e-4
    I = np.eye(m) * h
    f = lambda x: np.linalg.eigvalsh(H + np.einsum("m,bmij->bij", x, dH))
    num = np.stack([(f(I[i]) - f(-I[i])) / (2 * h) for i in range(m)], axis=1)
    close(g[..., :k].sum(-1), num[..., :k].sum(-1), 1e-4, 1e-4, "derivative of the sum of the degenerate set")
    close(g[..., k:], num[..., k:], 1e-4, 1e-4, "derivatives of the other bands")
    # second derivatives
    dH = dH * c["scale"]
    ddH = hm(rand(r, (b, m, m, n, n), "complex"))
    ddH = (ddH + np.swapaxes(ddH, 1, 2)) / 2 * (c["scale"] ** 2 if c["dd"] else 0)
    la, g, hs = frozen([H, dH, ddH], L.eigh_grad_hess, "eigh_grad_hess")
    close(la, np.zeros((b, n)) + E, 1e-10, 0, "eigenvalues")
    h = 1e-3 / c["scale"]
    I = np.eye(m) * h
    f = lambda x: np.linalg.eigvalsh(H + np.einsum("m,bmij->bij", x, dH) + np.einsum("m,k,bmkij->bij", x, x, ddH) / 2)
    tol = 2e-3 * c["scale"] ** 2
    for p in range(m):
        up, dn = f(I[p]), f(-I[p])
        s1, s2 = (up - dn) / (2 * h), (up + dn - 2 * E) / (h * h)
        close(g[:, p, k:], s1[:, k:], 2e-3 * c["scale"], 0, "derivatives of the other bands with Hessian")
        close(g[:, p, :k].sum(-1), s1[:, :k].sum(-1), 2e-3 * c["scale"], 0, "derivative of the sum of the degenerate set with Hessian")
        close(hs[:, p, p, :k].sum(-1), s2[:, :k].sum(-1), tol, 0, "second derivative of the sum of the degenerate set")
        for q in range(m):
            num = (f(I[p] + I[q]) - f(I[p] - I[q]) - f(I[q] - I[p]) + f(-I[p] - I[q])) / (4 * h * h)
            close(hs[:, p, q, k:], num[:, k:], tol, 0, "second derivatives of the bands outside of the degenerate set")
        # the smooth branches of the degenerate set in this direction, which are ordered by their slope
        dn = dn[:, k - 1::-1] if k < n else dn[:, ::-1]
        b1, b2 = (up[:, :k] - dn) / (2 * h), (up[:, :k] + dn - 2 * E[:k]) / (h * h)
        if c["dd"]:
            continue
        for i in range(b):
            if k > 1 and np.diff(b1[i]).min() < .3 * c["scale"]:
                continue  # the slopes are nearly equal
            o = np.argsort(g[i, p, :k])
            close(g[i, p, o], b1[i], 2e-3 * c["scale"], 0, "slopes of the branches of a degenerate set")
            close(hs[i, p, p, o], b2[i], 10 * tol, 0, "curvatures of the branches of a degenerate set")
            ctx.label("branches")
    ctx.label(f"{k} of {n} degenerate")


# ------------------------------------------------ conjugate gradients
@st.composite
def s_cg(draw):
    return {"sh": draw(st.sampled_from([[1], [2], [3], [5], [12], [2, 3], [4, 2, 2], [12, 2], [40], [5, 4, 3]])), "k": draw(st.sampled_from(["real", "real", "complex"])), "cond": draw(st.sampled_from([1, 3, 30, 1000])), "v": draw(seed),
            "x0": draw(st.sampled_from([None, None, "zero", "rand", "exact"])), "err": draw(st.sampled_from([None, 1e-6, 1e-3, 1e-11])), "b": draw(st.sampled_from(["rand", "rand", "zero", "eig", "sparse"])), "s": draw(st.sampled_from([1.0, 1e-3, 50.])), "max": draw(st.integers(0, 5)),
            "op": draw(st.sampled_from(["matrix", "matrix", "identity", "buffer"]))}


def t_cg(c, ctx):
    r = rng(c)
    n = int(np.prod(c["sh"]))
    M = rand(r, (n, n), c["k"]) + np.eye(n) * 4
    Q = np.linalg.qr(M)[0]
    ev = np.geomspace(1, c["cond"], n) * c["s"]
    A = Q * ev @ Q.conj().T
    A = (A + A.conj().T) / 2
    if c["op"] == "identity":
        A = np.eye(n)
    sh = tuple(c["sh"])
    x = rand(r, (n,), c["k"])
    if c["b"] == "eig":
        x = Q[:, 0] * 2
    elif c["b"] == "zero":
        x = x * 0
    elif c["b"] == "sparse":
        x = np.where(np.arange(n) % 3 == 0, x, 0)
    b = (A @ x).reshape(sh)
    buf = np.zeros(sh, dtype=b.dtype)
    calls = [0]

    def op(v):
        calls[0] += 1
        require(np.shape(v) == sh, "the operator gets a vector of another shape")
        if c["op"] == "identity":
            return v
        y = (A @ v.reshape(-1)).reshape(sh)
        if c["op"] == "buffer":  # an operator that always returns the same array
            buf[...] = y
            return buf
        return y
    kw = {}
    if c["err"] is not None:
        kw["err"] = c["err"]
    if c["x0"] is not None:
        kw["x0"] = {"zero": np.zeros(sh, b.dtype), "rand": rand(r, sh, c["k"]).astype(b.dtype), "exact": x.reshape(sh).astype(b.dtype)}[c["x0"]]
    x00 = kw["x0"].copy() if "x0" in kw else None
    b0 = b.copy()
    y = L.conjugate_gradient_solve(op, b, **kw)
    require(np.array_equal(b, b0) and (x00 is None or np.array_equal(kw["x0"], x00)), "conjugate_gradient_solve modified its arguments")
    require(np.shape(y) == sh, lambda: f"shape {np.shape(y)}")
    err = kw.get("err", 1e-9)
    res = np.linalg.norm(A @ y.reshape(-1) - b.reshape(-1))
    lim = 10 * err + 1e-11 * (1 + np.linalg.norm(b)) * c["cond"]
    require(res <= lim, lambda: f"residual {res:.2e} with err={err} (condition {c['cond']}, n={n}, x0 {c['x0']})")
    # limited number of iterations: at most that many operator calls, never worse than the start in the energy norm
    calls[0] = 0
    z = L.conjugate_gradient_solve(op, b, max_i=c["max"], **kw)
    require(calls[0] <= c["max"] + (1 if "x0" in kw else 0), lambda: f"{calls[0]} operator calls with max_i={c['max']}")
    d = z.reshape(-1) - x
    s = (np.zeros(n) if x00 is None else x00.reshape(-1)) - x
    en = lambda v: np.real(np.vdot(v, A @ v))
    require(en(d) <= en(s) * (1 + 1e-9) + 1e-9, lambda: f"max_i={c['max']}: energy norm grew from {en(s)} to {en(d)}")
    if c["max"] >= 1 and en(s) > 1e-6 * (1 + en(x)) and np.linalg.norm(A @ (s + x) - b.reshape(-1)) > err:
        require(en(d) < en(s), "no progress")
    ctx.label(c["op"], f"cond {c['cond']}", f"x0 {c['x0']}")
    ctx.trivial(n < 2 or c["b"] == "zero")


# ------------------------------------------------ point clouds
@st.composite
def s_cloud(draw):
    return {"n": draw(gen.often(st.integers(1, 8), [20, 25, 100])), "sh": draw(st.sampled_from([[1], [2], [3], [2, 2]])), "v": draw(seed), "k": draw(st.sampled_from(["perm", "shift", "dup", "one"])), "s": draw(st.sampled_from([1., 1., 2. ** -10, 2. ** -24, 2. ** 12]))}


def t_cloud(c, ctx):
    r = rng(c)
    n = c["n"]
    P = np.array(list(np.ndindex(*[5] * min(3, int(np.prod(c["sh"]))))), float)
    if len(P[0]) < np.prod(c["sh"]):
        P = np.concatenate([P, P[:, :1] * 2], axis=1)
    if n > len(P):
        raise Skip()
    sc = c["s"]
    P = P[r.permutation(len(P))[:n]].reshape([n] + c["sh"]) * sc
    p = r.permutation(n)
    D = lambda a, b: float(frozen([a, b], L.pointcloud_distance, "pointcloud_distance"))
    if c["k"] == "perm":
        require(D(P, P[p]) == 0, "permuted points have a distance")
        require(D(P, P[p] + 1e-3 * sc) > 1e-4 * sc, "shifted points have no distance")
    elif c["k"] == "shift":
        d = (r.rand(*P.shape) - .5) * .1 * sc
        want = np.linalg.norm(d.reshape(n, -1), axis=1).sum()
        close(D(P, (P + d)[p]), want, 1e-9 * sc, 1e-9, "sum of the distances of matching points")
        close(D((P + d)[p], P), want, 1e-9 * sc, 1e-9, "symmetric for well separated points")
    elif n > 1:
        Q = P.copy()
        Q[0] = Q[1]  # a point twice, another one missing
        w = float(np.linalg.norm(P[0] - P[1]))
        require(D(Q, P) > .5 * sc and D(P, Q) > .5 * sc, lambda: f"clouds with different multiplicities have distance {D(Q, P)}, {D(P, Q)}")
    ctx.label(c["k"])
    ctx.trivial(n < 2)


# ------------------------------------------------ lattice points
@st.composite
def s_lat(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3, 3]))
    return {"dim": dim, "v": draw(seed), "k": draw(st.sampled_from(["generic", "cubic", "fcc", "bcc", "hex", "sheared", "sheared", "flat"])), "R": draw(st.integers(1, 64)) / 16, "u": draw(gen.i8(dim * dim)), "left": draw(st.booleans()), "list": draw(st.booleans())}


def t_lat(c, ctx):
    r = rng(c)
    dim = c["dim"]
    k = c["k"]
    A = np.eye(dim)
    if k == "generic":
        A = np.eye(dim) + rand(r, (dim, dim), "real") * .2
    elif k in ("fcc", "bcc") and dim == 3:
        A = (np.ones((3, 3)) - np.eye(3)) / 2 if k == "fcc" else (np.ones((3, 3)) - 2 * np.eye(3)) / 2
    elif k == "hex" and dim > 1:
        A[0, 1], A[1, 1] = -.5, 3**.5 / 2
    elif k == "flat":
        A = np.diag(np.array([1.0, 1.5, .4])[:dim])
    if abs(np.linalg.det(A)) < .15:
        raise Skip()
    base = A.copy()
    if k == "sheared":  # another basis of the same lattice
        T = np.eye(dim)
        for i in range(3):
            a, b = r.randint(dim), r.randint(dim)
            if a != b:
                E = np.eye(dim)
                E[a, b] = r.randint(-3, 4)
                T = T @ E
        A = A @ T
    if c["left"]:
        A = A[:, ::-1]
    R = c["R"]
    P = np.asarray(frozen([A], lambda a: L.lattice_in_sphere(a.tolist() if c["list"] else a, R), "lattice_in_sphere"))
    require(P.ndim == 2 and P.shape[1] == dim, lambda: f"shape {P.shape}")
    n = np.linalg.solve(base, P.T).T
    require(np.max(np.abs(n - np.round(n)), initial=0) < 1e-7, "a listed point is no lattice point")
    got = [tuple(int(v) for v in x) for x in np.round(n)]
    require(len(set(got)) == len(got), "a lattice point is listed twice")
    m = int(R / np.linalg.svd(base)[1].min()) + 1
    box = np.array(list(itertools.product(range(-m, m + 1), repeat=dim)))
    d = np.linalg.norm(box @ base.T, axis=1)
    must = {tuple(x) for x in box[d < R - 1e-9].tolist()}
    may = {tuple(x) for x in box[d < R + 1e-9].tolist()}
    require(must <= set(got), lambda: f"{len(must - set(got))} of {len(must)} lattice points inside of radius {R} are missing, e.g. {sorted(must - set(got))[:3]}")
    require(set(got) <= may, lambda: f"points outside of radius {R}")
    ctx.label(k, f"{dim}D")
    ctx.trivial(len(must) < 2)


SUBS = [Sub("direct_sum", s_sum(), t_sum, 3200, 32000),
        Sub("kron", s_sum(True), t_kron, 1600, 16000),
        Sub("merge_axes", s_axes(), t_axes, 2000, 20000),
        Sub("random", s_rand(), t_rand, 800, 8000),
        Sub("geigh", s_eig(), t_eig, 3200, 40000, shards=2),
        Sub("derivatives", s_grad(), t_grad, 2000, 24000, shards=2),
        Sub("degenerate", s_deg(), t_deg, 1200, 12000),
        Sub("conjugate_gradient", s_cg(), t_cg, 4800, 60000, shards=2),
        Sub("pointcloud", s_cloud(), t_cloud, 1600, 16000),
        Sub("lattice", s_lat(), t_lat, 2400, 24000, shards=2)]
