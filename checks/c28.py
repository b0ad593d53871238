"""C28: Quantum Espresso lattices and generated input text describe the requested crystal."""
import os, re
import numpy as np
from hypothesis import strategies as st
import gen
import qefiles as qf
from core import Sub, close, require, raises
from tight_binding_redweasel import kpaths as kp, qespresso_interface as qe

RULE = "the cell is not cubic, or it has more than one atom, or the requested settings differ from the defaults"
ASSUMPTIONS = ["nothing is executed: every command is replaced by a recorder", "scripts are judged by the settings they contain, not by their layout",
               "the documented orientation (a along x, c along z for orthogonal cells) is part of the lattice constructors"]
I = np.eye(3)
E3 = [(0, 0, 0)]
BASE, BODY, FACE = E3 + [(.5, .5, 0)], E3 + [(.5, .5, .5)], E3 + [(.5, .5, 0), (.5, 0, .5), (0, .5, .5)]


def conv(a, b, c, al=np.pi / 2, be=np.pi / 2, ga=np.pi / 2):
    """conventional cell with a along x and b in the xy plane"""
    ca, cb, cg, sg = np.cos(al), np.cos(be), np.cos(ga), np.sin(ga)
    v = (ca - cb * cg) / sg
    return np.array([[a, 0, 0], [b * cg, b * sg, 0], [c * cb, c * v, c * max(1 - cb * cb - v * v, 0) ** .5]]).T


# name: (parameters, conventional cell, centring, lattice fixed up to a rotation only)
LAT = {
    "sc": ("a", lambda a: conv(a, a, a), E3, 0), "fcc": ("a", lambda a: conv(a, a, a), FACE, 0), "bcc": ("a", lambda a: conv(a, a, a), BODY, 0),
    "hexagonal": ("ac", lambda a, c: conv(a, a, c, ga=2 * np.pi / 3), E3, 0),
    "triclinic": ("abcxyz", conv, E3, 0),
    "monoclinic": ("abcy", lambda a, b, c, be: conv(a, b, c, be=be), E3, 0),
    "monoclinic_base_centered": ("abcy", lambda a, b, c, be: conv(a, b, c, be=be), BASE, 0),
    "orthorhombic": ("abc", conv, E3, 0), "orthorhombic_base_centered": ("abc", conv, BASE, 0),
    "orthorhombic_body_centered": ("abc", conv, BODY, 0), "orthorhombic_face_centered": ("abc", conv, FACE, 0),
    "tetragonal": ("ac", lambda a, c: conv(a, a, c), E3, 0), "tetragonal_body_centered": ("ac", lambda a, c: conv(a, a, c), BODY, 0),
    "rhombohedral": ("ar", lambda a, al: conv(a, a, a, al, al, al), E3, 1),
}
CHECKED = [k for k in LAT if k not in ("sc", "fcc", "bcc", "hexagonal")]


@st.composite
def s_lat(draw):
    name = draw(st.sampled_from(list(LAT)))
    v = draw(gen.i8(6))
    par = []
    for ch in LAT[name][0]:
        x = v[len(par)]
        if ch in "abc":
            par.append(0.5 + (x + 128) / 16)
        elif ch == "r":
            par.append((x + 128.5) / 256 * 2 * np.pi / 3)
        else:
            par.append((x + 128.5) / 256 * np.pi)
    if name == "triclinic" and draw(st.integers(0, 1)):
        par[3:] = [np.pi / 2 + v[i] / 128 * 0.6 for i in (3, 4, 5)]
    bad = None
    if name in CHECKED and draw(st.integers(0, 2)) == 0:
        bad = draw(st.integers(0, len(par) - 1))
        par[bad] = draw(st.sampled_from([0.0, -1.0, -par[bad]])) if LAT[name][0][bad] in "abc" else draw(st.sampled_from([0.0, -0.3, np.pi, 4.0]))
    return {"name": name, "p": par, "bad": bad, "int": draw(st.integers(0, 4)) == 0, "np": draw(st.booleans())}


def valid(name, p):
    """+1 possible, -1 impossible, 0 too close to call"""
    for ch, x in zip(LAT[name][0], p):
        if ch in "abc" and not x > 0 or ch in "xyzr" and not 0 < x < np.pi:
            return -1
        if ch == "r" and abs(x - 2 * np.pi / 3) < 1e-6:
            return 0
    if name == "rhombohedral":
        return 1 if p[1] < 2 * np.pi / 3 else -1
    if name == "triclinic":
        a, b, c = np.cos(p[3:])
        g = 1 - a * a - b * b - c * c + 2 * a * b * c
        return 0 if abs(g) < 1e-6 else int(np.sign(g))
    return 1


def f_lattice(c, ctx):
    name, p = c["name"], list(c["p"])
    if c["int"] and c["bad"] is None:
        p = [int(x) + 1 if ch in "abc" else x for ch, x in zip(LAT[name][0], p)]
    elif c["np"]:
        p = [np.float64(x) for x in p]
    v = valid(name, p)
    ctx.label(name, {1: "possible", -1: "impossible", 0: "borderline"}[v])
    ctx.trivial(name in ("sc", "fcc", "bcc") and v > 0)
    f = getattr(qe, name)
    if v == 0:
        ctx.trivial()
        return
    if v < 0:
        raises(AssertionError, lambda: f(*p), f"{name}{tuple(p)} does not exist")
        return
    A = np.asarray(f(*p))
    require(A.shape == (3, 3) and np.issubdtype(A.dtype, np.floating), f"{name} returns {A.shape} {A.dtype}")
    C = LAT[name][1](*[float(x) for x in p])
    tol = 1e-9 * (1 + np.abs(C).max()) ** 2
    cen = np.array(LAT[name][2])
    if LAT[name][3]:
        close(A.T @ A, C.T @ C, tol, 1e-9, f"metric of {name}{tuple(p)}")
        # the crystal stands upright: threefold axis along z
        w = A.sum(axis=1)
        require(abs(w[0]) < 1e-9 * (1 + abs(p[0])) and abs(w[1]) < 1e-9 * (1 + abs(p[0])), f"{name}: threefold axis {w} is not z")
        return
    close(abs(np.linalg.det(A)) * len(cen), abs(np.linalg.det(C)), tol, 1e-8, f"volume of {name}{tuple(p)} ({len(cen)} points per conventional cell)")
    if name == "triclinic":
        close(A.T @ A, C.T @ C, tol, 1e-9, "metric (lengths and angles) of the triclinic cell")
    n = np.linalg.inv(A) @ np.concatenate([C, C @ cen.T], axis=1)
    e = np.linalg.norm(A @ (n - np.round(n)), axis=0)
    require(e.max() < 1e-6 * (1 + np.abs(C).max()), lambda: f"{name}{tuple(p)}: conventional axes and centring {cen.tolist()} are {n.T.round(4).tolist()} in units of the returned columns")


# ----- crystals -----

NAMES = ["cu", "Si", "Al2O3", "fe_2", "a-b"]


@st.composite
def s_cry(draw):
    n = draw(st.integers(1, 4))
    return {"v": draw(gen.i8(9 + 3 * n)), "ty": [draw(gen.i8(1))[0] % len(qf.ELEMENTS) for _ in range(draw(st.sampled_from([1, 2, 2])))], "n": n, "cell": draw(st.sampled_from(["gen", "gen", "sc", "fcc"])),
            "unit": draw(st.sampled_from(["angstrom", "angstrom", "bohr"])), "name": draw(st.sampled_from(NAMES)), "soc": draw(st.integers(0, 2)) == 0,
            "T": draw(st.sampled_from([0.0, 0.0, 300.0, 77.5, 4000])), "ecut": draw(st.sampled_from([None, 45.0, 30, 91.5])), "upf": [draw(st.integers(10, 120)) / 2 for _ in range(2)], "order": draw(st.booleans())}


def crystal(c, spectral=None):
    """(QECrystal, A, positions, types); call inside the sandbox"""
    r = np.array(c["v"], float)
    A = {"sc": qe.sc(4.05), "fcc": qe.fcc(3.6), "gen": (np.eye(3) * 4 + r[:9].reshape(3, 3) / 80)}[c["cell"]]
    pos = (r[9:].reshape(-1, 3)[:c["n"]] / 256) % 1.0
    if c["cell"] != "gen":
        pos[0] = 0
    els = [qf.ELEMENTS[i] for i in c["ty"]]
    types = [els[i % len(els)] for i in range(c["n"])]
    if c["order"]:
        types = types[::-1]
    pp = {t: f"{t}.gen-{i}_psl.1.0.0.UPF" for i, t in enumerate(dict.fromkeys(els))}
    for i, (t, f) in enumerate(pp.items()):
        qf.put(f"pseudo/{f}", qf.upf(4 + i, c["upf"][i], 300))
    qe.qe_prepare(dict(pp))
    kw = {} if c["ecut"] is None else {"kinetic_energy_cutoff": c["ecut"]}
    arg = [A.copy(), pos.tolist(), list(types)]
    m = qe.QECrystal(c["name"], arg[0], arg[1], arg[2], unit=c["unit"], relativistic=c["soc"], **kw)
    m.T = c["T"]
    ec = c["ecut"] if c["ecut"] is not None else max(c["upf"][list(pp).index(t)] for t in types)
    return m, A, pos, types, pp, ec, arg


def f_density(c, ctx):
    with qf.sandbox(ctx.tmp) as (calls, _):
        m, A, pos, types, pp, ec, arg = crystal(c)
        if c["cell"] == "sc" and c["order"]:  # integer lattice vectors
            A = np.eye(3, dtype=int) * 4
            m = qe.QECrystal(c["name"], A.copy(), pos.tolist(), list(types), 40.0, unit=c["unit"])
        ctx.trivial(len(types) == 1)
        ctx.label(c["unit"], f"{len(set(types))} species")
        close(m.kinetic_energy_cutoff if not (c["cell"] == "sc" and c["order"]) else ec, ec, 1e-9, 1e-9, "cut-off of the wavefunctions (largest one suggested by the pseudopotentials unless given)")
        mass = sum(qf.WEIGHTS[t] for t in types) * 1.66053907e-27
        u = 1e-10 if c["unit"] == "angstrom" else 5.29177210903e-11
        close(np.asarray(m.lattice_vectors_in_m()), A * u, 0, 1e-6, "lattice vectors in metres")
        rho = mass / (abs(np.linalg.det(A)) * u ** 3)
        close(m.mass_density(), rho, 0, max(qf.MASS_TOL[t] for t in types), f"mass density of {types}")
        for t in set(types):  # every single weight
            s = qe.QECrystal("x", np.eye(3), [(0, 0, 0)], [t], 1.0)
            close(s.mass_density() * 1e-30, qf.WEIGHTS[t] * 1.66053907e-27, 0, qf.MASS_TOL[t], f"mass of one {t} atom")
        ratios = [qe.QECrystal("x", np.eye(3), [(0, 0, 0)] * k, [types[0]] * k, 1.0).mass_density() for k in (1, 3)]
        close(ratios[1] / ratios[0], 3.0, 0, 1e-9, "mass density is additive in the atoms")
        sep = sum(qe.QECrystal("x", A, [(0, 0, 0)], [t], 1.0, unit=c["unit"]).mass_density() for t in types)
        close(m.mass_density(), sep, 0, 1e-9, "mass density is the sum over the atoms")
        m.scf(1)  # the masses that the calculation uses
        with open(f"{c['name']}.scf.in") as f:
            sp = qf.parse_cards(qf.parse_input(f.read())[1])["ATOMIC_SPECIES"][1]
        w = {x.split()[0]: float(x.split()[1]) for x in sp}
        close(m.mass_density(), rho * sum(w[t] for t in types) / sum(qf.WEIGHTS[t] for t in types), 0, 2e-6, "mass density does not match the atomic masses")
        target = [1000.0, rho, 3.25 * rho, 21450][c["n"] - 1]
        keep, mine = arg[0].copy(), A.copy()
        other = qe.QECrystal("y", arg[0], pos.tolist(), list(types), 1.0, unit=c["unit"])
        before = np.array(other.A)
        m.scale_to_density(target)
        close(m.mass_density(), target, 0, 1e-9, "mass density after scale_to_density")
        f = (np.linalg.det(m.A) / np.linalg.det(A)) ** (1 / 3)
        close(np.asarray(m.A), A * f, 1e-9, 1e-9, "scale_to_density is not a uniform scaling")
        require(np.array_equal(arg[0], keep) and np.array_equal(np.asarray(other.A), before), "scale_to_density changed the lattice vectors of the caller")
        close(np.asarray(m.basis), pos, 1e-12, 0, "positions after scale_to_density")
        m.scale_to_density(target)
        close(np.asarray(m.A), A * f, 1e-9, 1e-9, "scaling to the same density twice")


# ----- k-points -----

UNITS = ["tpiba", "crystal", "tpiba_b", "crystal_b", "tpiba_c", "crystal_c"]


@st.composite
def s_k(draw):
    return {"n": draw(st.integers(0, 6)), "v": draw(gen.i8(18)), "unit": draw(st.sampled_from(UNITS)), "as": draw(st.sampled_from(["list", "array", "tuples"])), "g": [draw(st.integers(1, 40)) for _ in range(3)], "ng": draw(st.integers(1, 3)),
            "div": draw(st.sampled_from([3, 64, 7e5]))}


def kpts_of(c):
    k = np.array(c["v"], float).reshape(6, 3)[:c["n"]] / c["div"]
    return k, {"list": k.tolist(), "array": k, "tuples": [tuple(x) for x in k]}[c["as"]]


def want_points(lines, opt, k, unit, what):
    require(opt == unit, f"{what}: unit {opt!r} instead of {unit!r}")
    require(int(lines[0]) == len(k) and len(lines) == len(k) + 1, f"{what}: {len(lines) - 1} points, announced {lines[0]}, requested {len(k)}")
    got = np.array([[float(x) for x in s.split()] for s in lines[1:]]).reshape(-1, 4)
    close(got[:, :3], k.reshape(-1, 3), 0, 1e-9, f"{what}: k-points")
    require(len(set(got[:, 3])) <= 1 and np.all(got[:, 3] > 0), f"{what}: weights {got[:, 3]}")


def f_kpoints(c, ctx):
    k, obj = kpts_of(c)
    ctx.trivial(c["n"] < 2)
    ctx.label(c["unit"])
    cards = qf.parse_cards([s for s in qe.k_points(obj, c["unit"]).split("\n") if s.strip()])
    require(list(cards) == ["K_POINTS"], "one k-point card")
    want_points(cards["K_POINTS"][1], cards["K_POINTS"][0], k, c["unit"], "k_points")
    g = c["g"][:c["ng"]]
    cards = qf.parse_cards([s for s in qe.k_grid(*g).split("\n") if s.strip()])
    want_grid(cards, g)


def want_grid(cards, g):
    opt, lines = cards["K_POINTS"]
    full = [g[0], g[1] if len(g) > 1 and g[1] is not None else g[0], g[2] if len(g) > 2 and g[2] is not None else g[0]]
    require(opt == "automatic" and len(lines) == 1 and [int(x) for x in lines[0].split()] == full + [0, 0, 0], f"grid {g} is written as {opt} {lines}")


# ----- input of pw.x -----

@st.composite
def s_input(draw):
    return {"c": draw(s_cry()), "k": draw(s_k()), "run": draw(st.sampled_from(["scf", "scf", "relax", "bands", "nscf", "nscf_nosym", "nscf", "bands"])), "nb": draw(st.integers(1, 60)), "fix": draw(st.booleans()),
            "path": draw(st.integers(0, 2)), "nk": [draw(st.integers(1, 8)) for _ in range(4)], "again": draw(st.booleans())}


FILES = {"scf": "scf", "relax": "relax", "bands": "band", "nscf": "nscf", "nscf_nosym": "nscf"}
CALC = {"scf": "scf", "relax": "vc-relax", "bands": "bands", "nscf": "nscf", "nscf_nosym": "nscf"}


def want_crystal(cards, A, unit, pos, types, pp):
    opt, lines = cards["CELL_PARAMETERS"]
    require(opt == unit, f"unit of the cell {opt!r} instead of {unit!r}")
    close(np.array([[float(x) for x in s.split()] for s in lines]), A.T, 0, 1e-9, "rows of CELL_PARAMETERS are the lattice vectors")
    _, lines = cards["ATOMIC_SPECIES"]
    sp = {s.split()[0]: s.split()[1:] for s in lines}
    require(len(sp) == len(lines) and set(sp) == set(types), f"species {sorted(sp)} instead of {sorted(set(types))}")
    for t, (mass, f) in sp.items():
        require(abs(float(mass) / qf.WEIGHTS[t] - 1) < qf.MASS_TOL[t] and f == pp[t], f"species {t}: {mass} {f} instead of {qf.WEIGHTS[t]} {pp[t]}")
    opt, lines = cards["ATOMIC_POSITIONS"]
    require(opt == "crystal", f"unit of the positions {opt!r}")
    require([s.split()[0] for s in lines] == list(types), f"atoms {[s.split()[0] for s in lines]} instead of {list(types)}")
    close(np.array([[float(x) for x in s.split()[1:]] for s in lines]), pos, 1e-12, 1e-9, "ATOMIC_POSITIONS")


def f_input(c, ctx):
    run = c["run"]
    with qf.sandbox(ctx.tmp) as (calls, _):
        m, A, pos, types, pp, ec, arg = crystal(c["c"])
        m.set_multitasking_parameters(*c["nk"])
        ctx.label(run, "relativistic" if c["c"]["soc"] else "scalar", "warm" if c["c"]["T"] else "cold")
        g = c["k"]["g"][:c["k"]["ng"]]
        k, obj = kpts_of(c["k"])
        if run == "scf":
            m.scf(*g)
        elif run == "relax":
            g = g[:1]
            m.relax(g[0], c["fix"]) if c["again"] else m.relax(relax_k_grid_size=g[0], fix_volume=c["fix"])
        else:
            if c["path"] == 0:
                ks = qe.k_grid(*g)
            elif c["path"] == 1:
                ks = qe.k_points(obj, c["k"]["unit"])
            else:
                ks = kp.KPath("G").to("X", N=4).to("L", N=3)
            m.bands(c["nb"], ks) if run == "bands" else getattr(m, run)(ks, c["nb"])
        name = f"{c['c']['name']}.{FILES[run]}.in"
        with open(name) as f:
            lists, rest = qf.parse_input(f.read())
        require(any(name in s and re.search(r"\bpw(\.x)?\b", s) for s in calls), lambda: f"{name} is not passed to pw.x: {calls}")
        cmd = [s for s in calls if name in s][-1]
        for flag, n in zip(("nk", "nd", "nt"), (c["nk"][0], c["nk"][1], c["nk"][3])):
            mt = re.search(rf"-{flag}\s+(\d+)", cmd)
            require(mt is None or int(mt.group(1)) == n, f"-{flag} of {cmd!r} instead of {n}")
    con, sy = lists["control"], lists["system"]
    want = {"calculation": CALC[run], "prefix": c["c"]["name"]}
    for key, v in want.items():
        require(con.get(key) == v, f"{key} is {con.get(key)!r} instead of {v!r}")
    for key, v in (("outdir", "qe-data"), ("pseudo_dir", "pseudo")):
        require(os.path.normpath(con.get(key, "")) == v, f"{key} is {con.get(key)!r}")
    want = {"ibrav": 0, "nat": len(types), "ntyp": len(set(types)), "ecutwfc": ec}
    if run in ("bands", "nscf", "nscf_nosym"):
        want["nbnd"] = c["nb"]
    for key, v in want.items():
        require(isinstance(sy.get(key), float) and abs(sy[key] - v) <= 1e-9 * abs(v), f"{key} is {sy.get(key)!r} instead of {v!r}")
    for key in ("lspinorb", "noncolin"):
        require(bool(sy.get(key, False)) == c["c"]["soc"], f"{key} is {sy.get(key)!r} for relativistic={c['c']['soc']}")
    for key in ("nosym", "noinv"):
        require(bool(sy.get(key, False)) == (run == "nscf_nosym"), f"{key} is {sy.get(key)!r} for {run}")
    if run != "bands":
        T = c["c"]["T"]
        require(sy.get("occupations") == "smearing", f"occupations {sy.get('occupations')!r}")
        if T:
            require(sy.get("smearing") == "fermi-dirac", f"smearing {sy.get('smearing')!r} at {T} K")
            close(sy["degauss"], T * qf.KB_RY, 0, 1e-5, f"degauss at {T} K")
        else:
            require(sy.get("smearing") == "marzari-vanderbilt", f"smearing {sy.get('smearing')!r} at 0 K")
            close(sy["degauss"], 0.02, 0, 1e-9, "degauss at 0 K")
    if run == "relax":
        require(("shape" in lists["cell"].get("cell_dofree", "")) == c["fix"], f"cell_dofree {lists['cell'].get('cell_dofree')!r} for fix_volume={c['fix']}")
    cards = qf.parse_cards(rest)
    want_crystal(cards, A, c["c"]["unit"], pos, types, pp)
    if run in ("scf", "relax") or c["path"] == 0:
        want_grid(cards, g)
    elif c["path"] == 1:
        want_points(cards["K_POINTS"][1], cards["K_POINTS"][0], k, c["k"]["unit"], run)
    else:
        want = qf.parse_cards([s for s in str(ks).split("\n") if s.strip()])
        require(cards["K_POINTS"] == want["K_POINTS"], lambda: f"path {want} is written as {cards['K_POINTS']}")
        require(int(cards["K_POINTS"][1][0]) == len(cards["K_POINTS"][1]) - 1 == len(ks), "number of points on the path")


# ----- other programs -----

@st.composite
def s_tools(draw):
    return {"c": draw(s_cry()), "nw": draw(st.integers(2, 900)), "ov": draw(st.booleans()), "sym": draw(st.booleans()), "N": draw(st.integers(1, 3)), "win": [draw(st.integers(-20, 20)) / 4 for _ in range(4)],
            "nb": draw(st.integers(1, 5)), "nw2": draw(st.sampled_from([None, 1, 2])), "given": draw(st.booleans()), "tb": draw(st.booleans()), "fun": draw(st.booleans()), "ssym": draw(st.booleans()), "ex": draw(st.sampled_from([None, "1-4"])),
            "proj": draw(st.sampled_from(["random", "Cu:d", "Si:sp3"])), "it": [draw(st.integers(0, 300)) for _ in range(2)], "bn": draw(st.sampled_from([None, 7, 50]))}


def write_save(m, A, c):
    n = c["N"]
    k = np.stack(np.meshgrid(*[np.arange(n) / n] * 3, indexing="ij"), axis=-1).reshape(-1, 3)
    Ab = A / qf.BOHR if c["c"]["unit"] == "angstrom" else A
    crys = {"A": Ab, "species": [], "types": [], "pos": [], "ecut": 20.0}
    d = dict(crys, alat=np.linalg.norm(Ab[:, 0]), sym=[(np.eye(3), None, "crystal_symmetry")], k=k, bands=np.arange(len(k) * c["nb"]).reshape(len(k), c["nb"]) / 7, fermi=0.3, smearing="", smearing_in="", para=[1, 1, 1, 1], soc=False, **{"in": crys})
    qf.put(f"qe-data/{m.name}.save/data-file-schema.xml", qf.xml(d))
    return k


def f_tools(c, ctx):
    name = c["c"]["name"]
    with qf.sandbox(ctx.tmp) as (calls, _):
        m, A, pos, types, pp, ec, arg = crystal(c["c"])
        m.dos(), m.bandx(), m.projections(c["ov"]), m.overlaps_for_wannier(c["sym"]), m.dielectric_function(c["nw"])
        k = write_save(m, A, c)
        kw = dict(iterations=c["it"][0], disentangle_iterations=c["it"][1], projections=c["proj"], exclude_bands=c["ex"], write_tb=c["tb"], write_wannier_functions=c["fun"], wannier_count=c["nw2"])
        sym = c["ssym"] and c["given"]
        if c["given"]:
            kw["grid_size"] = c["N"]
        m.prepare_wannier(tuple(c["win"][:2]), tuple(c["win"][2:]), symmetry=sym, **kw)
        txt = {}
        for suf in ("dos.in", "bandx.in", "projwfc.in", "pw2wan.in", "epsilon.in"):
            with open(f"{name}.{suf}") as f:
                txt[suf] = qf.parse_input(f.read())[0]
        with open(f"{name}.win") as f:
            win = qf.blocks(f.read())
        path = kp.KPath("G").to("X", N=4).to("L", N=3).to((.25, .5, .125), "Q", 5)
        A_norm = np.asarray(m.A) / 3.25
        m.prepare_plot_wannier_bands(path, A_norm, bands_num_points=c["bn"], **({"grid_size": c["N"]} if c["given"] else {}))
        with open(f"{name}.win") as f:
            win2 = qf.blocks(f.read())
    ctx.label("symmetry" if sym else "disentangled", c["c"]["unit"])
    for suf, lst in (("dos.in", "dos"), ("bandx.in", "bands"), ("projwfc.in", "projwfc"), ("pw2wan.in", "inputpp"), ("epsilon.in", "inputpp")):
        d = txt[suf][lst]
        require(d.get("prefix") == name and os.path.normpath(d.get("outdir", "")) == "qe-data", f"{suf}: {d}")
        require(any(f"{name}.{suf}" in s for s in calls), f"{suf} is not passed to a program")
    require(txt["dos.in"]["dos"]["fildos"] == f"{name}.Dos.dat" and txt["bandx.in"]["bands"]["filband"] == f"{name}.Bandx.dat", "output files are not the ones that are read back")
    require(txt["projwfc.in"]["projwfc"]["lwrite_overlaps"] is c["ov"], f"lwrite_overlaps {txt['projwfc.in']['projwfc']} for {c['ov']}")
    require(txt["pw2wan.in"]["inputpp"]["seedname"] == name and bool(txt["pw2wan.in"]["inputpp"].get("write_dmn", False)) == c["sym"], f"pw2wan.in {txt['pw2wan.in']}")
    require(txt["epsilon.in"]["energy_grid"]["nw"] == c["nw"], "number of frequencies")
    want = {"num_bands": c["nb"], "num_wann": c["nw2"] or c["nb"], "num_iter": c["it"][0], "dis_num_iter": c["it"][1], "dis_win_min": c["win"][0], "dis_win_max": c["win"][1]}
    if not sym:
        want |= {"dis_froz_min": c["win"][2], "dis_froz_max": c["win"][3]}
    for key, v in want.items():
        require(key in win[0] and float(win[0][key]) == v, f"{key} is {win[0].get(key)!r} instead of {v!r}")
    for key, v in {"write_tb": c["tb"], "wannier_plot": c["fun"], "site_symmetry": sym, "write_hr": True}.items():
        require(win[0].get(key, "false").lower() == str(v).lower(), f"{key} is {win[0].get(key)!r} instead of {v!r}")
    require(win[1]["projections"] == [c["proj"]] and win[0].get("exclude_bands") == c["ex"], f"projections {win[1]['projections']} excluding {win[0].get('exclude_bands')}")
    want_wannier(win, c, A, pos, types, k)
    want_wannier(win2, c, A, pos, types, k)
    require(win2[0]["bands_plot"] == "true" and win2[0]["restart"] == "plot" and int(win2[0]["bands_num_points"]) == (c["bn"] or path.indices[1]), f"band plot {win2[0]}")
    seg = [s.split() for s in win2[1]["kpoint_path"]]
    close(len(seg), 3, 0, 0, "segments of the k-path")
    pts = [np.asarray(path[i]) for i in path.indices]
    for s, a, b, na, nb in zip(seg, pts, pts[1:], path.names, path.names[1:]):
        require(s[0] == na and s[4] == nb, f"labels {s[0]} {s[4]} instead of {na} {nb}")
        close([float(x) for x in s[1:4] + s[5:]], np.concatenate([A_norm.T @ a, A_norm.T @ b]), 1e-9, 1e-9, "corners of the k-path in crystal coordinates")


def want_wannier(win, c, A, pos, types, k):
    keys, blk = win
    unit = blk["unit_cell_cart"][0].lower()
    require({"ang": "angstrom", "angstrom": "angstrom", "bohr": "bohr"}.get(unit) == c["c"]["unit"], f"unit of the cell {unit!r}")
    close(np.array([[float(x) for x in s.split()] for s in blk["unit_cell_cart"][1:]]), A.T, 1e-9, 1e-8, "unit_cell_cart")
    require(keys["length_unit"].lower() == {"angstrom": "ang", "bohr": "bohr"}[c["c"]["unit"]], f"length unit {keys['length_unit']!r}")
    require([s.split()[0] for s in blk["atoms_frac"]] == list(types), "atoms")
    close(np.array([[float(x) for x in s.split()[1:]] for s in blk["atoms_frac"]]), pos, 1e-12, 1e-9, "atoms_frac")
    require([int(x) for x in keys["mp_grid"].split()] == [c["N"]] * 3, f"mp_grid {keys['mp_grid']}")
    got = np.array([[float(x) for x in s.split()] for s in blk["kpoints"]])
    require(len(got) == c["N"] ** 3, f"{len(got)} k-points for mp_grid {c['N']}")
    d = np.abs((got[:, None] - k[None] + .5) % 1.0 - .5).max(axis=-1)
    require(d.min(axis=0).max() < 1e-9 and d.min(axis=1).max() < 1e-9, "k-points are not the grid")


# ----- pseudopotentials -----

@st.composite
def s_pp(draw):
    good = ["Cu.pbesol-dn-kjpaw_psl.1.0.0.UPF", "Si_ONCV_PBE-1.2.upf", "O.pz.UPF", "h-1.UPF", "A1"]
    bad = ["a;touch pwned", "x$(touch pwned).UPF", "y && touch pwned", "z|touch pwned", "q`touch pwned`", "b\ntouch pwned", "../e.UPF;id", "c >pwned", " ;id", "%", "&", "f 'g'", "u\"v"]
    n = draw(st.integers(0, 4))
    return {"f": [[draw(st.sampled_from(good + good + bad)), draw(st.booleans())] for _ in range(n)], "none": draw(st.integers(0, 3)) == 0, "twice": draw(st.booleans())}


def f_prepare(c, ctx):
    meta = re.compile(r"[^A-Za-z0-9_.+\-]")
    with qf.sandbox(ctx.tmp) as (calls, _):
        files = {qf.ELEMENTS[i]: f for i, (f, _) in enumerate(c["f"])}
        have = {f for f, h in c["f"] if h and not meta.search(f)}
        os.mkdir("pseudo") if have else None
        for f in have:
            qf.put(f"pseudo/{f}", qf.upf(1, 10, 20))
        if c["none"]:
            files["H"] = None
        want = dict(files)
        for _ in range(1 + c["twice"]):
            del calls[:]
            qe.qe_prepare(files)
            require(os.path.isdir("qe-data") and os.path.isdir("pseudo"), "working directories")
            for t, f in want.items():
                if f is None:
                    require(isinstance(qe.pp_files[t], str) and qe.pp_files[t].startswith(t + "."), f"no file chosen for {t}")
                else:
                    require(qe.pp_files[t] == f, f"file of {t}")
            require(set(qe.pp_files) == set(want), "registered pseudopotentials")
            names = [f for f in qe.pp_files.values()]
            ctx.label(*["bad name" if meta.search(f) else "present" if f in have else "download" for f in names])
            ctx.trivial(not names)
            for f in names:
                hit = [s for s in calls if re.search(r"(^|[/\s])" + re.escape(f) + r"($|\s)", s)]
                if meta.search(f):
                    require(not [s for s in calls if f in s], f"the name {f!r} reached a command: {calls}")
                elif f in have:
                    require(not hit, f"{f!r} exists but is fetched again")
                else:
                    require(hit, f"{f!r} is missing and not fetched: {calls}")


SUBS = [
    Sub("lattices", s_lat(), f_lattice, 1500, 60000, shards=2),
    Sub("density", s_cry(), f_density, 700, 20000, shards=2),
    Sub("kpoints", s_k(), f_kpoints, 500, 15000),
    Sub("pw_input", s_input(), f_input, 1500, 40000, shards=3),
    Sub("tools", s_tools(), f_tools, 500, 12000, shards=2),
    Sub("pseudo", s_pp(), f_prepare, 400, 10000),
]
