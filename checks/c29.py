"""C29: Quantum Espresso output is read back as the data it contains."""
import itertools, os, re
import numpy as np
from hypothesis import strategies as st
import gen
import qefiles as qf
from core import Sub, close, require, raises
from tight_binding_redweasel import Symmetry, qespresso_interface as qe, wannier90_tb_format as w90

RULE = "the file holds at least two different k-points, bands, atoms, orbitals or plane waves"
ASSUMPTIONS = ["the files follow the layout of Quantum Espresso 7.3 (checked against the file in examples/qe-data)", "one spin channel or a non-collinear calculation (spin polarised files are not supported by the library)",
               "overlap matrices are Hermitian, so either index order of the file is accepted"]


# ----- lattices with their symmetries -----

def lattice(c):
    r = np.array(c["v"], float) / 128
    a, b, d = 6 + 3 * r[0], 7 + 3 * r[1], 9 + 2 * r[2]
    return {"sc": lambda: qe.sc(a), "fcc": lambda: qe.fcc(a), "bcc": lambda: qe.bcc(a), "hex": lambda: qe.hexagonal(a, d), "rhom": lambda: qe.rhombohedral(a, 1.1), "mono": lambda: qe.monoclinic(a, b, d, 1.8),
            "ortho": lambda: qe.orthorhombic(a, b, d), "tet": lambda: qe.tetragonal_body_centered(a, d), "tri": lambda: qe.triclinic(a, b, d, 1.4, 1.7, 1.2), "gen": lambda: np.eye(3) * 7 + r[:9].reshape(3, 3)}[c["lat"]]()


CAND = None


def point_group(A):
    """all integer matrices that preserve the metric of the columns of A"""
    global CAND
    if CAND is None:
        m = np.array(list(itertools.product((-1, 0, 1), repeat=9)), float).reshape(-1, 3, 3)
        CAND = m[np.abs(np.abs(np.linalg.det(m)) - 1) < 1e-9]
    G = A.T @ A
    e = np.abs(np.swapaxes(CAND, 1, 2) @ G @ CAND - G).max(axis=(1, 2))
    return CAND[e < 1e-7 * np.abs(G).max()]


def subgroup(ops, gens):
    have = [np.eye(3)]
    todo = list(have)
    while todo:
        x = todo.pop()
        for g in gens:
            y = g @ x
            if not any(np.array_equal(y, h) for h in have):
                have.append(y), todo.append(y)
    return have


LATS = ["sc", "fcc", "bcc", "hex", "rhom", "mono", "ortho", "tet", "tri", "gen"]


@st.composite
def s_run(draw, nk=6):
    n, nb = draw(st.integers(1, 4)), draw(st.integers(1, 7))
    k = draw(st.integers(1, nk))
    return {"lat": draw(st.sampled_from(LATS)), "v": draw(gen.i8(9)), "n": n, "pos": draw(gen.i8(12)), "ty": draw(gen.i8(2)), "k": draw(gen.i8(3 * k)), "e": draw(gen.i8(k * nb)), "nb": nb, "ef": draw(gen.i8(1))[0],
            "gens": [x for x in draw(gen.i8(draw(st.integers(0, 3))))], "rest": draw(st.booleans()), "frac": draw(st.sampled_from([0, 0, 0, 4, 24, 256])), "label": draw(st.integers(0, 3)) == 0, "ft": draw(gen.i8(3)), "nosym": draw(st.integers(0, 5)) == 0,
            "para": [draw(st.integers(1, 9)) for _ in range(4)], "smear": draw(st.sampled_from(["mv", "fd", "fd", None])), "T": draw(st.sampled_from([0.005, 0.00094, 0.0123])), "soc": draw(st.booleans()), "ec": draw(st.integers(10, 90)),
            "unit": draw(st.sampled_from(["angstrom", "bohr"])), "incomplete": draw(st.booleans()), "in": draw(st.booleans()), "name": draw(st.sampled_from(["cu", "Si_2", "x-1"])), "scale": draw(st.sampled_from([1, 1, 40]))}


def build(c):
    A = lattice(c)  # bohr
    ops = point_group(A)
    gens = [ops[x % len(ops)] for x in c["gens"]]
    crys = subgroup(ops, gens)
    t0 = np.array(c["ft"]) % 8 / max(c["frac"], 4)
    sym = []
    for i, m in enumerate(crys):
        # translations of a conjugated group: t = (1 - m) t0 is consistent for every group
        t = (t0 - m @ t0) if c["frac"] else np.zeros(3)
        t = (t + .5) % 1 - .5
        if c["rest"] and c["nb"] % 2 and np.linalg.norm(t) < 1e-9:
            t = None  # no translation given for the operations without one
        sym.append((m, t, "crystal_symmetry"))
    if c["rest"]:
        sym += [(m, None, "lattice_symmetry") for m in ops if not any(np.array_equal(m, x) for x in crys)]
    if c["nosym"]:
        sym = []
    els = [qf.ELEMENTS[x % len(qf.ELEMENTS)] for x in c["ty"]]
    types = [els[i % 2] for i in range(c["n"])]
    if c.get("label"):  # atoms of one element may have different labels in QE
        types = [f"{t}{i % 2 + 1}" for i, t in enumerate(types)]
    species = [(t, f"{t}.gen_psl.1.0.0.UPF") for t in dict.fromkeys(types)]
    pos = np.array(c["pos"], float).reshape(-1, 3)[:c["n"]] / 256 % 1.0
    k = np.array(c["k"], float).reshape(-1, 3) / 256 % 1.0
    e = np.sort(np.array(c["e"], float).reshape(len(k), c["nb"]) / 97 * c["scale"], axis=1)
    sm = f'<smearing degauss="{qf.num(c["T"])}">{c["smear"]}</smearing>' if c["smear"] else ""
    d = {"A": A, "alat": np.linalg.norm(A[:, 0]), "species": species, "types": types, "pos": pos, "sym": sym, "k": k, "bands": e, "fermi": c["ef"] / 61, "ecut": c["ec"] / 2, "smearing": sm, "smearing_in": sm, "para": c["para"], "soc": c["soc"]}
    d["in"] = {"A": A * 1.25, "species": species, "types": types, "pos": (pos + .125) % 1.0, "ecut": c["ec"] / 2}
    return d


def f_bands(c, ctx):
    d = build(c)
    A, sym = d["A"], [s for s in d["sym"] if s[2] == "crystal_symmetry"]
    with qf.sandbox(ctx.tmp):
        name = f"qe-data/{c['name']}.save/data-file-schema.xml" if c["incomplete"] else f"qe-data/{c['name']}.xml"
        m = qe.QECrystal(c["name"], np.eye(3), d["pos"], d["types"], 40.0, unit=c["unit"])
        require(not m.read_available(), "read_available without a file")
        qf.put(name, qf.xml(d))
        require(m.read_available() is (not c["incomplete"]), "read_available")
        k, bands, S, ef = m.read_bands_crystal(incomplete=True) if c["incomplete"] else m.read_bands_crystal()
    frac = any(t is not None and np.linalg.norm(t) > 1e-9 for _, t, _ in sym)
    ctx.label(c["lat"], f"{len(sym)} symmetries", "translations" if frac else "symmorphic", c["unit"])
    ctx.trivial(len(d["k"]) == 1 and c["nb"] == 1 and len(sym) < 2)
    k, bands, S = np.asarray(k), np.asarray(bands), np.asarray(S)
    require(k.shape == d["k"].shape and bands.shape == d["bands"].shape, f"shapes {k.shape} {bands.shape} instead of {d['k'].shape} {d['bands'].shape}")
    close((k - d["k"] + .5) % 1.0, np.full(k.shape, .5), 1e-9, 0, "k-points in crystal coordinates")
    close(bands, d["bands"] * qf.HARTREE, 1e-9, 1e-6, "bands in eV")
    close(ef, d["fermi"] * qf.HARTREE, 1e-9, 1e-6, "Fermi energy in eV")
    close(np.asarray(m.A), A * (qf.BOHR if c["unit"] == "angstrom" else 1.0), 1e-9, 1e-6, "lattice vectors")
    want = [np.eye(3)] if not sym else [np.linalg.inv(s.T) for s, _, _ in sym]
    require(S.shape == (len(want), 3 + frac, 3 + frac), f"symmetries of shape {S.shape}, {len(want)} operations in the file, fractional translations: {frac}")
    close(S[:, :3, :3], np.array(want), 1e-7, 0, "symmetry operations in crystal coordinates of the reciprocal lattice")
    B = np.linalg.inv(A).T
    for s in S[:, :3, :3]:
        close(s.T @ (B.T @ B) @ s, B.T @ B, 1e-7, 1e-7, "a symmetry does not map the reciprocal lattice onto itself isometrically")
    if frac:
        close(np.linalg.inv(np.swapaxes(S, 1, 2))[:, :3, 3], np.array([np.zeros(3) if t is None else t for _, t, _ in sym]), 1e-7, 0, "fractional translations")
    n = len({np.round(w).tobytes() for w in np.array(want) + 0.0})
    require(len(Symmetry.point_group(S)) == n, "point group of the result")


def f_disk(c, ctx):
    d = build(c)
    ctx.label("input" if c["in"] else "output", str(c["smear"]), c["lat"])
    ctx.trivial(c["n"] == 1 and c["lat"] == "sc")
    with qf.sandbox(ctx.tmp):
        qf.put(f"qe-data/{c['name']}.xml", qf.xml(d))
        qe.qe_prepare({})
        m = qe.from_disk(c["name"], read_output=False) if c["in"] else qe.from_disk(c["name"])
        src = d["in"] if c["in"] else d
        u = qf.BOHR if m.unit == "angstrom" else 1.0
        close(np.asarray(m.A), src["A"] * u, 1e-9, 1e-6, f"lattice vectors in {m.unit}")
        require(m.name == c["name"] and list(m.types) == d["types"], f"atoms {list(m.types)} instead of {d['types']}")
        require(np.shape(m.basis) == np.shape(src["pos"]), "shape of the positions")
        close((np.asarray(m.basis) - src["pos"] + .5) % 1.0, np.full(np.shape(src["pos"]), .5), 1e-9, 0, "atom positions in crystal coordinates")
        close(m.kinetic_energy_cutoff, 2 * src["ecut"], 1e-9, 1e-9, "cut-off in Ry")
        close(m.T, 2 * c["T"] / qf.KB_RY if c["smear"] == "fd" else 0.0, 1e-9, 1e-5, f"temperature for smearing {c['smear']}")
        require(bool(m.relativistic) == c["soc"], f"relativistic is {m.relativistic} for spinorbit {c['soc']}")
        require((m.nk, m.nd, m.nt) == (c["para"][2], c["para"][3], c["para"][1]), f"multitasking nk, nd, nt {(m.nk, m.nd, m.nt)}")
        for t, f in d["species"]:
            require(qe.pp_files[t] == f, f"pseudopotential of {t}: {qe.pp_files.get(t)!r}")
        if c["label"]:
            ctx.label("labelled atoms")
            k, bands, S, ef = m.read_bands_crystal()
            close(bands, d["bands"] * qf.HARTREE, 1e-9, 1e-6, "bands read by the restored crystal")
            return
        # the restored crystal writes the same input again
        m.scf(4)
        with open(f"{c['name']}.scf.in") as f:
            lists, rest = qf.parse_input(f.read())
        cards = qf.parse_cards(rest)
        sy = lists["system"]
        close([sy["ecutwfc"], sy["nat"], sy["ntyp"]], [2 * src["ecut"], c["n"], len(set(d["types"]))], 1e-9, 1e-9, "input written by the restored crystal")
        require(bool(sy.get("lspinorb", False)) == c["soc"], "spin-orbit coupling of the restored crystal")
        if c["smear"] == "fd":
            close(sy["degauss"], 2 * c["T"], 0, 1e-5, "smearing written by the restored crystal")
        opt, lines = cards["CELL_PARAMETERS"]
        close(np.array([[float(x) for x in s.split()] for s in lines]) / (qf.BOHR if opt == "angstrom" else 1.0), src["A"].T, 1e-9, 1e-6, "cell written by the restored crystal")
        # reading the bands with it
        k, bands, S, ef = m.read_bands_crystal()
        close(bands, d["bands"] * qf.HARTREE, 1e-9, 1e-6, "bands read by the restored crystal")
        close(np.asarray(m.A), d["A"] * u, 1e-9, 1e-6, "lattice vectors after reading the bands")


# ----- projections -----

@st.composite
def s_proj(draw):
    k, nb, w = draw(st.integers(1, 4)), draw(st.integers(1, 5)), draw(st.integers(1, 5))
    s = 1
    return {"k": k, "nb": nb, "w": w, "s": s, "v": draw(gen.i8(k * (3 + nb + 2 * nb * w + 2 * w * w))), "ov": draw(st.booleans()), "file": draw(st.booleans()), "ef": draw(gen.i8(1))[0], "ne": draw(st.integers(1, 40)), "order": draw(st.booleans()),
            "fmt": draw(st.integers(1, 4))}


def f_proj(c, ctx):
    K, nb, w = c["k"], c["nb"], c["w"]
    v = iter(np.array(c["v"], float) / 61)
    take = lambda *sh: np.array([next(v) for _ in range(int(np.prod(sh)))]).reshape(sh)
    k, e, p = take(K, 3), take(K, nb), take(K, nb, 1, w) + 1j * take(K, nb, 1, w)
    o = take(K, w, w) + 1j * take(K, w, w)
    o = o + np.conj(np.swapaxes(o, 1, 2))
    inter = lambda z: np.stack([np.real(z), np.imag(z)], axis=-1).ravel()
    s = f'<?xml version="1.0"?>\n<PROJECTIONS>\n<HEADER NUMBER_OF_BANDS="{nb}" NUMBER_OF_K-POINTS="{K}" NUMBER_OF_SPIN_COMPONENTS="1" NUMBER_OF_ATOMIC_WFC="{w}" NUMBER_OF_ELECTRONS="{qf.num(c["ne"] / 2)}" FERMI_ENERGY="{qf.num(c["ef"] / 61)}"/>\n<EIGENSTATES>\n'
    for i in range(K):
        s += f'<K-POINT Weight="1.0">{qf.vec(k[i])}</K-POINT>\n<E>{qf.vec(e[i], c["fmt"])}</E>\n<PROJS>\n'
        for j in (range(w) if c["order"] else reversed(range(w))):
            s += f'<ATOMIC_WFC index="{j + 1}" spin="1">\n{qf.vec(inter(p[i, :, 0, j]), 2)}\n</ATOMIC_WFC>\n'
        s += "</PROJS>\n"
    s += "</EIGENSTATES>\n"
    if c["ov"]:
        s += "<OVERLAPS>\n" + "".join(f'<OVPS dim="{w}" spin="1">\n{qf.vec(inter(o[i].ravel()), 2)}\n</OVPS>\n' for i in range(K)) + "</OVERLAPS>\n"
    with qf.sandbox(ctx.tmp):
        m = qe.QECrystal("cu", np.eye(3), [], [], 1.0)
        f = "other.xml" if c["file"] else "qe-data/cu.save/atomic_proj.xml"
        qf.put(f, s + "</PROJECTIONS>\n")
        res = m.read_projections(f) if c["file"] else m.read_projections()
    ctx.label("overlaps" if c["ov"] else "no overlaps")
    ctx.trivial(K == nb == 1)
    kk, bands, pr, ef, ne = res
    if c["ov"]:
        pr, ov = pr
        require(np.shape(ov) == (K, w, w), f"overlaps of shape {np.shape(ov)}")
        err = min(np.abs(ov - o).max(), np.abs(ov - np.swapaxes(o, 1, 2)).max())
        require(err < 1e-9, f"overlaps differ by {err}")
    require(np.shape(pr) == (K, nb, 1, w), f"projections of shape {np.shape(pr)}")
    close(np.asarray(pr), p, 1e-9, 1e-9, "projections (k, band, spin, orbital)")
    close(np.asarray(kk), k, 1e-9, 1e-9, "k-points")
    close(np.asarray(bands), e * qf.RY, 1e-9, 1e-6, "bands in eV")
    close(ef, c["ef"] / 61 * qf.RY, 1e-9, 1e-6, "Fermi energy in eV")
    close(ne, c["ne"] / 2, 1e-9, 1e-9, "number of electrons")


ORB = {"s": ["s"], "p": ["pz", "px", "py"], "d": ["dz2", "dxz", "dyz", "dx2-y2", "dxy"], "f": ["fz3", "fxz2", "fyz2", "fz(x2-y2)", "fxyz", "fx(x2-3y2)", "fy(3x2-y2)"]}


@st.composite
def s_order(draw):
    n = draw(st.integers(1, 12))
    return {"sh": [draw(st.lists(st.sampled_from("spdf"), min_size=1, max_size=3, unique=True)) for _ in range(n)], "ty": draw(gen.i8(n)), "typed": draw(st.booleans()), "sp": draw(st.integers(0, 9999)), "v": draw(gen.i8(16)), "th": draw(st.sampled_from([0.05, 0.2, 0.01])), "end": draw(st.booleans())}


def f_order(c, ctx):
    types = [qf.ELEMENTS[x % len(qf.ELEMENTS)] for x in c["ty"]]
    order, s = [], "\n     Program PROJWFC v.7.3.1\n\n==== e(   1) =   3.03 eV ====\n\nLowdin Charges: \n\n"
    for i, sh in enumerate(c["sh"]):
        for l in sorted(sh, key="spdf".index):
            tail = "" if l == "s" else "".join(f"{o}= {0.1234:8.4f}, " for o in ORB[l])
            s += f"     Atom # {i + 1:3d}: total charge = {10.9923:8.4f}, {l} = {0.9184:8.4f}, {tail}\n"
            order += [f"{i + 1}{types[i] if c['typed'] else ''}_{o}" for o in ORB[l]]
    s += f"     Spilling Parameter: {c['sp'] / 10000:8.4f}\n\n     PROJWFC      :      0.90s CPU      1.02s WALL\n"
    with qf.sandbox(ctx.tmp) as (_, out):
        m = qe.QECrystal("cu", np.eye(3), [(0, 0, 0)] * len(types), types, 1.0) if c["typed"] else qe.QECrystal("cu", np.eye(3), [], [], 1.0)
        qf.put("cu.projwfc.out", s)
        got, spill = m.read_projections_order_spilling()
        a = np.array(c["v"], float)[:len(order)] + 1j * np.arange(16)[:len(order)]
        a /= np.linalg.norm(a) or 1.0
        out.truncate(0), out.seek(0)
        qe.print_orbitals(a, list(got), threshold=c["th"], end=";" if c["end"] else "\n")
        text = out.getvalue()
    ctx.label(f"{min(len(types), 3)} atoms", "typed" if c["typed"] else "untyped")
    ctx.trivial(len(order) < 2)
    require(list(got) == order, lambda: f"orbitals {list(got)} instead of {order}")
    close(spill, c["sp"] / 10000, 1e-12, 0, "spilling parameter")
    if len(order) <= 16:
        p = np.abs(a) ** 2
        if np.abs(p - c["th"]).min() > 1e-6:
            require(text.endswith(";" if c["end"] else "\n"), "end of the printed line")
            items = [x.rsplit(":", 1) for x in text.rstrip(";\n").split(", ") if x != "None"]
            require(sorted(x[0] for x in items) == sorted(o for o, q in zip(order, p) if q >= c["th"]), lambda: f"printed {items} for {dict(zip(order, p.round(4)))}")
            vals = [float(x[1].strip(" %")) / 100 for x in items]
            require(all(x >= y for x, y in zip(vals, vals[1:])), f"not sorted: {vals}")
            for (o, _), x in zip(items, vals):
                close(x, p[order.index(o)], 6e-4, 0, f"share of {o}")


# ----- tables -----

@st.composite
def s_table(draw):
    n, nb = draw(st.integers(2, 12)), draw(st.integers(1, 25))
    return {"n": n, "nb": nb, "v": draw(gen.i8(n * (nb + 3))), "cols": draw(st.sampled_from([3, 3, 4])), "ef": draw(gen.i8(1))[0], "hdr": draw(st.booleans()), "sym": draw(st.integers(0, 5)), "other": draw(st.booleans()), "per": draw(st.sampled_from([10, 10, 7]))}


def f_table(c, ctx):
    n, nb = c["n"], c["nb"]
    v = np.array(c["v"], float) / 32
    k, e = np.round(v[:3 * n].reshape(n, 3), 6), np.round(v[3 * n:].reshape(n, nb), 3)
    ctx.trivial(n == 1)
    ctx.label(f"{n > 5 and 'many' or 'few'} points", f"{nb > c['per'] and 'wrapped' or 'one'} line")
    row = lambda x, f: "\n".join("".join(f % y for y in x[i:i + c["per"]]) for i in range(0, len(x), c["per"]))
    with qf.sandbox(ctx.tmp):
        m = qe.QECrystal("cu", np.eye(3), [], [], 1.0)
        # bands.x
        qf.put("cu.Bandx.dat", f" &plot nbnd={nb:4d}, nks={n:6d} /\n" + "".join("          " + "".join("%10.6f" % y for y in a) + "\n" + row(b, "%9.3f") + "\n" for a, b in zip(k, e)))
        kk, bands = m.read_bandx_raw()
        close(np.asarray(kk), k, 1e-9, 0, "k-points of bandx"), close(np.asarray(bands), e, 1e-9, 0, "bands of bandx")
        x = np.cumsum(np.abs(v[:n])) + np.arange(n)
        gnu = "other.gnu" if c["other"] else "cu.Bandx.dat.gnu"
        qf.put(gnu, "\n".join("".join(f"{a:10.4f}{b:10.4f}\n" for a, b in zip(x, e[:, i])) for i in range(nb)))
        sx = np.round(np.linspace(0, 2, c["sym"]), 4)
        qf.put("cu.bandx.out", "\n     Program BANDS v.7.3.1\n" + "".join(f"     high-symmetry point:  0.0000 0.5000-0.5000   x coordinate {a:9.4f}\n" for a in sx) + f"\n     Plottable bands (eV) written to file {gnu}\n")
        gx, z = m.read_bandx()
        close(np.asarray(gx, float).ravel(), sx, 1e-9, 0, "high-symmetry points")
        close(np.asarray(z[0]), np.tile(np.round(x, 4), nb), 2e-4, 0, "x values of the bands"), close(np.asarray(z[1]), e.T.ravel(), 2e-4, 0, "energies of the bands")
        qf.put("cu.bandx.out", "     stopped\n")
        raises(IOError, m.read_bandx, "no plottable data announced")
        # dos.x
        t = np.round(np.stack([np.arange(n + 1) / 100 - 3] + [np.abs(np.resize(v, n + 1)) * (i + 1) for i in range(c["cols"] - 1)], axis=1), 4)
        head = "#  E (eV)   dos(E)     Int dos(E)" + (f" EFermi = {c['ef'] / 16:8.3f} eV" if c["hdr"] else "")
        qf.put("cu.Dos.dat", head + "\n" + "".join(" " + " ".join(f"{y:11.4f}" for y in r) + "\n" for r in t))
        data, ef = m.read_dos()
        close(np.asarray(data), t.T, 1e-9, 0, "density of states table")
        if c["hdr"]:
            close(ef, round(c["ef"] / 16, 3), 1e-3, 0, "Fermi energy of dos.x")
        else:
            require(ef is None, f"Fermi energy {ef} although the file has none")
        # epsilon.x
        w = np.round(np.resize(v, (2, n + 1, 3)), 6)
        w[1] += 0.5
        for i, part in enumerate("ri"):
            qf.put(f"eps{part}_cu.dat", "# energy grid [eV]     eps_x  eps_y  eps_z\n#\n#\n" + "".join(f"{a:10.6f}" + "".join(f" {y:14.6f}" for y in r) + "\n" for a, r in zip(t[:, 0], w[i])))
        om, eps = m.read_dielectric_function()
        close(np.asarray(om), t[:, 0], 1e-6, 0, "frequencies"), close(np.asarray(eps), w[0] + 1j * w[1], 1e-9, 0, "dielectric function")


# ----- binary files -----

@st.composite
def s_binary(draw):
    nk = draw(st.integers(1, 12))
    return {"lat": draw(st.sampled_from(LATS)), "v": draw(gen.i8(9)), "nk": nk, "npol": draw(st.sampled_from([1, 2])), "nb": draw(st.integers(1, 4)), "ng": [draw(st.integers(1, 6)) for _ in range(nk)], "seed": draw(gen.i8(3)), "perm": draw(gen.i8(nk)),
            "nspin": draw(st.sampled_from([1, 2, 4])), "gamma": draw(st.booleans())}


def f_binary(c, ctx):
    A = lattice(c)
    B = np.linalg.inv(A).T * 2 * np.pi
    r = np.random.RandomState(np.array(c["seed"]) % 256)
    nk, npol, nb = c["nk"], c["npol"], c["nb"]
    k = r.randint(0, 64, (nk, 3)) / 64
    g, evc = [], []
    ctx.label(f"npol {npol}", f"nspin {c['nspin']}")
    ctx.trivial(nk == 1 and c["ng"][0] == 1)
    i4 = lambda *x: np.array(x, dtype=np.int32)
    with qf.sandbox(ctx.tmp):
        m = qe.QECrystal("cu", np.eye(3), [], [], 1.0)
        order = np.argsort(c["perm"], kind="stable")
        for i in range(nk):
            n = c["ng"][i]
            g.append(r.randint(-9, 10, (n, 3)).astype(np.int32))
            evc.append(r.randn(nb, npol, n) + 1j * r.randn(nb, npol, n))
        for i in order:
            n = c["ng"][i]
            b = qf.record(i4(i + 1), B @ k[i], i4(1, int(c["gamma"])), np.float64(1.0)) + qf.record(i4(n + 2, n, npol, nb)) + qf.record(B[:, 0].copy(), B[:, 1].copy(), B[:, 2].copy()) + qf.record(g[i])
            b += b"".join(qf.record(evc[i][j]) for j in range(nb))
            qf.put(f"qe-data/cu.save/wfc{i + 1}.dat", b, "wb")
        qf.put("qe-data/cu.save/data-file-schema.xml", "<a/>")
        n = sum(c["ng"])
        mill = r.randint(-9, 10, (n, 3)).astype(np.int32)
        rho = r.randn(c["nspin"], n) + 1j * r.randn(c["nspin"], n)
        b = qf.record(i4(int(c["gamma"]), n, c["nspin"])) + qf.record(B[:, 0].copy(), B[:, 1].copy(), B[:, 2].copy()) + qf.record(mill) + b"".join(qf.record(x) for x in rho)
        qf.put("qe-data/cu.save/charge-density.dat", b, "wb")
        kk, gg, ee = m.read_wavefunctions()
        gc, rr = m.read_charge_density()
    require(np.shape(kk) == (nk, 3) and len(gg) == nk and len(ee) == nk, f"{np.shape(kk)} {len(gg)} {len(ee)} for {nk} k-points")
    close(np.asarray(kk), k, 1e-9, 0, "k-points of the wavefunctions, in the order of the calculation")
    for i in range(nk):
        require(np.shape(gg[i]) == (c["ng"][i], 3) and np.array_equal(np.asarray(gg[i]), g[i]), f"plane waves of k-point {i + 1}")
        require(np.shape(ee[i]) == (nb, c["ng"][i], npol), f"coefficients of shape {np.shape(ee[i])} instead of {(nb, c['ng'][i], npol)}")
        close(np.asarray(ee[i]), np.swapaxes(evc[i], 1, 2), 0, 1e-12, "coefficients (band, plane wave, spin)")
    require(np.shape(gc) == (n, 3), f"plane waves of the density {np.shape(gc)}")
    close(np.asarray(gc), mill, 1e-9, 0, "plane waves of the density in crystal coordinates")
    close(np.asarray(rr), rho, 0, 1e-12, "coefficients of the density")


# ----- pseudopotentials, wannier -----

@st.composite
def s_misc(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "ty": draw(gen.i8(n)), "z": [draw(st.integers(1, 20)) for _ in range(3)], "cut": draw(gen.i8(3)), "v": draw(gen.i8(40)), "nw": draw(st.integers(1, 3)), "named": draw(st.booleans())}


def f_misc(c, ctx):
    els = ["Cu", "Si", "O"]
    types = [els[x % 3] for x in c["ty"]]
    ctx.trivial(c["n"] == 1)
    ctx.label(f"{len(set(types))} species")
    cut = [40 + x / 8 for x in c["cut"]]
    v = np.array(c["v"], float) / 32
    nw = c["nw"]
    nb = np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, -1, 2)])
    H = np.array([np.resize(v[i * 7:], nw * nw).reshape(nw, nw) + 1j * np.resize(v[i * 5 + 3:], nw * nw).reshape(nw, nw) for i in range(4)])
    H[0] = (H[0] + H[0].conj().T) / 2
    with qf.sandbox(ctx.tmp):
        pp = {e: f"{e}.x_psl.UPF" for e in els}
        for i, e in enumerate(els):
            qf.put(f"pseudo/{pp[e]}", qf.upf(c["z"][i], cut[i], 4 * cut[i]))
        qe.qe_prepare(pp)
        m = qe.QECrystal("cu", np.eye(3), [(0, 0, 0)] * len(types), types)
        close(m.kinetic_energy_cutoff, max(cut[els.index(t)] for t in types), 1e-6, 0, "largest suggested cut-off of the species")
        z = m.read_valence_electrons()
        require(z == sum(c["z"][els.index(t)] for t in types), f"{z} valence electrons for {types} with {c['z']}")
        file = "other_tb.dat" if c["named"] else "cu_tb.dat"
        # all vectors and their negatives, as wannier90 writes them
        R, P = np.concatenate([nb, -nb[1:]]), np.concatenate([H, np.conj(np.swapaxes(H[1:], 1, 2))])
        s = " written by the check\n" + "".join(" ".join(f"{x:.8f}" for x in r) + "\n" for r in np.eye(3) * 3) + f"{nw}\n{len(R)}\n" + " ".join(["1"] * len(R)) + "\n\n"
        for r, p in zip(R, P):
            s += " ".join(map(str, r)) + "\n" + "".join(f"{i + 1} {j + 1} {p[i, j].real:.10E} {p[i, j].imag:.10E}\n" for j in range(nw) for i in range(nw)) + "\n"
        for r in R:
            s += " ".join(map(str, r)) + "\n" + "".join(f"{i + 1} {j + 1} " + " ".join(["0.0"] * 6) + "\n" for j in range(nw) for i in range(nw)) + "\n"
        qf.put(file, s)
        neigh, params, rp = m.read_wannier_tb(file) if c["named"] else m.read_wannier_tb()
        a = w90.load_tb(file)
    for x, y, what in zip((neigh, params, rp), a[:3], ("neighbors", "couplings", "positions")):
        close(np.asarray(x), np.asarray(y), 1e-12, 0, f"{what} of read_wannier_tb")
    got = {tuple(np.round(x).astype(int)): p for x, p in zip(np.asarray(neigh), np.asarray(params))}
    for r, p in zip(R, P):
        if tuple(r) in got:
            close(got[tuple(r)], p, 1e-8, 0, f"couplings at {tuple(r)}")
        else:
            require(tuple(-r) in got, f"couplings at {tuple(r)} are missing")


SUBS = [
    Sub("bands", s_run(), f_bands, 700, 20000, shards=2),
    Sub("from_disk", s_run(nk=2), f_disk, 600, 15000, shards=2),
    Sub("projections", s_proj(), f_proj, 500, 12000),
    Sub("orbitals", s_order(), f_order, 500, 12000),
    Sub("tables", s_table(), f_table, 400, 8000, shards=2),
    Sub("binary", s_binary(), f_binary, 500, 12000, shards=2),
    Sub("pseudo", s_misc(), f_misc, 300, 8000),
]
