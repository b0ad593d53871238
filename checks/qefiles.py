"""Quantum Espresso files for C28 and C29: run-free sandbox, input parser, output writers."""
import contextlib, io, os, re, shutil, subprocess, tempfile
import numpy as np
from tight_binding_redweasel import qespresso_interface as qe

BOHR = 0.52917721
HARTREE = 27.21138625
RY = 13.605693125
KB_RY = 6.3336231269e-6
# standard atomic weights, independent of the table in the library
WEIGHTS = dict(zip("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd "
                   "Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es".split(),
                   [1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.180, 22.990, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.948, 39.098, 40.078, 44.956, 47.867, 50.942,
                    51.996, 54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.630, 74.922, 78.971, 79.904, 83.798, 85.468, 87.62, 88.906, 91.224, 92.906, 95.95, 97, 101.07, 102.91, 106.42,
                    107.87, 112.41, 114.82, 118.71, 121.76, 127.60, 126.90, 131.29, 132.91, 137.33, 138.91, 140.12, 140.91, 144.24, 145, 150.36, 151.96, 157.25, 158.93, 162.50, 164.93, 167.26, 168.93,
                    173.05, 174.97, 178.49, 180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59, 204.38, 207.2, 208.98, 209, 210, 222, 223, 226, 227, 232.04, 231.04, 238.03, 237, 244, 243, 247, 247, 251, 252]))
# lithium varies between sources, the rest is known well
MASS_TOL = dict.fromkeys(WEIGHTS, 2e-3) | {"Li": 1.2e-2}
ELEMENTS = list(WEIGHTS)


@contextlib.contextmanager
def sandbox(path):
    """work in an empty directory; nothing is executed, commands are only recorded"""
    calls = []
    path = tempfile.mkdtemp(dir=path)

    class Done:
        returncode, stdout, stderr, args = 0, b"", b"", ()

        def communicate(self, *a, **k):
            return b"", b""

        def wait(self, *a, **k):
            return 0

        def poll(self):
            return 0

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def rec(cmd="", *a, **k):
        calls.append(cmd if isinstance(cmd, str) else " ".join(map(str, cmd)))
        return Done()

    old, pp = os.getcwd(), qe.pp_files
    saved = os.system, subprocess.run, subprocess.Popen, subprocess.call, subprocess.check_call, subprocess.check_output, subprocess.getoutput
    os.chdir(path)
    out = io.StringIO()
    try:
        os.system = lambda c: (rec(c), 0)[1]
        subprocess.run = subprocess.Popen = rec
        subprocess.call = subprocess.check_call = lambda *a, **k: (rec(*a, **k), 0)[1]
        subprocess.check_output = lambda *a, **k: (rec(*a, **k), b"")[1]
        subprocess.getoutput = lambda *a, **k: (rec(*a, **k), "")[1]
        with contextlib.redirect_stdout(out):
            yield calls, out
    finally:
        os.system, subprocess.run, subprocess.Popen, subprocess.call, subprocess.check_call, subprocess.check_output, subprocess.getoutput = saved
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)
        qe.pp_files = pp


# ----- input files -----

def value(s):
    s = s.strip()
    if s[:1] in "'\"":
        return s[1:-1]
    if re.fullmatch(r"\.?t(rue)?\.?", s, re.I):
        return True
    if re.fullmatch(r"\.?f(alse)?\.?", s, re.I):
        return False
    try:
        return float(re.sub("[dD]", "e", s))
    except ValueError:
        return s


def parse_input(text):
    """(namelists {name: {key: value}}, remaining lines)"""
    lists, rest, cur = {}, [], None
    for line in text.split("\n"):
        s = line.strip()
        if cur is None:
            if s.startswith("&"):
                cur = lists.setdefault(s[1:].strip().lower(), {})
            elif s:
                rest.append(s)
            continue
        if s == "/":
            cur = None
            continue
        s = re.sub(r"!.*", "", s)
        for m in re.finditer(r"([A-Za-z_]\w*(?:\(\d+\))?)\s*=\s*('[^']*'|\"[^\"]*\"|[^,\s]+)", s):
            k = m.group(1).lower()
            if k in cur:
                raise ValueError(f"{k} is given twice")
            cur[k] = value(m.group(2))
    if cur is not None:
        raise ValueError("a namelist is not closed")
    return lists, rest


def parse_cards(lines):
    """{card: (option, lines)}"""
    cards, cur = {}, None
    for s in lines:
        w = s.split()
        if w[0].upper() in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            cur = w[0].upper()
            if cur in cards:
                raise ValueError(f"{cur} is given twice")
            cards[cur] = (" ".join(w[1:]).strip("{}() \t").lower(), [])
        elif cur is None:
            raise ValueError(f"unexpected line {s!r}")
        else:
            cards[cur][1].append(s)
    return cards


def blocks(text):
    """(keys, {block: lines}) of a wannier90 .win file"""
    keys, blk, cur = {}, {}, None
    for line in text.split("\n"):
        s = re.sub(r"!.*", "", line).strip()
        if not s:
            continue
        w = s.lower().split()
        if w[0] == "begin":
            cur = w[1]
            if cur in blk:
                raise ValueError(f"block {cur} is given twice")
            blk[cur] = []
        elif w[0] == "end":
            if w[1] != cur:
                raise ValueError(f"end {w[1]} closes {cur}")
            cur = None
        elif cur is not None:
            blk[cur].append(s)
        else:
            k, v = re.split(r"\s*[=:]\s*", s, maxsplit=1)
            if k.lower() in keys:
                raise ValueError(f"{k} is given twice")
            keys[k.lower()] = v
    return keys, blk


# ----- output files -----

def num(x):
    return f"{x:.17E}".replace("E+", "E+0").replace("E-", "E-0")


def vec(v, per=3):
    v = [num(float(x)) for x in v]
    return "\n".join("  " + "  ".join(v[i:i + per]) for i in range(0, len(v), per))


def structure(d, section, A, alat):
    s = f'<atomic_species ntyp="{len(d["species"])}">'
    for n, pp in d["species"]:
        s += f'<species name="{n}"><mass>{num(1.0)}</mass><pseudo_file>{pp}</pseudo_file></species>\n'
    s += f'</atomic_species>\n<atomic_structure nat="{len(d["types"])}" alat="{alat}"><atomic_positions>\n'
    for i, (t, x) in enumerate(zip(d["types"], d["pos"])):
        s += f'<atom name="{t}" index="{i + 1}">{"  ".join(num(c) for c in A @ np.asarray(x, float))}</atom>\n'
    s += "</atomic_positions><cell>\n"
    for i in range(3):
        s += f"<a{i + 1}>{'  '.join(num(c) for c in A[:, i])}</a{i + 1}>\n"
    return s + "</cell></atomic_structure>\n"


def xml(d):
    """data file of pw.x: d has A (bohr, columns), A_in, species, types, pos (crystal), sym [(mat, trans|None, kind)], k (crystal), bands (Hartree), fermi, ecut (Hartree), smearing, para"""
    A, alat = d["A"], d["alat"]
    B = np.linalg.inv(A).T * alat  # rows of the file are the columns of this, in 2 pi/alat
    p = d["para"]
    s = f"""<?xml version="1.0" encoding="UTF-8"?>
<qes:espresso xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">
<!-- All quantities are in Hartree atomic units unless otherwise specified -->
<parallel_info><nprocs>{p[0]}</nprocs><nthreads>1</nthreads><ntasks>{p[1]}</ntasks><nbgrp>1</nbgrp><npool>{p[2]}</npool><ndiag>{p[3]}</ndiag></parallel_info>
<input>
{structure(d["in"], "input", d["in"]["A"], alat)}
<spin><lsda>false</lsda><noncolin>{str(d["soc"]).lower()}</noncolin><spinorbit>{str(d["soc"]).lower()}</spinorbit></spin>
<bands>{d["smearing_in"]}</bands>
<basis><ecutwfc>{num(d["in"]["ecut"])}</ecutwfc><ecutrho>{num(4 * d["in"]["ecut"])}</ecutrho></basis>
</input>
<output>
{structure(d, "output", A, alat)}
<symmetries><nsym>{sum(k == "crystal_symmetry" for _, _, k in d["sym"])}</nsym><nrot>{len(d["sym"])}</nrot><space_group>0</space_group>
"""
    for i, (m, t, kind) in enumerate(d["sym"]):
        s += f'<symmetry><info name="operation {i}">{kind}</info><rotation rank="2" dims="3 3">\n{vec(np.ravel(m))}\n</rotation>\n'
        if t is not None:
            s += f"<fractional_translation>\n{vec(t)}\n</fractional_translation>"
        s += "</symmetry>\n"
    s += f"""</symmetries>
<basis_set><ecutwfc>{num(d["ecut"])}</ecutwfc><ecutrho>{num(4 * d["ecut"])}</ecutrho><reciprocal_lattice>
"""
    for i in range(3):
        s += f"<b{i + 1}>{'  '.join(num(c) for c in B[:, i])}</b{i + 1}>\n"
    s += f"""</reciprocal_lattice></basis_set>
<magnetization><lsda>false</lsda><noncolin>{str(d["soc"]).lower()}</noncolin><spinorbit>{str(d["soc"]).lower()}</spinorbit></magnetization>
<band_structure><nbnd>{len(d["bands"][0])}</nbnd><fermi_energy>{num(d["fermi"])}</fermi_energy><nks>{len(d["k"])}</nks>{d["smearing"]}
"""
    for k, e in zip(d["k"], d["bands"]):
        s += f'<ks_energies><k_point weight="1.0">{"  ".join(num(c) for c in B @ np.asarray(k, float))}</k_point><npw>1</npw><eigenvalues size="{len(e)}">\n{vec(e, 5)}\n</eigenvalues><occupations size="{len(e)}">\n{vec(np.linspace(1, 0, len(e)), 5)}\n</occupations></ks_energies>\n'
    return s + "</band_structure></output></qes:espresso>\n"


def put(name, text, mode="w"):
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    with open(name, mode) as f:
        f.write(text)


def upf(z, wfc, rho):
    return f'<UPF version="2.0.1">\n<PP_INFO>generated</PP_INFO>\n<PP_HEADER element="X" z_valence="{z:.6E}" wfc_cutoff="{wfc:.8E}" rho_cutoff="{rho:.8E}"/>\n</UPF>\n'


def record(*parts):
    """one record of a Fortran unformatted file"""
    b = b"".join(np.ascontiguousarray(p).tobytes() for p in parts)
    m = np.int32(len(b)).tobytes()
    return m + b + m
