"""C17: files of Vampire."""

import builtins
import contextlib
import itertools
import os

import numpy as np

from mc.core import STATS, Space, expect, scratch
from mc.models import (
    ATOMS,
    CELLS,
    MATRICES,
    NOTATIONS_ALL,
    ONSITES,
    ALL,
    SpinHamiltonian,
    build,
    physics,
    same_snapshot,
    snapshot,
    structure,
)

from magnopy.exceptions import NotationError  # noqa: E402
from magnopy.io import dump_mat, dump_ucf, dump_vampire  # noqa: E402

JOULE = 1.602176634e-22  # one meV


def clean(text):
    out = []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if line:
            out.append(line)
    return out


def parse_ucf(text, what):
    lines = clean(text)
    size = [float(x) for x in lines[0].split()]
    cell = np.array([[float(x) for x in line.split()] for line in lines[1:4]])
    n_atoms, n_materials = [int(x) for x in lines[4].split()]
    atoms = []
    for line in lines[5 : 5 + n_atoms]:
        words = line.split()
        atoms.append((int(words[0]), [float(x) for x in words[1:4]], int(words[4])))
    head = lines[5 + n_atoms].split()
    expect(head[1] == "tensorial", f"{what}: type of the interactions {head}")
    rest = lines[6 + n_atoms :]
    expect(int(head[0]) == len(rest), f"{what}: {head[0]} interactions are announced, {len(rest)} are listed")
    interactions = []
    for n, line in enumerate(rest):
        words = line.split()
        expect(len(words) == 15, f"{what}: interaction {line}")
        expect(int(words[0]) == n, f"{what}: number of the interaction {words[0]}, expected {n}")
        i, j, a, b, c = [int(x) for x in words[1:6]]
        interactions.append((i, j, (a, b, c), np.array([float(x) for x in words[6:]]).reshape(3, 3)))
    expect([a[0] for a in atoms] == list(range(n_atoms)), f"{what}: indices of atoms {[a[0] for a in atoms]}")
    return size, cell, n_materials, atoms, interactions


def near(a, b, rel, floor=0.0):
    a, b = np.array(a), np.array(b)
    return bool(np.all(np.abs(a - b) <= rel * np.abs(b) + floor))


def masked(m, options):
    if options.get("mask") == "half":
        return m / 2
    if options.get("mask") == "xx":
        out = np.zeros((3, 3))
        out[0, 0] = m[0, 0]
        return out
    if options.get("mask") == "row":
        out = np.zeros((3, 3))
        out[0] = m[0]
        return out
    if options.get("mask") == "transpose":
        return m.T
    if not options.get("dmi", True):
        m = (m + m.T) / 2
    if not options.get("anisotropic", True):
        m = (m - m.T) / 2 + np.trace(m) / 3 * np.eye(3)
    return m


MASKS = {"row": lambda m: np.array([m[0], [0, 0, 0], [0, 0, 0]]), "half": lambda m: m / 2, "xx": lambda m: np.diag([m[0, 0], 0, 0]), "transpose": lambda m: m.T}


def call_options(options):
    out = {k: v for k, v in options.items() if k in ("anisotropic", "dmi", "decimals", "materials", "nologo")}
    if options.get("mask"):
        out["custom_mask"] = MASKS[options["mask"]]
    return out


def magnetic(ham):
    """Atoms with at least one parameter, in the order of the crystal."""
    names = set()
    for a1, a2, _, _ in ham.exchange:
        names |= {a1.name, a2.name}
    for a, _ in ham.on_site:
        names.add(a.name)
    return [a for a in ham.atoms if a.name in names]


def check_ucf(text, ham, options, what):
    lengths, cell, n_materials, atoms, interactions = parse_ucf(text, what)
    wanted = magnetic(ham)
    expect(near(cell, ham.cell, 0, 0.6e-8), f"{what}: cell {cell.tolist()}")
    expect(near(lengths, np.linalg.norm(ham.cell, axis=1), 0, 0.6e-8), f"{what}: size of the cell {lengths}")
    materials = options.get("materials") or list(range(len(wanted)))
    expect(n_materials == len(set(materials)), f"{what}: {n_materials} materials")
    expect(len(atoms) == len(wanted), f"{what}: {len(atoms)} atoms, expected {len(wanted)}")
    for (_, position, material), a, m in zip(atoms, wanted, materials):
        expect(near(position, a.position, 0, 0.6e-8), f"{what}: position of {a.name} {position}")
        expect(material == m, f"{what}: material of {a.name} {material}, expected {m}")
    # energy of the Hamiltonian: E = sum_pairs S_i K S_j + sum S_i A S_i
    # energy in Vampire: E = -1/2 sum e_i J_ij e_j over all listed interactions, unit vectors e
    K, A = physics(ham)
    index = {a.name: n for n, a in enumerate(wanted)}
    spin = {a.name: float(np.linalg.norm(a.spin_vector)) for a in wanted}
    expected, size = {}, {}
    for (n1, n2, ijk), k in K.items():
        key = (index[n1], index[n2], ijk)
        size[key] = size[(key[1], key[0], tuple(-x for x in ijk))] = np.abs(k).max() * spin[n1] * spin[n2] * JOULE
        J = masked(-k * spin[n1] * spin[n2], options) * JOULE
        Jm = masked(-k.T * spin[n1] * spin[n2], options) * JOULE
        expected[(index[n1], index[n2], ijk)] = J
        expected[(index[n2], index[n1], tuple(-x for x in ijk))] = Jm
    for n, a in A.items():
        size[(index[n], index[n], (0, 0, 0))] = 2 * np.abs(a).max() * spin[n] ** 2 * JOULE
        expected[(index[n], index[n], (0, 0, 0))] = masked(-2 * a * spin[n] ** 2, options) * JOULE
    got = {}
    for i, j, ijk, J in interactions:
        expect((i, j, ijk) not in got, f"{what}: interaction {(i, j, ijk)} is listed twice")
        got[(i, j, ijk)] = J
    expect(set(got) == set(expected), f"{what}: interactions {sorted(got)}, expected {sorted(expected)}")
    rel = 0.6 * 10.0 ** (-options.get("decimals", 5))
    for key, J in expected.items():
        # elements that have to vanish may be left with the rounding errors
        left = 1e-14 * size[key] + 1e-20 * JOULE
        expect(near(got[key], J, rel * 1.01 + 1e-9, left), f"{what}: interaction {key}: {got[key].tolist()}, expected {J.tolist()}")


def check_mat(text, ham, options, what):
    wanted = magnetic(ham)
    materials = options.get("materials") or list(range(len(wanted)))
    values = {}
    for line in clean(text):
        line = line.split("!")[0]
        key, value = [x.strip() for x in line.split("=")]
        expect(key not in values, f"{what}: {key} is given twice")
        values[key] = value
    expect(int(values.pop("material:num-materials")) == max(materials) + 1, f"{what}: number of materials")
    seen = {}
    for a, m in zip(wanted, materials):
        seen.setdefault(m, a)
    for m, a in seen.items():
        p = f"material[{m + 1}]:"
        expect(values.pop(p + "material-name") == a.name, f"{what}: name of {m}")
        expect(values.pop(p + "material-element") == a.type, f"{what}: element of {m}")
        S = float(np.linalg.norm(a.spin_vector))
        moment = float(values.pop(p + "atomic-spin-moment"))
        expect(abs(moment - abs(S * a.g_factor)) < 1e-6, f"{what}: magnetic moment of {a.name} {moment}, expected {S * a.g_factor}")
        direction = values.pop(p + "initial-spin-direction")
        if S == 0:
            expect(direction == "random", f"{what}: direction of {a.name} without spin is {direction}")
            continue
        direction = [float(x) for x in direction.split(",")]
        expect(near(direction, a.spin_vector / S, 0, 0.6e-8), f"{what}: direction of {a.name} {direction}, expected {a.spin_vector / S}")
    left = [k for k in values if not k.endswith(("damping-constant", "uniaxial-anisotropy-constant"))]
    expect(not left, f"{what}: unexpected {left}")


def judge_model(ham, options, what):
    before = snapshot(ham)
    kwargs = call_options(options)
    # three ways: text, files one by one, all files together
    text = dump_ucf(ham, **kwargs)
    same_snapshot(snapshot(ham), before, f"{what}: after UCF as text", tol=0)
    check_ucf(text, ham, options, f"{what}: text")
    mat_kwargs = {k: v for k, v in kwargs.items() if k in ("materials", "nologo")}
    mat = dump_mat(ham, **mat_kwargs)
    check_mat(mat, ham, options, f"{what}: text")
    folder = scratch()
    with working(folder):
        out = dump_ucf(ham, filename="one.UCF", **kwargs)
        expect(out is None, f"{what}: text is returned together with the file")
        check_ucf(read("one.UCF"), ham, options, f"{what}: file")
        dump_mat(ham, filename="one.mat", **mat_kwargs)
        check_mat(read("one.mat"), ham, options, f"{what}: file")
        seed = options.get("seedname", "vampire")
        if "seedname" in options:
            dump_vampire(ham, seed, **kwargs)
        else:
            dump_vampire(ham, **kwargs)
        check_ucf(read(seed + ".UCF"), ham, options, f"{what}: all files")
        check_mat(read(seed + ".mat"), ham, options, f"{what}: all files")
        settings = {k.strip(): v.strip() for k, v in (line.split("=") for line in clean(read("input")))}
        expect(settings.get("material:file") == seed + ".mat" and settings.get("material:unit-cell-file") == seed + ".UCF", f"{what}: input file {settings}")
        for name in ("one.UCF", "one.mat", seed + ".UCF", seed + ".mat", "input"):
            os.remove(name)
    same_snapshot(snapshot(ham), before, f"{what}: after all files", tol=0)
    STATS.step(5)
    STATS.state(what)


def read(name):
    with open(name, encoding="utf-8") as f:
        return f.read()


@contextlib.contextmanager
def working(folder):
    cwd = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(cwd)


OPTIONS = [
    {},
    {"nologo": True, "decimals": 12},
    {"dmi": False, "nologo": True},
    {"anisotropic": False, "nologo": True},
    {"anisotropic": False, "dmi": False, "nologo": True, "seedname": "other"},
    {"mask": "half", "dmi": False, "anisotropic": False, "nologo": True},
    {"mask": "xx", "nologo": True},
    {"mask": "row", "nologo": False, "decimals": 7, "seedname": "Cr_I3-X"},
    {"mask": "transpose", "nologo": True, "decimals": 8, "seedname": "a.b"},
]


def materials_of(count):
    """All assignments of materials 0..m to the atoms without gaps (patterns for many atoms)."""
    if count > 4:
        r = list(range(count))
        return [[0] * count, r, r[::-1], [i % 2 for i in r], [i % 3 for i in r], [i // 2 for i in r], [max(i - 2, 0) for i in r], r[5:] + r[:5]]
    return [list(m) for m in itertools.product(range(count), repeat=count) if set(m) == set(range(max(m) + 1))]


def judge(case):
    name, notation, option, materials = case
    ham = build(structure(name, notation))
    options = dict(OPTIONS[option])
    if materials is not None:
        options["materials"] = materials
    judge_model(ham, options, f"{case}")


def cases(tier):
    for name in ALL:
        ham = build(structure(name, NOTATIONS_ALL[0]))
        count = len(magnetic(ham))
        for notation in NOTATIONS_ALL:
            for option in range(len(OPTIONS)):
                for materials in [None] + materials_of(count):
                    yield [name, notation, option, materials]


def judge_values(case):
    kind, arg = case
    ham = SpinHamiltonian(cell=arg if kind == "cell" else CELLS["tricl"])
    spins = arg if kind == "spins" else [[0, 0, 1.5], [0.6, 0.0, 0.8], [0.0, 0.0, 1.0]]
    gs = arg if kind == "g" else [2.0, 2.0, 2.0]
    order = arg if kind == "order" else [0, 1, 2]
    names = ["Cr1", "Cr2", "I3"]
    for n in order:
        position = [0.1 * n, -0.25 * n, 0.3333333333] if kind != "positions" else arg[n]
        ham.add_atom(name=names[n], position=position, spin=spins[n], g_factor=gs[n])
    ham.notation = (True, False, 0.5, 1.0)
    scale = arg if kind == "scale" else 1.0
    ijk = tuple(arg) if kind == "ijk" else (1, 0, -1)
    ham.add_exchange("Cr1", "Cr2", ijk, matrix=np.array(MATRICES[0]) * scale)
    ham.add_exchange("Cr2", "Cr2", (0, 1, 0), matrix=np.array(MATRICES[1]) * scale)
    ham.add_on_site("Cr2", matrix=np.array(ONSITES[0]) * scale)
    judge_model(ham, {"decimals": 9, "nologo": True}, f"{case}")


def values_cases(tier):
    for cell in ([[1 / 3, 2 / 3, 1], [0.1, -0.7, 0.2], [1e-5, 0.3, 0.9]], [[-3.5, 0.1, 0], [0, 1e2, 0], [0, 0, 1234.56789]], [[0, 0, 2], [2, 0, 0], [0, 2, 0]]):
        yield ["cell", cell]
    for spins in ([[0, 0, -1.5], [1, 0, 0], [0, 1, 0]], [[1 / 3, 2 / 3, -2 / 3], [-0.5, 0.5, 1e-3], [1, 1, 1]], [[2.5, 0, 0], [0, -0.5, 0], [3, 4, 0]], [[0, 0, 1.5], [0, 0, 0], [1, 0, 0]], [[0, 0, 0], [0.6, 0, -0.8], [0, 0, 0]]):
        yield ["spins", spins]
    for position in ([[-0.25, 1.75, 12.125], [0.9, -0.1, -3.3], [1.0, 2.0, -1.0]], [[0.99999999, 1e-7, -1e-7], [-5, 7, 0.5], [1 / 3, 4 / 3, -2 / 3]]):
        yield ["positions", position]
    for g in ([2.0023, 1.9, 1.0], [-2.0, 0.5, 2.0]):
        yield ["g", g]
    for order in itertools.permutations(range(3)):
        yield ["order", list(order)]
    for scale in (1e-9, 1e-3, 12345.678, -1e6):
        yield ["scale", scale]
    for ijk in itertools.product(range(-2, 3), repeat=3):
        yield ["ijk", list(ijk)]
    for ijk in ([10, 0, 0], [-123, 456, 0]):
        yield ["ijk", ijk]


# ------------------------------------------------------------------ failures
class Failure(Exception):
    pass


@contextlib.contextmanager
def failing_files(fail_at):
    """The number ``fail_at`` operation (open or write) on a file fails."""
    original = builtins.open
    counter = {"n": 0}

    def tick():
        number = counter["n"]
        counter["n"] += 1
        if number == fail_at:
            raise OSError("injected failure")

    class File:
        def __init__(self, f):
            self.f = f

        def write(self, text):
            tick()
            return self.f.write(text)

        def __enter__(self):
            self.f.__enter__()
            return self

        def __exit__(self, *args):
            return self.f.__exit__(*args)

        def __getattr__(self, name):
            return getattr(self.f, name)

    def fake(*args, **kwargs):
        tick()
        return File(original(*args, **kwargs))

    builtins.open = fake
    try:
        yield counter
    finally:
        builtins.open = original


def judge_failure(case):
    kind, name, notation, at = case
    ham = build(structure(name, notation))
    before = snapshot(ham)
    caught = None
    with working(scratch()):
        try:
            if kind == "file":
                with failing_files(at):
                    dump_vampire(ham, "seed")
            else:
                number = [0]

                def mask(m):
                    number[0] += 1
                    if number[0] == at + 1:
                        raise Failure
                    return m

                dump_vampire(ham, "seed", custom_mask=mask)
        except (OSError, Failure) as e:
            caught = e
    STATS.step()
    STATS.state(str(case))
    STATS.outcome("failed" if caught else "survived")
    expect(caught is not None or kind == "mask", f"{case}: the failure is hidden")
    same_snapshot(snapshot(ham), before, f"{case}: after the failure", tol=0)
    # and the next dump is correct
    judge_model(ham, {"nologo": True}, f"{case}: next dump")


def failure_cases(tier):
    os.makedirs(scratch(), exist_ok=True)
    for name in ALL:
        for n, notation in enumerate(NOTATIONS_ALL):
            if tier == "quick" and n % 3:
                continue
            with working(scratch()), failing_files(-1) as counter:
                dump_vampire(build(structure(name, notation)), "seed")
            for at in range(counter["n"]):
                yield ["file", name, notation, at]
            for at in range(4):
                yield ["mask", name, notation, at]


def judge_undefined(case):
    missing, content = case
    ham = SpinHamiltonian(cell=CELLS["ortho"])
    for name, pos, spin, g in ATOMS[:2]:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g)
    if "exchange" in content:
        ham.add_exchange("A", "B", (0, 0, 0), matrix=MATRICES[0])
    if "on-site" in content:
        ham.add_on_site("A", matrix=ONSITES[0])
    values = {"double_counting": True, "spin_normalized": False, "exchange_factor": 0.5, "on_site_factor": -1.0}
    for key, value in values.items():
        if key not in missing:
            setattr(ham, key, value)
    before = snapshot(ham)
    STATS.step()
    STATS.state(str(case))
    try:
        dump_ucf(ham)
    except NotationError:
        expect(missing, f"{case}: NotationError for the defined notation")
        STATS.outcome("rejected")
    else:
        # without the notation the energy is not known
        expect(not missing, f"{case}: parameters of the undefined notation are written")
        STATS.outcome("written")
    same_snapshot(snapshot(ham), before, f"{case}", tol=0)


def undefined_cases(tier):
    keys = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
    yield [[], ["exchange", "on-site"]]
    for n in range(1, 5):
        for missing in itertools.combinations(keys, n):
            yield [list(missing), ["exchange", "on-site"]]


SPACES = [
    Space("models", cases, judge, "models x notations x output options x all assignments of materials"),
    Space("values", values_cases, judge_values, "cells, spins, g-factors, order of atoms, magnitudes, all indices of cells"),
    Space("failures", failure_cases, judge_failure, "a failure of every operation on the files and of the mask at every bond; the next dump is correct"),
    Space("undefined", undefined_cases, judge_undefined, "all subsets of the undefined notation"),
]
ASSUMPTIONS = [
    "convention of Vampire: E = -1/2 sum of e_i J_ij e_j over all listed interactions with unit vectors e, energies in joules; on-site terms are listed as interactions of an atom with itself",
    "lattice vectors are written in Angstrom",
]
