"""C19: standardization of the cell."""

import itertools

import numpy as np
from wulfric import Lattice, lattice_example
from wulfric.exceptions import StandardizationTypeMismatch

from mc.core import STATS, Space, expect
from mc.models import ATOMS, MATRICES, NOTATIONS_ALL, ONSITES, SpinHamiltonian, close, notation_or_none, raw, same_map

from magnopy import Energy, MagnonDispersion  # noqa: E402

TYPES = [
    "CUB", "FCC", "BCC", "TET", "BCT1", "BCT2", "ORC", "ORCF1", "ORCF2", "ORCF3", "ORCI", "ORCC",
    "HEX", "RHL1", "RHL2", "MCL", "MCLC1", "MCLC2", "MCLC3", "MCLC4", "MCLC5", "TRI1a", "TRI2a", "TRI1b", "TRI2b",
]  # fmt: skip


def transformations(tier):
    """Choices of the lattice vectors: signed permutations and shears."""
    out = []
    for perm in itertools.permutations(range(3)):
        for signs in itertools.product((1, -1), repeat=3):
            T = np.zeros((3, 3), dtype=int)
            for row, (p, s) in enumerate(zip(perm, signs)):
                T[row, p] = s
            out.append(T.tolist())
    for i, j in itertools.permutations(range(3), 2):
        for n in (1, -1, 2):
            T = np.eye(3, dtype=int)
            T[i, j] = n
            out.append(T.tolist())
    if tier != "quick":
        base = list(out)
        for A in base[::3]:
            for B in base[48:]:
                out.append((np.array(A) @ np.array(B)).tolist())
    return out


BONDS = [
    ("A", "B", (0, 0, 0), 0),
    ("A", "B", (1, -2, 0), 1),
    ("B", "C", (0, 1, 3), 2),
    ("A", "A", (1, 0, 0), 1),
    ("C", "C", (0, -1, 1), 2),
    ("B", "C", (-1, 0, 0), None),
]


def build(cell, notation, spiral):
    ham = SpinHamiltonian(cell=cell)
    for name, pos, spin, g in ATOMS:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g)
    ham.notation = tuple(notation)
    for a, b, R, m in BONDS:
        ham.add_exchange(a, b, R, matrix=np.zeros((3, 3)) if m is None else MATRICES[m])
    ham.add_on_site("A", matrix=ONSITES[0])
    ham.add_on_site("C", matrix=ONSITES[1])
    if spiral:
        ham.spiral_vector = [0.13, -0.42, 0.27]
        ham.cone_axis = [0.2, -0.5, 0.7]
    return ham


def view(ham):
    """Everything in the coordinates of space. Keys of bonds are atoms and the vector."""
    cell = np.array(ham.cell, dtype=float)
    rcell = 2 * np.pi * np.linalg.inv(cell).T
    exchange, on_site = raw(ham)
    positions = {a.name: a.position @ cell for a in ham.atoms}
    bonds = []
    for (a, b, R), m in exchange.items():
        bonds.append((a, b, np.array(R) @ cell + positions[b] - positions[a], m))
    return {
        "cell": cell,
        "positions": positions,
        "atoms": [(a.name, tuple(a.spin_vector), a.g_factor) for a in ham.atoms],
        "bonds": bonds,
        "on_site": on_site,
        "notation": notation_or_none(ham),
        "spiral": None if ham.spiral_vector is None else ham.spiral_vector @ rcell,
        "cone": None if ham.cone_axis is None else np.array(ham.cone_axis),
    }


def compare(got, want, what):
    size = np.max(np.abs(want["cell"]))
    tol = 1e-6 * max(1.0, size)
    T = got["cell"] @ np.linalg.inv(want["cell"])
    expect(np.all(np.abs(T - np.rint(T)) < 1e-5) and abs(abs(np.linalg.det(T)) - 1) < 1e-5, f"{what}: new cell {got['cell'].tolist()} is not a cell of the same lattice")
    expect(got["atoms"] == want["atoms"], f"{what}: atoms {got['atoms']}")
    for name, r in want["positions"].items():
        expect(np.max(np.abs(got["positions"][name] - r)) < tol, f"{what}: atom {name} is moved from {r} to {got['positions'][name]}")
    expect(len(got["bonds"]) == len(want["bonds"]), f"{what}: {len(got['bonds'])} bonds, expected {len(want['bonds'])}")
    for a, b, v, m in want["bonds"]:
        same = [x for x in got["bonds"] if x[0] == a and x[1] == b and np.max(np.abs(x[2] - v)) < tol]
        expect(len(same) == 1, f"{what}: bond {a} {b} {v} is found {len(same)} times")
        expect(close(same[0][3], m, 1e-12), f"{what}: parameter of the bond {a} {b} {v}")
    same_map(got["on_site"], want["on_site"], f"{what}: on-site", 1e-12)
    expect(got["notation"] == want["notation"], f"{what}: notation {got['notation']}")
    for key in ("spiral", "cone"):
        expect((got[key] is None) == (want[key] is None), f"{what}: {key}")
        if want[key] is not None:
            expect(np.max(np.abs(got[key] - want[key])) < 1e-6 * max(1.0, np.max(np.abs(want[key]))), f"{what}: {key} {got[key]}, expected {want[key]}")


def refusal(cell):
    """Whether the library of lattices does not give a standard cell of the same lattice."""
    try:
        S = Lattice(cell).S_matrix
    except StandardizationTypeMismatch:
        return True
    return bool(np.max(np.abs(S - np.rint(S))) > 1e-3)


def judge(case):
    name, T, scale, notation, spiral = case
    judge_cell(case, np.array(T) @ np.array(lattice_example(name).cell) * scale, scale, notation, spiral)


def judge_cell(case, cell, scale, notation, spiral):
    refused = refusal(cell)
    ham = build(cell, NOTATIONS_ALL[notation], spiral)
    want = view(ham)
    lengths = {}
    for a, b, R, _ in ham.exchange:
        lengths[(a.name, b.name, tuple(R))] = ham.get_distance(a, b, R)
    so = [a.spin_vector for a in ham.magnetic_atoms]
    e_ferro = Energy(ham).ferro(so)
    q = np.array([0.3, -0.2, 0.7]) / scale
    e_spiral = Energy(ham).spiral(so, [0.1, 0.2, 0.9], q)
    h = MagnonDispersion(ham).h(q)
    try:
        ham.standardize()
    except (StandardizationTypeMismatch, ValueError) as e:
        # Refusal of the library that defines the standard cells: nothing is changed
        expect(refused, f"{case}: standardization is refused: {type(e).__name__}")
        got = view(ham)
        expect(np.array_equal(got["cell"], want["cell"]), f"{case}: cell is changed by the refused standardization")
        compare(got, want, f"{case}, refused")
        STATS.outcome("refused by wulfric")
        return
    STATS.step()
    expect(not refused, f"{case}: cell of another lattice is accepted")
    STATS.outcome("standardized")
    got = view(ham)
    compare(got, want, f"{case}")
    expect(sorted(round(x, 6) for x in lengths.values()) == sorted(round(ham.get_distance(a, b, R), 6) for a, b, R, _ in ham.exchange), f"{case}: lengths of the bonds")
    # consequences
    expect(abs(Energy(ham).ferro(so) - e_ferro) < 1e-8, f"{case}: energy of the ferromagnetic state")
    expect(abs(Energy(ham).spiral(so, [0.1, 0.2, 0.9], q) - e_spiral) < 1e-6, f"{case}: energy of the spiral state")
    expect(close(np.linalg.eigvalsh(MagnonDispersion(ham).h(q)), np.linalg.eigvalsh(h), 1e-6), f"{case}: quadratic form of magnons")
    # the container is still consistent
    exchange, _ = raw(ham)
    for (a, b, R), m in exchange.items():
        expect((a, b, R) in ham, f"{case}: bond {(a, b, R)} is not found by its name")
        expect(close(ham[a, b, R].matrix, m, 1e-12), f"{case}: bond {(a, b, R)} by its name")
        if notation_or_none(ham)[0]:
            mirror = (b, a, tuple(-x for x in R))
            expect(mirror in exchange and close(exchange[mirror], m.T, 1e-12), f"{case}: mirrored bond of {(a, b, R)}")
    # the second time
    try:
        ham.standardize()
    except StandardizationTypeMismatch:
        STATS.outcome("refused the second time")
    STATS.step()
    compare(view(ham), want, f"{case}, second standardization")
    expect(np.allclose(got["cell"], np.array(ham.cell), atol=1e-9), f"{case}: another cell after the second standardization")
    STATS.state(tuple(np.round(got["cell"], 6).ravel()))


def cases(tier):
    n = 0
    for name in TYPES:
        for T in transformations(tier):
            n += 1
            scale = [1.0, 0.7, 2.3][n % 3]
            yield [name, T, scale, n % len(NOTATIONS_ALL), n % 2]


# --------------------------------------- primitive cells of all orders of the parameters
def conventional(kind, a, b, c, alpha):
    """Primitive cell of the lattice with any order of the parameters of its conventional cell."""
    cell = np.array([[a, 0, 0], [0, b, 0], [0, c * np.cos(np.radians(alpha)), c * np.sin(np.radians(alpha))]])
    centring = {
        "P": np.eye(3),
        "C": [[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]],
        "A": [[1, 0, 0], [0, 0.5, 0.5], [0, -0.5, 0.5]],
        "I": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
        "F": [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
    }[kind]
    return np.array(centring) @ cell


def judge_parameters(case):
    kind, a, b, c, alpha, spiral = case
    judge_cell(case, conventional(kind, a, b, c, alpha), 1.0, int(a * 10 + b + c) % len(NOTATIONS_ALL), spiral)


def parameters_cases(tier):
    lengths = [2.0, 3.0, 4.5] if tier == "quick" else [2.0, 2.5, 3.0, 3.6, 4.5]
    for kind in "PCAIF":
        for n, (a, b, c) in enumerate(itertools.product(lengths, repeat=3)):
            for alpha in (90.0, 60.0, 75.0, 110.0):
                yield [kind, a, b, c, alpha, n % 2]


def judge_later(case):
    try:
        _judge_later(case)
    except StandardizationTypeMismatch:
        name, T, _ = case
        expect(refusal(np.array(T) @ np.array(lattice_example(name).cell)), f"{case}: standardization is refused")
        STATS.outcome("refused by wulfric")


def _judge_later(case):
    """Operations after the standardization act on the standardized Hamiltonian."""
    name, T, action = case
    cell = np.array(T) @ np.array(lattice_example(name).cell)
    ham = build(cell, NOTATIONS_ALL[0], True)
    if action == "copy":
        other = ham.copy()
        before = view(other)
        ham.standardize()
        after = view(other)
        expect(np.array_equal(before["cell"], after["cell"]), f"{case}: the copy is standardized as well")
        compare(after, before, f"{case}: copy")
        expect(set(raw(other)[0]) == set(raw(build(cell, NOTATIONS_ALL[0], True))[0]), f"{case}: bonds of the copy")
    elif action == "notation":
        ham.standardize()
        want = view(ham)
        ham.double_counting = False
        ham.double_counting = True
        got = view(ham)
        for bond in want["bonds"]:
            same = [x for x in got["bonds"] if x[0] == bond[0] and x[1] == bond[1] and np.max(np.abs(x[2] - bond[2])) < 1e-6]
            expect(len(same) == 1 and close(same[0][3], bond[3], 1e-12), f"{case}: bond {bond} after the change of the notation")
        expect(len(got["bonds"]) == len(want["bonds"]), f"{case}: number of bonds after the change of the notation")
    elif action == "remove":
        ham.standardize()
        exchange, _ = raw(ham)
        first = sorted(exchange)[0]
        ham.remove_exchange(*first)
        mirror = (first[1], first[0], tuple(-x for x in first[2]))
        expect(set(raw(ham)[0]) == set(exchange) - {first, mirror}, f"{case}: bonds after the removal")
    elif action == "filter":
        want = [d for a, b, R, _ in ham.exchange for d in [ham.get_distance(a, b, R)]]
        limit = sorted(want)[len(want) // 2] + 1e-5
        ham.standardize()
        ham.filter(max_distance=limit)
        expect(len(raw(ham)[0]) == sum(d <= limit for d in want), f"{case}: bonds after the filter")
    elif action == "empty":
        ham = SpinHamiltonian(cell=cell)
        ham.standardize()
        for atom_name, pos, spin, g in ATOMS[:2]:
            ham.add_atom(name=atom_name, position=pos, spin=spin, g_factor=g)
        want = view(ham)
        ham.standardize()
        compare(view(ham), want, f"{case}: no parameters")
    STATS.step()
    STATS.state(str(case))


def later_cases(tier):
    for name in TYPES:
        for T in transformations("quick")[:: 11 if tier == "quick" else 1]:
            for action in ("copy", "notation", "remove", "filter", "empty"):
                yield [name, T, action]


SPACES = [
    Space("cells", cases, judge, "all types of lattices x choices of the lattice vectors (signed permutations and shears) x notations"),
    Space("parameters", parameters_cases, judge_parameters, "primitive cells of five centrings x all orders of the lengths of the conventional cell x angles"),
    Space("later", later_cases, judge_later, "operations after the standardization"),
]
ASSUMPTIONS = [
    "wulfric chooses the standardized cell; it is only required to be a cell of the same lattice",
]
