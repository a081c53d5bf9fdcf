"""Small spin Hamiltonians, built and observed through the public API only."""

import itertools

import numpy as np

from mc.core import expect, load_target

load_target()

from magnopy.spinham.hamiltonian import SpinHamiltonian  # noqa: E402
from magnopy.spinham.parameter import MatrixParameter  # noqa: E402
from wulfric import Atom  # noqa: E402

# --------------------------------------------------------------------------------------
# Values.  Every matrix is generic (no symmetry, all nine elements different, diagonal
# and antisymmetric part present), so a wrong index, sign or transposition is visible.
# --------------------------------------------------------------------------------------
MATRICES = [
    [[1.0, 0.3, -0.2], [0.5, -1.2, 0.4], [0.1, -0.6, 0.7]],
    [[-0.8, 0.25, 0.35], [-0.45, 0.6, -0.15], [0.55, 0.05, 1.1]],
    [[0.4, -0.9, 0.65], [0.2, 1.3, 0.85], [-0.3, 0.75, -0.5]],
    [[2.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 2.0]],
]
ONSITES = [
    [[0.7, 0.1, -0.3], [0.1, -0.4, 0.2], [-0.3, 0.2, 0.9]],
    [[-0.6, 0.35, 0.15], [0.35, 0.5, -0.25], [0.15, -0.25, 0.3]],
]
CELLS = {
    "cubic": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    "ortho": [[1.5, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.1]],
    "tricl": [[2.0, 0.3, -0.1], [0.4, 1.7, 0.2], [-0.5, 0.6, 2.4]],
    "left": [[0.0, 2.0, 0.3], [1.7, 0.2, 0.0], [0.1, 0.4, 3.0]],
}
ATOMS = [
    ["A", [0.0, 0.0, 0.0], [0.0, 0.0, 1.5], 2.0],
    ["B", [0.5, 0.25, 0.0], [0.6, 0.0, 0.8], 2.2],
    ["C", [0.1, 0.5, 0.75], [-1.0, 2.0, 2.0], 1.9],
]


def atoms_of(indices):
    return [ATOMS[i] for i in indices]


def build(spec):
    """spec: {"cell", "atoms": [[name, pos, spin, g]], "bonds": [[i, j, ijk, matrix]],
    "onsite": [[i, matrix]], "notation": None | str | list, "late_notation": bool}"""
    ham = SpinHamiltonian(cell=CELLS[spec["cell"]])
    for name, pos, spin, g in spec["atoms"]:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g, relative=True)
    names = [a[0] for a in spec["atoms"]]
    if spec.get("notation") is not None and not spec.get("late_notation"):
        set_notation(ham, spec["notation"])
    for i, j, ijk, m in spec.get("bonds", []):
        ham.add_exchange(
            names[i],
            names[j],
            tuple(ijk),
            matrix=MATRICES[m] if isinstance(m, int) else m,
        )
    for i, m in spec.get("onsite", []):
        ham.add_on_site(names[i], matrix=ONSITES[m] if isinstance(m, int) else m)
    if spec.get("notation") is not None and spec.get("late_notation"):
        set_notation(ham, spec["notation"])
    if spec.get("cone_axis") is not None:
        ham.cone_axis = spec["cone_axis"]
    if spec.get("spiral_vector") is not None:
        ham.spiral_vector = spec["spiral_vector"]
    return ham


def set_notation(ham, notation):
    if isinstance(notation, str):
        ham.notation = notation
    else:
        ham.notation = tuple(notation)


NOTATIONS_ALL = [
    list(n)
    for n in itertools.product([True, False], [True, False], [1.0, -0.5], [1.0, -2.0])
]


def notation_or_none(ham):
    """The four components, ``None`` for those that are not defined."""
    from magnopy.exceptions import NotationError

    out = []
    for name in ("double_counting", "spin_normalized", "exchange_factor", "on_site_factor"):
        try:
            out.append(getattr(ham, name))
        except NotationError:
            out.append(None)
    return out


def raw(ham):
    """Stored parameters as seen through the public iterators."""
    exchange = {}
    for a1, a2, ijk, p in ham.exchange:
        key = (a1.name, a2.name, tuple(int(x) for x in ijk))
        expect(key not in exchange, f"bond {key} is listed twice")
        exchange[key] = np.array(p.matrix, dtype=float)
    on_site = {}
    for a, p in ham.on_site:
        expect(a.name not in on_site, f"on-site of {a.name} is listed twice")
        on_site[a.name] = np.array(p.matrix, dtype=float)
    return exchange, on_site


def snapshot(ham):
    """Everything observable about a Hamiltonian; two equal snapshots = same model."""
    exchange, on_site = raw(ham)
    atoms = [
        (
            a.name,
            a.index,
            tuple(np.round(a.position, 10)),
            tuple(np.round(a.spin_vector, 10)),
            round(float(a.g_factor), 10),
        )
        for a in ham.atoms
    ]
    return {
        "cell": np.array(ham.cell, dtype=float),
        "atoms": atoms,
        "notation": notation_or_none(ham),
        "exchange": exchange,
        "on_site": on_site,
        "spiral_vector": None if ham.spiral_vector is None else np.array(ham.spiral_vector),
        "cone_axis": None if ham.cone_axis is None else np.array(ham.cone_axis),
    }


def close(a, b, tol=1e-9, floor=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if np.isnan(a).any() or np.isnan(b).any():
        return False
    scale = max(floor, float(np.max(np.abs(b))) if b.size else floor)
    return bool(np.all(np.abs(a - b) <= tol * scale))


def same_map(got, want, what, tol=1e-9, floor=1e-9):
    expect(
        set(got) == set(want),
        f"{what}: keys {sorted(map(str, set(got) ^ set(want)))} differ; "
        f"got {sorted(map(str, got))}, expected {sorted(map(str, want))}",
    )
    for key in want:
        expect(
            close(got[key], want[key], tol, floor),
            f"{what}: {key}: got {np.asarray(got[key]).tolist()}, "
            f"expected {np.asarray(want[key]).tolist()}",
        )


def same_snapshot(got, want, what, tol=1e-9):
    expect(close(got["cell"], want["cell"], tol), f"{what}: cell {got['cell']} != {want['cell']}")
    expect(got["atoms"] == want["atoms"], f"{what}: atoms {got['atoms']} != {want['atoms']}")
    expect(
        got["notation"] == want["notation"],
        f"{what}: notation {got['notation']} != {want['notation']}",
    )
    same_map(got["exchange"], want["exchange"], f"{what}: exchange", tol)
    same_map(got["on_site"], want["on_site"], f"{what}: on-site", tol)
    for name in ("spiral_vector", "cone_axis"):
        g, w = got[name], want[name]
        expect((g is None) == (w is None), f"{what}: {name} {g} != {w}")
        if w is not None:
            expect(close(g, w, tol), f"{what}: {name} {g} != {w}")


def canonical_bond(name1, name2, ijk, order):
    """Orientation-independent name of a bond and whether it is reversed."""
    mirrored = (name2, name1, tuple(-x for x in ijk))
    k1 = (tuple(ijk), order[name1], order[name2])
    k2 = (mirrored[2], order[name2], order[name1])
    if k1 >= k2:
        return (name1, name2, tuple(ijk)), False
    return mirrored, True


def physics(ham):
    """The physical content: for every pair of spins the 3x3 form K with
    E = sum_pairs S_i K S_j + sum_i S_i A_i S_i, S - spin vectors of full length."""
    order = {a.name: n for n, a in enumerate(ham.atoms)}
    spin = {a.name: float(np.linalg.norm(a.spin_vector)) for a in ham.atoms}
    exchange, on_site = raw(ham)
    K, A = {}, {}
    norm = ham.spin_normalized
    for (n1, n2, ijk), m in exchange.items():
        key, reverse = canonical_bond(n1, n2, ijk, order)
        value = ham.exchange_factor * m
        if norm:
            value = value / (spin[n1] * spin[n2])
        K[key] = K.get(key, 0) + (value.T if reverse else value)
    for n, m in on_site.items():
        value = ham.on_site_factor * m
        if norm:
            value = value / spin[n] ** 2
        A[n] = value
    return K, A


def canon(ham, digits=8):
    """Hashable canonical form of the state (used to count distinct states)."""
    exchange, on_site = raw(ham)
    return (
        tuple(notation_or_none(ham)),
        tuple(a.name for a in ham.atoms),
        tuple(sorted((k, tuple(np.round(v, digits).ravel())) for k, v in exchange.items())),
        tuple(sorted((k, tuple(np.round(v, digits).ravel())) for k, v in on_site.items())),
    )


# --------------------------------------------------------------------------------------
# Structures: every one uses at most one orientation of each bond
# --------------------------------------------------------------------------------------
STRUCTURES = {
    # one atom, its own images
    "chain": {
        "cell": "ortho",
        "atoms": atoms_of([0]),
        "bonds": [[0, 0, [1, 0, 0], 0], [0, 0, [0, -1, 0], 1]],
        "onsite": [[0, 0]],
    },
    # two atoms with different spins; a bond inside of the cell, one with a negative
    # index and one from an atom to its own image
    "dimer": {
        "cell": "tricl",
        "atoms": atoms_of([0, 1]),
        "bonds": [[0, 1, [0, 0, 0], 0], [0, 1, [-1, 0, 1], 1], [1, 1, [0, 0, -1], 2]],
        "onsite": [[1, 0]],
    },
    # reversed order of the atoms in the bond inside of the cell
    "flip": {
        "cell": "left",
        "atoms": atoms_of([1, 0]),
        "bonds": [[1, 0, [0, 0, 0], 2], [1, 0, [0, 1, 0], 0]],
        "onsite": [[0, 1], [1, 0]],
    },
    # three atoms, one of them has only the on-site term
    "trio": {
        "cell": "cubic",
        "atoms": atoms_of([0, 1, 2]),
        "bonds": [[1, 0, [0, 0, 0], 1], [0, 1, [1, -1, 0], 2]],
        "onsite": [[2, 1], [0, 0]],
    },
    # exchange only / on-site only / nothing
    "noonsite": {
        "cell": "tricl",
        "atoms": atoms_of([0, 2]),
        "bonds": [[0, 1, [0, 0, 1], 2], [1, 1, [1, 1, 0], 0]],
        "onsite": [],
    },
    "noexchange": {
        "cell": "ortho",
        "atoms": atoms_of([1, 2]),
        "bonds": [],
        "onsite": [[0, 0], [1, 1]],
    },
}


def generic_matrix(n):
    """The n-th matrix of a fixed series without symmetry; four decimals at most."""
    return [[((7 * n + 3 * i + 5 * j + i * j * 4) % 23 - 11) / 8 + (i - j) * 0.05 for j in range(3)] for i in range(3)]


def fan(first, second):
    """Bonds to all the neighbouring cells; the orientation alternates."""
    out = []
    for n, r in enumerate(itertools.product([-1, 0, 1], repeat=3)):
        i, j = (first, second) if n % 2 else (second, first)
        if first == second and n >= 13:
            break
        if first == second and n % 3 == 1:
            r = [-x for x in r]
        out.append([i, j, list(r), generic_matrix(n)])
    return out


# bonds to all the 26 neighbouring cells, of an atom with its own images and of two atoms
STRUCTURES["fan"] = {"cell": "tricl", "atoms": atoms_of([1]), "bonds": fan(0, 0), "onsite": [[0, 0]]}
STRUCTURES["fans"] = {"cell": "left", "atoms": atoms_of([2, 0]), "bonds": fan(0, 1), "onsite": [[1, 1]]}
# distant cells, several bonds of one pair, parameters of all kinds
STRUCTURES["far"] = {
    "cell": "ortho",
    "atoms": atoms_of([1, 2, 0]),
    "bonds": [
        [0, 1, [2, -3, 0], 0],
        [1, 0, [0, 0, 5], 1],
        [2, 2, [-10, 0, 1], 3],
        [2, 0, [0, 12, -1], [[0.0, 0.4, -0.3], [-0.4, 0.0, 0.2], [0.3, -0.2, 0.0]]],
        [0, 0, [-2, 0, 0], [[0.0] * 3] * 3],
        [1, 2, [-1, -1, -1], [[0.5, 0.1, 0.0], [0.1, -0.5, 0.2], [0.0, 0.2, 0.0]]],
    ],
    "onsite": [[2, 0], [0, [[0.0] * 3] * 3]],
}
# weak parameters next to strong ones, small spins next to large ones
STRUCTURES["weak"] = {
    "cell": "tricl",
    "atoms": [["C", [0.1, 0.5, 0.75], [-0.1, 0.2, 0.2], 1.9], ["A", [0.0, 0.0, 0.0], [0.0, 0.0, 8.0], 2.0]],
    "bonds": [
        [0, 1, [0, 0, 0], [[x * 1e-4 for x in row] for row in MATRICES[1]]],
        [0, 0, [0, 1, 0], [[x * 1e-6 for x in row] for row in MATRICES[0]]],
        [1, 0, [1, 0, -1], [[x * 1e2 for x in row] for row in MATRICES[2]]],
    ],
    "onsite": [[0, [[x * 1e-5 for x in row] for row in ONSITES[1]]], [1, 0]],
}
# on-site parameters without symmetry: only the symmetric part has a meaning for the energy
STRUCTURES["skew"] = {
    "cell": "tricl",
    "atoms": atoms_of([1, 0]),
    "bonds": [[0, 1, [0, 1, 0], 1]],
    "onsite": [[0, generic_matrix(5)], [1, [[0.7, 0.5, -0.3], [-0.1, -0.4, 0.2], [0.2, 0.6, 0.9]]]],
}
# many atoms: indices with two digits
STRUCTURES["crowd"] = {
    "cell": "tricl",
    "atoms": [
        [f"M{n + 1}", [((5 * n) % 13) / 13, ((3 * n) % 12) / 12, n / 24], [(n % 3) - 1.0, 0.5, ((2 * n) % 5) - 1.5], 2.0 - 0.05 * n]
        for n in range(12)
    ],
    "bonds": [[n, (5 * n + 3) % 12, [(n % 3) - 1, 0, 1 - (n % 2)], generic_matrix(n)] for n in range(12)],
    "onsite": [[11, 1], [1, 0], [9, generic_matrix(3)]],
}
for i, row in enumerate(STRUCTURES["crowd"]["onsite"][2][1]):
    for j in range(i):
        row[j] = STRUCTURES["crowd"]["onsite"][2][1][j][i]
# atoms without interactions before and between the others, with and without spins
PADDED = {
    "padded": {
        "cell": "tricl",
        "atoms": [["X", [0.9, 0.1, 0.2], [0.0, 0.0, 2.5], 1.7], ATOMS[2], ["Y", [0.2, 0.3, 0.6], [0.0, 0.0, 0.0], 2.0], ATOMS[0]],
        "bonds": [[3, 1, [0, 0, 0], 1], [1, 3, [1, -1, 0], 2], [3, 3, [0, 1, -1], 0]],
        "onsite": [[3, 0], [1, 1]],
    }
}
ALL = dict(STRUCTURES, **PADDED)


def mirror_bonds(bonds):
    out = []
    for i, j, ijk, m in bonds:
        mat = np.array(MATRICES[m] if isinstance(m, int) else m)
        out.append([j, i, [-x for x in ijk], mat.T.tolist()])
    return out


def structure(name, notation=None, both=False, late=False):
    spec = dict(ALL[name])
    spec["notation"] = notation
    spec["late_notation"] = late
    if both:
        spec["bonds"] = spec["bonds"] + mirror_bonds(spec["bonds"])
    return spec
