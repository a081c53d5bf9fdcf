"""C05: energy of the ferromagnetic state against direct evaluation of the Hamiltonian."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.energyref import Model
from mc.models import ATOMS, MATRICES, NOTATIONS_ALL, ONSITES, build, close, mirror_bonds, structure

from magnopy import Energy  # noqa: E402
from magnopy.exceptions import NotationError  # noqa: E402

DIRECTIONS = [
    [0.0, 0.0, 1.0],
    [0.0, 0.0, -2.0],
    [1.0, 0.0, 0.0],
    [0.0, -1.0, 0.0],
    [0.6, 0.0, 0.8],
    [-1.0, 2.0, 2.0],
    [0.1, 0.7, -0.3],
]
SIGNS = [[4.0 * a, 3.0 * b, 5.0 * c] for a, b, c in itertools.product([-1, 0, 1], repeat=3) if (a, b, c) != (0, 0, 0)]
FIELDS = [None, [0.0, 0.0, 0.0], [3.0, 0.0, 0.0], [0.0, -5.0, 0.0], [1.0, 2.0, -30.0]]


def same(got, want, what):
    expect(np.ndim(got) == 0, f"{what}: energy is not a number: {got!r}")
    expect(close(float(got), float(want), 1e-9), f"{what}: got {float(got)!r}, expected {float(want)!r}")


def settings(energy, model, spins, g):
    names = model.names
    kwargs = {}
    # short lists of values are repeated for numerous atoms
    spins = None if spins is None else (spins * len(names))[: max(len(names), 3)]
    g = None if g is None else (g * len(names))[: max(len(names), 3)]
    if spins is not None:
        energy.spins = spins[: len(names)]
        kwargs["S"] = dict(zip(names, spins))
    if g is not None:
        energy.g_factors = g[: len(names)]
        kwargs["g"] = dict(zip(names, g))
    return kwargs


def directions_of(n):
    if n > 3:
        # numerous spins: cyclic patterns of the directions
        for start, step in itertools.product(range(len(DIRECTIONS)), range(1, 4)):
            yield tuple(DIRECTIONS[(start + step * i) % len(DIRECTIONS)] for i in range(n))
        return
    grid = DIRECTIONS if n < 3 else DIRECTIONS[:1] + DIRECTIONS[4:]
    yield from itertools.product(grid, repeat=n)


def judge(case):
    name, notation, both, field, spins, g = case
    ham = build(structure(name, None, both=both))
    ham.notation = notation if isinstance(notation, str) else tuple(notation)
    model = Model(ham)
    energy = Energy(ham)
    kwargs = settings(energy, model, spins, g)
    energy.magnetic_field = field
    n = len(model.names)
    for so in directions_of(n):
        STATS.step()
        want = model.ferro(so, field=field, **kwargs)
        same(energy.ferro(list(so)), want, f"{so}, field {field}")
        STATS.state((name, both, round(float(want), 8)))
        if n == 1:
            same(energy.ferro(so[0]), want, f"{so[0]}")


def cases(tier):
    names = ["chain", "dimer", "flip", "trio", "noonsite", "noexchange", "fan", "fans", "far", "weak", "crowd", "padded"]
    notations = NOTATIONS_ALL + ["magnopy", "tb2j", "spinw", "vampire"]
    for name, notation, both in itertools.product(names, notations, [False, True]):
        for field in FIELDS:
            yield [name, notation, both, field, None, None]
    for name, notation in itertools.product(names, notations):
        for field in FIELDS[2:]:
            for spins, g in (([0.5, 2.0, 1.0], None), (None, [1.0, -2.0, 3.0]), ([2.5, 0.5, 1.5], [2.1, 1.7, -1.0])):
                yield [name, notation, False, field, spins, g]
    for name, notation in itertools.product(["chain", "dimer", "weak"], NOTATIONS_ALL[:4]):
        for field in SIGNS:
            for spins, g in ((None, None), ([-1.0, 2.0, -3.0], [-2.0, 1.0, 3.0])):
                yield [name, notation, False, field, spins, g]


# ------------------------------------------------------------------- forms of the arguments
FORMS = {
    "list": lambda v: np.array(v).tolist(),
    "tuple": lambda v: tuple(tuple(x) for x in v) if np.ndim(v) == 2 else tuple(v),
    "array": lambda v: np.array(v),
    "float32": lambda v: np.array(v, dtype=np.float32),
    "fortran": lambda v: np.asfortranarray(v),
    "strided": lambda v: np.repeat(np.array(v), 2, axis=-1)[..., ::2],
    "frozen": None,
    "integers": lambda v: (np.array(v) * 8).round().astype(int),
    "integer lists": lambda v: (np.array(v) * 8).round().astype(int).tolist(),
}


def formed(form, value):
    if form == "frozen":
        out = np.array(value, dtype=float)
        out.flags.writeable = False
        return out
    return FORMS[form](value)


# multiples of 1/8: exact in each form
EIGHTHS = [[0.0, 0.0, 1.0], [0.5, -0.25, 2.0], [-1.0, 0.125, -0.5], [3.0, 0.0, -4.0]]


def forms(case):
    """Array-like arguments of any form; they are read and never changed."""
    name, kind, form, field_form = case
    ham = build(structure(name, [False, True, -2.0, 0.5]))
    model, energy = Model(ham), Energy(ham)
    field = None if field_form is None else formed(field_form, [8.0, -16.0, 4.0])
    energy.magnetic_field = field
    values = None if field is None else np.array(field, dtype=float)
    n = len(model.names)
    scale = np.arange(1, n + 1)
    S, g = formed(form, scale * 1.5), formed(form, scale - 2.5)
    if name != "chain":
        energy.spins, energy.g_factors = S, g
    else:
        S, g = formed(form, [model.S[x] for x in model.names]), formed(form, [model.g[x] for x in model.names])
        energy.spins, energy.g_factors = S, g
    kwargs = {"S": dict(zip(model.names, np.array(S, dtype=float))), "g": dict(zip(model.names, np.array(g, dtype=float))), "field": values}
    for start in range(len(EIGHTHS)):
        so = [EIGHTHS[(start + i) % len(EIGHTHS)] for i in range(n)]
        arg, axis = formed(form, so), formed(form, [0.5, -1.0, 1.5])
        q_rel = np.array([0.5, 0.0, 1.0]) if kind == "antiferro" else np.array([0.2, -0.3, 0.1])
        q = q_rel @ model.rcell
        q_arg = formed(form if not form.startswith("integer") else "array", q)
        tol = 1e-9
        before = [np.array(x) for x in (arg, axis, q_arg, S, g)]
        if form == "float32":
            q, tol = np.array(q_arg, dtype=float), 1e-6
        if kind == "ferro":
            got, want = energy.ferro(arg), model.ferro(so, **kwargs)
        elif kind == "spiral":
            got, want = energy.spiral(arg, axis, q_arg), model.phase_average(so, [0.5, -1.0, 1.5], q, **kwargs)
        else:
            got, want = energy.antiferro(arg, axis, q_arg), model.supercell(so, [0.5, -1.0, 1.5], q_rel, [2, 1, 1], **kwargs)
        STATS.step()
        what = f"{case}, {so}"
        expect(np.ndim(got) == 0 and close(float(got), float(want), tol), f"{what}: got {got!r}, expected {want!r}")
        for x, b, label in zip((arg, axis, q_arg, S, g), before, ("directions", "axis", "vector", "spins", "g factors")):
            expect(np.array_equal(np.array(x), b), f"{what}: {label} of the caller changed from {b.tolist()} to {np.array(x).tolist()}")
        if field is not None:
            expect(np.array_equal(np.array(field, dtype=float), values), f"{what}: the field of the caller changed")
        STATS.state((name, kind, round(float(want), 8)))


def forms_of(kinds):
    for name, kind, form in itertools.product(["chain", "dimer", "trio"], kinds, FORMS):
        for field in (None, "list", "array", "frozen", "integers"):
            yield [name, kind, form, field]


def form_cases(tier):
    yield from forms_of(["ferro"])


# ----------------------------------------------------------------- lengths of the arguments
LENGTHS = [1e-6, 0.3, 0.9995, 1 - 1e-6, 1 + 1e-6, 1.0005, 1.1, 1e6]


def lengths(case):
    """Only the directions of the vectors matter, whatever their lengths are."""
    name, kind, parts, axis_length = case
    ham = build(structure(name, "tb2j"))
    model, energy = Model(ham), Energy(ham)
    energy.magnetic_field = field = [1.0, 2.0, -30.0]
    n = len(model.names)
    axis0, q_rel = np.array([0.6, 0.0, -0.8]), np.array([0.5, 0.0, 1.0] if kind == "antiferro" else [0.2, -0.3, 0.1])
    base = [np.array(DIRECTIONS[(4 + i) % 7]) for i in range(n)]
    base = [v / np.linalg.norm(v) for v in base]
    if kind == "ferro":
        want = model.ferro(base, field=field)
    elif kind == "spiral":
        want = model.phase_average(base, axis0, q_rel @ model.rcell, field=field)
    else:
        want = model.supercell(base, axis0, q_rel, [2, 1, 1], field=field)
    so = [v * parts[i % len(parts)] for i, v in enumerate(base)]
    STATS.step()
    STATS.state(tuple(map(str, case)))
    args = () if kind == "ferro" else (axis0 * axis_length, q_rel @ model.rcell)
    same(getattr(energy, kind)(so, *args), want, f"{case}")


def lengths_of(kinds):
    for name, kind in itertools.product(["chain", "dimer", "padded"], kinds):
        for parts in itertools.product(LENGTHS, repeat=1 if name == "chain" else 2):
            for axis in [None] if kind == "ferro" else LENGTHS:
                yield [name, kind, list(parts), axis]


def length_cases(tier):
    yield from lengths_of(["ferro"])


# ------------------------------------------------------------------ histories of settings
def history(case):
    """The energy is decided by the last settings only."""
    name, notation, ops = case
    ham = build(structure(name, notation))
    model, energy = Model(ham), Energy(ham)
    n = len(model.names)
    S, g, field = dict(model.S), dict(model.g), None
    points = list(itertools.product([DIRECTIONS[4], DIRECTIONS[6]], repeat=n))
    for kind, value in ops:
        STATS.step()
        if kind == "field":
            energy.magnetic_field = value
            field = value
        elif kind == "g":
            energy.g_factors = value[:n]
            g = dict(zip(model.names, value))
        elif kind == "spins":
            energy.spins = value[:n]
            S = dict(zip(model.names, value))
        elif kind == "eval":
            energy.ferro(points[0])
            energy.spiral(points[-1], [0, 0, 1], [0.1, 0.2, 0.3])
        elif kind == "optimize":
            energy.optimize("ferro", initial_guess=np.array(points[0]), max_iterations=1)
        elif kind == "bad":
            what, v = value
            try:
                setattr(energy, what, v)
            except (ValueError, TypeError):
                STATS.outcome("rejected")
            else:
                expect(False, f"{what} = {v!r} is accepted")
        for so in points:
            same(energy.ferro(so), model.ferro(so, field=field, S=S, g=g), f"after {ops}, {so}")
        expect(close(energy.spins, [S[x] for x in model.names]), f"spins {energy.spins} after {ops}")
        expect(close(energy.g_factors, [g[x] for x in model.names]), f"g factors {energy.g_factors} after {ops}")
        expect((energy.magnetic_field is None) == (field is None), f"field {energy.magnetic_field} after {ops}")
        if field is not None:
            expect(close(energy.magnetic_field, field), f"field {energy.magnetic_field} after {ops}")
    STATS.state((name, str(ops)))


SETTINGS = [
    ["field", [0.0, 1.0, -20.0]],
    ["field", None],
    ["field", [7.0, 0.0, 0.0]],
    ["g", [1.0, 3.0, -1.0]],
    ["g", [2.0, 2.5, 2.0]],
    ["spins", [0.5, 2.0, 1.0]],
    ["spins", [3.0, 1.0, 2.0]],
    ["spins", [-2.0, 1.5, -1.0]],
    ["eval", None],
    ["bad", ["magnetic_field", [1.0, 2.0]]],
    ["bad", ["magnetic_field", "x"]],
    ["bad", ["g_factors", 2.0]],
    ["bad", ["g_factors", [1.0, 2.0, 3.0, 4.0]]],
    ["bad", ["spins", [1.0, 2.0, 3.0, 4.0]]],
    ["bad", ["spins", 1.0]],
]


def history_cases(tier):
    depth = 2 if tier == "quick" else 3
    for name, notation in itertools.product(["chain", "dimer", "trio", "padded"], ["tb2j", [False, False, 2.0, -1.0]]):
        for d in range(1, depth + 1):
            for ops in itertools.product(SETTINGS, repeat=d):
                yield [name, notation, list(ops)]


# ---------------------------------------------------- order of atoms and parameters, shape
def order(case):
    """The same model entered in another order has the same energy."""
    notation, late, atoms, bonds, onsite = case
    spec = {
        "cell": "tricl",
        "atoms": [ATOMS[i] for i in atoms],
        "notation": notation,
        "late_notation": late,
        "bonds": [],
        "onsite": [],
    }
    where = {i: n for n, i in enumerate(atoms)}
    base = [[0, 1, [0, 0, 0], MATRICES[0]], [2, 1, [1, 0, 0], MATRICES[1]], [0, 0, [0, -1, 0], MATRICES[2]]]
    for index, flip in bonds:
        i, j, r, m = base[index]
        if flip:
            i, j, r, m = j, i, [-x for x in r], np.array(m).T.tolist()
        spec["bonds"].append([where[i], where[j], r, m])
    ons = [[2, ONSITES[0]], [1, ONSITES[1]]]
    for index in onsite:
        i, m = ons[index]
        spec["onsite"].append([where[i], m])
    ham = build(spec)
    model, energy = Model(ham), Energy(ham)
    direction = {"A": [0.6, 0.0, 0.8], "B": [1.0, 2.0, -2.0], "C": [0.0, -1.0, 0.5]}
    so = [direction[a.name] for a in ham.magnetic_atoms]
    energy.magnetic_field = [1.0, -2.0, 8.0]
    got = energy.ferro(so)
    STATS.step()
    STATS.state((str(case)))
    same(got, model.ferro(so, field=[1.0, -2.0, 8.0]), f"{case}")
    key = (str(notation), bool(late))
    if key not in _ORDER:
        spec0 = dict(spec, atoms=[ATOMS[i] for i in (0, 1, 2)], bonds=base, onsite=ons)
        h0 = build(spec0)
        e0 = Energy(h0)
        e0.magnetic_field = [1.0, -2.0, 8.0]
        _ORDER[key] = e0.ferro([direction[a.name] for a in h0.magnetic_atoms])
    same(got, _ORDER[key], f"{case} against the direct order")


_ORDER = {}


def order_cases(tier):
    for notation, late in (("tb2j", False), ([False, False, 2.0, -1.0], False), ([True, True, 0.5, 1.0], True), ([False, True, -1.0, 3.0], True)):
        for atoms in itertools.permutations(range(3)):
            for perm in itertools.permutations(range(3)):
                for flips in itertools.product([False, True], repeat=3):
                    for onsite in ([0, 1], [1, 0]):
                        yield [notation, late, list(atoms), list(zip(perm, flips)), onsite]


# ---------------------------------------------------------------------- invalid arguments
def invalid(case):
    name, what = case
    if what.startswith("undefined"):
        ham = build(structure(name, None))
        for part in what.split()[1:]:
            setattr(ham, part, {"double_counting": True, "spin_normalized": False}.get(part, 1.0))
        try:
            Energy(ham)
        except NotationError:
            STATS.outcome("NotationError")
            STATS.step()
            STATS.state(case)
            return
        expect(False, f"{what}: energy is available without the notation")
    ham = build(structure(name, "tb2j"))
    energy = Energy(ham)
    n = len(energy.spins)
    bad = {
        "more": [[0, 0, 1.0]] * (n + 1),
        "fewer": [[0, 0, 1.0]] * (n - 1) if n > 1 else np.zeros((0, 3)),
        "two components": [[0, 1.0]] * n,
        "text": "up",
        "none": None,
    }[what]
    try:
        energy.ferro(bad)
    except (ValueError, TypeError, IndexError):
        STATS.outcome("rejected")
    else:
        expect(False, f"spin orientation {bad!r} is accepted")
    STATS.step()
    STATS.state(case)


def invalid_cases(tier):
    parts = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
    for name in ("chain", "dimer", "trio"):
        for n in range(len(parts)):
            for some in itertools.combinations(parts, n):
                yield [name, " ".join(("undefined",) + some)]
        for what in ("more", "fewer", "two components", "text"):
            yield [name, what]


SPACES = [
    Space("grid", cases, judge, "models x notations x fields x spin values x g factors, all combinations of directions of the grid"),
    Space("forms", form_cases, forms, "forms of the array-like arguments; arguments stay as they were"),
    Space("lengths", length_cases, lengths, "all lengths of the vectors: only the directions matter"),
    Space("settings", history_cases, history, "sequences of settings, valid and invalid; energy judged after each one"),
    Space("order", order_cases, order, "all orders of atoms, bonds, orientations of bonds and on-site parameters"),
    Space("invalid", invalid_cases, invalid, "undefined notation and invalid directions are refused"),
]
ASSUMPTIONS = [
    "energy is compared with relative tolerance 1e-9",
    "the constants of the reference (CODATA Bohr magneton, eV) are the ones of the documentation",
]
