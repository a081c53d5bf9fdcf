"""C06: energies of spiral and antiferromagnetic states against explicit spin textures."""

import itertools
from fractions import Fraction as F

import numpy as np

from mc.c05 import DIRECTIONS, SIGNS, directions_of, forms, forms_of, lengths, lengths_of, settings
from mc.core import STATS, Space, expect
from mc.energyref import Model
from mc.models import NOTATIONS_ALL, build, close, structure

from magnopy import Energy  # noqa: E402

AXES = [[0.0, 0.0, 1.0], [2.0, 0.0, 0.0], [0.0, 0.6, -0.8], [1.0, -1.0, 1.0]]
FIELDS = [None, [1.0, 2.0, -30.0]]
# spiral vectors: neither q nor 2q is a vector of the reciprocal lattice
SPIRALS = [
    ["1/3", "0", "0"],
    ["0", "-1/3", "0"],
    ["0", "0", "1/4"],
    ["2/3", "1/3", "0"],
    ["1/2", "1/3", "0"],
    ["1/4", "0", "1/2"],
    ["4/3", "-1", "2/3"],
    ["1/5", "0", "2"],
]
ANTI = [[str(F(x, 2)) for x in q] for q in itertools.product([0, 1], repeat=3) if any(q)] + [
    ["-1/2", "0", "3/2"],
    ["1/2", "1", "-1/2"],
]


def size_of(q):
    return [F(x).denominator for x in q]


def grid(n, tier_small):
    if n > 3:
        return list(directions_of(n))[::4]
    base = [DIRECTIONS[0], DIRECTIONS[4], DIRECTIONS[6]]
    if n == 1:
        base = DIRECTIONS
    if n == 3:
        base = base[1:]
    return list(itertools.product(base, repeat=n))


def same(got, want, what):
    expect(np.ndim(got) == 0, f"{what}: energy is not a number: {got!r}")
    expect(close(float(got), float(want), 1e-9), f"{what}: got {float(got)!r}, expected {float(want)!r}")


def judge(case):
    kind, name, notation, field, axis, q, spins, g = case
    ham = build(structure(name, notation))
    model, energy = Model(ham), Energy(ham)
    kwargs = settings(energy, model, spins, g)
    energy.magnetic_field = field
    q_rel = np.array([float(F(x)) for x in q])
    q_abs = q_rel @ model.rcell
    func = energy.spiral if kind == "spiral" else energy.antiferro
    n = len(model.names)
    for so in grid(n, True):
        STATS.step()
        want = model.supercell(so, axis, q_rel, size_of(q), field=field, **kwargs)
        got = func(list(so), axis, q_abs)
        what = f"{kind} {so}, axis {axis}, q {q}, field {field}"
        same(got, want, what)
        STATS.state((name, kind, round(float(want), 8)))
        if kind == "spiral":
            same(func(so, -np.array(axis), -q_abs), want, f"{what}: reversed vector and axis")
        else:
            same(func(so, -np.array(axis), q_abs), want, f"{what}: reversed axis")
            same(func(so, axis, -q_abs), want, f"{what}: reversed vector")
        same(func(so, 3.0 * np.array(axis), q_abs + np.array([1, -1, 2]) @ model.rcell), want, f"{what}: shifted vector")
        if n == 1:
            same(func(so[0], axis, q_abs), want, f"{what}: one spin as a vector")


def cases(tier):
    names = ["chain", "dimer", "flip", "trio", "noonsite", "noexchange", "fan", "fans", "far", "weak", "crowd", "padded"]
    quick = tier == "quick"
    notations = ["magnopy", "tb2j", [False, True, -2.0, 0.5]] if quick else NOTATIONS_ALL
    spirals = SPIRALS
    for kind, qs in (("antiferro", ANTI), ("spiral", spirals)):
        for name, notation, axis in itertools.product(names, notations, AXES):
            for q in qs:
                if quick and name in ("trio", "crowd") and np.prod(size_of(q)) > 9:
                    continue
                for field in FIELDS[1:] if quick else FIELDS:
                    yield [kind, name, notation, field, axis, q, None, None]
    for kind, qs in (("antiferro", ANTI[:2]), ("spiral", SPIRALS[:2])):
        for name, notation in itertools.product(names, NOTATIONS_ALL):
            for q in qs:
                for spins, g, field in (([0.5, 2.0, 1.0], [1.0, -2.0, 3.0], FIELDS[1]), (None, None, None)):
                    yield [kind, name, notation, field, AXES[3], q, spins, g]


def sign_cases(tier):
    """Fields of all signs of the components."""
    for name, field, axis in itertools.product(["chain", "dimer"], SIGNS, AXES[1:]):
        yield ["antiferro", name, "tb2j", field, axis, ANTI[4], None, None]
        yield ["spiral", name, "tb2j", field, axis, SPIRALS[0], [-1.0, 2.0, -3.0], [-2.0, 1.0, 3.0]]


def form_cases(tier):
    yield from forms_of(["spiral", "antiferro"])


def length_cases(tier):
    yield from lengths_of(["spiral", "antiferro"])


def generic(case):
    """Incommensurate spirals: exact average over the phase."""
    name, notation, field, axis, q_abs = case
    ham = build(structure(name, notation))
    model, energy = Model(ham), Energy(ham)
    energy.magnetic_field = field
    for so in grid(len(model.names), True):
        STATS.step()
        want = model.phase_average(so, axis, q_abs, field=field)
        what = f"spiral {so}, axis {axis}, q {q_abs}, field {field}"
        same(energy.spiral(so, axis, q_abs), want, what)
        STATS.state((name, round(float(want), 8)))
        # rotation of all the spins around the axis together is the choice of the phase
        from mc.energyref import rotate

        turned = [rotate(axis, 1.1, v) for v in so]
        same(energy.spiral(turned, axis, q_abs), want, f"{what}: turned by a common angle")


def generic_cases(tier):
    qs = [[0.0, 0.0, 0.0], [1e-4, 0.0, 0.0], [0.0, 1e-3, -2e-3], [0.3, 0.0, 0.0], [0.1, -0.7, 0.4], [3.0, 2.0, -5.0]]
    if tier == "thorough":
        qs += [list(q) for q in itertools.product([-1.3, 0.0, 0.45], repeat=3)]
    names = ["chain", "dimer", "flip", "trio", "noonsite", "noexchange", "fan", "fans", "far", "weak", "crowd", "padded"]
    notations = ["magnopy", [False, True, -2.0, 0.5]] if tier == "quick" else NOTATIONS_ALL
    for name, notation, axis, q, field in itertools.product(names, notations, AXES, qs, FIELDS):
        yield [name, notation, field, axis, q]


# Evaluations of one calculator: each argument alone differs from the first one, by a lot and by a little
STATES = [
    ["spiral", 0, 0, 0],
    ["spiral", 1, 0, 0],
    ["spiral", 2, 0, 0],
    ["spiral", 0, 1, 0],
    ["spiral", 0, 2, 0],
    ["spiral", 0, 0, 1],
    ["spiral", 0, 0, 2],
    ["antiferro", 0, 0, 3],
    ["antiferro", 1, 0, 3],
    ["antiferro", 0, 1, 3],
    ["antiferro", 0, 0, 4],
    ["ferro", 0, 0, 0],
    ["ferro", 1, 0, 0],
]
CHANGES = [
    ["magnetic_field", [0.0, 1.0, -20.0]],
    ["magnetic_field", [5.0, 0.0, 1.0]],
    ["magnetic_field", None],
    ["g_factors", [1.0, 3.0, -1.0]],
    ["spins", [0.5, 2.0, 1.0]],
    ["optimize", "spiral"],
]
H_SPINS = [
    [[0.6, 0.0, 0.8], [-1.0, 2.0, 2.0], [0.1, 0.7, -0.3]],
    [[-1.0, 0.3, 0.2], [0.5, 2.0, 2.0], [0.0, 0.7, 0.3]],
    [[0.6, 1e-4, 0.8], [-1.0, 2.0, 2.0], [0.1, 0.7, -0.3]],
]
H_AXES = [[0.2, 0.1, 1.0], [1.0, -0.5, 0.3], [0.2, 0.1001, 1.0]]
H_VECTORS = [["0.31", "0.12", "-0.4"], ["-0.2", "0.1", "0.33"], ["0.31", "0.1201", "-0.4"], ["1/2", "0", "0"], ["0", "1/2", "1/2"]]
_WANT = {}


def histories(case):
    """Each energy is decided by the settings and arguments of its own call."""
    name, in_place, ops = case
    ham = build(structure(name, "tb2j"))
    model, energy = Model(ham), Energy(ham)
    n = len(model.names)
    now = {}
    so, axis, q = np.zeros((n, 3)), np.zeros(3), np.zeros(3)
    for kind, *rest in ops:
        STATS.step()
        if kind in ("magnetic_field", "g_factors", "spins"):
            value = rest[0]
            value = value[:n] if kind != "magnetic_field" else value
            setattr(energy, kind, value)
            now[kind] = value
            continue
        if kind == "optimize":
            energy.optimize("spiral", initial_guess=(np.array(H_SPINS[0][:n]), np.array(H_AXES[0]), np.array([0.3, 0.1, 0.2])), max_iterations=1)
            continue
        a, b, c = rest
        q_rel = np.array([float(F(x)) for x in H_VECTORS[c]])
        if in_place:
            # the same arrays with other content
            so[:], axis[:], q[:] = H_SPINS[a][:n], H_AXES[b], q_rel @ model.rcell
        else:
            so, axis, q = np.array(H_SPINS[a][:n]), np.array(H_AXES[b]), q_rel @ model.rcell
        key = (name, kind, a, b, c, str(sorted(now.items())))
        if key not in _WANT:
            kwargs = {}
            if "spins" in now:
                kwargs["S"] = dict(zip(model.names, now["spins"]))
            if "g_factors" in now:
                kwargs["g"] = dict(zip(model.names, now["g_factors"]))
            field = now.get("magnetic_field")
            if kind == "ferro":
                _WANT[key] = model.ferro(so, field=field, **kwargs)
            elif kind == "antiferro":
                _WANT[key] = model.supercell(so, axis, q_rel, size_of(H_VECTORS[c]), field=field, **kwargs)
            else:
                _WANT[key] = model.phase_average(so, axis, q, field=field, points=5, **kwargs)
        got = energy.ferro(so) if kind == "ferro" else getattr(energy, kind)(so, axis, q)
        same(got, _WANT[key], f"{kind} with the arguments {a}, {b}, {c} in {ops}, the same arrays: {in_place}")
        STATS.state((name, round(float(got), 9)))


def history_cases(tier):
    def useful(ops):
        return ops[-1][0] in ("spiral", "antiferro", "ferro")

    for name, in_place in itertools.product(["dimer"] if tier == "quick" else ["dimer", "trio", "noonsite"], [False, True]):
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for ops in itertools.product(STATES + CHANGES, repeat=d):
                if useful(ops) and (d < 4 or name == "dimer" and not in_place):
                    yield [name, in_place, list(ops)]


def invalid(case):
    kind, name, what = case
    ham = build(structure(name, "tb2j"))
    energy = Energy(ham)
    n = len(energy.spins)
    args = {
        "so": [[0.0, 0.0, 1.0]] * n,
        "axis": [0.0, 0.0, 1.0],
        "q": [0.1, 0.2, 0.3],
    }
    key, value = {
        "more spins": ("so", [[0, 0, 1.0]] * (n + 1)),
        "two components": ("so", [[0, 1.0]] * n),
        "text spins": ("so", "up"),
        "short axis": ("axis", [0.0, 1.0]),
        "matrix axis": ("axis", [[0.0, 0.0, 1.0]]),
        "text axis": ("axis", "z"),
        "short q": ("q", [0.0, 1.0]),
        "text q": ("q", "q"),
        "number q": ("q", 0.5),
    }[what]
    args[key] = value
    func = energy.spiral if kind == "spiral" else energy.antiferro
    STATS.step()
    STATS.state(tuple(case))
    try:
        func(args["so"], args["axis"], args["q"])
    except (ValueError, TypeError, IndexError):
        STATS.outcome("rejected")
    else:
        expect(False, f"{kind}: {what} is accepted")


def invalid_cases(tier):
    whats = ["more spins", "two components", "text spins", "short axis", "matrix axis", "text axis", "short q", "text q", "number q"]
    for kind, name in itertools.product(["spiral", "antiferro"], ["chain", "dimer"]):
        for what in whats:
            yield [kind, name, what]


SPACES = [
    Space("supercells", cases, judge, "explicit spins of a supercell for commensurate vectors; equivalent descriptions", chunk=4),
    Space("fields", sign_cases, judge, "fields of all signs of the components"),
    Space("forms", form_cases, forms, "forms of the array-like arguments; arguments stay as they were"),
    Space("lengths", length_cases, lengths, "all lengths of the directions and of the axis"),
    Space("incommensurate", generic_cases, generic, "exact phase average for arbitrary spiral vectors", chunk=4),
    Space("histories", history_cases, histories, "sequences of settings and evaluations of one calculator, near and far arguments, the same arrays", chunk=100),
    Space("invalid", invalid_cases, invalid, "invalid arguments are refused"),
]
ASSUMPTIONS = [
    "spiral energies are claimed when neither q nor 2q is a reciprocal lattice vector or as the average over the phase; antiferromagnetic ones when 2q is",
    "energy is compared with relative tolerance 1e-9",
]
