"""C01: no sequence of notation changes alters the physics of the Hamiltonian."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import ATOMS, CELLS, MATRICES, ONSITES, SpinHamiltonian, build, canon, notation_or_none, physics, same_map, structure
from mc.refham import PREDEFINED, Ref

OPS = [
    ["dc", True],
    ["dc", False],
    ["sn", True],
    ["sn", False],
    ["ef", 1.0],
    ["ef", -0.5],
    ["ef", 3.0],
    ["of", 1.0],
    ["of", -2.0],
    ["of", 0.5],
    ["n", "tb2j"],
    ["n", "Vampire"],
    ["n", [False, True, 2.0]],
    ["n", [True, False, -1.0, 4.0]],
]
MORE_OPS = [
    ["n", "magnopy"],
    ["n", "SPINW"],
    ["n", [False, False, 0.25, 1.0]],
    ["dc", 1],
    ["sn", 0],
    ["ef", -2],
    ["n", [True, False, -3.0]],
]


FORMS = {"no": False, "np no": np.bool_(False), "0": 0, "np 0": np.int64(0), "0.0": 0.0, "None": None, "''": "", "yes": True, "np yes": np.bool_(True), "1": 1, "np 1": np.int8(1), "2": 2}
NUMBERS = {"int": 2, "np": np.float64(-0.5), "np int": np.int64(3), "str": "0.25"}


def form(op):
    """Value of the operation in one of the forms that mean the same."""
    kind, value = op[0], op[1]
    if kind in ("dc?", "sn?"):
        return kind[:2], FORMS[value], bool(FORMS[value])
    if kind in ("ef?", "of?"):
        return kind[:2], NUMBERS[value], float(NUMBERS[value])
    if kind == "n?":
        how, components = value
        given = [FORMS[x] for x in components[:2]] + [NUMBERS[x] for x in components[2:]]
        meant = [bool(x) for x in given[:2]] + [float(x) for x in given[2:]]
        return "n", {"list": list, "tuple": tuple, "array": lambda x: np.array([float(y) for y in x])}[how](given), meant
    return kind, value, value


def apply(ham, ref, op):
    if op[0].endswith("?"):
        kind, given, meant = form(op)
        setattr(ham, {"dc": "double_counting", "sn": "spin_normalized", "ef": "exchange_factor", "of": "on_site_factor", "n": "notation"}[kind], given)
        getattr(ref, {"dc": "set_dc", "sn": "set_sn", "ef": "set_ef", "of": "set_of", "n": "set_notation"}[kind])(meant)
        return
    kind, value = op
    if kind == "dc":
        ham.double_counting = value
        ref.set_dc(value)
    elif kind == "sn":
        ham.spin_normalized = value
        ref.set_sn(value)
    elif kind == "ef":
        ham.exchange_factor = value
        ref.set_ef(value)
    elif kind == "of":
        ham.on_site_factor = value
        ref.set_of(value)
    elif kind == "n":
        ham.notation = value if isinstance(value, str) else tuple(value)
        ref.set_notation(value)


def judge(case):
    name, notation, both, history = case
    spec = structure(name, notation, both=both)
    ham, ref = build(spec), Ref(spec)
    ref.compare(ham, "initially")
    reference = None
    for n, op in enumerate(history):
        if reference is None and None not in notation_or_none(ham):
            reference = physics(ham)
        apply(ham, ref, op)
        STATS.step()
        STATS.state((name, canon(ham)))
        what = f"after {history[: n + 1]}"
        ref.compare(ham, what)
        if reference is not None:
            K, A = physics(ham)
            same_map(K, reference[0], f"{what}: physical exchange")
            same_map(A, reference[1], f"{what}: physical on-site")
            STATS.outcome("defined")
        else:
            STATS.outcome("partially defined")


STARTS = [
    (None, False),
    (None, True),
    ("magnopy", False),
    ([False, True, -2.0, 0.5], False),
]


def sequences(tier):
    structures = ["chain", "dimer", "flip", "trio", "noonsite", "noexchange"]
    depth = 3
    ops = OPS
    if tier == "thorough":
        ops = OPS + MORE_OPS
    for name, (notation, both) in itertools.product(structures, STARTS):
        for history in itertools.product(ops, repeat=depth):
            yield [name, notation, both, list(history)]
    for name, (notation, both) in itertools.product(["fan", "fans", "far", "weak", "crowd", "padded"], STARTS):
        for d in (1, 2) if tier == "quick" else (1, 2, 3):
            for history in itertools.product(ops if d < 3 else OPS, repeat=d):
                yield [name, notation, both, list(history)]
    if tier == "thorough":
        for name, (notation, both) in itertools.product(["dimer", "flip"], STARTS):
            for history in itertools.product(OPS, repeat=4):
                yield [name, notation, both, list(history)]


NEAR = (
    [["ef", v] for v in (1.0, 1.000001, 1.005, 1e-9, 2e-9, -1e-9, 1e6)]
    + [["of", v] for v in (1.0, 0.999999, 1.005, 1e-9, 3e-9, -3e-9, 1e7)]
    + [["n", [True, True, 1.0, 1.000001]], ["n", [False, False, 1e-9, 1.005]], ["n", [True, False, 2e-9]]]
)


def near_cases(tier):
    """Factors that are close to each other, very small and very large ones."""
    for name, (notation, both) in itertools.product(["dimer", "flip", "trio", "noonsite"], STARTS):
        for d in (1, 2) if tier == "quick" else (1, 2, 3):
            for history in itertools.product(NEAR, repeat=d):
                yield [name, notation, both, list(history)]


def form_cases(tier):
    """The same values in different forms: truth values, numbers, sequences."""
    ops = [[k, f] for k in ("dc?", "sn?") for f in FORMS] + [[k, f] for k in ("ef?", "of?") for f in NUMBERS]
    ops += [["n?", [how, [a, b, "np int"] + ([] if three else ["np"])]] for how in ("list", "tuple", "array") for a in ("no", "1") for b in ("0", "np yes") for three in (False, True)]
    for name, (notation, both) in itertools.product(["dimer", "flip", "weak"], STARTS):
        for op in ops:
            yield [name, notation, both, [op]]
            for other in [["dc", True], ["dc", False], ["sn", True], ["sn", False], ["n", [False, True, 2.0]], ["n", "tb2j"]]:
                yield [name, notation, both, [other, op]]
                yield [name, notation, both, [other, op, ["dc", not other[1]] if other[0] == "dc" else ["dc", True]]]


def twins(case):
    """Atoms with the same name and different spins."""
    notation, history = case
    ham = SpinHamiltonian(cell=CELLS["tricl"])
    specs = [ATOMS[0], ATOMS[1], ATOMS[2]]
    for _, pos, spin, g in specs:
        ham.add_atom(name="Cr", position=pos, spin=spin, g_factor=g)
    full = [a.fullname for a in ham.atoms]
    ref = Ref({"atoms": [], "notation": None})
    ref.atoms, ref.spin = full, {f: float(np.linalg.norm(s[2])) for f, s in zip(full, specs)}
    atoms = list(ham.atoms)
    if notation is not None:
        apply(ham, ref, ["n", notation])
    for i, j, r, m in ((0, 1, (0, 0, 0), 0), (2, 1, (1, 0, -1), 1), (0, 0, (0, 1, 0), 2), (2, 0, (0, 0, -2), 1)):
        ham.add_exchange(atoms[i], atoms[j], r, matrix=MATRICES[m])
        ref.add((full[i], full[j], r), MATRICES[m])
    for i, m in ((1, 0), (2, 1)):
        ham.add_on_site(atoms[i], matrix=ONSITES[m])
        ref.on_site[full[i]] = np.array(ONSITES[m])
    for n, op in enumerate(history):
        apply(ham, ref, op)
        STATS.step()
        what = f"same names, after {history[: n + 1]}"
        got = {(a.fullname, b.fullname, tuple(r)): np.array(p.matrix) for a, b, r, p in ham.exchange}
        ons = {a.fullname: np.array(p.matrix) for a, p in ham.on_site}
        same_map(ref.view(got, full), ref.view(ref.exchange, full), f"{what}: exchange")
        same_map(ons, ref.on_site, f"{what}: on-site")
        expect(notation_or_none(ham) == ref.notation(), f"{what}: notation {notation_or_none(ham)}, expected {ref.notation()}")
        STATS.state(tuple(sorted((k, tuple(v.round(8).ravel())) for k, v in got.items())))


def twin_cases(tier):
    for notation, depth in itertools.product([None, "magnopy", [False, True, -2.0, 0.5]], (1, 2) if tier == "quick" else (1, 2, 3)):
        for history in itertools.product(OPS, repeat=depth):
            yield [notation, list(history)]


def closure(case):
    """Explicit-state search to the fixed point: histories of any length."""
    name, notation, both = case
    spec = structure(name, notation, both=both)
    ops = OPS + MORE_OPS
    start = build(spec)
    seen = {canon(start)}
    frontier = [[]]
    reference = physics(start) if None not in notation_or_none(start) else None
    while frontier:
        nxt = []
        for history in frontier:
            for op in ops:
                ham, ref = build(spec), Ref(spec)
                for o in history:
                    apply(ham, ref, o)
                before = None if None in notation_or_none(ham) else physics(ham)
                apply(ham, ref, op)
                STATS.step()
                what = f"after {history + [op]}"
                ref.compare(ham, what)
                if before is not None:
                    K, A = physics(ham)
                    same_map(K, before[0], f"{what}: physical exchange")
                    same_map(A, before[1], f"{what}: physical on-site")
                key = canon(ham)
                if key not in seen:
                    seen.add(key)
                    STATS.state((name, key))
                    nxt.append(history + [op])
        frontier = nxt
        expect(len(seen) < 5000, "the state space of notations does not close")
    if reference is not None:
        STATS.outcome(f"fixed point {name}: {len(seen)} states")


def closures(tier):
    names = ["dimer"] if tier == "quick" else ["chain", "dimer", "flip", "trio"]
    for name in names:
        for notation in PREDEFINED:
            yield [name, notation, False]


def rejected(case):
    """A rejected notation leaves the Hamiltonian as it was."""
    name, notation, bad = case
    spec = structure(name, notation)
    ham, ref = build(spec), Ref(spec)
    try:
        ham.notation = tuple(bad) if isinstance(bad, list) else bad
    except Exception as e:
        STATS.outcome(type(e).__name__)
    else:
        expect(False, f"notation {bad!r} is accepted")
    STATS.step()
    STATS.state((name, str(bad), canon(ham)))
    ref.compare(ham, f"after rejected {bad!r}")


def rejections(tier):
    bad = ["unknown", [True, False], [True, False, 1.0, 1.0, 1.0], 5, [True, True, "x"], []]
    for name in ("dimer", "flip", "trio"):
        for notation in (None, "tb2j", [False, False, 3.0, 2.0]):
            for b in bad:
                yield [name, notation, b]


SPACES = [
    Space("histories", sequences, judge, "all sequences of notation changes, every prefix judged"),
    Space("factors", near_cases, judge, "sequences over factors that are close to each other, very small and very large"),
    Space("forms", form_cases, judge, "truth values and numbers of other types, sequences of all kinds"),
    Space("twins", twin_cases, twins, "atoms with the same name and different spins"),
    Space("closure", closures, closure, "breadth-first search over notation states to the fixed point", chunk=1, limit_s=300),
    Space("rejected", rejections, rejected, "invalid notations"),
]
ASSUMPTIONS = [
    "generic parameter matrices, spins 1.5/1/3, factors from a small set of exactly representable numbers",
    "without double counting each bond is stored in one orientation; no exchange bond of an atom with itself in the same cell",
    "physical content compared with relative tolerance 1e-9",
]
