"""C03: filters keep exactly the parameters that satisfy all the conditions."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import ALL, build, structure
from mc.models import CELLS as CELL_SHAPES
from mc.models import (
    MATRICES,
    ONSITES,
    SpinHamiltonian,
    canon,
    mirror_bonds,
    notation_or_none,
    raw,
    same_map,
    same_snapshot,
    snapshot,
)

# All lengths are exact in floating point, whatever the way to compute them
CELL = np.diag([4.0, 4.0, 4.0])
ATOMS = [["A", [0, 0, 0], [0, 0, 1.5]], ["B", [0.75, 0, 0], [0.6, 0, 0.8]], ["C", [0.0, 0.75, 0.5], [0, 2, 0]]]
MODELS = {
    # length: 3, 1, 5, 4, 4, 4
    "many": {
        "bonds": [
            [0, 1, [0, 0, 0], 0],
            [0, 1, [-1, 0, 0], 1],
            [1, 0, [0, 1, 0], 2],
            [0, 0, [1, 0, 0], 0],
            [1, 1, [0, 0, -1], 3],
            [0, 0, [0, 0, 1], 1],
        ],
        "onsite": [[0, 0], [1, 1]],
    },
    # one bond per length, no on-site for the first atom
    "few": {
        "bonds": [[1, 0, [1, 0, 0], 1], [0, 1, [0, 0, 0], 2], [1, 1, [0, 1, 0], 0]],
        "onsite": [[1, 0]],
    },
    "exchange only": {"bonds": [[0, 1, [0, 0, 0], 0], [0, 0, [0, 1, 0], 1]], "onsite": []},
    "on-site only": {"bonds": [], "onsite": [[0, 1], [2, 0]]},
    "nothing": {"bonds": [], "onsite": []},
}
CUSTOM = {
    "none": None,
    "nothing": lambda p: False,
    "all": lambda p: True,
    "iso": lambda p: p.iso > 0.1,
    "dmi": lambda p: p.dmi_module > 0.6,
    "xy": lambda p: p.xy > 0.2,
    "zz": lambda p: abs(p.matrix[2][2]) > 0.6,
    "number": lambda p: int(p.iso > 0.1),
    "numpy": lambda p: np.bool_(p.zx < 0.2),
}


def make(model, notation, both):
    spec = MODELS[model]
    ham = SpinHamiltonian(cell=CELL)
    for name, pos, spin in ATOMS:
        ham.add_atom(name=name, position=pos, spin=spin)
    if notation is not None:
        ham.notation = notation if isinstance(notation, str) else tuple(notation)
    bonds = spec["bonds"] + (mirror_bonds(spec["bonds"]) if both else [])
    for i, j, ijk, m in bonds:
        ham.add_exchange(ATOMS[i][0], ATOMS[j][0], tuple(ijk), matrix=MATRICES[m] if isinstance(m, int) else m)
    for i, m in spec["onsite"]:
        ham.add_on_site(ATOMS[i][0], matrix=ONSITES[m])
    return ham


def length(key):
    pos = {n: np.array(p, dtype=float) for n, p, _ in ATOMS}
    return float(np.linalg.norm((pos[key[1]] + np.array(key[2]) - pos[key[0]]) * 4.0))


def judge(case):
    model, notation, both, low, high, custom = case
    ham = make(model, notation, both)
    before = snapshot(ham)
    kwargs = {}
    if low is not None:
        kwargs["min_distance"] = low
    if high is not None:
        kwargs["max_distance"] = high
    func = CUSTOM[custom]
    if func is not None:
        kwargs["custom_filter"] = func

    from magnopy.spinham.parameter import MatrixParameter

    dc = before["notation"][0]
    keep = {}
    for key, m in before["exchange"].items():
        ok = True
        d = length(key)
        if low is not None and d < low:
            ok = False
        if high is not None and d > high:
            ok = False
        if func is not None:
            ok = ok and bool(func(MatrixParameter(matrix=m)))
            if dc:
                ok = ok and bool(func(MatrixParameter(matrix=m.T)))
        if ok:
            keep[key] = m
    onsite = {}
    for name, m in before["on_site"].items():
        ok = not (low is not None and low > 0)
        if func is not None:
            ok = ok and bool(func(MatrixParameter(matrix=m)))
        if ok:
            onsite[name] = m

    copy = ham.filtered(**kwargs)
    STATS.step()
    what = f"filtered({kwargs})"
    same_snapshot(snapshot(ham), before, f"{what} changed the original")
    expect(copy is not ham, f"{what} returned the same object")
    want = dict(before)
    want["exchange"], want["on_site"] = keep, onsite
    same_snapshot(snapshot(copy), want, what)
    result = ham.filter(**kwargs)
    STATS.step()
    expect(result is None or result is ham, "filter returns another object")
    same_snapshot(snapshot(ham), want, f"filter({kwargs})")
    ham.filter(**kwargs)
    same_snapshot(snapshot(ham), want, f"second filter({kwargs})")
    STATS.state((model, canon(ham)))
    STATS.outcome(f"kept {len(keep)} of {len(before['exchange'])}")


NOTATIONS = [(None, False), (None, True), ("tb2j", False), ([False, False, 2.0, -1.0], False)]
LOW = [None, -1.0, 0, 0.0, 1e-9, 0.5, 1, 2.0, 3.0, 4.0, 4.5, 5.0, 5.5]
HIGH = [None, 0, 0.5, 1.0, 2.0, 3, 4.0, 4.5, 5.0, 5.5]


def cases(tier):
    for model, (notation, both) in itertools.product(MODELS, NOTATIONS):
        for low, high, custom in itertools.product(LOW, HIGH, CUSTOM):
            yield [model, notation, both, low, high, custom]


def thresholds(case):
    """Limits just below and just above each length, in cells of any shape."""
    name, notation, both, low, high = case
    ham = build(structure(name, None, both=both))
    if notation is not None:
        ham.notation = notation if isinstance(notation, str) else tuple(notation)
    before = snapshot(ham)
    lengths = lengths_of(name)
    low = None if low is None else lengths[low[0]] * (1 + low[1])
    high = None if high is None else lengths[high[0]] * (1 + high[1])
    kwargs = {k: v for k, v in (("min_distance", low), ("max_distance", high)) if v is not None}
    want = dict(before)
    want["exchange"] = {
        k: m
        for k, m in before["exchange"].items()
        if (low is None or bond_length(name, k) >= low) and (high is None or bond_length(name, k) <= high)
    }
    if low is not None:
        want["on_site"] = {}
    STATS.step()
    same_snapshot(snapshot(ham.filtered(**kwargs)), want, f"filtered({kwargs})")
    same_snapshot(snapshot(ham), before, f"filtered({kwargs}) changed the original")
    ham.filter(**kwargs)
    same_snapshot(snapshot(ham), want, f"filter({kwargs})")
    STATS.state((name, sorted(map(str, want["exchange"]))))


def bond_length(name, key):
    spec = ALL[name]
    pos = {a[0]: np.array(a[1]) for a in spec["atoms"]}
    d = (pos[key[1]] + np.array(key[2]) - pos[key[0]]) @ np.array(CELL_SHAPES[spec["cell"]])
    return float(np.sqrt(d @ d))


def lengths_of(name):
    spec = ALL[name]
    names = [a[0] for a in spec["atoms"]]
    out = []
    for d in sorted(bond_length(name, (names[i], names[j], r)) for i, j, r, _ in spec["bonds"]):
        if not out or d > out[-1] * (1 + 1e-4):
            out.append(d)
    return out


def threshold_cases(tier):
    for name, (notation, both) in itertools.product(ALL, NOTATIONS):
        marks = [None] + [[n, e] for n in range(len(lengths_of(name))) for e in (-1e-6, -1e-10, 1e-10, 1e-6)]
        for low, high in itertools.product(marks, marks):
            if tier == "quick" and len(marks) > 20 and low and high and abs(low[0] - high[0]) > 1:
                continue
            yield [name, notation, both, low, high]


def chains(case):
    """Filters one after another are the conjunction of the conditions."""
    model, notation, both, steps = case
    ham = make(model, notation, both)
    reference = make(model, notation, both)
    merged = {}
    lows = [s["min_distance"] for s in steps if "min_distance" in s]
    highs = [s["max_distance"] for s in steps if "max_distance" in s]
    names = [s["custom_filter"] for s in steps if "custom_filter" in s]
    if lows:
        merged["min_distance"] = max(lows)
    if highs:
        merged["max_distance"] = min(highs)
    if names:
        merged["custom_filter"] = lambda p: all(CUSTOM[n](p) for n in names)
    for s in steps:
        s = dict(s)
        if "custom_filter" in s:
            s["custom_filter"] = CUSTOM[s["custom_filter"]]
        ham.filter(**s)
        STATS.step()
    reference.filter(**merged)
    same_snapshot(snapshot(ham), snapshot(reference), f"{steps} one by one and together")
    STATS.state((model, canon(ham)))


def chain_cases(tier):
    atoms = [
        {"min_distance": 2.0},
        {"max_distance": 4.0},
        {"max_distance": 3.0},
        {"min_distance": 0.5, "max_distance": 4.5},
        {"custom_filter": "iso"},
        {"custom_filter": "xy"},
        {"custom_filter": "dmi", "max_distance": 4.0},
        {},
    ]
    for model, (notation, both) in itertools.product(MODELS, NOTATIONS):
        for depth in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for steps in itertools.product(atoms, repeat=depth):
                yield [model, notation, both, list(steps)]


SPACES = [
    Space("conditions", cases, judge, "all combinations of minimal, maximal distance (below, at and above each length) and custom conditions"),
    Space("thresholds", threshold_cases, thresholds, "limits just below and above each bond length, in cells of any shape"),
    Space("chains", chain_cases, chains, "sequences of filters against one filter with all the conditions"),
]
ASSUMPTIONS = [
    "bond lengths are exactly representable, so that the inclusive limits are decided without rounding; in other cells the limits are off the lengths by a relative 1e-10 or more",
    "custom conditions are pure functions of the parameter; with double counting a pair of bonds stays if both its parameters pass",
]
