"""C04: observers do not modify the Hamiltonian; derived objects are independent."""

import copy as pycopy
import itertools
import os

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import (
    MATRICES,
    ONSITES,
    MatrixParameter,
    SpinHamiltonian,
    build,
    canon,
    close,
    same_snapshot,
    snapshot,
    structure,
)

from magnopy import (  # noqa: E402
    Energy,
    MagnonDispersion,
    dump_spinham_hdf5,
    dump_spinham_txt,
)
from magnopy.io.txt.vampire import dump_mat, dump_ucf, dump_vampire  # noqa: E402

# The line search gives up slowly (10000 steps) from a stationary point of the others
SEARCHABLE = ["dimer", "flip", "trio"]
STRUCTS = ["dimer", "flip", "trio", "chain", "padded"]
NOTS = ["magnopy", "tb2j", [False, True, -2.0, 0.5], [False, False, 1.0, 3.0], "spinw", "vampire"]


def make(name, notation):
    spec = structure(name, notation)
    spec["cone_axis"] = [0.0, 0.6, 0.8]
    spec["spiral_vector"] = [0.25, 0.0, 0.5]
    return build(spec)


def directions(n):
    base = [[0.0, 0.0, 1.0], [0.6, 0.0, -0.8], [1.0, 2.0, 2.0]]
    return [base[i % 3] for i in range(n)]


KS = [[0.0, 0.0, 0.0], [0.3, -0.2, 0.5], [1.1, 0.7, -0.4]]


def scratch(name):
    return os.path.join(os.environ.get("MC_SCRATCH", "."), f"{os.getpid()}-{name}")


def energies(energy):
    n = len(energy.spins)
    so = directions(n)
    return [
        energy.ferro(so),
        energy.antiferro(so, [0.0, 0.6, 0.8], [1.0, 0.5, -0.3]),
        energy.spiral(so, [0.0, 0.6, 0.8], [1.0, 0.5, -0.3]),
    ]


# ------------------------------------------------------------------------------ observers
def _optimize(case):
    def run(ham):
        so = directions(len(ham.magnetic_atoms))
        energy = Energy(ham)
        try:
            if case == "ferro":
                energy.optimize("ferro", initial_guess=so, max_iterations=2)
            elif case == "antiferro":
                energy.optimize(
                    "antiferro",
                    initial_guess=(so, [0.0, 0.0, 1.0]),
                    antiferro_q=[0.5, 0.0, 0.0],
                    max_iterations=1,
                )
            else:
                energy.optimize(
                    "spiral", initial_guess=(so, [0, 0, 1.0], [0.2, 0, 0]), max_iterations=1
                )
        except ValueError:
            pass  # the line search may give up; only the Hamiltonian matters here

    return run


def _write(func, name, **kwargs):
    def run(ham):
        path = scratch(name)
        try:
            func(ham, path, **kwargs)
        finally:
            for p in (path, path + ".mat", path + ".UCF"):
                if os.path.exists(p):
                    os.remove(p)

    return run


OBSERVERS = {
    "notation": lambda h: h.notation,
    "lists": lambda h: (list(h.exchange), list(h.on_site), list(h.exchange_like)),
    "scaled lists": lambda h: [p * 2 + p for *_, p in h.exchange_like],
    "magnetic": lambda h: (h.magnetic_atoms, h.I),
    "lookup": lambda h: [h[a, b, r] for a, b, r, _ in h.exchange] + [h[a] for a, _ in h.on_site],
    "parts": lambda h: [(p.iso, p.dmi, p.aniso, p.T, p.symm_matrix, -p, abs(p)) for *_, p in h.exchange],
    "membership": lambda h: [(a, b, (7, 7, 7)) in h for a, b, *_ in h.exchange],
    "geometry": lambda h: [(h.get_distance(a, b, r), h.get_vector(a, b, r)) for a, b, r, _ in h.exchange],
    "crystal": lambda h: h.crystal,
    "copy": lambda h: h.copy(),
    "filtered": lambda h: h.filtered(max_distance=1.0, custom_filter=lambda p: False),
    "energy": lambda h: energies(Energy(h)),
    "optimize ferro": _optimize("ferro"),
    "optimize antiferro": _optimize("antiferro"),
    "optimize spiral": _optimize("spiral"),
    "magnons": lambda h: MagnonDispersion(h).omegas(KS),
    "magnons form": lambda h: MagnonDispersion(h).h(KS[1]),
    "text": _write(dump_spinham_txt, "m.txt"),
    "text all": _write(
        dump_spinham_txt,
        "m.txt",
        write_iso=True,
        write_dmi=True,
        write_symm=True,
        write_distance=True,
        write_spin_angles=True,
    ),
    "text string": lambda h: dump_spinham_txt(h, print_if_none=False),
    "hdf5": _write(dump_spinham_hdf5, "m.hdf5"),
    "vampire": _write(dump_vampire, "vampire"),
    "vampire iso": _write(dump_vampire, "vampire", anisotropic=False, dmi=False),
    "ucf": lambda h: dump_ucf(h),
    "mat": lambda h: dump_mat(h),
    "bad key": lambda h: _raises(lambda: h["nobody"]),
    "bad notation": lambda h: _raises(lambda: setattr(h, "notation", "bad")),
    "bad cone axis": lambda h: _raises(lambda: setattr(h, "cone_axis", [0, 0, 0])),
    "bad spiral vector": lambda h: _raises(lambda: setattr(h, "spiral_vector", [1, 2])),
}


def _raises(f):
    try:
        f()
    except Exception:
        return
    expect(False, "an invalid call is accepted")


def observe(case):
    name, notation, sequence = case
    ham = make(name, notation)
    before = snapshot(ham)
    reference = energies(Energy(ham))
    for what in sequence:
        OBSERVERS[what](ham)
        STATS.step()
        same_snapshot(snapshot(ham), before, f"after {what}", tol=0)
    STATS.state((name, canon(ham), tuple(sequence)))
    expect(close(energies(Energy(ham)), reference), f"energies after {sequence}")


def observe_cases(tier):
    structs = STRUCTS + ["noonsite", "noexchange", "fans", "far", "padded"]
    for name, notation in itertools.product(structs, NOTS):
        for a in OBSERVERS:
            if "optimize" in a and name not in SEARCHABLE:
                continue
            yield [name, notation, [a]]
    depth = [("dimer", NOTS[0]), ("trio", NOTS[2])] if tier == "quick" else itertools.product(STRUCTS, NOTS)
    for name, notation in depth:
        for a, b in itertools.product(OBSERVERS, repeat=2):
            if "optimize" in a + b and (tier == "quick" or name not in SEARCHABLE):
                continue
            yield [name, notation, [a, b]]


# ---------------------------------------------------------------------------- derivations
def first_bond(h):
    for a, b, r, p in h.exchange:
        return a, b, r, p


def _scale_all(h):
    for *_, p in h.exchange:
        p.matrix = p.matrix * 7.0


def _inplace_all(h):
    for *_, p in h.exchange:
        p.matrix[0][1] += 3.0
    for _, p in h.on_site:
        p.matrix[2][2] -= 3.0


def _elements(h):
    for *_, p in h.exchange:
        p.xy = 11.0
        p.iso = 4.0


def _spins(h):
    for a in h.atoms:
        a.spin_vector = [3.0, 0.0, 4.0]


def _spin_inplace(h):
    for a in h.atoms:
        a.spin_vector *= 3.0
        a.position[0] += 0.125


def _positions(h):
    for n, a in enumerate(h.atoms):
        a.position = [0.1 * n + 0.3, 0.2, 0.4]


def _gfactors(h):
    for a in h.atoms:
        a.g_factor = 17.0


def _rename(h):
    h.atoms[0].name = "Q"


MUTATIONS = {
    "notation": lambda h: setattr(h, "notation", (False, True, 5.0, 7.0)),
    "double counting": lambda h: setattr(h, "double_counting", not h.double_counting),
    "spin normalized": lambda h: setattr(h, "spin_normalized", not h.spin_normalized),
    "exchange factor": lambda h: setattr(h, "exchange_factor", 13.0),
    "on-site factor": lambda h: setattr(h, "on_site_factor", 13.0),
    "matrices": _scale_all,
    "matrices in place": _inplace_all,
    "elements": _elements,
    "add": lambda h: h.add_exchange(h.atoms[0], h.atoms[0], (0, 0, 3), matrix=MATRICES[2]),
    "rewrite": lambda h: h.add_exchange(*first_bond(h)[:3], matrix=MATRICES[3]),
    "remove": lambda h: h.remove_exchange(*first_bond(h)[:3]),
    "add on-site": lambda h: h.add_on_site(h.atoms[0], matrix=ONSITES[1]),
    "remove on-site": lambda h: [h.remove_on_site(a) for a in [a for a, _ in h.on_site][:1]],
    "filter": lambda h: h.filter(custom_filter=lambda p: False),
    "spins": _spins,
    "spins in place": _spin_inplace,
    "positions": _positions,
    "g factors": _gfactors,
    "rename": _rename,
    "add atom": lambda h: h.add_atom(name="N", position=[0.9, 0.9, 0.9], spin=[0, 0, 1.0]),
    "remove atom": lambda h: h.remove_atom(h.atoms[-1]),
    "cell": lambda h: setattr(h, "cell", np.diag([5.0, 6.0, 7.0])),
    "cone axis": lambda h: setattr(h, "cone_axis", [1.0, 0, 0]),
    "cone axis in place": lambda h: h.cone_axis.__setitem__(0, 9.0),
    "spiral vector": lambda h: setattr(h, "spiral_vector", [0.1, 0.2, 0.3]),
    "spiral vector in place": lambda h: h.spiral_vector.__setitem__(2, 9.0),
}


def same_crystal(c):
    return [
        np.array(c.cell).round(9).tolist(),
        [(a.name, np.array(a.position).round(9).tolist(), np.array(a.spin_vector).round(9).tolist(), a.g_factor) for a in c.atoms],
    ]


def _nothing(x):
    pass


DERIVED = {
    # name: (derive, view of the derived object)
    "copy": (lambda h: h.copy(), snapshot),
    "deepcopy": (lambda h: pycopy.deepcopy(h), snapshot),
    "filtered": (lambda h: h.filtered(max_distance=100), snapshot),
    "crystal": (lambda h: h.crystal, same_crystal),
    "energy": (lambda h: Energy(h), lambda e: [energies(e), list(e.spins), list(e.g_factors)]),
    "magnons": (lambda h: MagnonDispersion(h), lambda m: [m.omegas(KS), m.h(KS[1])]),
    "hamiltonian of the copy of the crystal": (
        lambda h: SpinHamiltonian(h.crystal, notation="tb2j"),
        snapshot,
    ),
}


def compare(got, want, what):
    if isinstance(want, dict):
        same_snapshot(got, want, what, tol=0)
        return

    def eq(a, b):
        if isinstance(b, (list, tuple)) and not isinstance(b, str):
            return isinstance(a, (list, tuple)) and len(a) == len(b) and all(map(eq, a, b))
        if isinstance(b, np.ndarray):
            return a.shape == b.shape and np.allclose(a, b, atol=1e-7, rtol=1e-9, equal_nan=True)
        if isinstance(b, float):
            return abs(a - b) <= 1e-9 * max(1, abs(b))
        return a == b

    expect(eq(got, want), f"{what}: {got} != {want}")


def forward(case):
    """Derive, change the original: the derived object must not move."""
    name, notation, derived, mutation = case
    ham = make(name, notation)
    derive, view = DERIVED[derived]
    other = derive(ham)
    before = view(other)
    MUTATIONS[mutation](ham)
    STATS.step(2)
    STATS.state((name, str(notation), derived, mutation))
    compare(view(other), before, f"{derived} after '{mutation}' of the original")
    # a calculator made before the change equals to the one made from an equal model
    fresh = view(derive(make(name, notation)))
    compare(before, fresh, f"{derived} of two equal models")


def forward_cases(tier):
    structs = ["dimer", "trio", "padded"] if tier == "quick" else STRUCTS
    for name, notation in itertools.product(structs, NOTS):
        for derived, mutation in itertools.product(DERIVED, MUTATIONS):
            yield [name, notation, derived, mutation]


def _energy_settings(e):
    e.magnetic_field = [1.0, 2.0, 3.0]
    e.g_factors = [5.0] * len(e.g_factors)
    e.spins = [9.0] * len(e.spins)
    e.m = 3


def _energy_inplace(e):
    e.g_factors[0] = 99.0
    e.spins[0] = 99.0


def _energy_run(e):
    try:
        e.optimize("ferro", initial_guess=directions(len(e.spins)), max_iterations=3)
    except ValueError:
        pass


def _magnon_attributes(m):
    m.S *= 5.0
    m.u *= 2.0
    for J in m.J_matrices:
        J.matrix *= 3.0
    for d in m.dis_vectors:
        d += 1.0


BACKWARD = {
    "copy": MUTATIONS,
    "filtered": MUTATIONS,
    "deepcopy": MUTATIONS,
    "crystal": {
        k: MUTATIONS[k]
        for k in ("spins", "spins in place", "positions", "g factors", "rename", "add atom", "remove atom", "cell")
    },
    "energy": {"settings": _energy_settings, "in place": _energy_inplace, "run": _energy_run},
    "magnons": {"attributes": _magnon_attributes},
}


def backward(case):
    """Derive, change the derived object: the original must not move."""
    name, notation, derived, mutation = case
    ham = make(name, notation)
    before = snapshot(ham)
    other = DERIVED[derived][0](ham)
    BACKWARD[derived][mutation](other)
    STATS.step(2)
    STATS.state((name, str(notation), derived, mutation))
    same_snapshot(snapshot(ham), before, f"original after '{mutation}' of the {derived}", tol=0)
    third = DERIVED[derived][0](ham)
    fresh = DERIVED[derived][0](make(name, notation))
    view = DERIVED[derived][1]
    compare(view(third), view(fresh), f"{derived} after '{mutation}' of another {derived}")


def backward_cases(tier):
    for name, notation in itertools.product(STRUCTS, NOTS):
        for derived in BACKWARD:
            for mutation in BACKWARD[derived]:
                if mutation == "run" and name not in SEARCHABLE:
                    continue
                yield [name, notation, derived, mutation]


# ------------------------------------------------------------------- objects handed over
def _param_exchange(h):
    p = MatrixParameter(matrix=MATRICES[0])
    h.add_exchange("A", "B", (2, 0, 0), p)
    h["A", "B", (0, 2, 0)] = p
    return p


def _param_onsite(h):
    p = MatrixParameter(matrix=ONSITES[0])
    h.add_on_site("A", p)
    h["B"] = p
    return p


def _array_matrix(h):
    m = np.array(MATRICES[0])
    h.add_exchange("A", "B", (2, 0, 0), matrix=m)
    h.add_on_site("A", matrix=m)
    return m


def _array_dmi(h):
    d = np.array([1.0, 2.0, 3.0])
    h.add_exchange("A", "B", (2, 0, 0), dmi=d, iso=3.0)
    return d


def _array_vector(h):
    v = np.array([0.1, 0.2, 0.3])
    h.spiral_vector = v
    return v


def _array_axis(h):
    v = np.array([0.0, 0.0, 1.0])
    h.cone_axis = v
    return v


def _notation_list(h):
    n = [True, False, 2.0, 3.0]
    h.notation = n
    return n


HANDED = {
    "exchange parameter": _param_exchange,
    "on-site parameter": _param_onsite,
    "matrix": _array_matrix,
    "dmi": _array_dmi,
    "spiral vector": _array_vector,
    "cone axis": _array_axis,
    "notation": _notation_list,
}


def spoil(obj):
    if isinstance(obj, MatrixParameter):
        obj.matrix[1][0] += 100.0
        obj.xx = -100.0
        obj.iso = 55.0
    elif isinstance(obj, list):
        obj[0], obj[2] = False, 77.0
    else:
        obj += 10.0


def handed(case):
    name, notation, what = case
    ham = make(name, notation)
    obj = HANDED[what](ham)
    before = snapshot(ham)
    spoil(obj)
    STATS.step(2)
    STATS.state((name, str(notation), what))
    same_snapshot(snapshot(ham), before, f"after a change of the {what} that was handed over", tol=0)


def handed_cases(tier):
    for name, notation in itertools.product(["dimer", "trio", "flip"], NOTS + [None]):
        for what in HANDED:
            if notation is None and what == "notation":
                continue
            yield [name, notation, what]


# ------------------------------------------------------------ one parameter, others stand
def single(case):
    """A change of one parameter through the Hamiltonian does not move the others."""
    name, notation, index = case
    ham = make(name, notation)
    shared = MatrixParameter(matrix=MATRICES[1])
    ham.add_exchange(ham.atoms[0], ham.atoms[0], (0, 0, 2), shared)
    ham.add_exchange(ham.atoms[0], ham.atoms[-1], (0, 2, 0), shared)
    ham.add_on_site(ham.atoms[0], shared)
    before = snapshot(ham)
    keys = list(before["exchange"]) + list(before["on_site"])
    key = keys[index % len(keys)]
    ham[key].matrix[0][2] += 50.0
    STATS.step()
    STATS.state((name, str(notation), str(key)))
    want = dict(before)
    want["exchange"] = {k: v.copy() for k, v in before["exchange"].items()}
    want["on_site"] = {k: v.copy() for k, v in before["on_site"].items()}
    (want["exchange"] if isinstance(key, tuple) else want["on_site"])[key][0][2] += 50.0
    same_snapshot(snapshot(ham), want, f"after a change of {key}", tol=0)


def single_cases(tier):
    for name, notation in itertools.product(STRUCTS, NOTS + [None]):
        for index in range(14):
            yield [name, notation, index]


# ------------------------------------------------------------------ arguments are inputs
def arguments(case):
    name, notation, what = case
    ham = make(name, notation)
    energy = Energy(ham)
    n = len(energy.spins)
    so = 2.0 * np.array(directions(n))
    axis = np.array([0.0, 3.0, 4.0])
    q = np.array([0.2, 0.1, 0.0])
    k = np.array(KS)
    kept = [x.copy() for x in (so, axis, q, k)]
    field = np.array([1.0, 2.0, -1.0])
    g = [2.0 + 0.5 * i for i in range(n)]
    spins = [1.0 + 0.5 * i for i in range(n)]
    if what == "ferro":
        energy.ferro(so)
    elif what == "antiferro":
        energy.antiferro(so, axis, q)
    elif what == "spiral":
        energy.spiral(so, axis, q)
    elif what in ("optimize ferro", "optimize antiferro", "optimize spiral"):
        try:
            if what == "optimize ferro":
                energy.optimize("ferro", initial_guess=so, max_iterations=2)
            elif what == "optimize antiferro":
                energy.optimize("antiferro", initial_guess=(so, axis), antiferro_q=q, max_iterations=1)
            else:
                energy.optimize("spiral", initial_guess=(so, axis, q), max_iterations=1)
        except ValueError:
            pass
    elif what == "omegas":
        MagnonDispersion(ham).omegas(k)
    elif what == "omega":
        for point in k:
            MagnonDispersion(ham).omega(point)
    elif what == "field":
        energy.magnetic_field = field
        energy.g_factors = g
        energy.spins = spins
        before = energies(energy)
        field += 10.0
        g[0] = 50.0
        spins[0] = 50.0
        compare(energies(energy), before, "energies after a change of the settings that were handed over")
    STATS.step()
    STATS.state((name, str(notation), what))
    for x, y, label in zip((so, axis, q, k), kept, ("directions", "axis", "vector", "k points")):
        expect(np.array_equal(x, y), f"{what} changed its argument: {label}")


def argument_cases(tier):
    whats = ["ferro", "antiferro", "spiral", "optimize ferro", "optimize antiferro", "optimize spiral", "omegas", "omega", "field"]
    for name, notation in itertools.product(STRUCTS, NOTS):
        for what in whats:
            if "optimize" in what and name not in SEARCHABLE:
                continue
            yield [name, notation, what]


SPACES = [
    Space("observers", observe_cases, observe, "every observer, and all pairs of observers one after another", limit_s=120, chunk=8),
    Space("original changed", forward_cases, forward, "every derivation followed by every change of the original", limit_s=120),
    Space("derived changed", backward_cases, backward, "every derivation followed by every change of the derived object", limit_s=120),
    Space("handed over", handed_cases, handed, "objects passed to the Hamiltonian and changed afterwards"),
    Space("one of many", single_cases, single, "change of each single parameter when one instance was passed for several bonds"),
    Space("arguments", argument_cases, arguments, "arguments of calculations are inputs only", limit_s=120, chunk=2),
]
ASSUMPTIONS = [
    "atoms that are passed to the Hamiltonian are its atoms (the library uses them as keys) and are not part of the claim",
    "a parameter obtained from the Hamiltonian by lookup or iteration is the live parameter, as documented",
]
