"""C02: the Hamiltonian as a container, operation histories against a reference."""

import copy
import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import (
    ATOMS,
    CELLS,
    MATRICES,
    ONSITES,
    MatrixParameter,
    SpinHamiltonian,
    Atom,
    canon,
    close,
    notation_or_none,
    same_map,
)
from wulfric import Atom, Crystal

from mc.refham import PREDEFINED, Ref, mirror
from magnopy.exceptions import NotationError

NAMES = ["A", "B", "C", "D"]
RS = [(0, 0, 0), (2, 0, -3), (-2, 0, 3), (0, 1, 0), (0, -1, 0)]
UNIVERSE = [(a, b, r) for a in NAMES for b in NAMES for r in RS if not (a == b and r == (0, 0, 0))]


class Excluded(Exception):
    """The operation is outside of the domain of the property in this state."""


def start(kind):
    spec = {"atoms": [ATOMS[0], ATOMS[1]], "notation": None}
    ham = SpinHamiltonian(cell=CELLS["tricl"])
    for name, pos, spin, g in spec["atoms"]:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g, relative=True)
    ref = Ref(spec)
    if kind is not None:
        for op in kind:
            step(ham, ref, op)
    return ham, ref


def keep_domain(ref):
    """Without double counting one orientation of a bond; if it is not defined yet, then
    both orientations only with transposed parameters."""
    for key, v in ref.exchange.items():
        m = mirror(key)
        if m in ref.exchange and ref.dc is not True:
            if ref.dc is False or not close(ref.exchange[m], v.T):
                raise Excluded


def step(ham, ref, op):
    """Apply one operation to both; raises Excluded if the reference has no opinion."""
    kind = op[0]
    if kind in ("add", "set"):
        _, a, b, r, m, how = op
        if a not in ref.atoms or b not in ref.atoms:
            raise Excluded
        key = (a, b, tuple(r))
        trial = copy.deepcopy(ref)
        trial.add(key, MATRICES[m])
        keep_domain(trial)
        if ref.dc is False and mirror(key) in ham:
            raise Excluded  # the bond is stored in the other orientation
        ref.add(key, MATRICES[m])
        first, second = (a, b) if how == "name" else (ham.get_atom(a), ham.get_atom(b))
        if kind == "add":
            if how == "name":
                ham.add_exchange(first, second, tuple(r), matrix=MATRICES[m])
            else:
                ham.add_exchange(first, second, tuple(r), MatrixParameter(matrix=MATRICES[m]))
        else:
            ham[first, second, tuple(r)] = MatrixParameter(matrix=MATRICES[m])
        expect((first, second, tuple(r)) in ham, f"{op}: the bond is not found after it was added")
        expect(close(ham[first, second, tuple(r)].matrix, MATRICES[m]), f"{op}: another parameter is found after it was added")
    elif kind in ("rem", "del", "remq"):
        _, a, b, r, how = op
        if a not in ref.atoms or b not in ref.atoms:
            raise Excluded
        key = (a, b, tuple(r))
        if ref.dc is False and key not in ref.exchange and mirror(key) in ref.exchange:
            raise Excluded  # orientation of the bond is not promised
        stored = key
        if ref.dc is False and key in ref.exchange and key not in ham:
            stored = mirror(key)
        known = key in ref.exchange
        half = ref.dc is True and not known and mirror(key) in ref.exchange
        expect(not half, f"reference is broken: {key}")
        args = [stored[0], stored[1], stored[2]]
        if how == "atom":
            args[:2] = [ham.get_atom(args[0]), ham.get_atom(args[1])]
        try:
            if kind == "rem":
                ham.remove_exchange(*args)
            elif kind == "remq":
                ham.remove_exchange(*args, raise_if_no_bond=False)
            else:
                del ham[tuple(args)]
        except KeyError:
            expect(not known, f"{op}: KeyError for the existing bond")
            expect(kind != "remq", f"{op}: KeyError, but it was asked not to raise")
        else:
            expect(known or kind == "remq", f"{op}: no KeyError for the absent bond")
        if known:
            ref.remove(key)
    elif kind in ("addos", "setos"):
        _, a, m, how = op
        if a not in ref.atoms:
            raise Excluded
        ref.on_site[a] = np.array(ONSITES[m])
        who = a if how == "name" else ham.get_atom(a)
        if kind == "addos":
            ham.add_on_site(who, matrix=ONSITES[m])
        else:
            ham[who] = MatrixParameter(matrix=ONSITES[m])
    elif kind in ("remos", "delos", "remosq"):
        _, a, how = op
        if a not in ref.atoms:
            raise Excluded
        who = a if how == "name" else ham.get_atom(a)
        known = a in ref.on_site
        try:
            if kind == "remos":
                ham.remove_on_site(who)
            elif kind == "remosq":
                ham.remove_on_site(who, raise_if_no_bond=False)
            else:
                del ham[who]
        except KeyError:
            expect(not known, f"{op}: KeyError for the existing parameter")
            expect(kind != "remosq", f"{op}: KeyError, but it was asked not to raise")
        else:
            expect(known or kind == "remosq", f"{op}: no KeyError for the absent parameter")
        ref.on_site.pop(a, None)
    elif kind == "rematom":
        _, a, how = op
        if a not in ref.atoms:
            raise Excluded
        ham.remove_atom(a if how == "name" else ham.get_atom(a))
        ref.remove_atom(a)
    elif kind == "newatom":
        _, a, through = op
        if a in ref.atoms:
            raise Excluded
        if through == "bond" and "A" not in ref.atoms:
            raise Excluded
        index = {"C": 2, "D": 2}[a]
        _, pos, spin, g = ATOMS[index]
        atom = Atom(a, position=np.array(pos), spin=spin, g_factor=g)
        ref.atoms.append(a)
        ref.spin[a] = float(np.linalg.norm(spin))
        if through == "atom":
            ham.add_atom(atom)
        elif through == "onsite":
            ham.add_on_site(atom, MatrixParameter(matrix=ONSITES[1]))
            ref.on_site[a] = np.array(ONSITES[1])
        else:
            ham.add_exchange(ham.get_atom("A"), atom, (0, 1, 0), matrix=MATRICES[2])
            ref.add(("A", a, (0, 1, 0)), MATRICES[2])
    elif kind == "dc":
        keep_domain(ref)
        ham.double_counting = op[1]
        ref.set_dc(op[1])
    elif kind == "sn":
        ham.spin_normalized = op[1]
        ref.set_sn(op[1])
    elif kind == "ef":
        ham.exchange_factor = op[1]
        ref.set_ef(op[1])
    elif kind == "of":
        ham.on_site_factor = op[1]
        ref.set_of(op[1])
    elif kind == "n":
        keep_domain(ref)
        ham.notation = op[1]
        ref.set_notation(op[1])
    else:
        raise RuntimeError(op)


def views_agree(ham, ref, what):
    """Every public view of the same state."""
    ref.compare(ham, what)
    listed = {}
    for a1, a2, r, p in ham.exchange:
        expect(isinstance(p, MatrixParameter), f"{what}: {type(p)} instead of a parameter")
        listed[a1.name, a2.name, r] = np.array(p.matrix)
    again = [(a1.name, a2.name, r) for a1, a2, r, _ in ham.exchange]
    expect(again == list(listed), f"{what}: second iteration differs")
    expect(len(ham.exchange) == len(listed), f"{what}: length of exchange")
    onsite = {a.name: np.array(p.matrix) for a, p in ham.on_site}
    expect(len(ham.on_site) == len(onsite), f"{what}: length of on-site")

    if ref.dc:
        for key, m in listed.items():
            expect(mirror(key) in listed, f"{what}: {key} has no mirrored bond")
            expect(close(listed[mirror(key)], m.T), f"{what}: mirrored bond of {key} is not transposed")

    for key in UNIVERSE:
        a, b, r = key
        if a not in ref.atoms or b not in ref.atoms:
            continue
        for x, y in ((a, b), (ham.get_atom(a), ham.get_atom(b))):
            expect(((x, y, r) in ham) == (key in listed), f"{what}: membership of {key}")
            if key in listed:
                expect(close(ham[x, y, r].matrix, listed[key]), f"{what}: lookup of {key}")
            else:
                try:
                    ham[x, y, r]
                except KeyError:
                    pass
                else:
                    expect(False, f"{what}: lookup of the absent {key} returns a value")
    for a in ref.atoms:
        for x in (a, ham.get_atom(a)):
            expect((x in ham) == (a in onsite), f"{what}: membership of on-site {a}")
            if a in onsite:
                expect(close(ham[x].matrix, onsite[a]), f"{what}: lookup of on-site {a}")
            else:
                try:
                    ham[x]
                except KeyError:
                    pass
                else:
                    expect(False, f"{what}: lookup of absent on-site {a} returns a value")

    magnetic = [n for n in ref.atoms if n in onsite or any(n in k[:2] for k in listed)]
    got = [a.name for a in ham.magnetic_atoms]
    expect(sorted(got) == sorted(magnetic), f"{what}: magnetic atoms {got}, expected {magnetic}")
    index = [a.index for a in ham.magnetic_atoms]
    expect(index == sorted(index), f"{what}: magnetic atoms are not ordered by index: {index}")
    expect(ham.I == len(magnetic), f"{what}: I = {ham.I}")

    if ref.ef is not None and (ref.of is not None or not onsite):
        like = list(ham.exchange_like)
        expect(len(ham.exchange_like) == len(like), f"{what}: length of exchange_like")
        expect(len(like) == len(listed) + len(onsite), f"{what}: exchange_like has {len(like)} items")
        seen = set()
        for a1, a2, r, p in like:
            key = (a1.name, a2.name, r)
            expect(key not in seen, f"{what}: {key} twice in exchange_like")
            seen.add(key)
            if a1.name == a2.name and r == (0, 0, 0):
                want = onsite[a1.name] * ref.of / ref.ef
            else:
                want = listed[key]
            expect(close(p.matrix, want), f"{what}: exchange_like {key}")


def touch(ham):
    """Read everything (and forget it): reading has no effect on what follows."""
    list(ham.magnetic_atoms), ham.I, len(ham.exchange), len(ham.on_site)
    list(ham.exchange), list(ham.on_site), list(ham.atoms), ham.cell
    try:
        list(ham.exchange_like), len(ham.exchange_like)
    except NotationError:
        pass


def judge(case):
    kind, history, touches = case
    ham, ref = start(kind)
    done = 0
    try:
        for op in history:
            if done in touches:
                touch(ham)
            step(ham, ref, op)
            done += 1
            STATS.step()
    except Excluded:
        # the rest of the history is outside of the domain; the prefix is a case of its own
        STATS.outcome("outside of the domain")
        if done == 0:
            return
    STATS.outcome("judged")
    STATS.state(canon(ham))
    views_agree(ham, ref, f"after {history[:done]}")


ADD = [
    ["add", "A", "B", [0, 0, 0], 0, "name"],
    ["add", "B", "A", [0, 0, 0], 1, "atom"],
    ["set", "A", "B", [2, 0, -3], 1, "name"],
    ["add", "B", "A", [-2, 0, 3], 2, "name"],
    ["set", "A", "B", [-2, 0, 3], 0, "atom"],
    ["add", "A", "A", [0, 1, 0], 0, "name"],
    ["set", "A", "A", [0, -1, 0], 2, "name"],
]
REM = [
    ["rem", "A", "B", [0, 0, 0], "name"],
    ["del", "B", "A", [0, 0, 0], "atom"],
    ["remq", "B", "A", [-2, 0, 3], "name"],
    ["del", "A", "B", [2, 0, -3], "name"],
    ["rem", "A", "A", [0, -1, 0], "atom"],
]
ONS = [
    ["addos", "A", 0, "name"],
    ["setos", "B", 1, "atom"],
    ["setos", "A", 1, "name"],
    ["remos", "A", "name"],
    ["delos", "B", "name"],
    ["remosq", "A", "atom"],
]
ATO = [
    ["rematom", "B", "name"],
    ["rematom", "A", "atom"],
    ["newatom", "C", "bond"],
    ["newatom", "D", "onsite"],
    ["newatom", "C", "atom"],
]
NOT = [["dc", True], ["dc", False], ["sn", True], ["sn", False], ["n", "vampire"]]

STARTS = [None, [["dc", True]], [["n", "tb2j"]], [["dc", False], ["ef", 2.0], ["of", -1.0]]]
FULL = [
    [["n", "magnopy"]] + ADD[:1] + ADD[2:3] + ADD[5:6] + ONS[:2],
    [["dc", False], ["sn", False], ["ef", 2.0], ["of", -1.0]] + ADD[:1] + ADD[2:3] + ADD[5:6] + ONS[:2] + ATO[2:3],
    ADD[:1] + ADD[2:3] + ADD[5:6] + ONS[:2],
]


def sequences(tier):
    ops = ADD + REM + ONS + ATO + NOT
    for kind in STARTS + FULL:
        for history in itertools.product(ops, repeat=1):
            for touches in ([], [0]):
                yield [kind, list(history), touches]
        for history in itertools.product(ops, repeat=2):
            for touches in ([], [0], [1], [0, 1]):
                yield [kind, list(history), touches]
        masks = [[], [1]] if tier == "quick" and kind not in (STARTS[1], STARTS[3], FULL[2]) else [[]]
        if tier == "thorough":
            masks = [[], [0], [1], [2], [1, 2], [0, 1, 2]]
        for history in itertools.product(ops, repeat=3):
            for touches in masks:
                yield [kind, list(history), touches]
    if tier == "thorough":
        ops = ADD[:6] + REM[:2] + REM[3:] + ONS[:1] + ATO[:1] + NOT[:2]
        for kind in (None, [["n", "tb2j"]], [["dc", False], ["ef", 2.0], ["of", -1.0]], FULL[0]):
            for history in itertools.product(ops, repeat=4):
                yield [kind, list(history), []]


def closure(case):
    """All reachable states of a smaller alphabet: histories of any length."""
    kind, alphabet = case
    ops = ALPHABETS[alphabet]
    ham, ref = start(kind)
    seen = {canon(ham)}
    frontier = [(ham, ref, [])]
    while frontier:
        nxt = []
        for ham, ref, history in frontier:
            for op in ops:
                h, r = ham.copy(), copy.deepcopy(ref)
                try:
                    step(h, r, op)
                except Excluded:
                    continue
                STATS.step()
                key = canon(h)
                what = f"after {history + [op]}"
                views_agree(h, r, what)
                if key in seen:
                    continue
                seen.add(key)
                STATS.state(key)
                nxt.append((h, r, history + [op]))
        frontier = nxt
        expect(len(seen) < 60000, "the state space does not close")
    STATS.outcome(f"{alphabet}: fixed point with {len(seen)} states")


ALPHABETS = {
    "inner bond": ADD[:2] + REM[:2] + [["dc", True], ["dc", False]],
    "outer bond": ADD[2:5] + REM[2:4] + [["dc", True], ["dc", False]],
    "self image": ADD[5:7] + REM[4:] + ONS[:1] + ONS[3:4] + [["dc", True], ["dc", False]],
    "atoms": ATO[:1] + ATO[2:4] + [["rematom", "C", "name"], ["rematom", "D", "atom"]] + ONS[1:2] + ADD[:1] + [["n", "vampire"], ["n", "magnopy"]],
    "two bonds": ADD[:1] + ADD[2:3] + ADD[5:6] + REM[:1] + REM[2:3] + REM[4:] + [["dc", True], ["dc", False], ["sn", True], ["sn", False]],
    "all bonds": ADD[:3] + ADD[5:6] + REM + ONS[:1] + ONS[3:4] + [["dc", True], ["dc", False], ["ef", 2.0], ["ef", 1.0]],
}


def closures(tier):
    names = ["inner bond", "outer bond", "self image", "two bonds"]
    if tier == "thorough":
        names = ["all bonds", "two bonds", "inner bond", "outer bond", "self image"]
    for alphabet in names:
        for kind in ([], [["n", "tb2j"]], [["dc", False], ["ef", 2.0], ["of", 1.0]]):
            yield [kind, alphabet]


def bad_keys(case):
    """Wrong keys raise and change nothing."""
    kind, key, action = case
    ham, ref = start(kind)
    before = canon(ham)
    key = tuple(tuple(x) if isinstance(x, list) else x for x in key) if isinstance(key, list) else key
    try:
        if action == "get":
            ham[key]
        elif action == "set":
            ham[key] = MatrixParameter(iso=1)
        elif action == "del":
            del ham[key]
        else:
            key in ham
    except Exception as e:
        STATS.outcome(type(e).__name__)
    else:
        expect(False, f"{action} with the key {key!r} is accepted")
    STATS.step()
    STATS.state((before, str(key), action))
    expect(canon(ham) == before, f"{action} with the key {key!r} changed the Hamiltonian")
    views_agree(ham, ref, f"after {action} {key!r}")


def bad_cases(tier):
    for kind in STARTS + FULL:
        for key in (5, "Z", ["A", "B"], ["A", "Z", [0, 0, 0]], ["Z", "A", [0, 0, 0]], ["A", "B", [0, 0, 0], 1]):
            for action in ("get", "set", "del", "in"):
                yield [kind, key, action]


def twins(case):
    """Atoms with equal names are told apart by the index (full name)."""
    notation, history = case
    ham = SpinHamiltonian(cell=CELLS["ortho"])
    for _, pos, spin, g in (ATOMS[0], ATOMS[1]):
        ham.add_atom(name="Cr", position=pos, spin=spin, g_factor=g)
    full = [a.fullname for a in ham.atoms]
    expect(len(set(full)) == 2, f"full names {full}")
    spin = {n: float(np.linalg.norm(a.spin_vector)) for n, a in zip(full, ham.atoms)}
    ref = Ref({"atoms": [], "notation": None})
    ref.atoms, ref.spin = full, spin
    if notation is not None:
        ham.notation = notation
        ref.set_notation(notation)
    for op in history:
        STATS.step()
        if op[0] == "add":
            _, a, b, r, m = op
            key = (full[a], full[b], tuple(r))
            trial = copy.deepcopy(ref)
            trial.add(key, MATRICES[m])
            try:
                keep_domain(trial)
            except Excluded:
                return
            if ref.dc is False and mirror(key) in ham:
                return
            ham.add_exchange(*key, matrix=MATRICES[m])
            ref.add(key, MATRICES[m])
        elif op[0] == "new":
            # one more atom of the same name comes with its parameter
            if len(full) > 2:
                return
            _, pos, sp, g = ATOMS[2]
            atom = Atom("Cr", position=np.array(pos), spin=sp, g_factor=g, index=3)
            full.append(atom.fullname)
            ref.atoms = ref.atoms if ref.atoms is full else ref.atoms + [atom.fullname]
            ref.spin[atom.fullname] = float(np.linalg.norm(sp))
            if op[1] == "onsite":
                ham.add_on_site(atom, matrix=ONSITES[1])
                ref.on_site[atom.fullname] = np.array(ONSITES[1])
            else:
                pair = (ham.atoms[0], atom) if op[1] == "second" else (atom, ham.atoms[0])
                key = (pair[0].fullname, pair[1].fullname, (1, 0, -1))
                ham.add_exchange(*pair, (1, 0, -1), matrix=MATRICES[1])
                ref.add(key, MATRICES[1])
        elif op[0] == "addos":
            ham.add_on_site(full[op[1]], matrix=ONSITES[op[2]])
            ref.on_site[full[op[1]]] = np.array(ONSITES[op[2]])
        elif op[0] == "remos":
            ham.remove_on_site(full[op[1]], raise_if_no_bond=False)
            ref.on_site.pop(full[op[1]], None)
        elif op[0] == "rematom":
            if full[op[1]] not in ref.atoms:
                return
            ham.remove_atom(full[op[1]])
            ref.remove_atom(full[op[1]])
            break
        elif op[0] == "n":
            ham.notation = op[1]
            ref.set_notation(op[1])
    got = {(a.fullname, b.fullname, r): np.array(p.matrix) for a, b, r, p in ham.exchange}
    ons = {a.fullname: np.array(p.matrix) for a, p in ham.on_site}
    STATS.state((sorted((k, v.round(8).tolist()) for k, v in got.items()), sorted((k, v.round(8).tolist()) for k, v in ons.items())))
    what = f"after {history}"
    expect([a.fullname for a in ham.atoms] == ref.atoms, f"{what}: atoms")
    same_map(ref.view(got, full), ref.view(ref.exchange, full), f"{what}: exchange")
    same_map(ons, ref.on_site, f"{what}: on-site")
    magnetic = [n for n in full if n in ons or any(n in k[:2] for k in got)]
    expect([a.fullname for a in ham.magnetic_atoms] == magnetic, f"{what}: magnetic atoms")


def twin_cases(tier):
    ops = [
        ["add", 0, 1, [0, 0, 0], 0],
        ["add", 1, 0, [0, 0, 0], 1],
        ["add", 0, 0, [1, 0, 0], 2],
        ["add", 1, 1, [0, -1, 0], 0],
        ["addos", 0, 0],
        ["addos", 1, 1],
        ["remos", 0],
        ["rematom", 0],
        ["rematom", 1],
        ["new", "first"],
        ["new", "second"],
        ["new", "onsite"],
        ["n", "tb2j"],
        ["n", [False, False, 0.5, 2.0]],
    ]
    for notation in (None, "magnopy", [False, True, -1.0, 1.0]):
        for depth in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for history in itertools.product(ops, repeat=depth):
                yield [notation, list(history)]


# --------------------------------------------- ways to construct and to give parameters
SYMMETRIC = [[0.5, 0.2, -0.1], [0.2, -0.75, 0.4], [-0.1, 0.4, 0.25]]
DMI = [0.3, -0.6, 0.9]
WAYS = {
    "matrix": ({"matrix": MATRICES[0]}, MATRICES[0]),
    "iso": ({"iso": 2.5}, (2.5 * np.eye(3)).tolist()),
    "aniso": ({"aniso": SYMMETRIC}, SYMMETRIC),
    "dmi": ({"dmi": DMI}, [[0, 0.9, 0.6], [-0.9, 0, 0.3], [-0.6, -0.3, 0]]),
    "parts": ({"iso": -1.0, "dmi": DMI}, [[-1.0, 0.9, 0.6], [-0.9, -1.0, 0.3], [-0.6, -0.3, -1.0]]),
    "nothing": ({}, np.zeros((3, 3)).tolist()),
}
CONSTRUCTORS = ["cell", "crystal", "crystal and later change", "atoms", "empty", "parameter atoms"]
GIVEN = [None, "TB2J", "spinw", [False, True, 2.0], [True, False, -1.0], [True, True, 0.5, 3.0], [0, 1, "2", 1]]


def constructed(case):
    """Every way to construct the Hamiltonian, every form of the notation and of the parameter."""
    how, notation, way, instance, late = case
    kwargs, matrix = WAYS[way]
    specs = [ATOMS[0], ATOMS[1]]
    atoms = [Atom(name=n, position=p, spin=s, g_factor=g) for n, p, s, g in specs]
    given = notation if notation is None or isinstance(notation, str) else tuple(notation)
    first = {} if late or given is None else {"notation": given}
    cell = CELLS["tricl"]
    if how == "cell":
        ham = SpinHamiltonian(cell=cell, **first)
        for n, p, s, g in specs:
            ham.add_atom(name=n, position=p, spin=s, g_factor=g)
    elif how == "atoms":
        ham = SpinHamiltonian(cell=cell, atoms=atoms, **first)
    elif how.startswith("crystal"):
        crystal = Crystal(cell=cell, atoms=atoms)
        ham = SpinHamiltonian(crystal, **first) if way == "iso" else SpinHamiltonian(crystal=crystal, **first)
        if how != "crystal":
            crystal.add_atom(name="Z", position=[0.1, 0.2, 0.3])
            crystal.remove_atom("Z")
            crystal.cell = CELLS["ortho"]
    else:
        ham = SpinHamiltonian(**first)
        cell = np.eye(3)
        if how == "empty":
            for n, p, s, g in specs:
                ham.add_atom(name=n, position=p, spin=s, g_factor=g)
    # atoms that are not in the Hamiltonian are added together with the parameter
    a, b = atoms if how == "parameter atoms" else ("A", "B")
    ref = Ref({"atoms": specs, "notation": None})
    if first:
        ref.set_notation(notation_of(notation))
    if instance:
        ham.add_exchange(a, b, (2, 0, -3), MatrixParameter(**kwargs), iso=77.0)
        ham.add_on_site(b, MatrixParameter(**kwargs), iso=77.0)
    else:
        ham.add_exchange(a, b, (2, 0, -3), **kwargs)
        ham.add_on_site(b, **kwargs)
    ref.add(("A", "B", (2, 0, -3)), matrix)
    ref.on_site["B"] = np.array(matrix, dtype=float)
    if late and given is not None:
        ham.notation = given
        ref.set_notation(notation_of(notation))
    STATS.step()
    STATS.state(str(case))
    what = f"{case}"
    expect(close(ham.cell, cell), f"{what}: cell {ham.cell}")
    expect([x.name for x in ham.atoms] == ["A", "B"], f"{what}: atoms {[x.name for x in ham.atoms]}")
    for x, (n, p, s, g) in zip(ham.atoms, specs):
        expect(close(x.position, p) and close(x.spin_vector, s) and close(x.g_factor, g), f"{what}: data of {n}")
    views_agree(ham, ref, what)


def notation_of(notation):
    if isinstance(notation, str):
        return notation.lower()
    out = [bool(notation[0]), bool(notation[1])] + [float(x) for x in notation[2:]]
    return out if len(out) == 4 else out + out[2:]


def constructed_cases(tier):
    for case in itertools.product(CONSTRUCTORS, GIVEN, WAYS, [False, True], [False, True]):
        yield list(case)


SPACES = [
    Space("constructed", constructed_cases, constructed, "ways to construct x forms of the notation x forms of the parameter"),
    Space("twins", twin_cases, twins, "atoms with the same name, addressed by full names"),
    Space("histories", sequences, judge, "all operation histories up to the depth with reads of all views at chosen places; every prefix is a case of its own"),
    Space("closure", closures, closure, "breadth-first search to the fixed point: histories of any length over smaller alphabets", chunk=1, limit_s=600),
    Space("wrong keys", bad_cases, bad_keys, "keys that do not name a parameter"),
]
ASSUMPTIONS = [
    "atoms have different names; no exchange bond of an atom with itself in the same cell",
    "without double counting only one orientation of a bond is added by the user, and which of the two is stored is not promised",
    "before double counting is defined both orientations are added only with mutually transposed parameters",
]
