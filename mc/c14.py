"""C14: HDF5 files: histories of dumps, round trip, meaning of the documented content."""

import itertools
import os

import h5py
import numpy as np

from mc import txtref
from mc.core import STATS, Space, expect, scratch
from mc.models import (
    ATOMS,
    CELLS,
    MATRICES,
    NOTATIONS_ALL,
    ONSITES,
    ALL,
    SpinHamiltonian,
    build,
    same_snapshot,
    snapshot,
    structure,
)

from magnopy.exceptions import NotationError  # noqa: E402
from magnopy.io import dump_spinham_hdf5, load_spinham, load_spinham_hdf5  # noqa: E402

TOL = 1e-12


def charges(ham):
    out = []
    for a in ham.atoms:
        try:
            out.append(float(a.charge))
        except ValueError:
            out.append(None)
    return out


def full(ham):
    """Snapshot with the charges."""
    return snapshot(ham), charges(ham)


def stored(state):
    """What the file keeps: components of the notation that the parameters need."""
    snap, q = state
    snap = dict(snap)
    dc, norm, ef, of = snap["notation"]
    snap["notation"] = [
        dc if snap["exchange"] else None,
        norm if snap["exchange"] or snap["on_site"] else None,
        ef if snap["exchange"] else None,
        of if snap["on_site"] else None,
    ]
    return snap, q


def same(got, want, what):
    same_snapshot(got[0], want[0], what, tol=TOL)
    expect(got[1] == want[1], f"{what}: charges {got[1]}, expected {want[1]}")


def model(number):
    """Three models that differ in everything."""
    if number == 0:
        spec = structure("dimer", [True, False, 0.5, -1.0])
        spec["cone_axis"] = [0.36, 0.48, 0.8]
        spec["spiral_vector"] = [0.1234567891234, -0.25, 1.5]
        ham = build(spec)
        ham.atoms[0].charge = -1.25
    elif number == 1:
        ham = build(structure("trio", [False, True, -2.0, 3.0]))
        for a in ham.atoms:
            a.charge = 3
    elif number == 2:
        ham = build(structure("noexchange", [True, True, 1.0, 1.0]))
    elif number == 4:
        ham = build(structure("flip", [True, True, -0.5, 2.0]))
    else:
        ham = SpinHamiltonian(cell=CELLS["left"])
        ham.add_atom(name="X", position=[0.1, 0.2, 0.3], spin=[0, 0, 1], g_factor=2)
    return ham


# ------------------------------------------------------------------ histories
TARGETS = [("one", "spinham"), ("one", "a"), ("one", "a/b"), ("one", "x/y/z"), ("two", "a")]
STEPS = [[t, o] for t in range(len(TARGETS)) for o in (False, True)]


def covers(path, group):
    return group == path or group.startswith(path + "/")


def parents(path):
    words = path.split("/")
    return {"/".join(words[: n + 1]) for n in range(len(words))}


def check_files(files, paths, what):
    for name, groups in files.items():
        path = paths[name]
        if groups is None:
            expect(not os.path.exists(path), f"{what}: file {name} appeared")
            continue
        for group, want in groups.items():
            same(full(load_spinham_hdf5(path, groupname=group)), want, f"{what}: {name}:{group}")
            STATS.step()
        if len(groups) == 1:
            got = full(load_spinham(path))
            same(got, next(iter(groups.values())), f"{what}: {name} without the name of the group")
        else:
            try:
                load_spinham_hdf5(path)
            except RuntimeError:
                STATS.outcome("ambiguous")
            else:
                expect(False, f"{what}: one of {sorted(groups)} is read without the name of the group")
        with h5py.File(path, "r+") as f:
            found = []
            f.visititems(lambda n, o: found.append(n) if o.attrs.get("type") == "SpinHamiltonian" else None)
        expect(sorted(found) == sorted(groups), f"{what}: Hamiltonians in the file {sorted(found)}, expected {sorted(groups)}")


def judge(case):
    shift, history = case
    paths = {"one": scratch("one.hdf5"), "two": scratch("two.hdf5")}
    for path in paths.values():
        if os.path.exists(path):
            os.remove(path)
    files = {"one": None, "two": None}
    exists = {"one": set(), "two": set()}  # all groups that are present
    for n, (target, overwrite) in enumerate(history):
        name, group = TARGETS[target]
        ham = model((n + shift) % 4)
        before = full(ham)
        what = f"{case}, step {n}"
        there = group in exists[name]
        STATS.step()
        try:
            if group == "spinham":
                dump_spinham_hdf5(ham, paths[name], overwrite=overwrite)
            else:
                dump_spinham_hdf5(ham, paths[name], groupname=group, overwrite=overwrite)
        except FileExistsError:
            STATS.outcome("exists")
            expect(there and not overwrite, f"{what}: FileExistsError, but the group is not there")
        else:
            STATS.outcome("written")
            expect(overwrite or not there, f"{what}: existing group is overwritten without the permission")
            groups = {g: s for g, s in (files[name] or {}).items() if not covers(group, g)}
            groups[group] = stored(before)
            files[name] = groups
            exists[name] = {g for g in exists[name] if not covers(group, g)} | parents(group)
        same(full(ham), before, f"{what}: the Hamiltonian after the dump")
        check_files(files, paths, what)
        STATS.state((shift, history[: n + 1]))


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for shift in range(4):
        for history in itertools.product(STEPS, repeat=depth):
            if tier == "quick" and sum(s[0] + s[1] for s in history) % 4 != shift:
                continue
            yield [shift, [list(s) for s in history]]


# ------------------------------------------------------------------ models
EXTRAS = [
    {},
    {"cone_axis": [0.36, 0.48, 0.8], "spiral_vector": [0.123456789123456, -0.25, 1.5]},
    {"cone_axis": [0.0, 0.0, -1.0]},
    {"spiral_vector": [0.0, 0.0, 0.0]},
]


def roundtrip(ham, what):
    path = scratch("round.hdf5")
    if os.path.exists(path):
        os.remove(path)
    before = full(ham)
    want = stored(before)
    dump_spinham_hdf5(ham, path)
    same(full(ham), before, f"{what}: the Hamiltonian after the dump")
    loaded = load_spinham(path)
    same(full(loaded), want, f"{what}: loaded")
    dump_spinham_hdf5(loaded, path, groupname="again")
    same(full(load_spinham_hdf5(path, groupname="again")), want, f"{what}: loaded from the second dump")
    same(full(load_spinham(path, spinham_format="HDF5", groupname="spinham")), want, f"{what}: loaded again")
    # the loaded Hamiltonian does not depend on the file
    os.remove(path)
    same(full(loaded), want, f"{what}: loaded, the file is removed")
    STATS.step(5)
    STATS.state(what)


def judge_model(case):
    name, notation, late, extra, both = case
    spec = structure(name, notation, late=late, both=both)
    spec.update(EXTRAS[extra])
    ham = build(spec)
    if extra % 2:
        ham.atoms[0].charge = -0.5
    roundtrip(ham, f"{case}")


def model_cases(tier):
    for name in ALL:
        for notation in NOTATIONS_ALL:
            for late in (False, True):
                for extra in range(len(EXTRAS)):
                    # both orientations make sense only with double counting
                    for both in (False, True) if notation[0] else (False,):
                        yield [name, notation, late, extra, both]


def judge_values(case):
    kind, arg = case
    ham = SpinHamiltonian(cell=arg if kind == "cell" else CELLS["tricl"])
    names = arg if kind == "names" else ["A", "B"]
    if kind == "atoms":
        names = [f"{'Fe' if n % 2 else 'Cr'}{n}" for n in range(arg)]
    if kind == "order":
        names = arg
    notation = arg if kind == "notation" else [True, False, 1 / 3, -1.0]
    scale = arg if kind == "scale" else 1.0
    ijk = tuple(arg) if kind == "ijk" else (1, 0, -1)
    for n, name in enumerate(names):
        pos = [0.1 * n, (0.37 * n) % 1, 1 / 3] if kind != "positions" else arg[n]
        spin = [0.1 * n + 0.1, -0.2, 0.3] if kind != "spins" else arg[n]
        g = 2.0 if kind != "g" else arg[n]
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g)
        if kind == "charge" and arg[n] is not None:
            ham.atoms[n].charge = arg[n]
    ham.notation = tuple(notation)
    M = np.array(MATRICES[0]) * scale / 3
    count = arg if kind == "bonds" else len(names)
    for n in range(count):
        i = tuple(np.array(ijk) * (n + 1) + np.array([0, n % 3, 0]))
        ham.add_exchange(names[n % len(names)], names[(n + 1) % len(names)], i, matrix=M * (n + 1))
    for n, name in enumerate(names):
        ham.add_on_site(name, matrix=np.array(ONSITES[0]) * scale * (n + 1) / 7)
    if kind == "cone":
        ham.cone_axis = arg
    if kind == "spiral":
        ham.spiral_vector = arg
    roundtrip(ham, f"{case}")


def values_cases(tier):
    groups = {
        "cell": [[[1 / 3, 2 / 3, 1], [0.1, -0.7, 0.2], [1e-5, 0.3, 0.9]], [[-3.5, 0.1, 0], [0, 1e2, 0], [0, 0, 1234.56789]], [[0, 0, 2], [2, 0, 0], [0, 2, 0]]],
        "names": [["Cr", "Cr2"], ["1", "2"], ["10", "9"], ["i m", "m j"], ["Ä", "β"], ["cell", "atoms"], ["Sm", "sm"], ["Fe_long_name_1", "Fe_long_name_2"]],
        "order": [list(p) for p in itertools.permutations(["Z", "A", "10", "2"])],
        "atoms": [1, 2, 9, 10, 11, 12, 21],
        "bonds": [1, 9, 10, 11, 12, 25],
        "positions": [[[-0.25, 1.75, 12.125], [0.123456789123, 1 / 3, 2 / 3]], [[-100.5, 0.0, 99.99999999], [1e-7, -1e-7, 0.5]]],
        "spins": [[[0, 0, 1.5], [0, 0, -1.5]], [[1e-3, 0, 0], [-1 / 3, 2 / 3, 12.5]], [[0.3, -0.4, 0.0], [0.0, 2.5, -1e-6]]],
        "g": [[2.0, 2.0023], [0.0, 2.0], [0, -1], [-1.5, 0.1], [1 / 3, 100]],
        "charge": [[None, None], [0.0, None], [None, -2], [1 / 3, 7.5]],
        "notation": [[True, True, 1 / 3, 1e-3], [False, False, -0.1, 12345.678], [True, False, 1, 1], [False, True, 1e10, -1e-10]],
        "scale": [1e-9, 1e-3, 12345.678, -1e8],
        "ijk": [[0, 0, 0], [-1, -2, -3], [10, 0, 0], [-123, 456, 0], [0, 0, 1], [0, 0, -1]],
        "cone": [[1, 0, 0], [0, -1, 0], [1, 1, 1], [-0.3, 0.2, 5]],
        "spiral": [[0, 0, 0.5], [1 / 3, -1 / 3, 1e-5], [-3.7, 2.2, 0.1]],
    }
    for kind, args in groups.items():
        for arg in args:
            if kind == "ijk" and arg == [0, 0, 0]:
                continue
            yield [kind, arg]


def failing(case):
    """Subsets of the undefined notation: either an error and nothing is written, or a round trip."""
    missing, content, overwrite = case
    ham = SpinHamiltonian(cell=CELLS["ortho"])
    for name, pos, spin, g in ATOMS[:2]:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g)
    if "exchange" in content:
        ham.add_exchange("A", "B", (0, 0, 0), matrix=MATRICES[0])
    if "on-site" in content:
        ham.add_on_site("A", matrix=ONSITES[0])
    values = {"double_counting": True, "spin_normalized": False, "exchange_factor": 0.5, "on_site_factor": -1.0}
    for key, value in values.items():
        if key not in missing:
            setattr(ham, key, value)
    needed = set()
    if "exchange" in content:
        needed |= {"double_counting", "spin_normalized", "exchange_factor"}
    if "on-site" in content:
        needed |= {"spin_normalized", "on_site_factor"}
    path = scratch("failing.hdf5")
    if os.path.exists(path):
        os.remove(path)
    old = model(0)
    want_old = stored(full(old))
    dump_spinham_hdf5(old, path, groupname="precious")
    group = "precious" if overwrite else "new"
    before = full(ham)
    STATS.step()
    STATS.state(str(case))
    if needed & set(missing):
        try:
            dump_spinham_hdf5(ham, path, groupname=group, overwrite=overwrite)
        except NotationError:
            STATS.outcome("rejected")
        else:
            expect(False, f"{case}: Hamiltonian with the undefined notation is written")
        check_files({"f": {"precious": want_old}}, {"f": path}, f"{case}")
    else:
        dump_spinham_hdf5(ham, path, groupname=group, overwrite=overwrite)
        groups = {"precious": want_old}
        groups[group] = stored(before)
        check_files({"f": groups}, {"f": path}, f"{case}")
        STATS.outcome("written")
    same(full(ham), before, f"{case}: the Hamiltonian after the dump")


def failing_cases(tier):
    keys = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
    for n in range(5):
        for missing in itertools.combinations(keys, n):
            for content in ([], ["exchange"], ["on-site"], ["exchange", "on-site"]):
                for overwrite in (False, True):
                    yield [list(missing), content, overwrite]


# ------------------------------------------------------------------ documented content
ENERGY_UNITS = {
    "milli-electron-Volt": 1.0,
    "electron-Volt": txtref.ENERGY["e"],
    "Joule": txtref.ENERGY["j"],
    "Kelvin": txtref.ENERGY["k"],
    "Rydberg": txtref.ENERGY["r"],
}
CASES = [str, str.lower, str.upper]


def write_document(path, doc, group="spinham"):
    """A file by the documentation of the format."""
    with h5py.File(path, "w") as f:
        root = f.create_group(group)
        root.attrs["type"] = doc.get("type", "SpinHamiltonian")
        cell = root.create_group("cell")
        cell.attrs["units"] = doc["cell_units"]
        for n, key in enumerate(("a1", "a2", "a3")):
            cell.create_dataset(key, data=CELLS["tricl"][n])
        atoms = root.create_group("atoms")
        for n, (name, pos, spin, g) in enumerate(ATOMS):
            a = atoms.create_group(str(n + 1))
            a.create_dataset("name", data=name)
            a.create_dataset("position", data=pos)
            a.create_dataset("spin", data=spin)
            a.create_dataset("g-factor", data=g)
            if doc.get("charge"):
                a.create_dataset("charge", data=n - 1)
        if doc["exchange"] is not None or doc["onsite"] is not None:
            notation = root.create_group("notation")
            notation.create_dataset("spin-normalized", data=int(doc["sn"]))
            if doc["exchange"] is not None or doc.get("whole"):
                notation.create_dataset("double-counting", data=int(doc["dc"]))
                notation.create_dataset("exchange-factor", data=doc["ef"])
            if doc["onsite"] is not None or doc.get("whole"):
                notation.create_dataset("on-site-factor", data=doc["of"])
        if doc["exchange"] is not None:
            exchange = root.create_group("exchange")
            exchange.attrs["units"] = doc["exchange"]
            for n, (i, j, ijk, m) in enumerate(BONDS):
                b = exchange.create_group(str(n + 1))
                b.create_dataset("atom-1", data=ATOMS[i][0])
                b.create_dataset("atom-2", data=ATOMS[j][0])
                b.create_dataset("ijk", data=ijk)
                b.create_dataset("matrix", data=MATRICES[m])
        if doc["onsite"] is not None:
            onsite = root.create_group("on-site")
            onsite.attrs["units"] = doc["onsite"]
            for n, i in enumerate((2, 0)):
                b = onsite.create_group(str(n + 1))
                b.create_dataset("atom", data=ATOMS[i][0])
                b.create_dataset("matrix", data=ONSITES[n])
        for key, values in (("spiral-vector", SPIRAL), ("cone-axis", CONE)):
            if doc[key] is not None:
                d = root.create_dataset(key, data=values)
                d.attrs["units"] = doc[key]


BONDS = [(0, 1, [0, 0, 0], 0), (1, 2, [-1, 0, 2], 1), (2, 2, [0, 1, 0], 2)]
SPIRAL = [0.15, -0.3, 0.45]
CONE = [0.2, -0.7, 0.5]


def expected_document(doc):
    scale = txtref.BOHR if doc["cell_units"].lower() == "bohr" else 1.0
    cell = np.array(CELLS["tricl"]) * scale
    exchange, on_site = {}, {}
    if doc["exchange"] is not None:
        factor = {k.lower(): v for k, v in ENERGY_UNITS.items()}[doc["exchange"].lower()]
        for i, j, ijk, m in BONDS:
            n1, n2 = ATOMS[i][0], ATOMS[j][0]
            exchange[(n1, n2, tuple(ijk))] = np.array(MATRICES[m]) * factor
            if doc["dc"]:
                exchange[(n2, n1, tuple(-x for x in ijk))] = np.array(MATRICES[m]).T * factor
    if doc["onsite"] is not None:
        factor = {k.lower(): v for k, v in ENERGY_UNITS.items()}[doc["onsite"].lower()]
        for n, i in enumerate((2, 0)):
            on_site[ATOMS[i][0]] = np.array(ONSITES[n]) * factor
    notation = [
        bool(doc["dc"]) if exchange else None,
        bool(doc["sn"]) if exchange or on_site else None,
        doc["ef"] if exchange else None,
        doc["of"] if on_site else None,
    ]
    spiral = cone = None
    if doc["spiral-vector"] is not None:
        spiral = np.array(SPIRAL)
        if doc["spiral-vector"].lower() == "absolute":
            # in the inverse units of the cell: q.a_i = 2 pi q_i
            spiral = np.array([CELLS["tricl"][n] @ np.array(SPIRAL) for n in range(3)]) / (2 * np.pi)
    if doc["cone-axis"] is not None:
        cone = np.array(CONE)
        if doc["cone-axis"].lower() == "relative":
            cone = CONE @ cell
        cone = cone / np.linalg.norm(cone)
    return cell, exchange, on_site, notation, spiral, cone


def judge_document(case):
    doc = dict(case)
    path = scratch("document.hdf5")
    write_document(path, doc)
    with open(path, "rb") as f:
        content = f.read()
    ham = load_spinham(path) if doc["sn"] else load_spinham_hdf5(path, "spinham")
    with open(path, "rb") as f:
        expect(f.read() == content, f"{case}: the file is changed by reading")
    cell, exchange, on_site, notation, spiral, cone = expected_document(doc)
    got = snapshot(ham)
    want = {
        "cell": cell,
        "atoms": got["atoms"],
        "notation": notation,
        "exchange": exchange,
        "on_site": on_site,
        "spiral_vector": spiral,
        "cone_axis": cone,
    }
    same_snapshot(got, want, f"{case}", tol=1e-8)
    for n, (a, (name, pos, spin, g)) in enumerate(zip(got["atoms"], ATOMS)):
        expect(a[0] == name and np.allclose(a[2], pos, atol=1e-9) and np.allclose(a[3], spin, atol=1e-9) and abs(a[4] - g) < 1e-9, f"{case}: atom {a}, expected {ATOMS[n]}")
    expect(len(got["atoms"]) == len(ATOMS), f"{case}: {len(got['atoms'])} atoms")
    expect(charges(ham) == ([-1.0, 0.0, 1.0] if doc.get("charge") else [None] * 3), f"{case}: charges {charges(ham)}")
    STATS.step()
    STATS.state(str(case))


def document_cases(tier):
    exchange_units = [None] + list(ENERGY_UNITS)
    vectors = [None, "Relative", "Absolute"]
    n = 0
    for cell_units in ("Angstrom", "Bohr"):
        for e, o in itertools.product(exchange_units, repeat=2):
            for s, c in itertools.product(vectors, repeat=2):
                for dc, sn in itertools.product((0, 1), repeat=2):
                    n += 1
                    f = CASES[n % 3]
                    g = CASES[(n // 3) % 3]
                    yield {
                        "cell_units": f(cell_units),
                        "exchange": e and g(e),
                        "onsite": o and f(o),
                        "spiral-vector": s and g(s),
                        "cone-axis": c and f(c),
                        "dc": dc,
                        "sn": sn,
                        "ef": [1.0, -0.5, 2, 0.25][n % 4],
                        "of": [-1.0, 3, 0.5][n % 3],
                        "charge": n % 2,
                        "type": [str, str.lower][n % 2]("SpinHamiltonian"),
                        "whole": n % 5 == 0,
                    }


# ------------------------------------------------------------------ damaged content
DOC = {
    "cell_units": "Angstrom",
    "exchange": "Kelvin",
    "onsite": "Joule",
    "spiral-vector": "Relative",
    "cone-axis": "Absolute",
    "dc": 1,
    "sn": 0,
    "ef": 0.5,
    "of": -1.0,
    "charge": 1,
}
ITEMS = (
    ["cell", "cell/a1", "cell/a2", "cell/a3", "cell@units", "atoms"]
    + [f"atoms/{n}/{key}" for n in (1, 2, 3) for key in ("name", "position")]
    + ["notation", "notation/double-counting", "notation/spin-normalized", "notation/exchange-factor", "notation/on-site-factor"]
    + ["exchange@units"]
    + [f"exchange/{n}/{key}" for n in (1, 2, 3) for key in ("atom-1", "atom-2", "ijk", "matrix")]
    + ["on-site@units"]
    + [f"on-site/{n}/{key}" for n in (1, 2) for key in ("atom", "matrix")]
    + ["spiral-vector@units", "cone-axis@units"]
)


def damage(path, item, kind):
    with h5py.File(path, "r+") as f:
        root = f["spinham"]
        if "@" in item:
            name, attr = item.split("@")
            del root[name].attrs[attr]
            if kind == "replace":
                root[name].attrs[attr] = "lightyear"
        else:
            del root[item]
            if kind == "replace":
                root.create_dataset(item, data="nobody")


def judge_damage(case):
    item, kind, named = case
    path = scratch("damaged.hdf5")
    write_document(path, DOC)
    damage(path, item, kind)
    with open(path, "rb") as f:
        content = f.read()
    STATS.step()
    STATS.state(str(case))
    error = None
    try:
        if named:
            ham = load_spinham_hdf5(path, groupname="spinham")
        else:
            ham = load_spinham(path)
    except Exception as e:
        error = e  # the error is kept, as a user that looks at it would do
        STATS.outcome(type(e).__name__)
    expect(error is not None, f"{case}: damaged file is loaded")
    with h5py.File(path, "r+") as f:
        expect("spinham" in f, f"{case}: the group is gone")
    with open(path, "rb") as f:
        expect(f.read() == content, f"{case}: the file is changed by reading")


def damage_cases(tier):
    for item in ITEMS:
        for kind in ("remove", "replace"):
            # any text is a name of an atom and a flag
            if kind == "replace" and item.endswith(("/name", "double-counting", "spin-normalized")):
                continue
            for named in (True, False):
                yield [item, kind, named]


# ------------------------------------------------------------------ files with other content
TYPES = [None, "", "spin", "Hamiltonian", "SpinHamiltonian2", "Spectrum", "type"]
PLACES = ["data", "zz/data", "spinham", "spinham/data", "a/spinham", "aspinham"]


def outside(path, group):
    """Everything that does not belong to the group."""
    found = {}
    with h5py.File(path, "r") as f:

        def visit(name, item):
            if name == group or name.startswith(group + "/") or group.startswith(name + "/"):
                return
            value = item[()].tolist() if isinstance(item, h5py.Dataset) else None
            found[name] = (value, sorted((k, str(v)) for k, v in item.attrs.items()))

        f.visititems(visit)
    return found


def company(case):
    """The model lives in a file together with other data."""
    group, place, kind, type_ = case
    path = scratch("company.hdf5")
    if os.path.exists(path):
        os.remove(path)
    with h5py.File(path, "w") as f:
        item = f.create_group(place) if kind == "group" else f.create_dataset(place, data=np.arange(6.0))
        if kind == "group":
            item.create_dataset("cell", data=[1.0, 2.0])
            item.create_group("atoms")
        if type_ is not None:
            item.attrs["type"] = type_
        item.attrs["units"] = "Kelvin"
        f.attrs["title"] = "other data"
    before = outside(path, group)
    expect(before, "no other data")
    # there is no model yet
    for args, error in (((), RuntimeError), ((group,), KeyError)):
        try:
            load_spinham_hdf5(path, *args)
        except error:
            STATS.outcome(error.__name__)
        else:
            expect(False, f"{case}: something is read from the file without a model, arguments {args}")
    for n in (1, 4, 2):
        ham = model(n)
        dump_spinham_hdf5(ham, filename=path, groupname=group, overwrite=n != 1)
        STATS.step()
        for label, got in (("found", load_spinham_hdf5(path)), ("named", load_spinham_hdf5(path, group)), ("guessed", load_spinham(path))):
            same(full(got), stored(full(ham)), f"{case}, model {n}, {label}")
        expect(outside(path, group) == before, f"{case}, model {n}: other data {before} became {outside(path, group)}")
        with h5py.File(path, "r") as f:
            expect(f.attrs.get("title") == "other data", f"{case}: attributes of the file")
    STATS.state(str(case))


def company_cases(tier):
    for group, place, kind, type_ in itertools.product(["spinham", "a/model", "m"], PLACES, ["group", "dataset"], TYPES):
        if place == group or place.startswith(group + "/") or group.startswith(place + "/"):
            continue
        yield [group, place, kind, type_]


SPACES = [
    Space("company", company_cases, company, "files with other groups and datasets, of other types and without a type"),
    Space("histories", cases, judge, "all histories of dumps (5 groups of 2 files x overwrite) of given depth; every group of every file is loaded after every step"),
    Space("models", model_cases, judge_model, "models x notations x order of definition x cone axis, spiral vector: round trip"),
    Space("values", values_cases, judge_values, "kinds of names, order and number of atoms and bonds, numbers: round trip"),
    Space("failing", failing_cases, failing, "all subsets of the undefined notation"),
    Space("documents", document_cases, judge_document, "files written by the documentation of the format: all units x optional content"),
    Space("damages", damage_cases, judge_damage, "required items that are removed or replaced: an error, the file is not changed and not kept open"),
]
ASSUMPTIONS = [
    "h5py and the HDF5 library are trusted",
    "names of atoms are unique; overwriting of a group replaces everything in it",
    "the absolute spiral vector is in the inverse units of the cell, as in the text format",
]
