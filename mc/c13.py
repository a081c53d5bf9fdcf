"""C13: text dump, its meaning and the round trip."""

import contextlib
import io
import itertools
import os

import numpy as np

from mc import txtref
from mc.c11 import write
from mc.core import STATS, Space, expect, scratch
from mc.models import (
    ATOMS,
    CELLS,
    MATRICES,
    NOTATIONS_ALL,
    ONSITES,
    ALL,
    SpinHamiltonian,
    build,
    close,
    notation_or_none,
    raw,
    same_snapshot,
    snapshot,
    structure,
)

from magnopy.exceptions import NotationError  # noqa: E402
from magnopy.io import dump_spinham_txt, load_spinham, load_spinham_txt  # noqa: E402

OPTIONS = ["write_matrix", "write_iso", "write_dmi", "write_symm", "write_distance", "write_spin_angles"]
HALF = 0.51e-4  # four decimals are printed
FINE = 0.51e-8  # eight decimals are printed


def near(a, b, tol):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol + 1e-12 * np.abs(b)))


def expected_exchange(m, options):
    """What is left of the parameter if only some of its parts are written."""
    iso = np.trace(m) / 3 * np.eye(3)
    sym = (m + m.T) / 2 - iso
    anti = (m - m.T) / 2
    if options["write_matrix"]:
        return m
    out = np.zeros((3, 3))
    if options["write_iso"]:
        out = out + iso
    if options["write_symm"]:
        out = out + sym
    if options["write_dmi"]:
        out = out + anti
    return out


def compare(want, got, options, what):
    """want: snapshot of the model; got: dictionary in the form of the reference reader."""
    expect(near(got["cell"], want["cell"], FINE), f"{what}: cell {got['cell']}, expected {want['cell']}")
    names = [a[0] for a in want["atoms"]]
    expect([a["name"] for a in got["atoms"]] == names, f"{what}: atoms {[a['name'] for a in got['atoms']]}, expected {names}")
    for g, w in zip(got["atoms"], want["atoms"]):
        expect(near(g["position"], w[2], FINE), f"{what}: position of {w[0]} {g['position']}, expected {w[2]}")
        S = np.linalg.norm(w[3])
        tol = HALF if not options["write_spin_angles"] else HALF + S * np.radians(HALF) * 2
        expect(near(g["spin"], w[3], tol), f"{what}: spin of {w[0]} {g['spin']}, expected {w[3]}")
    dc, norm, ef, of = want["notation"]
    expected = [dc if want["exchange"] else None, norm if want["exchange"] or want["on_site"] else None, ef if want["exchange"] else None, of if want["on_site"] else None]
    expect(got["notation"] == expected, f"{what}: notation {got['notation']}, expected {expected}")
    # three parts with four decimals each; the last diagonal element is a sum of two of them
    tol = HALF if options["write_matrix"] and not (options["write_iso"] or options["write_symm"] or options["write_dmi"]) else 5 * HALF
    for key in ("exchange", "on_site"):
        expect(set(got[key]) == set(want[key]), f"{what}: {key} {sorted(got[key])}, expected {sorted(want[key])}")
        for k, m in want[key].items():
            m = expected_exchange(m, options) if key == "exchange" else (m + m.T) / 2
            expect(near(got[key][k], m, tol if key == "exchange" else HALF), f"{what}: {key} of {k} is {got[key][k].tolist()}, expected {m.tolist()}")
    for key in ("cone_axis", "spiral_vector"):
        expect((got[key] is None) == (want[key] is None), f"{what}: {key} {got[key]}, expected {want[key]}")
        if want[key] is not None:
            expect(near(got[key], want[key], 3 * FINE), f"{what}: {key} {got[key]}, expected {want[key]}")


def content(ham):
    """A loaded Hamiltonian in the form of the reference reader."""
    exchange, on_site = raw(ham)
    return {
        "cell": np.array(ham.cell),
        "atoms": [{"name": a.name, "position": a.position, "spin": a.spin_vector} for a in ham.atoms],
        "notation": notation_or_none(ham),
        "exchange": exchange,
        "on_site": on_site,
        "cone_axis": ham.cone_axis,
        "spiral_vector": ham.spiral_vector,
    }


def dump(ham, options, way):
    if way == "file":
        path = scratch("dump.txt")
        dump_spinham_txt(ham, path, **options)
        with open(path, encoding="utf-8") as f:
            return f.read()
    if way == "print":
        buffer = io.StringIO()
        with contextlib.redirect_stdout(buffer):
            out = dump_spinham_txt(ham, **options)
        expect(out is None, "printed and returned at the same time")
        return buffer.getvalue()
    buffer = io.StringIO()
    with contextlib.redirect_stdout(buffer):
        out = dump_spinham_txt(ham, print_if_none=False, **options)
    expect(buffer.getvalue() == "", "returned and printed at the same time")
    return out if isinstance(out, str) else "\n".join(out)


def judge_model(ham, options, what):
    want = snapshot(ham)
    texts = {way: dump(ham, options, way) for way in ("file", "print", "return")}
    STATS.step(3)
    for way, text in texts.items():
        expect(text.rstrip("\n") == texts["file"].rstrip("\n"), f"{what}: the text that is {way}ed differs from the file")
    same_snapshot(snapshot(ham), want, f"{what}: the Hamiltonian after the dump", tol=0)
    text = texts["file"]
    try:
        ref = txtref.read(text)
    except (txtref.Invalid, txtref.Unspecified) as e:
        expect(False, f"{what}: the written file breaks the rules of the format: {e}\n{text[-1500:]}")
    compare(want, ref, options, f"{what}: written file")
    path = write(text)
    loaded = load_spinham_txt(path)
    compare(want, content(loaded), options, f"{what}: loaded file")
    # the second dump
    again = txtref.read(dump(loaded, options, "file"))
    for key in ("cell", "cone_axis", "spiral_vector"):
        expect((again[key] is None) == (ref[key] is None) and (ref[key] is None or near(again[key], ref[key], 1e-9 if key == "cell" else 2.1e-8)), f"{what}: second dump, {key}")
    for key in ("exchange", "on_site"):
        expect(set(again[key]) == set(ref[key]), f"{what}: second dump, {key}")
        for k in ref[key]:
            # decimals of the parts may move by one unit when they are printed again
            expect(near(again[key][k], ref[key][k], 1e-9 if options["write_matrix"] and not (options["write_symm"] or options["write_iso"] or options["write_dmi"]) else 3e-4), f"{what}: second dump, {key} of {k}: {again[key][k].tolist()} instead of {ref[key][k].tolist()}")
    for a, b in zip(again["atoms"], ref["atoms"]):
        expect(a["name"] == b["name"] and near(a["position"], b["position"], 1e-9) and near(a["spin"], b["spin"], 2e-4 if options["write_spin_angles"] else 1e-9), f"{what}: second dump, atom {a['name']}")
    expect(again["notation"] == ref["notation"], f"{what}: second dump, notation")
    STATS.state(text)


def options_of(bits):
    return {name: bool(b) for name, b in zip(OPTIONS, bits)}


EXTRAS = [
    {},
    {"cone_axis": [0.36, 0.48, 0.8], "spiral_vector": [0.123456789, -0.25, 1.5]},
    {"cone_axis": [0.0, 0.0, -1.0]},
    {"spiral_vector": [0.0, 0.0, 0.0]},
]


def judge(case):
    name, notation, bits, extra = case
    spec = structure(name, notation)
    spec.update(EXTRAS[extra])
    judge_model(build(spec), options_of(bits), f"{case}")


def cases(tier):
    bits_all = [b for b in itertools.product((0, 1), repeat=6) if any(b[:4])]
    for name in ALL:
        for n, notation in enumerate(NOTATIONS_ALL):
            for m, bits in enumerate(bits_all):
                if tier == "quick" and (n + m) % 4:
                    continue
                yield [name, notation, list(bits), (n + m // 4) % len(EXTRAS)]


def values(case):
    """Numbers, names, spins and indices of all kinds."""
    kind, arg, bits = case
    ham = SpinHamiltonian(cell=CELLS["tricl"] if kind != "cell" else arg)
    names = ["A", "B"]
    positions = [[0.0, 0.0, 0.0], [0.5, 0.25, 0.125]]
    spins = [[0, 0, 1.5], [0.6, 0.0, 0.8]]
    notation = [True, False, 0.5, -1.0]
    scale, ijk = 1.0, (1, 0, -1)
    if kind == "names":
        names = arg
    elif kind == "positions":
        positions = arg
    elif kind == "spins":
        spins = arg
    elif kind == "notation":
        notation = arg
    elif kind == "scale":
        scale = arg
    elif kind == "ijk":
        ijk = tuple(arg)
    for n, p, s in zip(names, positions, spins):
        ham.add_atom(name=n, position=p, spin=s, g_factor=2)
    ham.notation = tuple(notation)
    ham.add_exchange(names[0], names[1], ijk, matrix=np.round(np.array(MATRICES[0]) * scale, 4))
    ham.add_exchange(names[1], names[1], (0, 1, 0), matrix=np.round(np.array(MATRICES[1]) * scale, 4))
    ham.add_on_site(names[1], matrix=np.round(np.array(ONSITES[0]) * scale, 4))
    judge_model(ham, options_of(bits), f"{case}")


def values_cases(tier):
    groups = {
        "names": [["A", "B"], ["Cr", "Cr2"], ["1", "2"], ["Fe_long_name_1", "Fe_long_name_2"], ["i", "m"], ["Matrix", "DMI"], ["cell", "atoms"], ["a-b", "c.d"], ["s_1_a", "name"], ["Sm", "sm"]],
        "positions": [[[-0.25, 1.75, 12.125], [0.123456789123, 1 / 3, 2 / 3]], [[-100.5, 0.0, 99.99999999], [1e-7, -1e-7, 0.5]]],
        "spins": [
            [[0, 0, 1.5], [0, 0, -1.5]],
            [[1.0, 0, 0], [-1.0, 0, 0]],
            [[0, 2.5, 0], [0, -2.5, 0]],
            [[0.1, -0.2, 0.3], [-0.3, -0.2, -0.1]],
            [[0, 0, 0], [0, 0, 12.5]],
            [[1 / 3, 2 / 3, -2 / 3], [-0.5, 0.5, 0.0001]],
        ],
        "notation": [[True, True, 1 / 3, 1e-3], [False, False, -0.1, 12345.678], [True, False, 1, 1], [False, True, 1e10, -1e-10]],
        "scale": [1.0, 100.0, 12345.678, 0.01, -99999.5],
        "ijk": [[0, 0, 0], [-1, -2, -3], [10, 0, 0], [-123, 456, 0], [0, 0, 1], [0, 0, -1], [0, -1, 5]],
        "cell": [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-3.5, 0.1, 0], [0, 1e2, 0], [0, 0, 1234.56789]], [[0, 0, 2], [2, 0, 0], [0, 2, 0]], [[1 / 3, 2 / 3, 1], [0.1, -0.7, 0.2], [1e-5, 0.3, 0.9]]],
    }
    bits_all = [b for b in itertools.product((0, 1), repeat=6) if any(b[:4])]
    for kind, args in groups.items():
        for arg in args:
            for bits in bits_all:
                yield [kind, arg, list(bits)]


def failing(case):
    """A Hamiltonian that can not be written: error, the existing file stays."""
    missing, what_is_there = case
    ham = SpinHamiltonian(cell=CELLS["ortho"])
    for name, pos, spin, g in ATOMS[:2]:
        ham.add_atom(name=name, position=pos, spin=spin, g_factor=g)
    if "exchange" in what_is_there:
        ham.add_exchange("A", "B", (0, 0, 0), matrix=MATRICES[0])
    if "on-site" in what_is_there:
        ham.add_on_site("A", matrix=ONSITES[0])
    values = {"double_counting": True, "spin_normalized": False, "exchange_factor": 0.5, "on_site_factor": -1.0}
    for key, value in values.items():
        if key not in missing:
            setattr(ham, key, value)
    needed = set()
    if "exchange" in what_is_there:
        needed |= {"double_counting", "spin_normalized", "exchange_factor"}
    if "on-site" in what_is_there:
        needed |= {"spin_normalized", "on_site_factor"}
    path = scratch("existing.txt")
    with open(path, "w") as f:
        f.write("precious")
    before = snapshot(ham)
    STATS.step()
    STATS.state(str(case))
    if needed & set(missing):
        try:
            dump_spinham_txt(ham, path)
        except NotationError:
            STATS.outcome("rejected")
        else:
            expect(False, f"{case}: Hamiltonian with the undefined notation is written")
        with open(path) as f:
            expect(f.read() == "precious", f"{case}: failed dump destroys the existing file")
    else:
        dump_spinham_txt(ham, path)
        got = txtref.read(open(path).read())
        options = options_of([1, 0, 0, 0, 0, 0])
        compare(before, got, options, f"{case}")
        compare(before, content(load_spinham(path)), options, f"{case}")
        STATS.outcome("written")
    same_snapshot(snapshot(ham), before, f"{case}", tol=0)
    os.remove(path)


def failing_cases(tier):
    keys = ["double_counting", "spin_normalized", "exchange_factor", "on_site_factor"]
    for n in range(5):
        for missing in itertools.combinations(keys, n):
            for content_ in ([], ["exchange"], ["on-site"], ["exchange", "on-site"]):
                yield [list(missing), content_]


SPACES = [
    Space("models", cases, judge, "models x notations x output options (options of each model and notation are thinned in the quick run): meaning of the file, round trip, second dump"),
    Space("values", values_cases, values, "kinds of names, numbers, spins, indices, cells x all output options"),
    Space("failing", failing_cases, failing, "all subsets of the undefined notation"),
]
ASSUMPTIONS = [
    "the format prints four decimals of parameters and spins and eight decimals of the cell and positions: values are compared within that precision",
    "g-factors and charges are not written by design; the file keeps the symmetric part of on-site parameters (the other one does not contribute to the energy); names of atoms are unique",
]
