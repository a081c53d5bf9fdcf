"""C16: files of TB2J."""

import contextlib
import io
import itertools
import os

import numpy as np

from mc.core import STATS, Space, expect, scratch
from mc.models import CELLS, close, notation_or_none, physics, raw, same_map

from magnopy.io import dump_spinham_txt, load_spinham, load_spinham_txt, load_tb2j  # noqa: E402

MAJOR, MINOR = "=" * 90, "-" * 88
POSITIONS = [[0.0, 0.0, 0.0], [0.8123, 1.1021, -0.3005], [1.0, -0.45, 1.75]]
MOMENTS = [[0.0, 0.0, 3.125], [0.6012, -0.8001, 1.2345], [-1.5, 0.25, -0.75]]
CHARGE = [5.561, -0.125, 3.0]
ISO = [3.4123, -1.25, 0.0075, 12.5, -0.5, 0.333]
DMI = [[0.1, -0.2, 0.3], [-1.5, 0.0, 0.25], [0.0, 0.0, -0.0125]]
# symmetric, with and without the trace
ANI = [
    [[0.009, 0.11, -0.2], [0.11, -0.013, 0.3], [-0.2, 0.3, 0.004]],
    [[0.5, -0.25, 0.0], [-0.25, 0.75, 0.125], [0.0, 0.125, -0.3]],
    [[-1.0, 0.0, 0.001], [0.0, 0.4, 0.0], [0.001, 0.0, 0.6]],
]
BLOCKS = ["iso", "dmi", "ani"]


def bond_block(bond, style):
    lines = [MINOR]
    i, j, R = bond["i"], bond["j"], bond["R"]
    lines.append(
        "  {:>4s}  {:>4s}  ( {:>2d}, {:>2d}, {:>2d})  {:>9.4f}   ( {:6.3f}, {:6.3f}, {:6.3f}) {:7.3f}".format(i, j, *R, bond.get("iso") or 0.0, *bond["vector"], bond["distance"])
    )
    for block in bond["order"]:
        testing = "[Testing!] " if style["testing"] else ""
        if block == "iso":
            lines.append("J_iso: {:8.4f} ".format(bond["iso"]))
        elif block == "junk":
            lines.append("[Testing!] Jprime: {:.3f},  B: {:.3f}".format(7.123, -4.5))
        elif block == "dmi":
            lines.append(testing + "DMI: ({:8.4f} {:8.4f} {:8.4f})".format(*bond["dmi"]))
        elif block == "ani":
            lines.append(testing.strip() + "J_ani:")
            rows = ["[" + " ".join(f"{x:8.5f}" for x in row) + "]" for row in bond["ani"]]
            lines.append("[" + rows[0])
            lines.append(" " + rows[1])
            lines.append(" " + rows[2] + "]")
        elif block == "blank":
            lines.append("")
    if style["blank"]:
        lines.append("")
    return lines


def text_of(model, style):
    lines = []
    if style["info"]:
        lines += [MAJOR, "Information:", "Exchange parameters generated by TB2J 0.6.0.", MAJOR]
    lines += [MAJOR, "Cell (Angstrom):"]
    for a in model["cell"]:
        lines.append("".join(f"{x:12.4f} " for x in a))
    lines += ["", MAJOR, "Atoms:  ", "(Note: charge and magmoms only count the wannier functions.)"]
    head = {"full": " Atom_number        x          y          z      w_charge      M(x)       M(y)       M(z)", "charge": " Atom_number        x          y          z      w_charge", "bare": " Atom_number        x          y          z"}
    lines.append(head[style["columns"]])
    for n, name in enumerate(model["names"]):
        values = list(model["positions"][n])
        if style["columns"] != "bare":
            values.append(CHARGE[n % 3])
        if style["columns"] == "full":
            values += MOMENTS[n % 3]
        lines.append(f"{name:<12s}" + " ".join(f"{x:12.4f}" for x in values))
    lines.append("Total               12.0000   0.0000  0.0000  3.0000")
    lines += ["", MAJOR, "Exchange: ", "    i      j          R        J_iso(meV)          vector          distance(A) "]
    for bond in model["bonds"]:
        lines += bond_block(bond, style)
    if style["last"]:
        lines.append(MINOR)
    return "\n".join(lines) + "\n" * style["newlines"]


def dmi_matrix(D):
    return np.array([[0, D[2], -D[1]], [-D[2], 0, D[0]], [D[1], -D[0], 0]])


def matrix_of(bond):
    """iso + anisotropic + DMI, S_i M S_j = J S_i.S_j + S_i A S_j + D.(S_i x S_j)"""
    m = np.zeros((3, 3))
    if "iso" in bond["order"]:
        m = m + bond["iso"] * np.eye(3)
    if "ani" in bond["order"]:
        m = m + np.array(bond["ani"])
    if "dmi" in bond["order"]:
        m = m + dmi_matrix(bond["dmi"])
    return m


def judge_text(model, style, what):
    text = text_of(model, style)
    path = scratch("exchange.out")
    with open(path, "w") as f:
        f.write(text)
    fds = len(os.listdir("/proc/self/fd"))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ham = load_tb2j(path) if style["quiet"] is None else load_tb2j(path, quiet=style["quiet"])
    if style["quiet"] is False and any(b.get("wrong") for b in model["bonds"]):
        expect(out.getvalue() != "", f"{what}: no warning about the distance")
    expect(style["quiet"] is False or out.getvalue() == "", f"{what}: prints {out.getvalue()[:200]}")
    expect(len(os.listdir("/proc/self/fd")) == fds, f"{what}: the file is not closed")
    with open(path) as f:
        expect(f.read() == text, f"{what}: the file is changed")
    check(ham, model, style, what)
    check(load_spinham(path), model, style, f"{what}, load_spinham")
    other = scratch("other.name")
    os.replace(path, other)
    check(load_spinham(other, spinham_format="TB2J"), model, style, f"{what}, load_spinham with format")
    STATS.step(3)
    STATS.state(text)
    return ham


def check(ham, model, style, what):
    expect(close(ham.cell, np.round(model["cell"], 4)), f"{what}: cell {np.array(ham.cell).tolist()}")
    names = [a.name for a in ham.atoms]
    expect(names == model["names"], f"{what}: atoms {names}, expected {model['names']}")
    for n, a in enumerate(ham.atoms):
        absolute = a.position @ np.array(ham.cell)
        expect(close(absolute, np.round(model["positions"][n], 4), 1e-8), f"{what}: position of {a.name} {absolute}, expected {model['positions'][n]}")
        if style["columns"] == "full":
            expect(close(a.magmom, MOMENTS[n % 3]), f"{what}: magnetic moment of {a.name} {a.magmom}, expected {MOMENTS[n % 3]}")
        if style["columns"] != "bare":
            expect(close(a.charge, CHARGE[n % 3]), f"{what}: charge of {a.name} {a.charge}")
    got = notation_or_none(ham)
    expect(got[:3] == [True, True, -1], f"{what}: notation {got}, expected double counting, normalized spins and the factor -1")
    exchange, on_site = raw(ham)
    expect(not on_site, f"{what}: on-site {on_site}")
    want = {}
    for bond in model["bonds"]:
        m = matrix_of(bond)
        want[(bond["i"], bond["j"], tuple(bond["R"]))] = m
        want[(bond["j"], bond["i"], tuple(-x for x in bond["R"]))] = m.T
    same_map(exchange, want, f"{what}: exchange", 1e-8)


STYLE = {"info": True, "columns": "full", "testing": True, "blank": True, "last": True, "newlines": 1, "quiet": None}


def mirrored(bond):
    out = dict(bond)
    out["i"], out["j"] = bond["j"], bond["i"]
    out["R"] = [-x for x in bond["R"]]
    out["vector"] = [-x for x in bond["vector"]]
    out["dmi"] = [-x for x in bond["dmi"]]
    return out


def make(names, bonds, cell="tricl", both="adjacent", wrong_distance=False):
    """bonds: [i, j, R, order of blocks, index of values]"""
    model = {"cell": CELLS[cell], "names": names, "positions": [POSITIONS[n % 3] if n < 3 else (np.array(POSITIONS[n % 3]) + 0.1 * n).tolist() for n in range(len(names))], "bonds": []}
    for i, j, R, order, v in bonds:
        vector = np.array(R) @ np.array(model["cell"]) + np.array(model["positions"][j]) - np.array(model["positions"][i])
        model["bonds"].append(
            {
                "i": names[i],
                "j": names[j],
                "R": list(R),
                "order": list(order),
                "iso": ISO[v % len(ISO)] + (v // len(ISO)),
                "dmi": DMI[v % 3],
                "ani": ANI[v % 3],
                "vector": vector.tolist(),
                "wrong": wrong_distance,
                "distance": float(np.linalg.norm(vector)) + (1.0 if wrong_distance else 0.0),
            }
        )
    first = model["bonds"]
    second = [mirrored(b) for b in first]
    if both == "adjacent":
        model["bonds"] = [b for pair in zip(first, second) for b in pair]
    elif both == "later":
        model["bonds"] = first + second
    elif both == "reversed":
        model["bonds"] = second[::-1] + first
    return model


def orders():
    """All orders of all subsets of the parts (the isotropic one is always there), with other lines in between."""
    out = []
    for n in range(3):
        for extra in itertools.combinations(["dmi", "ani"], n):
            out += [list(p) for p in itertools.permutations(["iso", *extra])]
    out += [["dmi"], ["ani"], ["dmi", "ani"], ["ani", "dmi"]]
    more = []
    for o in out:
        for junk in ("junk", "blank"):
            for place in range(len(o) + 1):
                more.append(o[:place] + [junk] + o[place:])
    return out + more


def judge_blocks(case):
    order1, order2, both = case
    bonds = [[0, 1, [1, 0, -1], order1, 0], [1, 1, [0, 1, 0], order2, 1], [0, 0, [0, 0, 2], ["iso"], 2]]
    judge_text(make(["Cr1", "I2"], bonds, both=both), STYLE, f"{case}")


def blocks_cases(tier):
    for n, order1 in enumerate(orders()):
        for m, order2 in enumerate(orders()):
            yield [order1, order2, ["adjacent", "later", "reversed", "none"][(n + m) % 4]]


def judge_styles(case):
    style = dict(STYLE)
    style.update(case["style"])
    names = [["Fe1"], ["Cr1", "Cr2"], ["O1", "Mn1", "O2"]][case["atoms"] - 1]
    last = case["atoms"] - 1
    bonds = [[0, last, [1, 0, -1], ["iso", "junk", "dmi", "ani"], 0], [last, last, [0, -1, 0], ["iso"], 1], [last, 0, [-2, 11, -12], ["iso", "ani"], 2]]
    judge_text(make(names, bonds[: case["bonds"]], cell=case["cell"], both=case["both"], wrong_distance=case["wrong"]), style, f"{case}")


def styles_cases(tier):
    n = 0
    for info, columns, testing, blank, last, newlines, quiet in itertools.product((False, True), ("full", "charge", "bare"), (False, True), (False, True), (False, True), (0, 1, 3), (None, True, False)):
        for atoms, bonds in itertools.product((1, 2, 3), (1, 2, 3)):
            n += 1
            yield {
                "style": {"info": info, "columns": columns, "testing": testing, "blank": blank, "last": last, "newlines": newlines, "quiet": quiet},
                "atoms": atoms,
                "bonds": bonds,
                "cell": list(CELLS)[n % len(CELLS)],
                "both": ["adjacent", "later", "reversed", "none"][n % 4],
                "wrong": n % 3 == 0,
            }


def judge_bonds(case):
    """Numbers of bonds, and all indices."""
    kind, arg = case
    if kind == "count":
        names = ["Cr1", "Cr2", "I3"]
        bonds = [[n % 3, (n + 1) % 3, [n // 3, -(n % 4), 1], ["iso", "dmi", "ani"][: 1 + n % 3], n] for n in range(arg)]
    elif kind == "names":
        names = arg
        bonds = [[n % len(names), (n + 1) % len(names), [1, 0, 0], ["iso", "dmi"], n] for n in range(len(names))]
    else:
        names = ["Cr1", "Cr2"]
        bonds = [[0, 1, arg, ["iso", "dmi", "ani"], 0], [0, 0, [0, 0, 1], ["iso"], 1]]
    ham = judge_text(make(names, bonds), STYLE, f"{case}")
    # the same physics through the text file
    if kind != "names":
        path = scratch("converted.txt")
        dump_spinham_txt(ham, path)
        again = load_spinham_txt(path)
        K1, _ = physics(ham)
        K2, _ = physics(again)
        same_map(K2, K1, f"{case}: text file", 1e-4)


def bonds_cases(tier):
    for n in list(range(1, 13)) + [30]:
        yield ["count", n]
    for names in (["Cr1"], ["Cr1", "Cr10"], ["Fe1", "Fe2", "Fe11"], ["N1", "Ni2", "Nb3"], ["J1", "D1"], ["Te1", "Tb2"], [f"Cr{n}" for n in range(1, 13)], ["Cr2", "Cr1"], [f"O{n}" for n in range(101, 106)]):
        yield ["names", names]
    rng = range(-2, 3)
    for ijk in itertools.product(rng, rng, rng):
        yield ["ijk", list(ijk)]
    for ijk in ([10, -10, 0], [-12, 3, 15], [0, 0, -11]):
        yield ["ijk", ijk]


SHAPES = {
    "CUB": [[3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]],
    "FCC": [[0, 2.0, 2.0], [2.0, 0, 2.0], [2.0, 2.0, 0]],
    "BCC": [[-2.0, 2.0, 2.0], [2.0, -2.0, 2.0], [2.0, 2.0, -2.0]],
    "TET": [[3.0, 0, 0], [0, 3.0, 0], [0, 0, 5.0]],
    "ORC": [[3.0, 0, 0], [0, 3.5, 0], [0, 0, 5.0]],
    "HEX": [[3.0, 0, 0], [-1.5, 2.5981, 0], [0, 0, 5.0]],
    "TRI": [[2.0, 0.3, -0.1], [0.4, 1.7, 0.2], [-0.5, 0.6, 2.4]],
    "almost": [[3.0, 0, 0], [0, 3.02, 0], [0, 0, 3.001]],
}


def judge_bravais(case):
    """The requested type is the type of the model, otherwise an error; the content does not depend on it."""
    cell, wanted, quiet = case
    CELLS["bravais"] = SHAPES[cell]
    model = make(["Cr1", "I2"], [[0, 1, [1, 0, -1], ["iso", "dmi", "ani"], 0], [1, 1, [0, 1, 0], ["iso"], 1]], cell="bravais")
    del CELLS["bravais"]
    path = scratch("exchange.out")
    with open(path, "w") as f:
        f.write(text_of(model, STYLE))
    natural = load_tb2j(path).type()
    STATS.step(2)
    STATS.state(str(case))
    try:
        ham = load_tb2j(path, quiet=quiet, bravais_type=wanted)
    except ValueError:
        expect(wanted is not None and wanted != natural, f"{case}: rejected, the cell has the type {natural}")
        STATS.outcome("rejected")
        return
    expect(wanted is None or ham.type() == wanted, f"{case}: type {ham.type()}")
    expect(wanted is not None or ham.type() == natural, f"{case}: type {ham.type()}, expected {natural}")
    check(ham, model, STYLE, f"{case}")
    STATS.outcome("loaded")


def bravais_cases(tier):
    for cell, wanted, quiet in itertools.product(SHAPES, [None, "XXX", *SHAPES, "ORCC", "RHL", "MCL"], (True, False)):
        yield [cell, wanted, quiet]


SPACES = [
    Space("bravais", bravais_cases, judge_bravais, "types of cells x requested types"),
    Space("blocks", blocks_cases, judge_blocks, "all orders and subsets of the parts of two bonds, with other lines in between"),
    Space("styles", styles_cases, judge_styles, "layouts x number of atoms and bonds x columns of atoms x cells"),
    Space("bonds", bonds_cases, judge_bonds, "number of bonds, names and all indices of cells; conversion to the text file"),
]
ASSUMPTIONS = [
    "the layout of TB2J files is taken from the flags of the reader and the known output of TB2J: list of atoms is closed by the line with the total charge; three components of the moment or none",
    "mirrored bonds of the file have transposed parameters",
]
