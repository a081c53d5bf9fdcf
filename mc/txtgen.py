"""Well-formed text files: every section in all its documented variants."""

import itertools

import numpy as np

BOHR = 0.529177210903
LENGTH_UNITS = {None: 1.0, "Angstrom": 1.0, "a": 1.0, "ANG": 1.0, "Bohr": BOHR, "b": BOHR}
ENERGY_UNITS = {
    None: 1.0,
    "meV": 1.0,
    "m": 1.0,
    "eV": 1e3,
    "E": 1e3,
    "Joule": 1e3 / 1.602176634e-19,
    "j": 1e3 / 1.602176634e-19,
    "K": 8.617333262145179e-2,
    "kelvin": 8.617333262145179e-2,
    "Ry": 13605.693122994,
    "r": 13605.693122994,
}
CELL = [[2.0, 0.3, -0.1], [0.4, 1.7, 0.2], [-0.5, 0.6, 2.4]]
NAMES = ["Cr1", "i2", "3m"]
REL = [[0.0, 0.5, 0.25], [0.1, -0.3, 0.7], [1.2, 0.4, 0.6]]
ABS = [[0.2, 1.1, -0.4], [0.9, 0.0, 2.2], [-1.0, 0.5, 0.1]]
SPIN = [[0.6, 0.0, 0.8], [-1.0, 2.0, 2.0], [0.3, -0.4, -1.2]]
ANGLES = [[30.0, 50.0, 1.5], [200.0, 120.0, 2.0], [359.0, 1.0, 0.5]]  # phi, theta, S
VALUE = [1.25, 2.5, 3.0]
G, Q = [1.9, 2.1, 2.3], [3.0, -2.0, 0.5]

DEFAULT = {
    "cell": {"units": None, "scale": None, "word": "Cell"},
    "atoms": {"units": None, "coords": "r", "spin": "xyz", "extra": [], "order": 0, "skip": None, "word": "Atoms", "n": 2},
    "notation": {"values": ["True", "False", "1.5", "-0.5"], "order": [0, 1, 2, 3], "words": 0},
    "exchange": {"units": "meV", "bonds": [["md", [0, 1, 0]], ["i", [1, 0, 0]]], "words": 0, "separator": 80, "style": 0},
    "on-site": {"units": "meV", "atoms": [0, 1], "word": "On-site"},
    "cone-axis": {"units": "absolute", "form": "vector", "word": "Cone-axis"},
    "spiral-vector": {"units": "relative", "word": "Spiral-vector"},
    "layout": {"order": None, "style": "plain"},
}
BONDS = [(0, 1), (0, 0), (1, 0)]
MATRIX = [[1.0, 0.3, -0.2], [0.5, -1.2, 0.4], [0.1, -0.6, 0.7]]
ISO, DMI, SYMM = 0.9, [0.3, -0.2, 0.7], [0.4, -0.7, 0.1, -0.2, 0.3]
ONSITE = [[0.7, -0.4, 0.9, 0.1, -0.3, 0.2], [-0.6, 0.5, 0.3, 0.35, 0.15, -0.25], [1, 2, 3, 4, 5, 6]]


def merge(*changes):
    spec = {k: (dict(v) if isinstance(v, dict) else v) for k, v in DEFAULT.items()}
    for change in changes:
        for k, v in change.items():
            if v is None:
                spec[k] = None
            else:
                spec[k] = dict(spec[k] or {}, **v)
    return spec


def fmt(x):
    return repr(float(x))


def row(numbers):
    return " ".join(fmt(x) for x in numbers)


def render_cell(c):
    lines = [" ".join([c["word"]] + ([c["units"]] if c["units"] else []))]
    if c["scale"]:
        lines.append(row(c["scale"]))
    lines += [row(v) for v in CELL]
    unit = LENGTH_UNITS[c["units"]]
    scale = np.ones(3) if not c["scale"] else np.array(c["scale"] * 3 if len(c["scale"]) == 1 else c["scale"])
    return lines, np.array(CELL) * scale * unit, scale, unit


def render_atoms(a, cell, scale):
    columns = [("name", lambda i: NAMES[i])]
    if a["coords"] in ("r", "both"):
        columns += [(f"r{c + 1}", lambda i, c=c: fmt(REL[i][c])) for c in range(3)]
    if a["coords"] in ("a", "both"):
        columns += [("xyz"[c], lambda i, c=c: fmt(ABS[i][c])) for c in range(3)]
    if "xyz" in a["spin"]:
        columns += [("s" + "xyz"[c], lambda i, c=c: fmt(SPIN[i][c])) for c in range(3)]
    if "angles" in a["spin"]:
        columns += [("sp", lambda i: fmt(ANGLES[i][0])), ("st", lambda i: fmt(ANGLES[i][1])), ("s", lambda i: fmt(ANGLES[i][2]))]
    elif "value" in a["spin"]:
        columns += [("s", lambda i: fmt(VALUE[i]))]
    for e in a["extra"]:
        if e == "g":
            columns.append(("g", lambda i: fmt(G[i])))
        elif e == "q":
            columns.append(("q", lambda i: fmt(Q[i])))
        elif e in ("l", "j"):
            columns += [(e + "xyz"[c], lambda i, c=c: fmt(0.5 + c + i)) for c in range(3)]
        elif e in ("la", "ja"):
            columns += [(e[0] + x, lambda i: fmt(11.0)) for x in ("p", "t", "")]
        else:
            columns.append((e, lambda i: "7.5"))
    if a["order"] == 1:
        columns = columns[::-1]
    elif a["order"] == 2:
        columns = columns[2:] + columns[:2]
    elif a["order"] == 3:
        columns = columns[::2] + columns[1::2]
    head = [c[0] for c in columns]
    if a.get("upper"):
        head = [h.upper() for h in head]
    lines = [" ".join([a["word"]] + ([a["units"]] if a["units"] else [])), " ".join(head)]
    atoms = []
    skip_row, skip = a["skip"] or (None, [])
    for i in range(a["n"]):
        cells = ["-" if (i == skip_row and c[0] in skip) else c[1](i) for c in columns]
        lines.append(" ".join(cells))
        present = {c[0] for c, x in zip(columns, cells) if x != "-"}
        if "r1" in present:
            position = np.array(REL[i])
        else:
            unit = BOHR if a["units"] and a["units"][0].lower() == "b" else 1.0
            position = np.array(ABS[i]) * scale * unit @ np.linalg.inv(cell)
        if "sx" in present:
            spin = np.array(SPIN[i])
        elif "sp" in present:
            p, t = np.radians(ANGLES[i][:2])
            spin = ANGLES[i][2] * np.array([np.cos(p) * np.sin(t), np.sin(p) * np.sin(t), np.cos(t)])
        elif "s" in present:
            spin = np.array([0, 0, VALUE[i] if "angles" not in a["spin"] else ANGLES[i][2]])
        else:
            spin = np.zeros(3)
        atoms.append({"name": NAMES[i], "position": position, "spin": spin, "g": G[i] if "g" in present else 2.0, "q": Q[i] if "q" in present else 0.0})
    return lines, atoms


NOTATION_WORDS = [
    ["Double-counting", "Spin-normalized", "Exchange-factor", "On-site-factor"],
    ["d", "s", "e", "o"],
    ["DOUBLE", "SPIN", "EXCHANGE", "ON-SITE"],
    ["Dc", "Sn", "Ef", "Of"],
]


def render_notation(n, with_exchange, with_onsite):
    words = NOTATION_WORDS[n["words"]]
    need = [with_exchange, with_exchange or with_onsite, with_exchange, with_onsite]
    lines = [n.get("word", "Notation")]
    values = [None] * 4
    for i in n["order"]:
        if need[i] or n.get("all"):
            lines.append(f"{words[i]} {n['values'][i]}")
            v = n["values"][i]
            values[i] = v.lower() in ("true", "t", "1", "yes", "y") if i < 2 else float(v)
    return lines, values


BOND_WORDS = [
    {"i": "Isotropic", "d": "DMI", "m": "Matrix", "s": "Symmetric-anisotropy"},
    {"i": "i", "d": "d", "m": "m", "s": "s"},
    {"i": "ISO", "d": "Dzyaloshinskii", "m": "MAT", "s": "sYm"},
]


def render_exchange(e, dc, n_atoms):
    words = BOND_WORDS[e["words"]]
    dashes = "-" * e["separator"]
    lines = [" ".join([e.get("word", "Exchange")] + ([e["units"]] if e["units"] else []))]
    unit = ENERGY_UNITS[e["units"]]
    if e["style"] == 1:
        lines.append(dashes)
    bonds = {}
    for b, (parts, r) in enumerate(e["bonds"]):
        i, j = BONDS[b]
        lines.append(dashes)
        lines.append(f"{NAMES[i]} {NAMES[j]} {r[0]} {r[1]} {r[2]}")
        factor = 1.0 + 0.5 * b
        m = np.zeros((3, 3))
        if "m" in parts:
            m = np.array(MATRIX) * factor
        iso = np.trace(m) / 3
        sym = (m + m.T) / 2 - iso * np.eye(3)
        anti = (m - m.T) / 2
        for p in parts:
            if p == "i":
                lines.append(f"{words['i']} {fmt(ISO * factor)}")
                iso = ISO * factor
            elif p == "d":
                x, y, z = np.array(DMI) * factor
                lines.append(f"{words['d']} {row([x, y, z])}")
                anti = np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
            elif p == "s":
                xx, yy, xy, xz, yz = np.array(SYMM) * factor
                lines.append(f"{words['s']} {row([xx, yy, xy, xz, yz])}")
                sym = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, -xx - yy]])
            elif p == "m":
                lines.append(words["m"])
                lines += [row(x) for x in m]
        value = (iso * np.eye(3) + sym + anti) * unit
        bonds[(NAMES[i], NAMES[j], tuple(r))] = value
        if dc:
            bonds[(NAMES[j], NAMES[i], tuple(-x for x in r))] = value.T
    if e["style"] != 2:
        lines.append(dashes)
    return lines, bonds


def render_onsite(o):
    lines = [" ".join([o["word"]] + ([o["units"]] if o["units"] else []))]
    unit = ENERGY_UNITS[o["units"]]
    out = {}
    for i in o["atoms"]:
        lines.append("-" * 12)
        lines.append(NAMES[i])
        lines.append(row(ONSITE[i]))
        xx, yy, zz, xy, xz, yz = ONSITE[i]
        out[NAMES[i]] = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]) * unit
    lines.append("-" * 12)
    return lines, out


def render_cone(c, cell):
    lines = [" ".join([c["word"]] + ([c["units"]] if c["units"] else []))]
    if c["form"] == "angles":
        lines.append("35 140")
        a, b = np.radians([35, 140])
        return lines, np.array([np.cos(b) * np.sin(a), np.sin(b) * np.sin(a), np.cos(a)])
    n = np.array([0.3, -1.0, 2.0])
    lines.append(row(n))
    if not c["units"] or c["units"][0].lower() == "r":
        n = n @ cell
    return lines, n / np.linalg.norm(n)


def render_spiral(s, cell, length):
    lines = [" ".join([s["word"]] + ([s["units"]] if s["units"] else []))]
    q = np.array([0.25, -0.4, 0.1])
    lines.append(row(q))
    if s["units"] and s["units"][0].lower() == "a":
        q = cell @ (q / length) / (2 * np.pi)
    return lines, q


SECTION_ORDER = ["cell", "atoms", "notation", "exchange", "on-site", "cone-axis", "spiral-vector"]


def assemble(blocks, layout):
    order = layout["order"] or SECTION_ORDER
    style = layout["style"]
    order = [o for o in order if o in blocks]
    equals = "=" * (10 if style in ("short", "dense") else 80)
    out = [] if style == "nofirst" else [equals]
    for name in order:
        out += blocks[name]
        out.append(equals)
        if style == "doubled":
            out.append("=" * 11)
    if style in ("nolast", "dense"):
        out = out[:-1]
    if style == "comments":
        new = ["# Cell Bohr", "#" + "=" * 30, ""]
        for line in out:
            new += [line + " # 1 2 3 Cell", "   # comment " + "=" * 12, "# Atoms", "", "#"]
        out = new
    elif style == "inline":
        out = [line + "# Atoms ----------" for line in out]
    elif style == "blank":
        out = [x for line in out for x in ("", line, "    ", "")]
    elif style == "tabs":
        out = ["\t" + line.replace(" ", "\t") + "\t " for line in out]
    elif style == "spaces":
        out = ["    " + line.replace(" ", "     ") + "   " for line in out]
    text = "\n".join(out)
    if style == "crlf":
        text = "\r\n".join(out) + "\r\n"
    elif style not in ("nolast", "dense"):
        text += "\n"
    return text


def render(spec):
    """-> text, expected model"""
    blocks = {}
    blocks["cell"], cell, scale, length = render_cell(spec["cell"])
    blocks["atoms"], atoms = render_atoms(spec["atoms"], cell, scale)
    model = {"cell": cell, "atoms": atoms, "notation": [None] * 4, "exchange": {}, "on_site": {}, "cone_axis": None, "spiral_vector": None}
    ex, on = spec["exchange"] is not None, spec["on-site"] is not None
    if ex or on:
        blocks["notation"], model["notation"] = render_notation(spec["notation"], ex, on)
    if ex:
        blocks["exchange"], model["exchange"] = render_exchange(spec["exchange"], model["notation"][0], len(atoms))
    if on:
        blocks["on-site"], model["on_site"] = render_onsite(spec["on-site"])
    if spec["cone-axis"] is not None:
        blocks["cone-axis"], model["cone_axis"] = render_cone(spec["cone-axis"], cell)
    if spec["spiral-vector"] is not None:
        blocks["spiral-vector"], model["spiral_vector"] = render_spiral(spec["spiral-vector"], cell, length)
    return assemble(blocks, spec["layout"]), model


# --------------------------------------------------------------------------------------
# Variants of one section: complete lists
# --------------------------------------------------------------------------------------
def cell_variants():
    for units, scale in itertools.product(LENGTH_UNITS, [None, [2.0], [0.5], [1.5, 2.0, 0.7]]):
        for word in ("Cell", "CELL", "cell"):
            yield {"cell": {"units": units, "scale": scale, "word": word}}


def atoms_variants():
    for units, coords, order in itertools.product([None, "Relative", "r", "Angstrom", "ANG", "Bohr", "b"], ["r", "a", "both"], range(4)):
        if units in ("Relative", "r") and coords == "a":
            continue
        yield {"atoms": {"units": units, "coords": coords, "order": order}}
    for spin, extra, order in itertools.product(
        [[], ["xyz"], ["angles"], ["value"], ["xyz", "angles"], ["xyz", "value"]],
        [[], ["g"], ["q"], ["g", "q"], ["l"], ["j"], ["la", "ja"], ["g", "weight", "q", "radius", "label", "spin", "xy", "jj"]],
        range(4),
    ):
        yield {"atoms": {"spin": spin, "extra": extra, "order": order}}
        yield {"atoms": {"spin": spin, "extra": extra, "order": order, "upper": True, "word": "ATOMS", "n": 3}}
    # some data are skipped for some of the atoms
    xyz, ang = ["sx", "sy", "sz"], ["sp", "st", "s"]
    for r in range(3):
        for spin, extra, coords, skip in (
            (["xyz"], [], "r", xyz),
            (["angles"], [], "r", ang),
            (["value"], [], "r", ["s"]),
            (["xyz", "angles"], [], "r", xyz),
            (["xyz", "angles"], ["g"], "r", xyz + ang + ["g"]),
            (["xyz", "value"], ["q"], "a", xyz + ["q"]),
            (["angles"], [], "r", ["sp", "st"]),
            (["xyz"], ["g", "q"], "r", ["g"]),
            (["xyz"], ["g", "q"], "r", ["q", "g"]),
            (["xyz"], [], "both", ["r1", "r2", "r3"]),
            (["xyz"], [], "both", ["x", "y", "z"]),
            (["xyz"], ["weight"], "r", ["weight"]),
            (["xyz"], ["l"], "r", ["lx", "ly", "lz"]),
        ):
            for order, units in itertools.product(range(4), [None, "Bohr"]):
                yield {"atoms": {"spin": spin, "extra": extra, "coords": coords, "skip": [r, skip], "order": order, "units": units, "n": 3}}


def notation_variants():
    true = ["true", "True", "T", "1", "yes", "Y"]
    false = ["false", "FALSE", "f", "0", "No", "n"]
    for d, s in itertools.product(true + false, true + false):
        yield {"notation": {"values": [d, s, "1.5", "-0.5"]}}
    for order in itertools.permutations(range(4)):
        for words in range(4):
            yield {"notation": {"order": list(order), "words": words}}
    for e, o in itertools.product(["1", "-1", "0.5", "-0.5", "1e-1", "2."], repeat=2):
        for d in ("t", "f"):
            yield {"notation": {"values": [d, "n", e, o]}}
    for word in ("NOTATION", "notation"):
        yield {"notation": {"word": word}}
    # optional properties are allowed to be present
    for values in (["t", "f", "0.5", "2"], ["f", "t", "-1", "1"]):
        yield {"notation": {"values": values, "all": True}, "on-site": None}
        yield {"notation": {"values": values, "all": True}, "exchange": None}


def exchange_variants():
    parts = []
    for n in range(1, 5):
        for subset in itertools.combinations("idms", n):
            parts += ["".join(p) for p in itertools.permutations(subset)]
    for units, p in itertools.product(ENERGY_UNITS, ["i", "d", "s", "m", "idsm"]):
        yield {"exchange": {"units": units, "bonds": [[p, [0, 1, 0]]]}}
    for p, words in itertools.product(parts, range(3)):
        yield {"exchange": {"bonds": [[p, [0, 0, 0]], ["m", [-1, 2, 0]]], "words": words}}
    for r in itertools.product((-1, 0, 2), repeat=3):
        for d in ("t", "f"):
            yield {"exchange": {"bonds": [["m", list(r)]]}, "notation": {"values": [d, "n", "1", "1"]}}
    for style, separator, word in itertools.product(range(3), (10, 11, 80), ("Exchange", "EXCHANGE", "exchange")):
        yield {"exchange": {"style": style, "separator": separator, "word": word, "bonds": [["m", [0, 0, 0]], ["is", [1, 0, 0]], ["d", [0, 0, 1]]]}}


def onsite_variants():
    for units, atoms in itertools.product(ENERGY_UNITS, [[0], [1], [0, 1], [1, 0]]):
        for word in ("On-site", "ON-SITE", "on-site"):
            yield {"on-site": {"units": units, "atoms": atoms, "word": word}}


def cone_variants():
    for units, form, word in itertools.product([None, "relative", "R", "Absolute", "a"], ["vector", "angles"], ["Cone-axis", "CONE-AXIS"]):
        yield {"cone-axis": {"units": units, "form": form, "word": word}}
    yield {"cone-axis": None}


def spiral_variants():
    for units, word in itertools.product([None, "relative", "R", "Absolute", "a"], ["Spiral-vector", "SPIRAL-VECTOR"]):
        yield {"spiral-vector": {"units": units, "word": word}}
    yield {"spiral-vector": None}


def presence_variants():
    for n in range(5):
        for missing in itertools.combinations(["exchange", "on-site", "cone-axis", "spiral-vector"], n):
            yield {m: None for m in missing}


STYLES = ["plain", "nofirst", "nolast", "short", "dense", "doubled", "comments", "inline", "blank", "spaces", "tabs", "crlf"]


def layout_variants():
    for style in STYLES:
        yield {"layout": {"style": style}}


FAMILIES = {
    "cell": cell_variants,
    "atoms": atoms_variants,
    "notation": notation_variants,
    "exchange": exchange_variants,
    "on-site": onsite_variants,
    "cone-axis": cone_variants,
    "spiral-vector": spiral_variants,
    "presence": presence_variants,
    "layout": layout_variants,
}
