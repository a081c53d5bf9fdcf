"""Reference reader of the text format, written from the documentation of the format.

read(text) -> model | raises Invalid (a rule is broken) | raises Unspecified (the
documentation does not say what the file means)."""

import numpy as np

BOHR = 0.529177210903
ENERGY = {
    "m": 1.0,
    "e": 1e3,
    "j": 1e3 / 1.602176634e-19,
    "k": 8.617333262145179e-2,
    "r": 13605.693122994,
}
TRUE = {"true", "t", "1", "yes", "y"}
FALSE = {"false", "f", "0", "no", "n"}
SECTIONS = {"cell", "atoms", "notation", "exchange", "on-site", "cone-axis", "spiral-vector"}


class Invalid(Exception):
    pass


class Unspecified(Exception):
    pass


class Doubt:
    """Collects reasons for an unspecified meaning; reported only if nothing is invalid."""

    def __init__(self):
        self.reasons = []

    def add(self, reason):
        self.reasons.append(reason)


def number(word):
    try:
        x = float(word)
    except ValueError:
        raise Invalid(f"{word} is not a number")
    if not np.isfinite(x) or "_" in word:
        raise Unspecified(f"{word} as a number")
    return x


def integer(word):
    try:
        return int(word)
    except ValueError:
        raise Invalid(f"{word} is not an integer")


def numbers(line, counts):
    words = line.split()
    if len(words) not in counts:
        raise Invalid(f"{len(words)} numbers in {line!r}")
    return [number(w) for w in words]


def header(line, letters):
    words = line.lower().split()
    if len(words) > 2:
        raise Invalid(f"header {line!r}")
    if len(words) == 2:
        if words[1][0] not in letters:
            raise Invalid(f"units in {line!r}")
        return words[1][0]
    return None


def split(text, doubt):
    lines = []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if line:
            lines.append(line)
    sections, current = {}, None
    for line in lines:
        if set(line) == {"="}:
            if len(line) < 10:
                raise Invalid("short separator")
            current = None
            continue
        if line.startswith("=" * 10):
            raise Unspecified("separator with other symbols")
        if current is None:
            name = line.split()[0].lower()
            if name in sections:
                doubt.add(f"two sections {name}")
            if name not in SECTIONS:
                doubt.add(f"unknown section {name}")
            current = sections[name] = []
        current.append(line)
    return sections


def read_cell(lines, doubt):
    if len(lines) not in (4, 5):
        raise Invalid("lines of the cell")
    unit = BOHR if header(lines[0], "ab") == "b" else 1.0
    scale = np.ones(3)
    if len(lines) == 5:
        s = numbers(lines[1], (1, 3))
        if len(s) == 1 and s[0] == 0:
            raise Invalid("zero scale")
        if len(s) == 3 and min(s) <= 0:
            raise Invalid("scale is not positive")
        if len(s) == 1 and s[0] < 0:
            doubt.add("negative scale")
        scale = np.array(s * 3 if len(s) == 1 else s)
    cell = np.array([numbers(x, (3,)) for x in lines[-3:]]) * unit * scale
    if abs(np.linalg.det(cell)) < 1e-6:
        doubt.add("singular cell")
    return cell, scale, unit


MOMENT = ["x", "y", "z"]


def moment_set(keys, letter, doubt):
    """Which of the combinations of a vector is used; checks that the set makes sense."""
    full = {"xyz": {letter + c for c in "xyz"}, "angles": {letter, letter + "p", letter + "t"}, "value": {letter}}
    mine = {k for k in keys if k in full["xyz"] | full["angles"]}
    if not mine:
        return None
    for name in ("xyz", "angles", "value"):
        if full[name] <= mine:
            used, left = name, mine - full[name]
            break
    else:
        raise Invalid(f"incomplete combination {sorted(mine)}")
    # what is left has to be complete combinations as well
    if left and not (left == {letter} or left == full["angles"]):
        doubt.add(f"incomplete combination {sorted(left)} besides {used}")
    return used


def position_set(keys, doubt):
    r = {"r1", "r2", "r3"}
    a = {"x", "y", "z"}
    mine = {k for k in keys if k in r | a}
    if r <= mine:
        if mine - r and not a <= mine:
            raise Invalid("incomplete x y z")
        return "r"
    if a <= mine:
        if mine - a:
            raise Invalid("incomplete r1 r2 r3")
        return "a"
    raise Invalid("no coordinates")


def read_atoms(lines, cell, scale, doubt):
    if len(lines) < 3:
        raise Invalid("lines of the atoms")
    unit = header(lines[0], "abr")
    keys = lines[1].lower().split()
    if len(set(keys)) != len(keys):
        raise Invalid("repeated keyword")
    if "name" not in keys:
        raise Invalid("no names")
    position_set(keys, doubt)
    known = {"name", "r1", "r2", "r3", "x", "y", "z", "g", "q"}
    for letter in "slj":
        moment_set(keys, letter, doubt)
        known |= {letter + c for c in ["", "x", "y", "z", "p", "t"]}
    atoms = []
    for line in lines[2:]:
        words = line.split()
        if len(words) != len(keys):
            raise Invalid(f"number of blocks in {line!r}")
        row = {k: w for k, w in zip(keys, words) if w != "-"}
        if "name" not in row:
            raise Invalid("no name")
        name = row["name"]
        if not name[0].isalnum() or name.startswith("__") or name.endswith("__"):
            raise Invalid(f"name {name!r}")
        if "__" in name:
            doubt.add("double underscore is the separator of the name and the index of an atom")
        if not name.isascii():
            doubt.add("letters of the name")
        value = {}
        for k, w in row.items():
            if k == "name":
                continue
            if k not in known:
                try:
                    float(w)
                except ValueError:
                    doubt.add(f"word in the column {k}")
                continue
            value[k] = number(w)
        kind = position_set(value, doubt)
        for letter in "lj":
            moment_set(value, letter, doubt)
        spin_kind = moment_set(value, "s", doubt)
        if kind == "r":
            position = np.array([value["r1"], value["r2"], value["r3"]])
        else:
            if unit == "r":
                doubt.add("relative units of the absolute coordinates")
            factor = BOHR if unit == "b" else 1.0
            absolute = np.array([value["x"], value["y"], value["z"]]) * scale * factor
            if doubt.reasons and "singular cell" in doubt.reasons:
                position = absolute
            else:
                position = absolute @ np.linalg.inv(cell)
        if spin_kind == "xyz":
            spin = np.array([value["sx"], value["sy"], value["sz"]])
        elif spin_kind == "angles":
            p, t = np.radians(value["sp"]), np.radians(value["st"])
            spin = value["s"] * np.array([np.cos(p) * np.sin(t), np.sin(p) * np.sin(t), np.cos(t)])
        elif spin_kind == "value":
            spin = np.array([0.0, 0.0, value["s"]])
        else:
            spin = np.zeros(3)
        atoms.append({"name": name, "position": position, "spin": spin, "g": value.get("g", 2.0), "q": value.get("q", 0.0)})
    names = [a["name"] for a in atoms]
    if len(set(names)) != len(names):
        raise Invalid("repeated names")
    return atoms


def read_notation(lines, required, doubt):
    header(lines[0], "") if len(lines[0].split()) == 1 else _fail("notation header")
    found = {}
    for line in lines[1:]:
        words = line.lower().split()
        if len(words) != 2:
            raise Invalid(f"property {line!r}")
        letter = words[0][0]
        if letter in found:
            raise Invalid("repeated property")
        found[letter] = words[1]
    for letter in required:
        if letter not in found:
            raise Invalid(f"property {letter} is missing")
    out = {}
    for letter, word in found.items():
        if letter in "ds":
            if word not in TRUE | FALSE:
                raise Invalid(f"boolean {word!r}")
            out[letter] = word in TRUE
        elif letter in "eo":
            out[letter] = number(word)
            if out[letter] == 0:
                doubt.add("zero factor")
        else:
            doubt.add(f"unknown property {letter}")
    return out


def _fail(message):
    raise Invalid(message)


def is_dashes(line):
    if set(line) == {"-"}:
        if len(line) < 10:
            raise Invalid("short separator")
        return True
    if line.startswith("-" * 10):
        raise Unspecified("separator with other symbols")
    return False


def read_exchange(lines, names, doubt):
    unit = ENERGY[header(lines[0], "mejkr") or "m"]
    blocks, current = [], None
    for n, line in enumerate(lines[1:]):
        if is_dashes(line):
            current = None
            continue
        if n == 0:
            doubt.add("no separator before the first bond")
        if current is None:
            current = []
            blocks.append(current)
        current.append(line)
    if not blocks:
        raise Invalid("no bonds")
    bonds = {}
    for block in blocks:
        words = block[0].split()
        if len(words) != 5:
            raise Invalid(f"bond {block[0]!r}")
        if words[0] not in names or words[1] not in names:
            raise Invalid(f"atoms of the bond {block[0]!r}")
        key = (words[0], words[1], tuple(integer(w) for w in words[2:]))
        if key[0] == key[1] and key[2] == (0, 0, 0):
            doubt.add("bond of an atom with itself")
        data = {}
        i = 1
        while i < len(block):
            words = block[i].lower().split()
            letter = words[0][0]
            if letter not in "idsm":
                doubt.add(f"line {block[i]!r}")
                i += 1
                continue
            if letter in data:
                raise Invalid(f"repeated entry {letter}")
            if letter == "m":
                if len(words) != 1:
                    raise Invalid("numbers after matrix")
                if i + 3 >= len(block):
                    raise Invalid("short matrix")
                data["m"] = np.array([numbers(x, (3,)) for x in block[i + 1 : i + 4]])
                i += 3
            else:
                count = {"i": 1, "d": 3, "s": 5}[letter]
                data[letter] = numbers(" ".join(words[1:]), (count,))
            i += 1
        if not data:
            raise Invalid("bond without parameters")
        m = data.get("m", np.zeros((3, 3)))
        iso = np.trace(m) / 3
        sym = (m + m.T) / 2 - iso * np.eye(3)
        anti = (m - m.T) / 2
        if "i" in data:
            iso = data["i"][0]
        if "d" in data:
            x, y, z = data["d"]
            anti = np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
        if "s" in data:
            xx, yy, xy, xz, yz = data["s"]
            sym = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, -xx - yy]])
        value = (iso * np.eye(3) + sym + anti) * unit
        mirrored = (key[1], key[0], tuple(-x for x in key[2]))
        if key in bonds:
            doubt.add("repeated bond")
        if mirrored in bonds and not np.allclose(bonds[mirrored], value.T, atol=1e-9):
            doubt.add("contradictory mirrored bond")
        bonds[key] = value
    return bonds


def read_on_site(lines, names, doubt):
    unit = ENERGY[header(lines[0], "mejkr") or "m"]
    out = {}
    expect_separator = True
    i = 1
    while i < len(lines):
        if is_dashes(lines[i]):
            expect_separator = False
            i += 1
            continue
        if expect_separator:
            doubt.add("no separator before the on-site parameter")
        words = lines[i].split()
        if len(words) != 1:
            raise Invalid(f"atom {lines[i]!r}")
        if words[0] not in names:
            raise Invalid(f"atom {words[0]!r}")
        if i + 1 >= len(lines):
            raise Invalid("no numbers")
        xx, yy, zz, xy, xz, yz = numbers(lines[i + 1], (6,))
        if words[0] in out:
            doubt.add("repeated on-site parameter")
        out[words[0]] = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]) * unit
        expect_separator = True
        i += 2
    if not out:
        raise Invalid("no on-site parameters")
    return out


def read_cone(lines, cell, doubt):
    if len(lines) != 2:
        raise Invalid("lines of the cone axis")
    unit = header(lines[0], "ar")
    n = numbers(lines[1], (2, 3))
    if len(n) == 2:
        a, b = np.radians(n)
        return np.array([np.cos(b) * np.sin(a), np.sin(b) * np.sin(a), np.cos(a)])
    n = np.array(n) if unit == "a" else np.array(n) @ cell
    if np.linalg.norm(n) < 1e-9:
        doubt.add("zero axis")
        return n
    return n / np.linalg.norm(n)


def read_spiral(lines, cell, length, doubt):
    """-> relative coordinates"""
    if len(lines) != 2:
        raise Invalid("lines of the spiral vector")
    unit = header(lines[0], "ar")
    q = np.array(numbers(lines[1], (3,)))
    if unit == "a":
        if "singular cell" in doubt.reasons:
            return q
        if np.linalg.det(cell) < 0:
            doubt.add("sign of the reciprocal cell of a left-handed cell")
        # q.a_i = 2 pi q_i
        return (cell @ (q / length)) / (2 * np.pi)
    return q


def read(text):
    doubt = Doubt()
    sections = split(text, doubt)
    for name in ("cell", "atoms"):
        if name not in sections:
            raise Invalid(f"section {name} is missing")
    cell, scale, length = read_cell(sections["cell"], doubt)
    atoms = read_atoms(sections["atoms"], cell, scale, doubt)
    names = {a["name"] for a in atoms}
    required = ""
    if "exchange" in sections:
        required += "dse"
    if "on-site" in sections:
        required += "so"
    notation = {}
    if required and "notation" not in sections:
        raise Invalid("section notation is missing")
    if "notation" in sections:
        notation = read_notation(sections["notation"], set(required), doubt)
        if not required:
            doubt.add("notation without parameters")
    exchange = read_exchange(sections["exchange"], names, doubt) if "exchange" in sections else {}
    on_site = read_on_site(sections["on-site"], names, doubt) if "on-site" in sections else {}
    cone = read_cone(sections["cone-axis"], cell, doubt) if "cone-axis" in sections else None
    spiral = read_spiral(sections["spiral-vector"], cell, length, doubt) if "spiral-vector" in sections else None
    if exchange and notation.get("d") is False:
        for a, b, r in exchange:
            if (b, a, tuple(-x for x in r)) in exchange:
                doubt.add("both orientations without double counting")
    if exchange and notation.get("d"):
        for (a, b, r), m in list(exchange.items()):
            exchange[(b, a, tuple(-x for x in r))] = m.T
    if doubt.reasons:
        raise Unspecified("; ".join(doubt.reasons))
    return {
        "cell": cell,
        "atoms": atoms,
        "notation": [notation.get(x) for x in "dseo"],
        "exchange": exchange,
        "on_site": on_site,
        "cone_axis": cone,
        "spiral_vector": spiral,
    }
