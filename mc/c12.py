"""C12: every single damage of well-formed text files, verdict compared with the rules."""

import itertools
import os
import sys

from mc import txtgen, txtref
from mc.c11 import same_model, write
from mc.core import STATS, Space, expect

from magnopy.exceptions import FailedToVerifyTxtModelFile  # noqa: E402
from magnopy.io import load_spinham, load_spinham_txt  # noqa: E402

BASES = {
    "full": [],
    "bohr": [
        {"cell": {"units": "Bohr", "scale": [1.5, 2.0, 0.7]}},
        {"atoms": {"units": "Angstrom", "coords": "both", "spin": ["xyz", "angles"], "extra": ["g", "q"]}},
        {"exchange": {"units": "Ry", "bonds": [["idsm", [0, 1, 0]]]}},
        {"on-site": None},
        {"spiral-vector": None},
    ],
    "onsite": [
        {"cell": {"units": "a", "scale": [2.0]}},
        {"atoms": {"units": "Bohr", "coords": "a", "spin": ["angles"], "extra": ["l", "weight"]}},
        {"exchange": None},
        {"cone-axis": {"form": "angles", "units": None}},
    ],
    "value": [
        {"atoms": {"spin": ["value"], "skip": [1, ["s"]], "n": 3, "order": 1, "extra": ["ja"]}},
        {"notation": {"words": 1, "order": [3, 2, 1, 0], "values": ["n", "y", "1", "1"]}},
        {"exchange": {"bonds": [["i", [0, 0, 0]], ["d", [-1, 2, 0]], ["s", [0, 0, 1]]], "words": 1, "separator": 10}},
    ],
    "crystal": [{"exchange": None, "on-site": None, "cone-axis": None, "spiral-vector": None}],
    "all": [
        {"notation": {"all": True, "values": ["t", "f", "1", "2"]}},
        {"on-site": None},
        {"exchange": {"bonds": [["m", [0, 0, 0]]], "style": 2}},
        {"layout": {"order": ["spiral-vector", "exchange", "notation", "atoms", "cone-axis", "cell"], "style": "dense"}},
    ],
}
WORDS = ["abc", "1.5", "-1", "0", "-", "1.2.3", "1,5", "true", "2x", "__a", "a__", "+", "1e", "*", "meV", "Cr1", "cr1", "xyz", "1d3", "0x1", "1e-2e", "١"]
LINES = ["abc", "1 2 3", "1", "=====", "-----", "=" * 9, "-" * 9, "=" * 10, "-" * 10, "Isotropic 1", "DMI 1 2", "Matrix", "Cell", "Cr1", "On-site", "- - -"]


def base_lines(name):
    text, _ = txtgen.render(txtgen.merge(*BASES[name]))
    return text.split("\n")


def tokens(line):
    return line.split()


def damage(lines, op):
    """op: [kind, line, ...]; -> lines"""
    lines = list(lines)
    kind, i = op[0], op[1]
    if kind == "none":
        pass
    elif kind == "delete line":
        del lines[i]
    elif kind == "repeat line":
        lines.insert(i, lines[i])
    elif kind == "swap lines":
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    elif kind == "insert line":
        lines.insert(i, op[2])
    elif kind == "replace line":
        lines[i] = op[2]
    elif kind == "comment line":
        lines[i] = "# " + lines[i]
    elif kind == "cut":
        lines = lines[:i]
    elif kind == "tail":
        lines = lines[i:]
    elif kind == "extend line":
        lines[i] += " " + op[2]
    elif kind == "shorten line":
        lines[i] = " ".join(tokens(lines[i])[: -op[2]])
    elif kind == "join lines":
        lines[i] = lines[i] + " " + lines[i + 1]
        del lines[i + 1]
    else:
        words = tokens(lines[i])
        j = op[2]
        if kind == "delete token":
            del words[j]
        elif kind == "repeat token":
            words.insert(j, words[j])
        elif kind == "replace token":
            words[j] = op[3]
        elif kind == "insert token":
            words.insert(j, op[3])
        elif kind == "comment token":
            words[j] = "#" + words[j]
        elif kind == "split token":
            words[j : j + 1] = [words[j][:1], words[j][1:]]
        elif kind == "case token":
            words[j] = words[j].swapcase()
        elif kind == "first letter":
            words[j] = words[j][:1]
        elif kind == "prefix":
            words[j] = op[3] + words[j]
        lines[i] = " ".join(words)
    return lines


def damages(name, tier):
    lines = base_lines(name)
    yield ["none", 0]
    for i, line in enumerate(lines):
        for kind in ("delete line", "repeat line", "comment line", "cut", "tail"):
            yield [kind, i]
        if i + 1 < len(lines):
            yield ["swap lines", i]
            yield ["join lines", i]
        for text in LINES:
            yield ["insert line", i, text]
            yield ["replace line", i, text]
        for extra in ("7 7", "7 7 7", "1 2 3 4", "abc abc", "- - -"):
            yield ["extend line", i, extra]
        for n in range(1, min(4, len(tokens(line)))):
            yield ["shorten line", i, n]
        for j, word in enumerate(tokens(line)):
            for kind in ("delete token", "repeat token", "comment token", "split token", "case token", "first letter"):
                yield [kind, i, j]
            for w in WORDS:
                yield ["replace token", i, j, w]
            for w in ("7", "abc", "-"):
                yield ["insert token", i, j, w]
            for w in ("x", "-", "_", "1"):
                yield ["prefix", i, j, w]


def layout(lines, style):
    """Changes that must not matter."""
    if style == "comments":
        return "\n".join(x for line in lines for x in (line + " # " + "=" * 10, "# note", "  # Cell Bohr"))
    if style == "blank":
        return "\n\n   \n".join("   " + line.replace(" ", "   ") + "  " for line in lines) + "\n"
    return "\n".join(lines)


def verdict(text):
    try:
        return "valid", txtref.read(text)
    except txtref.Invalid as e:
        return "invalid", str(e)
    except txtref.Unspecified as e:
        return "unspecified", str(e)


def check(text, what, general=False):
    kind, detail = verdict(text)
    path = write(text)
    limit = getattr(sys, "tracebacklimit", None)
    before = sorted(os.listdir(os.path.dirname(path)))
    STATS.step()
    ham = None
    try:
        ham = (load_spinham if general else load_spinham_txt)(path)
        got = "loaded"
    except FailedToVerifyTxtModelFile:
        got = "rejected"
    except Exception as e:  # noqa: BLE001
        if kind == "unspecified":
            got = "rejected"
        else:
            expect(False, f"{what}: {kind} file ({detail if kind == 'invalid' else ''}) raises {type(e).__name__}: {e}\n{text}")
    STATS.outcome(f"{kind}, {got}" if kind == "unspecified" else kind)
    with open(path, encoding="utf-8", newline="") as f:
        expect(f.read() == text, f"{what}: the file is changed")
    expect(sorted(os.listdir(os.path.dirname(path))) == before, f"{what}: new files")
    expect(getattr(sys, "tracebacklimit", None) == limit, f"{what}: limit of the traceback is changed")
    if kind == "invalid":
        expect(got == "rejected", f"{what}: malformed file is accepted ({detail})\n{text}")
    elif kind == "valid":
        expect(got == "loaded", f"{what}: well-formed file is rejected\n{text}")
        same_model(ham, detail, what)
    STATS.state(text)
    return got


def judge(case):
    name, ops = case
    lines = base_lines(name)
    for op in ops:
        lines = damage(lines, op)
    verdicts = set()
    for style in ("plain", "comments", "blank"):
        verdicts.add(check(layout(lines, style), f"{case}, {style}"))
    expect(len(verdicts) == 1, f"{case}: the verdict depends on comments and spaces\n" + "\n".join(lines))


def singles(tier):
    for name in BASES:
        for op in damages(name, tier):
            yield [name, [op]]


def doubles(tier):
    """Two damages: all pairs of deleted lines (thorough: more kinds of damage)."""
    kinds = ("delete line",) if tier == "quick" else ("delete line", "repeat line", "swap lines")
    for name in BASES:
        ops = [op for op in damages(name, tier) if op[0] in kinds]
        for a, b in itertools.product(ops, repeat=2):
            if b[1] >= len(base_lines(name)) - 2:
                continue
            yield [name, [a, b]]


def sections(case):
    """Subsets and orders of whole sections."""
    name, keep, style, general = case
    text, _ = txtgen.render(txtgen.merge(*BASES[name]))
    blocks, current = {}, None
    for line in text.split("\n"):
        if line.startswith("=="):
            current = None
        elif line:
            if current is None:
                current = line.split()[0].lower()
                blocks[current] = []
            blocks[current].append(line)
    lines = ["=" * 10]
    for k in keep:
        lines += blocks[k] + ["=" * 10]
    check(layout(lines, style), f"{case}", general)


def sections_cases(tier):
    for name, style, general in (("full", "plain", False), ("onsite", "blank", True), ("bohr", "comments", False)):
        present = {"full": txtgen.SECTION_ORDER, "onsite": [s for s in txtgen.SECTION_ORDER if s != "exchange"], "bohr": [s for s in txtgen.SECTION_ORDER if s not in ("on-site", "spiral-vector")]}[name]
        for n in range(len(present) + 1):
            for keep in itertools.combinations(present, n):
                yield [name, list(keep), style, general]
                yield [name, list(keep)[::-1], style, general]
    for order in itertools.permutations(["cell", "atoms", "notation", "exchange", "on-site"], 4):
        yield ["full", list(order), "plain", True]


def atom_lines(lines):
    """Numbers of the lines with the header of the atoms and with the atoms."""
    start = next(n for n, line in enumerate(lines) if "name" in line.lower().split())
    end = start
    while not lines[end].startswith("="):
        end += 1
    return range(start, end)


def judge_columns(case):
    """Columns of the table of atoms: repeated, removed, exchanged, renamed."""
    name, op, a, b = case
    lines = base_lines(name)
    where = atom_lines(lines)
    for n in where:
        words = tokens(lines[n])
        first = n == where[0]
        if op == "repeat":
            words.insert(b, words[a])
        elif op == "upper repeat":
            words.insert(b, words[a].swapcase() if first else words[a])
        elif op == "remove":
            del words[a]
        elif op == "swap":
            words[a], words[b] = words[b], words[a]
        elif op == "move":
            words.insert(b, words.pop(a))
        elif op == "rename":
            if first:
                words[a] = b
        elif op == "add":
            words.insert(a, b if first else "0.5")
        lines[n] = " ".join(words)
    for style in ("plain", "comments", "blank"):
        check(layout(lines, style), f"{case}, {style}")


def columns_cases(tier):
    for name in BASES:
        lines = base_lines(name)
        width = len(tokens(lines[atom_lines(lines)[0]]))
        for a in range(width):
            for b in range(width):
                yield [name, "repeat", a, b]
                yield [name, "upper repeat", a, b]
                if a != b:
                    yield [name, "move", a, b]
                if a < b:
                    yield [name, "swap", a, b]
            yield [name, "remove", a, None]
            for word in ("x", "rx", "r1", "r4", "r", "s", "sx", "st", "sp", "j", "jy", "l", "lt", "g", "q", "name", "names", "X", "_", "1", "s_x"):
                yield [name, "rename", a, word]
                yield [name, "add", a, word]


def judge_scales(case):
    name, scale = case
    text, _ = txtgen.render(txtgen.merge(*BASES[name]))
    lines = [line for line in text.split("\n") if line.strip()]
    start = next(n for n, line in enumerate(lines) if line.lower().startswith("cell"))
    end = next((n for n in range(start, len(lines)) if lines[n].startswith("=")), len(lines))
    lines[start + 1 : end - 3] = [" ".join(scale)] if scale else []
    for style in ("plain", "comments", "blank"):
        check(layout(lines, style), f"{case}, {style}")


def scales_cases(tier):
    words = ["1.5", "2", "-1", "0", "-0.0", "1e-3"]
    for name in BASES:
        for n in range(5):
            for scale in itertools.product(words if n != 4 else words[:3], repeat=n):
                yield [name, list(scale)]


SPACES = [
    Space("columns", columns_cases, judge_columns, "columns of the table of atoms repeated, removed, exchanged, moved, renamed, added"),
    Space("scales", scales_cases, judge_scales, "all scales of the cell of up to four words"),
    Space("singles", singles, judge, "every single damage (lines and tokens) of six well-formed files, each in three layouts"),
    Space("doubles", doubles, judge, "pairs of damages of lines"),
    Space("sections", sections_cases, sections, "all subsets of the sections in two orders"),
]
ASSUMPTIONS = [
    "files that the documentation does not settle (unknown sections and properties, repeated sections and bonds, stray lines inside of a bond, singular cell, negative scale and the like) are executed, but only their side effects are judged",
]
