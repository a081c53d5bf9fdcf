"""C11: meaning of text files."""

import itertools
import os

import numpy as np

from mc import txtgen, txtref
from mc.core import STATS, Space, expect, scratch
from mc.models import close, notation_or_none, raw, same_map

from magnopy.io import load_spinham, load_spinham_txt  # noqa: E402


def write(text, name="model.txt"):
    path = scratch(name)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return path


def same_model(ham, want, what, tol=1e-8):
    expect(close(ham.cell, want["cell"], tol), f"{what}: cell {np.array(ham.cell).tolist()}, expected {want['cell'].tolist()}")
    names = [a.name for a in ham.atoms]
    expect(names == [a["name"] for a in want["atoms"]], f"{what}: atoms {names}")
    for a, w in zip(ham.atoms, want["atoms"]):
        expect(close(a.position, w["position"], tol), f"{what}: position of {a.name} {a.position}, expected {w['position']}")
        expect(close(a.spin_vector, w["spin"], tol), f"{what}: spin of {a.name} {a.spin_vector}, expected {w['spin']}")
        expect(close(a.g_factor, w["g"], tol), f"{what}: g factor of {a.name} {a.g_factor}, expected {w['g']}")
        expect(close(a.charge, w["q"], tol), f"{what}: charge of {a.name} {a.charge}, expected {w['q']}")
    got = notation_or_none(ham)
    expect(got == want["notation"], f"{what}: notation {got}, expected {want['notation']}")
    exchange, on_site = raw(ham)
    same_map(exchange, want["exchange"], f"{what}: exchange", tol)
    same_map(on_site, want["on_site"], f"{what}: on-site", tol)
    for name in ("cone_axis", "spiral_vector"):
        g, w = getattr(ham, name), want[name]
        expect((g is None) == (w is None), f"{what}: {name} {g}, expected {w}")
        if w is not None:
            expect(close(g, w, tol), f"{what}: {name} {np.array(g).tolist()}, expected {w.tolist()}")


def reference(text, want, what):
    """The generator and the reference reader have to agree (they are used in C12)."""
    ref = txtref.read(text)
    for key in ("cell", "cone_axis", "spiral_vector"):
        assert (ref[key] is None) == (want[key] is None), what
        assert ref[key] is None or np.allclose(ref[key], want[key], rtol=1e-9, atol=1e-12), (what, key)
    assert ref["notation"] == want["notation"], what
    for key in ("exchange", "on_site"):
        assert set(ref[key]) == set(want[key]), what
        for k in ref[key]:
            assert np.allclose(ref[key][k], want[key][k], rtol=1e-8), (what, k)
    for a, b in zip(ref["atoms"], want["atoms"]):
        assert a["name"] == b["name"] and np.allclose(a["position"], b["position"]), what
        assert np.allclose(a["spin"], b["spin"]) and a["g"] == b["g"] and a["q"] == b["q"], what


def judge(case):
    spec = txtgen.merge(*case)
    text, want = txtgen.render(spec)
    reference(text, want, f"{case}")
    path = write(text)
    STATS.step()
    what = f"{case}"
    ham = load_spinham_txt(path)
    same_model(ham, want, what)
    with open(path, encoding="utf-8", newline="") as f:
        expect(f.read() == text, f"{what}: the file is changed by reading")
    STATS.state(text)


def single(tier):
    for family in txtgen.FAMILIES.values():
        for change in family():
            yield [change]


def compatible(a, b):
    """No variant of a section that the other variant removes."""
    for x, y in ((a, b), (b, a)):
        for key, value in x.items():
            if value is None and key in y and y[key] is not None:
                return False
            if value is not None and key in y and y[key] is not None and set(value) & set(y[key]):
                return False
    return True


def pairs(tier):
    keep = 24 if tier == "quick" else 80
    families = list(txtgen.FAMILIES.items())
    for (n1, f1), (n2, f2) in itertools.combinations(families, 2):
        # every variant of one section meets every variant of the other one; in the quick
        # run the longer lists are thinned by a fixed stride (stated in the evidence)
        l1, l2 = list(f1()), list(f2())
        l1 = l1[:: max(1, len(l1) // keep)]
        l2 = l2[:: max(1, len(l2) // keep)]
        for a, b in itertools.product(l1, l2):
            if compatible(a, b):
                yield [a, b]


def orders(tier):
    names = txtgen.SECTION_ORDER
    for n, order in enumerate(itertools.permutations(names)):
        if tier == "quick" and n % 6:
            continue
        yield [{"layout": {"order": list(order), "style": txtgen.STYLES[n % len(txtgen.STYLES)]}}]
    for order in itertools.permutations(["cell", "atoms", "notation", "on-site"]):
        yield [{"exchange": None, "cone-axis": None, "spiral-vector": None}, {"layout": {"order": list(order)}}]


def interface(case):
    """The general function, its hints, saving of the filtered copy."""
    change, name, hint = case
    text, want = txtgen.render(txtgen.merge(*change))
    path = write(text, name)
    kwargs = {} if hint is None else {"spinham_format": hint}
    same_model(load_spinham(path, **kwargs), want, f"{case}")
    STATS.step()
    STATS.state(str(case))
    before = set(os.listdir(os.path.dirname(path)))
    same_model(load_spinham_txt(path, save_filtered=True), want, f"{case}, with the filtered copy")
    new = set(os.listdir(os.path.dirname(path))) - before
    expect(len(new) == 1, f"{case}: new files {new}")
    filtered = os.path.join(os.path.dirname(path), new.pop())
    with open(filtered, encoding="utf-8") as f:
        content = f.read()
    expect("#" not in content and all(x.strip() for x in content.split("\n")), f"{case}: the filtered copy has comments or blank lines")
    same_model(load_spinham_txt(filtered), want, f"{case}, the filtered copy")
    os.remove(filtered)
    with open(path, encoding="utf-8", newline="") as f:
        expect(f.read() == text, f"{case}: the file is changed")
    os.remove(path)


def interface_cases(tier):
    for style in txtgen.STYLES:
        for missing in ([], ["exchange"], ["on-site", "cone-axis"]):
            for name, hint in (("model.txt", None), ("model", None), ("model.hdf5", "txt"), ("exchange.out", "TXT"), ("a.b.dat", "Txt")):
                yield [[{m: None for m in missing}, {"layout": {"style": style}}], name, hint]


# spellings and special values of numbers
NUMBERS = ["0", "-0.0", "+3", "1e-3", "2.5E+1", ".5", "-7.", "200", "-250.5", "1e-7", "400.25", "0.00001", "-1", "7", "-.5", "12", "1e1"]
NUMBER_BASES = {
    "full": [{"atoms": {"extra": ["g", "q"], "n": 3}}],
    "angles": [
        {"cell": {"units": "Bohr", "scale": [1.5, 2.0, 0.7]}},
        {"atoms": {"units": "Bohr", "coords": "a", "spin": ["angles"], "extra": ["q", "g"]}},
        {"exchange": {"units": "K", "bonds": [["idsm", [0, 1, 0]], ["s", [0, 0, 1]]]}},
        {"on-site": {"units": "Ry"}},
        {"cone-axis": {"units": "relative", "form": "angles"}},
        {"spiral-vector": {"units": "absolute"}},
    ],
    "value": [
        {"cell": {"scale": [2.0]}},
        {"atoms": {"spin": ["value"]}},
        {"cone-axis": {"units": "relative", "form": "vector"}},
    ],
}


def numbers(case):
    """One number of a file is written in another way; the meaning is given by the reference reader."""
    base, i, j, word = case
    lines = txtgen.render(txtgen.merge(*NUMBER_BASES[base]))[0].split("\n")
    words = lines[i].split()
    words[j] = word
    lines[i] = " ".join(words)
    text = "\n".join(lines)
    try:
        want = txtref.read(text)
    except (txtref.Invalid, txtref.Unspecified):
        STATS.outcome("not settled")
        return
    if np.linalg.cond(want["cell"]) > 1e3:
        STATS.outcome("nearly singular cell")
        return
    STATS.step()
    same_model(load_spinham_txt(write(text)), want, f"{case}, line {lines[i]!r}")
    STATS.state(text)


def is_number(word):
    try:
        float(word)
    except ValueError:
        return False
    return True


def numbers_cases(tier):
    for base, changes in NUMBER_BASES.items():
        for i, line in enumerate(txtgen.render(txtgen.merge(*changes))[0].split("\n")):
            for j, word in enumerate(line.split()):
                if is_number(word):
                    for new in NUMBERS:
                        yield [base, i, j, new]


# names that look like something else
NAME_WORDS = ["d", "m", "s", "i", "name", "Cell", "atoms", "exchange", "x", "r1", "1", "0", "1.5", "1e3", "nan", "inf", "True", "Cr_1", "a-b", "A=1", "a" + "-" * 10, "b" + "=" * 10, "averylongnameofanatom1", "Fe.1", "Fe,1", "Fe'", "CR1", "1_"]


def named(case):
    """Names of atoms do not influence the meaning."""
    base, first, second = case
    change = NUMBER_BASES[base]
    text, want = txtgen.render(txtgen.merge(*change))
    new = {txtgen.NAMES[0]: first, txtgen.NAMES[1]: second}
    text = "\n".join(" ".join(new.get(w, w) for w in line.split()) for line in text.split("\n"))
    STATS.step()
    want = dict(want, atoms=[dict(a, name=new.get(a["name"], a["name"])) for a in want["atoms"]])
    want["exchange"] = {(new.get(a, a), new.get(b, b), r): m for (a, b, r), m in want["exchange"].items()}
    want["on_site"] = {new.get(a, a): m for a, m in want["on_site"].items()}
    same_model(load_spinham_txt(write(text)), want, f"{case}")
    STATS.state(text)


def named_cases(tier):
    for base in NUMBER_BASES:
        for n, (a, b) in enumerate(itertools.permutations(NAME_WORDS, 2)):
            if tier == "thorough" or n % 5 == 0:
                yield [base, a, b]


SPACES = [
    Space("sections", single, judge, "all variants of every section, one section at a time"),
    Space("pairs", pairs, judge, "pairs of variants of two sections (lists of variants thinned with a fixed stride)"),
    Space("orders", orders, judge, "orders of the sections combined with the styles of the layout (all 5040 in the thorough run, every sixth in the quick one)"),
    Space("numbers", numbers_cases, numbers, "every number of three files in twelve spellings and values, the meaning given by the reference reader"),
    Space("names", named_cases, named, "pairs of names of atoms that look like keywords, numbers, separators or each other (every fifth pair in the quick run)"),
    Space("interface", interface_cases, interface, "file names, hints of the format, filtered copies"),
]
ASSUMPTIONS = [
    "negative scale of the cell, relative units together with x y z, notation without parameters, words in columns of unknown keywords are not covered (the documentation is contradictory or silent)",
]
