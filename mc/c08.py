"""C08: histories of assignments and all operators of MatrixParameter."""

import copy
import itertools
import pickle

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import MATRICES, MatrixParameter, close

ANISO = [
    [[0.4, 0.1, -0.2], [0.1, -0.7, 0.3], [-0.2, 0.3, 0.3]],
    [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]],
]
DMIS = [[0.3, -0.2, 0.7], [0.0, 0.0, 0.0], [0.0, 1.5, 0.0]]
ISOS = [1.7, 0, -2.5]
ELEMENTS = ["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
BAD = [
    ["matrix", [[1, 2, 3], [4, 5, 6]]],
    ["matrix", "text"],
    ["matrix", [1, 2, 3]],
    ["aniso", [[1, 2], [3, 4]]],
    ["dmi", [1, 2]],
    ["dmi", [[1, 2, 3]]],
    ["xy", "text"],
]


def eps():
    e = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        e[i, j, k], e[i, k, j] = 1.0, -1.0
    return e


def nearly(m, where, step):
    m = np.array(m, dtype=float)
    m[where] = np.nextafter(m[where], np.inf) if step is None else m[where] + step
    return m.tolist()


EPS = eps()


class Ref:
    """Isotropic, traceless symmetric and antisymmetric part, kept separately."""

    def __init__(self):
        self.iso, self.aniso, self.dmi = 0.0, np.zeros((3, 3)), np.zeros(3)
        self.size = 0.0

    @property
    def matrix(self):
        # J_ij = iso * delta_ij + aniso_ij + eps_ijk D_k
        return self.iso * np.eye(3) + self.aniso + np.einsum("ijk,k->ij", EPS, self.dmi)

    def assign(self, name, value):
        # the largest number seen: rounding errors are relative to it
        self.size = max(self.size, float(np.abs(np.array(value, dtype=float)).max()))
        if name == "iso":
            self.iso = float(value)
        elif name == "aniso":
            self.aniso = np.array(value, dtype=float)
        elif name == "dmi":
            self.dmi = np.array(value, dtype=float)
        else:
            if name == "matrix":
                m = np.array(value, dtype=float)
            else:
                m = self.matrix
                m["xyz".index(name[0]), "xyz".index(name[1])] = value
            self.iso = (m[0, 0] + m[1, 1] + m[2, 2]) / 3
            self.aniso = (m + m.T) / 2 - self.iso * np.eye(3)
            self.dmi = np.einsum("ijk,ij->k", EPS, m) / 2


def compare(p, ref, what):
    m = ref.matrix
    want = {
        "matrix": m,
        "iso": ref.iso,
        "I": ref.iso,
        "iso_matrix": ref.iso * np.eye(3),
        "aniso": ref.aniso,
        "S": ref.aniso,
        "aniso_diagonal": np.diag(ref.aniso),
        "aniso_diagonal_matrix": np.diag(np.diag(ref.aniso)),
        "dmi": ref.dmi,
        "dmi_matrix": (m - m.T) / 2,
        "asymm_matrix": (m - m.T) / 2,
        "A": (m - m.T) / 2,
        "symm_matrix": (m + m.T) / 2,
        "dmi_module": np.sqrt(ref.dmi @ ref.dmi),
    }
    for i, j in itertools.product(range(3), repeat=2):
        want["xyz"[i] + "xyz"[j]] = m[i, j]
    if abs(ref.iso) > 1e-6:
        want["rel_dmi"] = want["dmi_module"] / abs(ref.iso)
    # relative to the largest number the parameter was made of
    floor = max(ref.size, float(np.abs(m).max()), 1e-250)
    for name, value in want.items():
        got = getattr(p, name)
        if name == "rel_dmi":
            expect(abs(got - value) <= 1e-9 * abs(value) + 1e-9 * floor / abs(ref.iso), f"{what}: rel_dmi is {got}, expected {value}")
            continue
        expect(close(got, value, 1e-11, floor), f"{what}: {name} is {np.asarray(got).tolist()}, expected {np.asarray(value).tolist()}")
    expect(close(np.array(p), m, 1e-11, floor), f"{what}: np.array gives {np.array(p).tolist()}")
    expect(type(p.T) is type(p) and close(p.T.matrix, m.T, 1e-11, floor), f"{what}: T")
    expect(close(p.iso_matrix + p.aniso + p.dmi_matrix, p.matrix, 1e-11, floor), f"{what}: parts do not sum to the matrix")


OPS = (
    [["matrix", MATRICES[0]], ["matrix", [[1, 2, 3], [4, 5, 6], [7, 8, 10]]]]
    + [["iso", v] for v in ISOS]
    + [["aniso", v] for v in ANISO]
    + [["dmi", v] for v in DMIS]
    + [[e, 0.9] for e in ELEMENTS]
    + [["iso", 2e-8], ["dmi", [1e-8, 0.0, -3e-8]], ["aniso", [[2e-8, 1e-8, 0.0], [1e-8, -2e-8, 0.0], [0.0, 0.0, 0.0]]], ["yz", 1e-8]]
    + [["iso", 3e-13], ["dmi", [0.0, -4e-13, 1e-13]]]
)


def history(case):
    start, ops = case
    p, ref = MatrixParameter(), Ref()
    if start is not None:
        p = MatrixParameter(matrix=MATRICES[start])
        ref.assign("matrix", MATRICES[start])
    what = f"start {start}"
    for name, value in ops:
        what += f", {name}={value}"
        given = copy.deepcopy(value)
        if isinstance(value, list) and len(ops) % 2:
            given = np.array(value)  # arrays and lists are equivalent
        setattr(p, name, given)
        ref.assign(name, value)
        if isinstance(given, np.ndarray):
            given = given.astype(float) if given.dtype != float else given
            given += 100.0  # the parameter must not share memory with the argument
        STATS.step()
        compare(p, ref, what)
        STATS.state(np.round(ref.matrix, 6).tolist())


def history_cases(tier):
    depth = 3 if tier == "quick" else 4
    for start in (None, 1, 2):
        for n in range(0, (depth if start is None else depth - 1) + 1):
            for ops in itertools.product(OPS, repeat=n):
                yield [start, list(ops)]


def rejected(case):
    """A wrong assignment raises and the parameter (and what follows) is as without it."""
    before, bad, after = case
    p, ref = MatrixParameter(), Ref()
    for name, value in before:
        setattr(p, name, value)
        ref.assign(name, value)
    try:
        setattr(p, bad[0], bad[1])
    except (ValueError, TypeError):
        STATS.outcome("rejected")
    else:
        expect(False, f"{bad} is accepted")
    STATS.step()
    compare(p, ref, f"{before}, rejected {bad}")
    for name, value in after:
        setattr(p, name, value)
        ref.assign(name, value)
    compare(p, ref, f"{before}, rejected {bad}, {after}")
    STATS.state(str(case))


def rejected_cases(tier):
    for bad in BAD:
        for before in itertools.product(OPS, repeat=1 if tier == "quick" else 2):
            for after in OPS:
                yield [list(before), bad, [after]]


def constructor(case):
    kwargs = case
    given = copy.deepcopy(kwargs)
    p, ref = MatrixParameter(**kwargs), Ref()
    for name in ("matrix", "iso", "dmi", "aniso"):
        if name in kwargs:
            ref.assign(name, kwargs[name])
    compare(p, ref, f"MatrixParameter({kwargs})")
    expect(kwargs == given, "arguments are changed")
    q = MatrixParameter(**{k: np.array(v) for k, v in kwargs.items() if k != "iso"} | ({"iso": kwargs["iso"]} if "iso" in kwargs else {}))
    compare(q, ref, f"MatrixParameter({kwargs} as arrays)")
    for clone in (copy.deepcopy(p), copy.copy(p), pickle.loads(pickle.dumps(p))):
        compare(clone, ref, "copy")
    clone = copy.deepcopy(p)
    clone.xx = 50.0
    clone.dmi = [7, 8, 9]
    compare(p, ref, "original after a change of its copy")
    STATS.step()
    STATS.state(str(kwargs))
    # as an array
    expect(np.shape(p) == (3, 3), "shape")
    expect(close(np.sum(p), ref.matrix.sum(), 1e-10) and close(np.linalg.det(p), np.linalg.det(ref.matrix), 1e-9), "functions of numpy")
    text = [float(x) for x in str(p).split()]
    expect(close(text, ref.matrix.ravel(), 1e-4), f"printed as {p}")
    text = [float(x) for x in f"{p:.8f}".split()]
    expect(close(text, ref.matrix.ravel(), 1e-7), f"formatted as {p:.8f}")
    again = eval(repr(p), {"MatrixParameter": MatrixParameter, "array": np.array})
    expect(close(again.matrix, ref.matrix, 1e-7), f"representation {p!r}")


def constructor_cases(tier):
    for m, i, a, d in itertools.product([None] + MATRICES[:3], [None] + ISOS, [None] + ANISO, [None] + DMIS):
        kwargs = {"matrix": m, "iso": i, "aniso": a, "dmi": d}
        yield {k: v for k, v in kwargs.items() if v is not None}


VALUES = MATRICES[:3] + [[[0.0] * 3] * 3, [[1, -2, 3], [4, 5, -6], [7, 8, 9]]]
UNITS = [1, 1.0, 0, 0.0, True, -1, 1e-9, 1e9]
SCALARS = [2, -1.5, 0.25]
VECTORS = [[1.0, -2.0, 0.5], [0, 1, 0]]


def algebra(case):
    op, left, right = case
    p = MatrixParameter(matrix=left)
    a = np.array(left, dtype=float)
    new = True
    if op in ("+", "-", "==", "!="):
        q = MatrixParameter(matrix=right)
        b = np.array(right, dtype=float)
        if op == "+":
            got, want = p + q, a + b
        elif op == "-":
            got, want = p - q, a - b
        else:
            want = bool(np.array_equal(a, b))
            for other in (q, right, b.copy()):
                equal = p == other
                expect(bool(equal) is want, f"{left} == {right} gives {equal}")
                different = p != other
                expect(np.all(different) == (not want), f"{left} != {right} gives {different}")
            new = False
        expect(np.array_equal(q.matrix, b), f"{op} changes the right operand")
        if new:
            got.matrix[0][0] += 5.0
            expect(np.array_equal(q.matrix, b) and np.array_equal(p.matrix, a), f"result of {op} shares memory with an operand")
            got.matrix[0][0] -= 5.0
    elif op in ("neg", "pos", "abs", "T"):
        got, want = {
            "neg": lambda: (-p, -a),
            "pos": lambda: (+p, a),
            "abs": lambda: (abs(p), np.abs(a)),
            "T": lambda: (p.T, a.T),
        }[op]()
    elif op in ("*", "r*", "/", "//", "%"):
        x = right if not isinstance(right, list) else np.array(right, dtype=float)
        got, want = {
            "*": lambda: (p * x, a * x),
            "r*": lambda: (x * p, x * a),
            "/": lambda: (p / x, a / x),
            "//": lambda: (p // x, np.floor(a / x)),
            "%": lambda: (p % x, a - x * np.floor(a / x)),
        }[op]()
    elif op in ("@", "r@"):
        x = np.array(right, dtype=float)
        got, want = (p @ x, a @ x) if op == "@" else (x @ p, x @ a)
        expect(isinstance(got, np.ndarray) or np.isscalar(got), f"{op} gives {type(got)}")
        new = False
        expect(close(got, want, 1e-12), f"{left} {op} {right} gives {got}")
        got = None
    elif op == "@@":
        q = MatrixParameter(matrix=right)
        expect(close(p @ q, a @ np.array(right, dtype=float), 1e-12), f"{left} @ parameter {right}")
        x, y = np.array(VECTORS[0]), np.array(VECTORS[1])
        expect(close(x @ p @ y, x @ a @ y, 1e-12), "vector @ parameter @ vector")
        new = False
        got = None
    elif op in ("iadd", "isub", "imul", "itruediv"):
        alias = p
        q = MatrixParameter(matrix=right)
        b = np.array(right, dtype=float)
        if op == "iadd":
            p += q
            want = a + b
        elif op == "isub":
            p -= q
            want = a - b
        elif op == "imul":
            p *= 1.5
            want = a * 1.5
        else:
            p /= 1.5
            want = a / 1.5
        got = p
        expect(np.array_equal(q.matrix, b), f"{op} changes the right operand")
        p = alias
    elif op == "wrong":
        for f in (lambda: p + right, lambda: p - right, lambda: p @ "text", lambda: p * "text", lambda: p / "text"):
            try:
                f()
            except (TypeError, ValueError):
                STATS.outcome("rejected")
            else:
                expect(False, f"operation with {right} is accepted")
        new, got = False, None
    if new:
        expect(close(np.array(got), want, 1e-12), f"{left} {op} {right} gives {np.array(got).tolist()}, expected {want.tolist()}")
        if not (op == "r*" and isinstance(right, list)):
            expect(isinstance(got, MatrixParameter), f"{op} gives {type(got)}")
            expect(got is not p, f"{op} gives the same object")
            # results are complete parameters and do not share memory
            ref = Ref()
            ref.assign("matrix", want)
            compare(got, ref, f"{left} {op} {right}")
            got.xx = 77.0
            got.matrix[1][2] = -77.0
            expect(np.array_equal(p.matrix, a), f"result of {op} shares memory with the operand")
            got = None
    expect(np.array_equal(p.matrix, a), f"{op} changes the operand")
    STATS.step()
    STATS.state((op, left, str(right)))


def algebra_cases(tier):
    for left in VALUES:
        for op in ("neg", "pos", "abs", "T"):
            yield [op, left, None]
        for right in VALUES:
            for op in ("+", "-", "==", "!=", "@", "r@", "@@", "*", "r*", "iadd", "isub", "imul", "itruediv"):
                yield [op, left, right]
        for where, step in itertools.product([(0, 0), (1, 2), (2, 0)], [None, 1e-13, -3e-9, 1e-7, -1e-300]):
            right = nearly(left, where, step)
            for op in ("==", "!="):
                yield [op, left, right]
                yield [op, right, left]
        for right in UNITS:
            for op in ("*", "r*") if right == 0 else ("*", "r*", "/"):
                yield [op, left, right]
        for right in SCALARS:
            for op in ("*", "r*", "/", "//", "%"):
                yield [op, left, right]
        for right in VECTORS:
            for op in ("@", "r@"):
                yield [op, left, right]
        for right in (1, 2.5, "text", None):
            yield ["wrong", left, right]


SPACES = [
    Space("history", history_cases, history, "all sequences of assignments up to the depth, every part read after each step"),
    Space("rejected", rejected_cases, rejected, "wrong assignments between correct ones"),
    Space("constructor", constructor_cases, constructor, "all subsets of the arguments of the constructor"),
    Space("algebra", algebra_cases, algebra, "all operators on all pairs of operands"),
]
ASSUMPTIONS = [
    "the symmetric anisotropic part is assigned with symmetric traceless matrices only (other ones have no documented meaning)",
    "sequences of up to 3 assignments (4 in the thorough run) over 25 assignments",
]
