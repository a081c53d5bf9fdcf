"""C20: angles, local frames, cone axis and spiral vector describe the given direction."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.models import build, canon, close, structure

from magnopy import MagnonDispersion  # noqa: E402
from magnopy.geometry import vector_to_angles  # noqa: E402
from magnopy.magnons.dispersion import span_orthonormal_set  # noqa: E402

LENGTHS = [1.0, 1.5, 0.3, 2.5, 1e-3, 40.0]
FORMS = {"array": np.array, "list": list, "tuple": tuple}


def grid(tier):
    """Directions: all the vectors of a cube, the neighbourhood of the poles and of the seam."""
    n = 3 if tier == "quick" else 6
    for v in itertools.product(range(-n, n + 1), repeat=3):
        if any(v):
            yield [float(x) for x in v]
    tilts = [10.0**-p for p in range(1, 10)] + [2e-8, 1.2e-8, 1e-5, 3e-7]
    for t, sx, sy, sz in itertools.product(tilts, (-1, 0, 1), (-1, 0, 1), (-1, 1)):
        if sx or sy:
            yield [t * sx, t * sy, float(sz)]
            yield [float(sz), t * sx, t * sy]
            yield [t * sx, float(sz), t * sy]


def directions(tier):
    for v in grid(tier):
        yield v


def judge(case):
    v0 = np.array(case)
    for length in LENGTHS:
        v = v0 * length
        want = np.linalg.norm(v)
        for name, form in FORMS.items():
            for degrees in (True, False):
                STATS.step()
                m, p, a = vector_to_angles(form(v), in_degrees=degrees)
                what = f"angles of {v.tolist()} ({name}), in_degrees={degrees}"
                expect(close(m, want, 1e-12), f"{what}: modulus {m}")
                half = 180.0 if degrees else np.pi
                expect(-1e-9 <= p <= half + 1e-9, f"{what}: polar angle {p}")
                expect(-1e-9 <= a <= 2 * half + 1e-9, f"{what}: azimuthal angle {a}")
                p, a = (np.radians(p), np.radians(a)) if degrees else (p, a)
                back = m * np.array([np.sin(p) * np.cos(a), np.sin(p) * np.sin(a), np.cos(p)])
                expect(np.max(np.abs(back - v)) <= 1e-7 * want, f"{what}: ({m}, {p}, {a}) is the vector {back}")
            default = vector_to_angles(form(v))
            expect(close(default, vector_to_angles(form(v), in_degrees=True), 0), f"{v}: default units are not degrees")
            STATS.step()
            e = np.array(span_orthonormal_set(form(v)))
            what = f"frame of {v.tolist()} ({name})"
            expect(e.shape == (3, 3) and close(e @ e.T, np.eye(3), 1e-7), f"{what}: not orthonormal: {e.tolist()}")
            expect(np.linalg.det(e) > 0, f"{what}: left-handed: {e.tolist()}")
            expect(np.max(np.abs(e[2] - v / want)) <= 1e-7, f"{what}: the third vector is {e[2]}")
    STATS.state(tuple(np.round(v0, 12)))


def zero(case):
    STATS.step()
    STATS.state(case)
    m, p, a = vector_to_angles(FORMS[case]([0.0, 0.0, 0.0]))
    expect(m == 0 and np.isfinite(p) and np.isfinite(a), f"zero vector: {m}, {p}, {a}")


# --------------------------------------------------------- attributes of the Hamiltonian
VALUES = [
    ["cone_axis", [0.0, 0.0, 2.0]],
    ["cone_axis", [-3.0, 0.0, 4.0]],
    ["cone_axis", [1e-3, 2e-3, -2e-3]],
    ["cone_axis", [1e-6, 0.0, -2e-5]],
    ["cone_axis", [0.6, 0.0, 0.80001]],
    ["spiral_vector", [1e-9, -1e-7, 0.5]],
    ["spiral_vector", [0.0, 0.0, 0.0]],
    ["spiral_vector", [0.25, -1.5, 7.0]],
    ["spiral_vector", [1, 2, 3]],
    ["cone_axis", [0, 0, 0]],
    ["cone_axis", [1.0, 2.0]],
    ["cone_axis", [[0.0, 0.0, 1.0]]],
    ["cone_axis", "abc"],
    ["cone_axis", None],
    ["spiral_vector", [1.0, 2.0, 3.0, 4.0]],
    ["spiral_vector", [[0.1, 0.2, 0.3]]],
    ["spiral_vector", "q"],
    ["spiral_vector", 0.5],
    ["spiral_vector", None],
]
GOOD = 9


def attributes(case):
    name, notation, history = case
    ham = build(structure(name, notation))
    expected = {"cone_axis": None, "spiral_vector": None}
    start = canon(ham)
    for n in history:
        attribute, value = VALUES[n]
        STATS.step()
        if n < GOOD:
            setattr(ham, attribute, value)
            v = np.array(value, dtype=float)
            expected[attribute] = v / np.linalg.norm(v) if attribute == "cone_axis" else v
        else:
            try:
                setattr(ham, attribute, value)
            except (ValueError, TypeError):
                STATS.outcome("rejected")
            else:
                expect(False, f"{attribute} = {value!r} is accepted")
        what = f"after {[VALUES[i] for i in history]}"
        for a, v in expected.items():
            got = getattr(ham, a)
            expect((got is None) == (v is None), f"{what}: {a} is {got}")
            if v is not None:
                expect(np.shape(got) == (3,) and close(got, v, 1e-12), f"{what}: {a} is {got}, expected {v}")
            copied = getattr(ham.copy(), a)
            expect((copied is None) == (v is None) and (v is None or close(copied, v, 1e-12)), f"{what}: {a} of the copy is {copied}")
        expect(canon(ham) == start, f"{what}: parameters are changed")
    STATS.state((name, str(expected)))


def attribute_cases(tier):
    for name, notation in (("dimer", "tb2j"), ("noexchange", None), ("chain", [False, False, 2.0, -1.0])):
        for d in (1, 2, 3):
            for history in itertools.product(range(len(VALUES)), repeat=d):
                if d == 3 and tier == "quick" and name != "dimer":
                    continue
                yield [name, notation, list(history)]


# ------------------------------------------------------- local frames used by the magnons
def frames(case):
    """u and v of the magnon calculator: u = e1 + i e2, v = e3 for every direction of the spin."""
    from mc.models import ATOMS, SpinHamiltonian

    for length in (1.5, 0.5):
        ham = SpinHamiltonian()
        spin = (np.array(case) / np.linalg.norm(case) * length).tolist()
        ham.add_atom(name="A", position=[0, 0, 0], spin=[0, 0, 1.0])
        ham.add_atom(name="B", position=[0.5, 0, 0], spin=spin)
        ham.notation = "magnopy"
        ham.add_exchange("A", "B", (0, 0, 0), iso=1.0)
        md = MagnonDispersion(ham)
        u, v = md.u[1], md.v[1]
        STATS.step()
        what = f"spin {spin}"
        expect(np.max(np.abs(v - np.array(spin) / length)) <= 1e-7, f"{what}: v is {v}")
        expect(abs(u @ v) <= 1e-7 and abs(u @ u) <= 1e-7 and abs(u @ u.conj() - 2) <= 1e-7, f"{what}: u is {u}")
        expect(np.max(np.abs(np.cross(u.real, u.imag) - v.real)) <= 1e-7, f"{what}: u, v are left-handed: {u}, {v}")
        expect(close(md.S[1], spin, 1e-12), f"{what}: S is {md.S[1]}")
    STATS.state(tuple(np.round(case, 12)))


SPACES = [
    Space("directions", directions, judge, "all vectors of an integer cube and the neighbourhoods of the axes x lengths x forms of the input: angles and frames"),
    Space("zero", lambda tier: list(FORMS), zero, "zero vector"),
    Space("attributes", attribute_cases, attributes, "all histories of valid and invalid assignments of the cone axis and the spiral vector"),
    Space("frames", directions, frames, "local frames of the magnon calculator for the same directions"),
]
ASSUMPTIONS = [
    "directions within 1e-8 of the poles are treated by the code as the poles: vectors are compared with tolerance 1e-7",
]
