"""C10: Colpa diagonalization of all small Hermitian forms over a finite set of entries."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect, load_target

load_target()

from magnopy.exceptions import ColpaFailed  # noqa: E402
from magnopy.magnons.diagonalization import solve_via_colpa  # noqa: E402


def build(n, diagonal, off):
    D = np.zeros((2 * n, 2 * n), dtype=complex)
    for i, x in enumerate(diagonal):
        D[i, i] = x
    for (i, j), (re, im) in zip(itertools.combinations(range(2 * n), 2), off):
        D[i, j], D[j, i] = re + 1j * im, re - 1j * im
    return D


def check(D, given=None, what=""):
    """given: the object to be passed, if it is not the complex array itself"""
    n = len(D) // 2
    g = np.diag([1.0] * n + [-1.0] * n)
    low, high = np.linalg.eigvalsh(D)[[0, -1]]
    given = D.copy() if given is None else given
    before = np.array(given).copy()
    scale = max(abs(low), abs(high), 1e-300)
    STATS.step()
    try:
        E, G = solve_via_colpa(given)
    except ColpaFailed:
        expect(low <= 1e-9 * scale, f"{what}: positive definite form (lowest eigenvalue {low}) is rejected: {D.tolist()}")
        STATS.outcome("rejected" if low < -1e-9 * scale else "singular")
        return None
    finally:
        expect(np.array_equal(np.array(given), before), f"{what}: the form is changed")
    expect(low > -1e-9 * scale, f"{what}: form with the eigenvalue {low} is diagonalized: {D.tolist()}")
    if low <= 1e-9 * scale:
        STATS.outcome("singular")
        return None
    STATS.outcome("diagonalized")
    cond = high / low
    tol = 1e-12 * cond
    E, G = np.array(E), np.array(G)
    expect(E.shape == (2 * n,) and G.shape == (2 * n, 2 * n), f"{what}: shapes {E.shape}, {G.shape}")
    expect(np.all(np.isfinite(E)) and np.all(np.isfinite(G)), f"{what}: not finite")
    expect(np.all(np.abs(np.imag(E)) <= tol * scale), f"{what}: energies {E}")
    E = np.real(E)
    expect(np.all(E > 0), f"{what}: energies {E}")
    expect(np.all(np.diff(E[:n]) <= tol * scale) and np.all(np.diff(E[n:]) >= -tol * scale), f"{what}: order of the energies {E}")
    bosonic = np.abs(G @ g @ G.conj().T - g).max()
    expect(bosonic <= tol, f"{what}: commutation relations are broken by {bosonic}: {D.tolist()}")
    back = G.conj().T @ np.diag(E) @ G
    expect(np.abs(back - D).max() <= tol * scale, f"{what}: G^+ E G is {back.tolist()}, expected {D.tolist()}")
    inv = np.linalg.inv(G)
    diag = inv.conj().T @ D @ inv
    expect(np.abs(diag - np.diag(E)).max() <= tol * scale, f"{what}: {D.tolist()} is not diagonal")
    want = np.sort(np.real(np.linalg.eigvals(g @ D)))
    got = np.sort(np.concatenate((E[:n], -E[n:])))
    # eigenvalues of a non-normal matrix near an exceptional point lose half of the digits
    expect(np.abs(got - want).max() <= 1e-6 * scale * np.sqrt(cond), f"{what}: energies {got}, expected {want}")
    STATS.state(np.round(got, 6).tolist())
    return E


def judge(case):
    n, diagonal, off, scale = case
    D = build(n, diagonal, off) * scale
    check(D, what=f"{case}")


def cases_one(tier):
    values = [-1.0, 0.0, 1.0, 2.0, 3.5]
    parts = [0.0, 0.4, -0.9, 1.0]
    for a, b, re, im in itertools.product(values, values, parts, parts):
        for scale in (1.0, 1e-6, 1e6):
            yield [1, [a, b], [[re, im]], scale]


def cases_tiny(tier):
    """Negligible entries are a part of the form too."""
    parts = [0.0, 3e-16, -1e-14, 1e-11, -2e-8]
    for n, level in ((1, 1.0), (1, 2.5), (2, 2.0)):
        for re, im in itertools.product(parts, parts):
            pairs = n * (2 * n - 1)
            for where in range(pairs):
                off = [[0.0, 0.0]] * pairs
                off[where] = [re, im]
                yield [n, [level + 0.25 * i for i in range(2 * n)], off, 1.0]


def cases_two(tier):
    diagonals = [1.0, 2.0] if tier == "quick" else [1.0, 1.5, 2.0]
    entries = [[0.0, 0.0], [0.7, 0.0], [0.0, -0.4]]
    if tier != "quick":
        entries += [[-0.7, 0.3]]
    for d in itertools.product(diagonals, repeat=4):
        for off in itertools.product(entries, repeat=6):
            yield [2, list(d), list(off), 1.0]


def magnon(case):
    """Forms of the magnon problem: blocks A(k), B, B^+, A(-k)^*; equal halves of the spectrum."""
    n, a, b, level = case
    pairs = list(itertools.combinations(range(n), 2))
    A = np.diag([level] * n).astype(complex)
    for (i, j), (re, im) in zip(pairs, a):
        A[i, j], A[j, i] = re + 1j * im, re - 1j * im
    B = np.zeros((n, n), dtype=complex)
    for (i, j), (re, im) in zip(list(itertools.combinations_with_replacement(range(n), 2)), b):
        B[i, j] = B[j, i] = re + 1j * im
    D = np.block([[A, B], [B.conj().T, A.conj()]])
    E = check(D, what=f"magnon form {case}")
    if E is not None:
        expect(np.abs(E[:n] - E[n:][::-1]).max() <= 1e-9 * 10, f"halves of the spectrum differ: {E}")


def magnon_cases(tier):
    entries = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]
    for n in (1, 2):
        for a in itertools.product(entries + [[-0.5, 0.7]], repeat=n * (n - 1) // 2):
            for b in itertools.product(entries + [[-0.5, 0.7], [1.5, 0.0]], repeat=n * (n + 1) // 2):
                for level in (4.0, 2.0):
                    yield [n, list(a), list(b), level]
    few = entries[:2] if tier == "quick" else entries
    for a in itertools.product(entries, repeat=3):
        for b in itertools.product(few, repeat=6):
            for level in (4.0, 2.5):
                yield [3, list(a), list(b), level]


def basis(case):
    """Energies in another para-unitary basis, and other kinds of input."""
    d, off, t, phase = case
    D = build(2, d, off)
    E = check(D, what=f"{case}")
    if np.array_equal(D.imag, np.zeros((4, 4))):
        F = check(D, given=D.real.copy(), what="real array")
        expect(E is None or np.abs(E - F).max() < 1e-9, "real and complex array differ")
        check(D, given=D.real.tolist(), what="nested list")
        if np.array_equal(D.real, np.round(D.real)):
            check(D, given=D.real.astype(int), what="array of integers")
    else:
        check(D, given=D.tolist(), what="nested list")
    c, s = np.cosh(t), np.sinh(t)
    boost = np.eye(4, dtype=complex)
    boost[0, 0], boost[0, 2], boost[2, 0], boost[2, 2] = c, s * np.exp(1j * phase), s * np.exp(-1j * phase), c
    rot = np.eye(4, dtype=complex)
    rot[:2, :2] = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
    rot[2:, 2:] = np.diag([np.exp(1j * phase), 1.0])
    for P in (boost, rot, boost @ rot):
        other = P.conj().T @ D @ P
        other = (other + other.conj().T) / 2
        F = check(other, what=f"{case} in another basis")
        expect((E is None) == (F is None), "definiteness depends on the basis")
        if E is not None:
            expect(np.abs(E - F).max() < 1e-7, f"{case}: energies {E} and {F} in another basis")


def basis_cases(tier):
    entries = [[0.0, 0.0], [1.0, 0.0], [0.0, -0.4]]
    for d in ([3.0, 3.0, 3.0, 3.0], [4.0, 3.0, 5.0, 2.0], [1.0, 1.0, 1.0, 1.0]):
        for off in itertools.product(entries, repeat=6):
            for t, phase in ((0.3, 0.0), (-0.7, 1.1)):
                yield [d, list(off), t, phase]


def large(case):
    """More modes: a band and corners on top of degenerate or different levels."""
    n, levels, band, corner, anomalous, far = case
    D = np.zeros((2 * n, 2 * n), dtype=complex)
    for i in range(2 * n):
        D[i, i] = levels[i % len(levels)]
    for i in range(2 * n - 1):
        D[i, i + 1] = complex(*band) * (1 + (i % 3)) / 3
    for i in range(n):
        D[i, n + i] += complex(*anomalous)
        D[i, 2 * n - 1 - i] += complex(*far)
    D[0, 2 * n - 1] += complex(*corner)
    D = np.triu(D, 1) + np.triu(D, 1).conj().T + np.diag(np.diag(D))
    check(D, what=f"{case}")


def large_cases(tier):
    entries = [[0.0, 0.0], [0.6, 0.0], [-0.3, 0.5]]
    for n in (3, 4, 5, 8) if tier == "quick" else range(3, 13):
        for levels in ([3.0], [3.0, 2.5, 4.0, 3.5, 2.0], [1.0, 5.0], [1.2]):
            for band, corner, anomalous, far in itertools.product(entries, repeat=4):
                yield [n, levels, band, corner, anomalous, far]


SPACES = [
    Space("large", large_cases, large, "three to eight modes, degenerate and different levels"),
    Space("one-mode", cases_one, judge, "all forms of one mode over the entries, three scales", chunk=200),
    Space("tiny", cases_tiny, judge, "forms with a negligible entry"),
    Space("two-modes", cases_two, judge, "all forms of two modes over the entries", chunk=500),
    Space("magnon", magnon_cases, magnon, "forms with the symmetry of the magnon problem, up to three modes"),
    Space("basis", basis_cases, basis, "change of the basis, kinds of the input"),
]
ASSUMPTIONS = [
    "only Hermitian forms are passed (documented requirement)",
    "forms with the lowest eigenvalue within 1e-9 of zero may be diagonalized or rejected",
]
