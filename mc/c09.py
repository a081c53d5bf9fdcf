"""C09: magnon energies against the linearized Landau-Lifshitz equations."""

import itertools

import numpy as np

from mc.core import STATS, Space, expect
from mc.energyref import unit
from mc.models import (
    CELLS,
    MATRICES,
    NOTATIONS_ALL,
    STRUCTURES,
    SpinHamiltonian,
    close,
    same_snapshot,
    set_notation,
    snapshot,
)

from magnopy import MagnonDispersion  # noqa: E402

DIRECTIONS = [
    [[0.0, 0.0, 1.0], [0.0, 0.0, 1.0], [0.0, 0.0, 1.0]],
    [[0.0, 0.0, -1.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0]],
    [[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, -1.0]],
    [[0.6, 0.0, 0.8], [-1.0, 2.0, 2.0], [0.1, 0.7, -0.3]],
    [[-0.2, -0.5, -0.8], [0.3, -0.9, 0.1], [1.0, 1.0, 1.0]],
    # almost along the axes
    [[0.002, -0.001, 1.0], [0.0, 0.003, -1.0], [1.0, 0.0, 1e-5]],
    [[1e-5, 0.0, -1.0], [-0.001, 1.0, 0.002], [0.0, -1e-4, 1.0]],
]
SPINS = [1.5, 1.0, 2.5]
K_REL = [
    [0.0, 0.0, 0.0],
    [0.13, 0.0, 0.0],
    [-0.13, 0.0, 0.0],
    [0.0, 0.5, 0.0],
    [0.2, -0.35, 0.41],
    [-0.2, 0.35, -0.41],
    [0.5, 0.5, 0.5],
    [1.3, 0.25, -2.7],
    [1e-13, 0.25, -1e-9],
]
BONDS = dict(
    # numerous bonds are made weaker in order to have a stable state
    {
        name: (
            s["cell"],
            [a[1] for a in s["atoms"]],
            [[i, j, r, m if isinstance(m, int) else (np.array(m) / (1 if np.abs(m).max() < 1 else 8 if np.abs(m).max() < 5 else 200)).tolist()] for i, j, r, m in s["bonds"]],
        )
        for name, s in STRUCTURES.items()
        if s["bonds"]
    },
    # nonmagnetic atoms at the beginning and at the end are inserted by "ghost"
)


def frame(e):
    """Two unit vectors that form a right-handed set with e."""
    trial = np.eye(3)[int(np.argmin(np.abs(e)))]
    a = unit(np.cross(trial, e))
    return a, np.cross(e, a)


class Physics:
    """E = sum_pairs S_i K S_j + sum_i S_i A S_i with spin vectors of full length."""

    def __init__(self, cell, positions, spins, pairs, onsite):
        self.cell, self.positions = np.array(cell), np.array(positions, dtype=float)
        self.spins = np.array(spins, dtype=float)
        self.pairs, self.onsite = pairs, onsite

    def field(self):
        f = np.zeros_like(self.spins)
        for i, j, R, K in self.pairs:
            f[i] += K @ self.spins[j]
            f[j] += K.T @ self.spins[i]
        for i, A in self.onsite.items():
            f[i] += (A + A.T) @ self.spins[i]
        return f

    def stabilize(self, stiffness):
        """On-site terms that make any directions a stable stationary state."""
        f = Physics(self.cell, self.positions, self.spins, self.pairs, {}).field()
        self.onsite = {}
        for i, s in enumerate(self.spins):
            S = np.linalg.norm(s)
            e = s / S
            w = -(f[i] - e * (e @ f[i])) / (2 * S)
            self.onsite[i] = -stiffness * np.outer(e, e) + np.outer(w, e) + np.outer(e, w)

    def frequencies(self, k):
        """Frequencies of the waves exp(i(k.r - wt)) of dS/dt = dE/dS x S and definiteness
        of the second variation at this wave vector."""
        n = len(self.spins)
        length = np.linalg.norm(self.spins, axis=1)
        e = self.spins / length[:, None]
        f = self.field()
        for i in range(n):
            assert np.linalg.norm(np.cross(f[i], e[i])) < 1e-9
        frames = [frame(x) for x in e]
        hess = np.zeros((3 * n, 3 * n), dtype=complex)
        for i, j, R, K in self.pairs:
            d = (self.positions[j] + np.array(R) - self.positions[i]) @ self.cell
            hess[3 * i : 3 * i + 3, 3 * j : 3 * j + 3] += K * np.exp(1j * (k @ d))
            hess[3 * j : 3 * j + 3, 3 * i : 3 * i + 3] += K.T * np.exp(-1j * (k @ d))
        for i, A in self.onsite.items():
            hess[3 * i : 3 * i + 3, 3 * i : 3 * i + 3] += A + A.T
        tangent = np.zeros((3 * n, 2 * n))
        for i, (a, b) in enumerate(frames):
            tangent[3 * i : 3 * i + 3, 2 * i] = a
            tangent[3 * i : 3 * i + 3, 2 * i + 1] = b
        lam = np.repeat([f[i] @ e[i] / length[i] for i in range(n)], 3)
        form = tangent.T @ (hess - np.diag(lam)) @ tangent
        # d delta/dt = (form delta) x S, in the local frames: x' = S y-component, y' = -S x
        rot = np.zeros((2 * n, 2 * n))
        for i in range(n):
            rot[2 * i, 2 * i + 1], rot[2 * i + 1, 2 * i] = length[i], -length[i]
        w = np.linalg.eigvals(1j * rot @ form)
        return w, np.linalg.eigvalsh(form)


def positive(w):
    return np.sort(w.real[w.real > 0])


def make(physics, notation, names=None, ghost=False, order=None, reverse=False):
    """Hamiltonian with the given physics, written directly in the given notation."""
    n = len(physics.spins)
    names = names or [chr(65 + i) for i in range(n)]
    order = list(range(n)) if order is None else order
    ham = SpinHamiltonian(cell=physics.cell)
    if ghost:
        ham.add_atom(name="X", position=[0.3, 0.3, 0.3], spin=[1.0, 0.0, 0.0], g_factor=2)
    for i in order:
        ham.add_atom(name=names[i], position=physics.positions[i], spin=physics.spins[i], g_factor=2)
    if ghost:
        ham.add_atom(name="Y", position=[0.6, 0.1, 0.9], spin=[0.0, 0.0, 1.0], g_factor=2)
    set_notation(ham, notation)
    dc, norm, ef, of = notation
    S = np.linalg.norm(physics.spins, axis=1)
    for i, j, R, K in physics.pairs:
        m = K / ef * (S[i] * S[j] if norm else 1.0) / (2.0 if dc else 1.0)
        if reverse:
            ham.add_exchange(names[j], names[i], tuple(-x for x in R), matrix=m.T)
        else:
            ham.add_exchange(names[i], names[j], tuple(R), matrix=m)
    for i, A in physics.onsite.items():
        ham.add_on_site(names[i], matrix=A / of * (S[i] ** 2 if norm else 1.0))
    return ham


def generic(name, directions, stiffness, scale=1.0):
    cell, positions, bonds = BONDS[name]
    n = len(positions)
    spins = [SPINS[i % 3] * unit(DIRECTIONS[(directions + i // 3) % len(DIRECTIONS)][i % 3]) for i in range(n)]
    pairs = [(i, j, R, scale * np.array(MATRICES[m] if isinstance(m, int) else m)) for i, j, R, m in bonds]
    physics = Physics(CELLS[cell], positions, spins, pairs, {})
    physics.stabilize(stiffness * scale)
    return physics


def wave_vectors(physics):
    rcell = 2 * np.pi * np.linalg.inv(physics.cell).T
    return [np.array(k) @ rcell for k in K_REL]


def compare(calc, physics, k, what, tol=1e-7):
    """-> sorted energies"""
    n = len(physics.spins)
    w, form = physics.frequencies(k)
    want = positive(w)
    scale = max(1e-6, np.abs(w).max())
    assert form[0] > 1e-3 * scale and len(want) == n
    given = np.array(k)
    got = calc.omega(given)
    expect(np.array_equal(given, k), f"{what}: the wave vector of the caller changed from {k} to {given}")
    expect(np.shape(got) == (n,) and np.isrealobj(got), f"{what}: {got}")
    expect(close(np.sort(got) / scale, want / scale, tol), f"{what}, k={k.tolist()}: energies {np.sort(got)}, expected {want}")
    h = calc.h(k)
    expect(h.shape == (2 * n, 2 * n) and np.abs(h - h.conj().T).max() < 1e-10 * scale * 10, f"{what}: form is not Hermitian")
    return want


def judge(case):
    name, directions, stiffness, scale, notation = case
    physics = generic(name, directions, stiffness, scale)
    what = f"{case}"
    ham = make(physics, notation)
    before = snapshot(ham)
    calc = MagnonDispersion(ham)
    n = len(physics.spins)
    ks = wave_vectors(physics)
    energies = []
    for k in ks:
        energies.append(compare(calc, physics, k, what))
        STATS.step()
    STATS.state(np.round(energies, 6).tolist())
    # all the ways to ask, on a calculator that was used already
    for table in (calc.omegas(ks), calc(np.array(ks)), MagnonDispersion(ham).omegas(ks)):
        expect(np.shape(table) == (n, len(ks)), f"{what}: shape of the table {np.shape(table)}")
        for i, e in enumerate(energies):
            expect(close(np.sort(table[:, i]) / scale, e / scale, 1e-6), f"{what}: table {table[:, i]}, expected {e}")
    g = np.diag([1.0] * n + [-1.0] * n)
    for k, e in zip(ks, energies):
        full, G = calc.omega(k, return_G=True)
        expect(np.shape(full) == (2 * n,) and np.shape(G) == (2 * n, 2 * n), f"{what}: shapes with G")
        minus = positive(physics.frequencies(-k)[0])
        expect(close(np.sort(full[:n]) / scale, e / scale, 1e-6) and close(np.sort(full[n:]) / scale, minus / scale, 1e-6), f"{what}: energies with G {full}, expected {e}, {minus}")
        expect(np.abs(G @ g @ G.conj().T - g).max() < 1e-8, f"{what}: G is not bosonic")
        expect(np.abs(G.conj().T @ np.diag(full) @ G - calc.h(k)).max() < 1e-8 * max(scale, np.abs(full).max()), f"{what}: G does not diagonalize the form")
        expect(close(np.sort(calc.omega(k, zeros_to_none=True)) / scale, e / scale, 1e-6), f"{what}: zeros_to_none changes the result")
        im = np.asarray(calc.omega(k, return_imaginary=True))
        expect(np.abs(np.imag(im)).max() < 1e-9 * scale and close(np.sort(im.real) / scale, e / scale, 1e-6), f"{what}: return_imaginary {im}")
        expect(close(np.sort(calc.omega(list(k))) / scale, e / scale, 1e-6), f"{what}: list instead of an array")
    same_snapshot(snapshot(ham), before, f"{what}: the Hamiltonian", tol=0)


def cases(tier):
    for name in BONDS:
        for directions, notation in itertools.product(range(len(DIRECTIONS)), NOTATIONS_ALL):
            yield [name, directions, 8.0, 1.0, notation]
    extra = [1e-6, 1e-5, 0.02, 50.0]
    for name, directions, scale in itertools.product(BONDS, range(len(DIRECTIONS)), extra):
        yield [name, directions, 8.0, scale, [True, False, -1.0, -1.0]]
    if tier == "thorough":
        for name, directions, stiffness, scale, notation in itertools.product(BONDS, range(len(DIRECTIONS)), [7.0, 20.0], [0.3, 4.0], NOTATIONS_ALL):
            yield [name, directions, stiffness, scale, notation]


def equivalent(case):
    """Other descriptions of the same crystal."""
    name, directions, kind, arg, notation = case
    physics = generic(name, directions, 8.0)
    n = len(physics.spins)
    what = f"{case}"
    kwargs = {}
    shift = np.zeros(3)
    rcell = 2 * np.pi * np.linalg.inv(physics.cell).T
    if kind == "reciprocal":
        shift = np.array(arg) @ rcell
        ham = make(physics, notation)
    elif kind == "order":
        if max(arg) >= n or len(arg) != n:
            return
        ham = make(physics, notation, order=arg)
    elif kind == "reverse":
        ham = make(physics, notation, reverse=True)
    elif kind == "ghost":
        ham = make(physics, notation, ghost=True)
    elif kind == "images":
        # atoms are taken from other unit cells
        moves = np.array((arg * n)[:n])
        pairs = [(i, j, tuple(np.array(R) + moves[i] - moves[j]), K) for i, j, R, K in physics.pairs]
        other = Physics(physics.cell, physics.positions + moves, physics.spins, pairs, physics.onsite)
        ham = make(other, notation)
    elif kind == "late":
        ham = make(physics, [False, False, 1.0, 1.0])
        set_notation(ham, notation)
        if not notation[0]:
            ham.double_counting = True
    elif kind == "rotate":
        # rotation of the spins together with the parameters
        axis, angle = np.array(arg[:3]), arg[3]
        axis = unit(axis)
        x = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
        Rm = np.eye(3) + np.sin(angle) * x + (1 - np.cos(angle)) * x @ x
        other = Physics(
            physics.cell,
            physics.positions,
            physics.spins @ Rm.T,
            [(i, j, R, Rm @ K @ Rm.T) for i, j, R, K in physics.pairs],
            {i: Rm @ A @ Rm.T for i, A in physics.onsite.items()},
        )
        ham = make(other, notation)
    elif kind == "supercell":
        # a doubled cell has the modes of k and of k + half of the reciprocal vector
        axis = arg
        cell = physics.cell.copy()
        cell[axis] *= 2
        pos, spins, pairs, onsite = [], [], [], {}
        for c in (0, 1):
            for i in range(n):
                p = physics.positions[i].copy()
                p[axis] = (p[axis] + c) / 2
                pos.append(p)
                spins.append(physics.spins[i])
                onsite[c * n + i] = physics.onsite[i]
            for i, j, R, K in physics.pairs:
                t = c + R[axis]
                R2 = list(R)
                R2[axis] = t // 2
                pairs.append((c * n + i, (t % 2) * n + j, tuple(R2), K))
        other = Physics(cell, pos, spins, pairs, onsite)
        ham = make(other, notation, names=[f"A{i}" for i in range(2 * n)])
        calc = MagnonDispersion(ham)
        half = rcell[axis] / 2
        for k in wave_vectors(physics):
            want = np.sort(np.concatenate((positive(physics.frequencies(k)[0]), positive(physics.frequencies(k + half)[0]))))
            got = np.sort(calc.omega(k))
            expect(close(got, want, 1e-7), f"{what}: energies in the doubled cell {got}, expected {want}")
            STATS.step()
        STATS.state(what)
        return
    calc = MagnonDispersion(ham, **kwargs)
    for k in wave_vectors(physics):
        want = positive(physics.frequencies(k)[0])
        got = np.sort(calc.omega(k + shift))
        expect(close(got, want, 1e-7), f"{what}, k={k.tolist()}: energies {got}, expected {want}")
        STATS.step()
    STATS.state(what)


def equivalent_cases(tier):
    notations = [NOTATIONS_ALL[i] for i in ((0, 6, 11) if tier == "quick" else range(16))]
    directions = (1, 3) if tier == "quick" else range(len(DIRECTIONS))
    variants = (
        [["reciprocal", g] for g in ([1, 0, 0], [0, -1, 2], [3, 1, -1])]
        + [["order", list(o)] for n in (2, 3) for o in itertools.permutations(range(n)) if list(o) != sorted(o)]
        + [["order", [(5 * i + 7) % 12 for i in range(12)]]]
        + [["reverse", None], ["ghost", None], ["late", None]]
        + [["images", m] for m in ([[0, 0, 0], [1, 0, 0], [0, 0, 0]], [[0, -1, 2], [1, 1, 0], [0, 0, 5]])]
        + [["rotate", r] for r in ([0, 0, 1, 0.7], [1, 0, 0, 3.141592653589793], [1, 2, -1, 2.1])]
        + [["supercell", a] for a in range(3)]
    )
    for name, d, (kind, arg), notation in itertools.product(BONDS, directions, variants, notations):
        if kind == "order" and len(arg) != len(BONDS[name][1]):
            continue
        if name == "crowd" and tier == "quick" and kind == "supercell" and notation != notations[0]:
            continue
        yield [name, d, kind, arg, notation]


def textbook(case):
    """Closed formulas of simple magnets; also the gapless points and unstable states."""
    kind, notation, k, axis = case
    STATS.step()
    k = np.array(k)
    e = unit(axis)
    a = np.array([1.5, 2.0, 3.1])
    cell = CELLS["ortho"]
    what = f"{case}"
    S, J, K = 1.5, 0.8, 0.3
    gamma = lambda: sum(1 - np.cos(k * a))  # noqa: E731
    bonds = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    if kind in ("ferro", "gapless", "maximum", "dmi"):
        sign = -1.0 if kind != "maximum" else 1.0
        KK = 0.0 if kind == "gapless" else K
        D = np.zeros((3, 3))
        if kind == "dmi":
            # D along the spin: 2 D S sin(k a) is odd in k
            d = 0.2 * e
            D = np.array([[0, d[2], -d[1]], [-d[2], 0, d[0]], [d[1], -d[0], 0]])
        pairs = [(0, 0, b, sign * J * np.eye(3) + (D if b == (1, 0, 0) else 0)) for b in bonds]
        physics = Physics(cell, [[0, 0, 0]], [S * e], pairs, {0: sign * KK * np.outer(e, e)} if KK else {})
        want = 2 * S * (J * gamma() + KK)
        if kind == "dmi":
            # S_i.(D S_j) = d.(S_i x S_j): a wave k turns the spins against or along d
            want = want + 2 * S * 0.2 * np.sin(k[0] * a[0])
        want = np.array([-sign * want])
        tol = 1e-6 if kind == "gapless" else 1e-9
    elif kind in ("antiferro", "antiferro gapless"):
        KK = K if kind == "antiferro" else 0.0
        pairs = [(0, 1, (0, 0, 0), J * np.eye(3)), (0, 1, (-1, 0, 0), J * np.eye(3))]
        onsite = {i: -KK * np.outer(e, e) for i in (0, 1)} if KK else {}
        physics = Physics(cell, [[0, 0, 0], [0.5, 0, 0]], [S * e, -S * e], pairs, onsite)
        x = 2 * J * S
        h = 2 * KK * S
        value = np.sqrt((x + h) ** 2 - (x * np.cos(k[0] * a[0] / 2)) ** 2)
        want = np.array([value, value])
        tol = 1e-3 if kind == "antiferro gapless" else 1e-9
    elif kind in ("pair", "pair maximum"):
        # ferromagnetic order of two atoms: the optical mode has an energy at the gapless point
        sign = -1.0 if kind == "pair" else 1.0
        pairs = [(0, 1, (0, 0, 0), sign * J * np.eye(3)), (0, 1, (-1, 0, 0), sign * J * np.eye(3))]
        physics = Physics(cell, [[0, 0, 0], [0.5, 0, 0]], [S * e, S * e], pairs, {})
        c = np.cos(k[0] * a[0] / 2)
        want = -sign * 2 * J * S * np.array([1 - c, 1 + c])
        calc = MagnonDispersion(make(physics, notation))
        full, G = calc.omega(k, return_G=True)
        expect(np.shape(full) == (4,) and np.shape(G) == (4, 4), f"{what}: shapes with G {np.shape(full)}, {np.shape(G)}")
        for half in (full[:2], full[2:]):
            expect(close(np.sort(half), np.sort(want), 1e-6), f"{what}: energies with G {full}, expected {want}")
        tol = 1e-6
    elif kind == "saddle pair":
        # one of two independent spins is in a saddle point
        physics = Physics(cell, [[0, 0, 0], [0.5, 0, 0]], [[0, S, 0], [0, 0, S]], [], {0: np.diag([1.0, 0.0, -1.0]), 1: np.diag([0.0, 0.0, -1.0])})
        calc = MagnonDispersion(make(physics, notation))
        for none in (False, True):
            ok = np.isnan if none else (lambda x: np.asarray(x) == 0)
            got = calc.omega(k, zeros_to_none=none)
            expect(np.shape(got) == (2,) and np.all(ok(got)), f"{what}: unstable state gives {got}, zeros_to_none={none}")
            full, G = calc.omega(k, zeros_to_none=none, return_G=True)
            expect(np.shape(full) == (4,) and np.shape(G) == (4, 4) and np.all(ok(full)), f"{what}: unstable state with G gives {full}, {G}")
            table = calc.omegas([k, [0.0, 0.0, 0.0], k], zeros_to_none=none)
            expect(np.shape(table) == (2, 3) and np.all(ok(table)), f"{what}: table of the unstable state {table}")
            for points in ([k], [[0, 0, 0]], np.array([k]), (tuple(k),)):
                for table in (calc.omegas(points, zeros_to_none=none), calc(points, zeros_to_none=none), calc(points, none)):
                    expect(np.shape(table) == (2, 1) and np.all(ok(table)), f"{what}: table of the unstable state {table} for {points}")
        for table in (calc.omegas([k, k]), calc([k, k]), calc(kpoints=[k, k], zeros_to_none=False)):
            expect(np.shape(table) == (2, 2) and np.all(table == 0), f"{what}: table of the unstable state {table}")
        STATS.state(what)
        return
    elif kind == "kpoints":
        from wulfric import Kpoints

        e = unit([0.3, -0.4, 0.8])
        physics = Physics(cell, [[0, 0, 0]], [S * e], [(0, 0, b, -J * np.eye(3)) for b in bonds], {0: -K * np.outer(e, e)})
        calc = MagnonDispersion(make(physics, notation))
        rcell = 2 * np.pi * np.linalg.inv(np.array(cell)).T
        points = Kpoints(*rcell, coordinates=[[0, 0, 0], axis, k], names=["G", "X", "Y"], labels=["G", "X", "Y"], path="G-X-Y", n=4)
        table = calc.omegas(points)
        absolute = points.points()
        expect(np.shape(table) == (1, len(absolute)), f"{what}: shape {np.shape(table)}")
        for p, value in zip(absolute, table[0]):
            want = 2 * S * (J * sum(1 - np.cos(p * a)) + K)
            expect(close(value, want, 1e-8), f"{what}: energy at {p} is {value}, expected {want}")
        STATS.state(what)
        return
    elif kind == "saddle":
        # easy plane state directed out of the plane for one term and inside for another one
        A = np.diag([1.0, 0.0, -1.0])
        physics = Physics(cell, [[0, 0, 0]], [[0, S, 0]], [], {0: A})
        ham = make(physics, notation)
        calc = MagnonDispersion(ham)
        got = calc.omega(k)
        expect(np.shape(got) == (1,) and got[0] == 0, f"{what}: unstable state gives {got}")
        got = calc.omega(k, zeros_to_none=True)
        expect(np.shape(got) == (1,) and np.isnan(got[0]), f"{what}: unstable state gives {got} instead of None")
        full, G = calc.omega(k, return_G=True)
        expect(np.shape(full) == (2,) and np.shape(G) == (2, 2) and np.all(full == 0), f"{what}: unstable state with G gives {full}, {G}")
        STATS.state(what)
        return
    ham = make(physics, notation)
    got = np.sort(MagnonDispersion(ham).omega(k))
    expect(close(got, np.sort(want), tol), f"{what}: energies {got}, expected {want}")
    STATS.state(np.round(got, 6).tolist())


def textbook_cases(tier):
    ks = [[0.0, 0.0, 0.0], [0.4, 0.0, 0.0], [-0.4, 0.0, 0.0], [0.3, -0.8, 0.55], [2.1, 0.0, 1.0]]
    axes = [[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [1, -2, 2]]
    for kind, notation, k, axis in itertools.product(
        ["ferro", "gapless", "maximum", "dmi", "antiferro", "antiferro gapless", "pair", "pair maximum", "saddle", "saddle pair", "kpoints"],
        NOTATIONS_ALL if tier == "thorough" else [NOTATIONS_ALL[i] for i in (0, 3, 6, 9, 13)],
        ks,
        axes,
    ):
        yield [kind, notation, k, axis]


SIZES = [[0.05, 0.3, 2.0], [0.01, 0.01, 0.02], [12.0, 0.5, 30.0], [1e-3, 3.5, 7.0], [1 / 2, 5 / 2, 7 / 2]]
INTEGERS = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, -2, 1], [3, 1, -1], [-1, -1, -1], [5, -7, 12]]


def lengths(case):
    """Spins of any length; wave vectors of integers given in all the ways; lists of several and of one point."""
    name, directions, sizes, scale = case
    cell, positions, bonds = BONDS[name]
    n = len(positions)
    spins = [sizes[i % 3] * unit(DIRECTIONS[(directions + i // 3) % len(DIRECTIONS)][i % 3]) for i in range(n)]
    # bonds between the vectors of unit length have the same strength for all sizes
    pairs = []
    for i, j, R, m in bonds:
        pairs.append((i, j, R, scale * np.array(MATRICES[m] if isinstance(m, int) else m) / sizes[i % 3] / sizes[j % 3]))
    physics = Physics(CELLS[cell], positions, spins, pairs, {})
    f = Physics(cell, positions, spins, pairs, {}).field()
    for i, s in enumerate(physics.spins):
        S = np.linalg.norm(s)
        e = s / S
        w = -(f[i] - e * (e @ f[i])) / (2 * S)
        physics.onsite[i] = -8.0 * scale / S**2 * np.outer(e, e) + np.outer(w, e) + np.outer(e, w)
    what = f"{case}"
    calc = MagnonDispersion(make(physics, [True, False, -1.0, -1.0]))
    energies = []
    for k in INTEGERS:
        w, form = physics.frequencies(np.array(k, dtype=float))
        want = positive(w)
        energies.append(want)
        top = np.abs(w).max()
        for given in (k, tuple(k), np.array(k), np.array(k, dtype=float), np.array(k, dtype=np.int8)):
            got = np.sort(calc.omega(given))
            expect(np.shape(got) == (n,) and close(got / top, want / top, 1e-6), f"{what}, k={given!r}: energies {got}, expected {want}")
            STATS.step()
        full = calc.omega(np.array(k), return_G=True)[0]
        minus = positive(physics.frequencies(-np.array(k, dtype=float))[0])
        expect(close(np.sort(full[n:]) / top, minus / top, 1e-6), f"{what}, k={k}: second half {full}, expected {minus}")
    for points in (INTEGERS, np.array(INTEGERS), tuple(map(tuple, INTEGERS)), INTEGERS[2:4], INTEGERS[2:3], np.array(INTEGERS)[4:5], np.array(INTEGERS)[::-2]):
        for table in (calc.omegas(points), calc(points), calc.omegas(points, zeros_to_none=True)):
            expect(np.shape(table) == (n, len(points)), f"{what}: shape {np.shape(table)} of the table for {points}")
            for column, k in zip(np.transpose(table), points):
                want = energies[INTEGERS.index([int(x) for x in k])]
                expect(close(np.sort(column) / want.max(), want / want.max(), 1e-6), f"{what}, k={k}: column {column}, expected {want}")
    STATS.state(np.round(np.array(energies) / np.max(energies), 6).tolist())


def length_cases(tier):
    for name, directions, sizes in itertools.product(BONDS, range(len(DIRECTIONS)) if tier == "thorough" else (0, 3), SIZES):
        for scale in [1.0] if tier == "quick" else [0.01, 1.0, 30.0]:
            yield [name, directions, sizes, scale]


# Calls of one calculator; wave vectors differ by a lot, by a little, by the sign and by a reciprocal vector
CALL_K = [[0.2, -0.35, 0.41], [0.2, -0.35, 0.4102], [-0.2, 0.35, -0.41], [1.2, -0.35, 0.41], [0.0, 0.0, 0.0], [0.6, 0.1, 0.3]]
CALLS = (
    [["omega", i] for i in range(len(CALL_K))]
    + [["h", i] for i in (0, 1, 2)]
    + [[f, i] for f in ("J", "A", "B") for i in (0, 5)]
    + [["G", 0], ["G", 5], ["table", 0], ["imaginary", 0], ["none", 5], ["C", 0]]
)
_FRESH = {}


def ask(calc, kind, k, ks):
    if kind == "G":
        return calc.omega(k, return_G=True)
    if kind == "imaginary":
        return (calc.omega(k, return_imaginary=True),)
    if kind == "none":
        return (calc.omega(k, zeros_to_none=True),)
    if kind == "table":
        return (calc.omegas(ks),)
    return (calc.C(),) if kind == "C" else (getattr(calc, kind)(k),)


def calls(case):
    """The answer is decided by the arguments of the call, not by the calls before it."""
    name, spoil, ops = case
    if name not in _FRESH:
        physics = generic(name, 3, 8.0)
        rcell = 2 * np.pi * np.linalg.inv(physics.cell).T
        ham = make(physics, [True, False, 1.0, 1.0])
        ks = [np.array(k) @ rcell for k in CALL_K]
        _FRESH[name] = (ham, ks, {str(op): ask(MagnonDispersion(ham), op[0], ks[op[1]], ks) for op in CALLS})
        for i, k in enumerate(ks):
            want = positive(physics.frequencies(k)[0])
            expect(close(np.sort(_FRESH[name][2][str(["omega", i])][0]), want, 1e-7), f"{case}: energies at {k}, expected {want}")
    ham, ks, fresh = _FRESH[name]
    calc = MagnonDispersion(ham)
    k = np.zeros(3)
    for op in ops:
        STATS.step()
        kind, i = op
        if spoil:
            # the same array with other content
            k[:] = ks[i]
        else:
            k = ks[i].copy()
        table = [x.copy() for x in ks]
        got = ask(calc, kind, k, table)
        for x, y in zip(got, fresh[str(op)]):
            expect(close(x, y, 1e-9), f"{case}: {kind} at {k.tolist()} is {x}, by a new calculator {y}")
            if spoil and kind != "C":
                # results belong to the caller
                x *= 0
                x += 7
    STATS.state(str(case))


def call_cases(tier):
    for name in ["dimer"] if tier == "quick" else ["dimer", "trio", "chain"]:
        for spoil, d in itertools.product([False, True], (1, 2, 3)):
            for ops in itertools.product(CALLS, repeat=d):
                yield [name, spoil, [list(x) for x in ops]]


SPACES = [
    Space("lengths", length_cases, lengths, "spins of very different lengths, wave vectors of integers, all forms of lists of wave vectors"),
    Space("calls", call_cases, calls, "histories of calls of one calculator, near and far wave vectors, the same array, results changed by the caller", chunk=200),
    Space("dynamics", cases, judge, "generic models x spin directions x notations x wave vectors against the linearized equations of motion"),
    Space("equivalent", equivalent_cases, equivalent, "reciprocal vectors, order of atoms, reversed bonds, nonmagnetic atoms, other images, rotations, doubled cells"),
    Space("textbook", textbook_cases, textbook, "closed formulas, gapless points, maxima and unstable states"),
]
ASSUMPTIONS = [
    "energies are compared where the state is a strict minimum (or maximum) of the energy; on-site terms are chosen so that every set of directions is such a state",
    "ordered state is the set of spin vectors of the atoms repeated in every unit cell",
]
