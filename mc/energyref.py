"""Reference energies: spins are written out one by one and inserted into the Hamiltonian."""

import itertools

import numpy as np

from mc.models import physics

MU_B = 9.2740100783e-24 / (1e-3 * 1.602176634e-19)  # meV / Tesla


def unit(v):
    v = np.array(v, dtype=float)
    return v / np.sqrt(v @ v)


def rotate(axis, angle, v):
    """Rodrigues rotation, right-handed."""
    n = unit(axis)
    v = np.array(v, dtype=float)
    return v * np.cos(angle) + np.cross(n, v) * np.sin(angle) + n * (n @ v) * (1 - np.cos(angle))


class Model:
    """Physical content of the Hamiltonian, independent of its notation."""

    def __init__(self, ham):
        self.K, self.A = physics(ham)
        self.names = [a.name for a in ham.magnetic_atoms]
        self.S = {a.name: float(np.linalg.norm(a.spin_vector)) for a in ham.magnetic_atoms}
        self.g = {a.name: float(a.g_factor) for a in ham.magnetic_atoms}
        self.cell = np.array(ham.cell, dtype=float)
        self.rcell = 2 * np.pi * np.linalg.inv(self.cell).T

    def average(self, texture, cells, field=None, S=None, g=None):
        """texture(name, R) -> unit vector; the average over the listed cells."""
        S = self.S if S is None else S
        g = self.g if g is None else g
        total = 0.0
        for R in cells:
            R = np.array(R)
            for (a, b, ijk), K in self.K.items():
                total += S[a] * S[b] * texture(a, R) @ K @ texture(b, R + np.array(ijk))
            for a, A in self.A.items():
                total += S[a] ** 2 * texture(a, R) @ A @ texture(a, R)
            if field is not None:
                for a in self.names:
                    total += MU_B * g[a] * S[a] * np.array(field) @ texture(a, R)
        return total / len(cells)

    def ferro(self, directions, **kwargs):
        e = {n: unit(v) for n, v in zip(self.names, directions)}
        return self.average(lambda a, R: e[a], [(0, 0, 0)], **kwargs)

    def supercell(self, directions, axis, q_rel, size, **kwargs):
        """Spins of the cell R are rotated by 2 pi q.R around the axis."""
        e = {n: unit(v) for n, v in zip(self.names, directions)}
        cells = list(itertools.product(*[range(n) for n in size]))
        cache = {}

        def texture(a, R):
            key = (a, tuple(R))
            if key not in cache:
                cache[key] = rotate(axis, 2 * np.pi * (np.array(q_rel) @ R), e[a])
            return cache[key]

        return self.average(texture, cells, **kwargs)

    def phase_average(self, directions, axis, q_abs, field=None, S=None, g=None, points=7):
        """Incommensurate spiral: the phase of a cell takes all the values uniformly;
        the energy has harmonics up to the second, so seven points are exact."""
        e = {n: unit(v) for n, v in zip(self.names, directions)}
        total = 0.0
        for phi in 2 * np.pi * np.arange(points) / points:

            def texture(a, R):
                return rotate(axis, phi + np.array(q_abs) @ (R @ self.cell), e[a])

            total += self.average(texture, [(0, 0, 0)], field=field, S=S, g=g)
        return total / points
