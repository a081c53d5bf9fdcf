"""Reference model of the parameter container: plain dictionaries, boring on purpose."""

import numpy as np

from mc.core import expect
from mc.models import MATRICES, ONSITES, canonical_bond, notation_or_none, raw, same_map

PREDEFINED = {
    "magnopy": (True, False, 0.5, 1.0),
    "tb2j": (True, True, -1.0, -1.0),
    "spinw": (True, False, 1.0, 1.0),
    "vampire": (True, True, -0.5, -1.0),
}


def mirror(key):
    a, b, r = key
    return (b, a, tuple(-x for x in r))


class Ref:
    def __init__(self, spec):
        self.atoms = [a[0] for a in spec["atoms"]]
        self.spin = {a[0]: float(np.linalg.norm(a[2])) for a in spec["atoms"]}
        self.exchange = {}
        self.on_site = {}
        self.dc = self.sn = self.ef = self.of = None
        notation = spec.get("notation")
        late = spec.get("late_notation")
        if notation is not None and not late:
            self.set_notation(notation)
        for i, j, ijk, m in spec.get("bonds", []):
            self.add(
                (self.atoms[i], self.atoms[j], tuple(ijk)),
                MATRICES[m] if isinstance(m, int) else m,
            )
        for i, m in spec.get("onsite", []):
            self.on_site[self.atoms[i]] = np.array(ONSITES[m] if isinstance(m, int) else m)
        if notation is not None and late:
            self.set_notation(notation)

    # ---------------------------------------------------------------- parameters
    def add(self, key, matrix):
        matrix = np.array(matrix, dtype=float)
        self.exchange[key] = matrix
        if self.dc and mirror(key) != key:
            self.exchange[mirror(key)] = matrix.T.copy()

    def remove(self, key):
        del self.exchange[key]
        if self.dc:
            self.exchange.pop(mirror(key), None)

    def remove_atom(self, name):
        self.exchange = {k: v for k, v in self.exchange.items() if name not in k[:2]}
        self.on_site.pop(name, None)
        self.atoms.remove(name)

    # ------------------------------------------------------------------ notation
    def set_dc(self, value):
        old, self.dc = self.dc, bool(value)
        if old is not None and old != self.dc:
            factor = 2.0 if old else 0.5
            self.exchange = {k: factor * v for k, v in self.exchange.items()}
        if self.dc:
            for key, v in list(self.exchange.items()):
                if mirror(key) not in self.exchange:
                    self.exchange[mirror(key)] = v.T.copy()
        else:
            kept = {}
            for key, v in self.exchange.items():
                if mirror(key) not in kept or mirror(key) == key:
                    kept[key] = v
            self.exchange = kept

    def set_sn(self, value):
        value = bool(value)
        if self.sn is not None and self.sn != value:
            p = 1 if value else -1
            for k in self.exchange:
                self.exchange[k] = self.exchange[k] * (self.spin[k[0]] * self.spin[k[1]]) ** p
            for a in self.on_site:
                self.on_site[a] = self.on_site[a] * self.spin[a] ** (2 * p)
        self.sn = value

    def set_ef(self, value):
        if self.ef is not None:
            for k in self.exchange:
                self.exchange[k] = self.exchange[k] * self.ef / value
        self.ef = float(value)

    def set_of(self, value):
        if self.of is not None:
            for a in self.on_site:
                self.on_site[a] = self.on_site[a] * self.of / value
        self.of = float(value)

    def set_notation(self, notation):
        if isinstance(notation, str):
            notation = PREDEFINED[notation.lower()]
        notation = list(notation)
        if len(notation) == 3:
            notation.append(notation[2])
        self.set_dc(notation[0])
        self.set_sn(notation[1])
        self.set_ef(notation[2])
        self.set_of(notation[3])

    def notation(self):
        return [self.dc, self.sn, self.ef, self.of]

    # ---------------------------------------------------------------- comparison
    def view(self, exchange, atoms):
        """With no double counting the orientation of a bond carries no meaning."""
        if self.dc is not False:
            return exchange
        order = {n: i for i, n in enumerate(atoms)}
        out = {}
        for key, v in exchange.items():
            k, reverse = canonical_bond(*key, order)
            expect(k not in out, f"both orientations of {k} are kept without double counting")
            out[k] = v.T if reverse else v
        return out

    def compare(self, ham, what):
        names = [a.name for a in ham.atoms]
        expect(names == self.atoms, f"{what}: atoms {names}, expected {self.atoms}")
        expect(
            notation_or_none(ham) == self.notation(),
            f"{what}: notation {notation_or_none(ham)}, expected {self.notation()}",
        )
        exchange, on_site = raw(ham)
        same_map(
            self.view(exchange, self.atoms),
            self.view(self.exchange, self.atoms),
            f"{what}: exchange",
        )
        same_map(on_site, self.on_site, f"{what}: on-site")
