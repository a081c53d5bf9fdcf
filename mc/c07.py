"""C07: energy minimization from every starting point of a grid."""

import contextlib
import io
import itertools
import os

import numpy as np

from mc.core import STATS, Space, expect
from mc.energyref import Model, unit
from mc.models import CELLS, SpinHamiltonian, close, same_snapshot, snapshot

from magnopy import Energy  # noqa: E402

MODELS = {
    "single": {
        "atoms": [["A", [0, 0, 0], 1.5]],
        "bonds": [["A", "A", (1, 0, 0), {"iso": -1.0}]],
        "onsite": [["A", [[0.2, 0.05, 0.0], [0.05, 0.1, 0.0], [0.0, 0.0, -0.3]]]],
    },
    "ferro": {
        "atoms": [["A", [0, 0, 0], 1.5], ["B", [0.5, 0.5, 0.5], 1.0]],
        "bonds": [["A", "B", (0, 0, 0), {"iso": -1.0}], ["A", "B", (-1, 0, 0), {"iso": -0.5}]],
        "onsite": [["A", [[0.2, 0, 0], [0, 0.1, 0], [0, 0, -0.3]]]],
    },
    "antiferro": {
        "atoms": [["A", [0, 0, 0], 1.5], ["B", [0.5, 0.5, 0.5], 1.0]],
        "bonds": [
            ["A", "B", (0, 0, 0), {"iso": 1.0}],
            ["A", "B", (-1, 0, 0), {"iso": 0.5, "dmi": [0, 0.1, 0.2]}],
        ],
        "onsite": [["A", [[0.2, 0, 0], [0, 0.1, 0], [0, 0, -0.3]]], ["B", [[0.2, 0, 0], [0, 0.1, 0.05], [0, 0.05, -0.1]]]],
    },
    "spiral": {
        "atoms": [["A", [0, 0, 0], 1.0]],
        "bonds": [["A", "A", (1, 0, 0), {"iso": -1.0, "dmi": [0, 0, 0.6]}], ["A", "A", (0, 1, 0), {"iso": -0.7}]],
        "onsite": [["A", [[0.0, 0, 0], [0, 0.0, 0], [0, 0, 0.1]]]],
    },
    # two spins that do not interact: the gradient of one of them may be exactly zero
    "apart": {
        "atoms": [["A", [0, 0, 0], 1.5], ["B", [0.5, 0.5, 0.5], 1.0]],
        "bonds": [["A", "A", (1, 0, 0), {"iso": -1.0}]],
        "onsite": [["A", [[0.2, 0, 0], [0, 0.1, 0], [0, 0, -0.3]]], ["B", [[-0.4, 0, 0], [0, 0.1, 0], [0, 0, 0.3]]]],
    },
    # three different spins, frustrated
    "trio": {
        "atoms": [["A", [0, 0, 0], 1.5], ["B", [0.5, 0.5, 0.5], 1.0], ["C", [0.2, 0.7, 0.4], 0.5]],
        "bonds": [
            ["A", "B", (0, 0, 0), {"iso": 1.0}],
            ["B", "C", (0, 1, 0), {"iso": 0.8, "dmi": [0.1, 0, 0.3]}],
            ["C", "A", (1, 0, 0), {"iso": 1.2}],
        ],
        "onsite": [["A", [[0.2, 0, 0], [0, 0.1, 0], [0, 0, -0.3]]], ["C", [[0.1, 0, 0.05], [0, -0.4, 0], [0.05, 0, 0.3]]]],
    },
}
DIRECTIONS = [
    [0.6, 0.0, 0.8],
    [-1.0, 2.0, 2.0],
    [0.1, 0.7, -0.3],
    [1.0, 0.2, 0.1],
    [0.0, 0.0, 1.0],
    [-2.0, 0.0, 0.0],
]
AXES = [[0.2, 0.1, 1.0], [1.0, -0.5, 0.3]]
FIELDS = [None, [1.0, 2.0, -3.0]]
Q = {"antiferro": [0.5, 0.0, 0.0], "spiral": [0.1, 0.05, 0.0]}
TORQUE = 1e-4  # default tolerance is 1e-5 and is judged one step before the last one


def make(name, scale=1.0):
    spec = MODELS[name]
    ham = SpinHamiltonian(cell=CELLS["tricl"])
    if len(spec["atoms"]) > 1:
        # without interactions, hence not a part of the state
        ham.add_atom(name="X", position=[0.3, 0.1, 0.8], spin=[0, 0, 2.0], g_factor=1.5)
    for n, pos, s in spec["atoms"]:
        ham.add_atom(name=n, position=pos, spin=[0, 0, s], g_factor=2.0)
    ham.notation = (True, False, 0.5, 1.0)
    for a, b, r, kw in spec["bonds"]:
        kw = {k: (np.array(v) * scale if k == "dmi" else v * scale) for k, v in kw.items()}
        ham.add_exchange(a, b, r, **kw)
    for a, m in spec["onsite"]:
        ham.add_on_site(a, matrix=np.array(m) * scale)
    return ham


def run(energy, kind, so, axis, q, **kwargs):
    so = np.array(so, dtype=float)
    if kind == "ferro":
        out = energy.optimize("ferro", initial_guess=so, **kwargs)
    elif kind == "antiferro":
        out = energy.optimize("antiferro", initial_guess=(so, np.array(axis)), antiferro_q=q, **kwargs)
    else:
        out = energy.optimize("spiral", initial_guess=(so, np.array(axis), np.array(q)), **kwargs)
    if kind == "ferro":
        expect(len(out) == 1, f"{len(out)} values are returned")
        return np.array(out[0]), None, None
    expect(len(out) == 3, f"{len(out)} values are returned")
    return tuple(np.array(x) for x in out)


def evaluate(model, kind, so, axis, q, field):
    if kind == "ferro":
        return model.ferro(so, field=field)
    if kind == "spiral":
        return model.phase_average(so, axis, q, field=field, points=5)
    q_rel = np.array(q) @ np.linalg.inv(model.rcell)
    q_rel = np.round(2 * q_rel) / 2
    size = [2 if x % 1 else 1 for x in q_rel]
    return model.supercell(so, axis, q_rel, size, field=field)


def torque(model, kind, so, axis, q, field):
    """The largest |n x dE/dn| over the spins and the cone axis, from the reference."""
    return max(torques(model, kind, so, axis, q, field))


def torques(model, kind, so, axis, q, field):
    """|n x dE/dn| of each spin and of the cone axis."""
    vectors = [np.array(v, dtype=float) for v in so] + ([] if axis is None else [np.array(axis, dtype=float)])
    result = []
    h = 1e-5
    for i, v in enumerate(vectors):
        gradient = np.zeros(3)
        for c in range(3):
            values = []
            for sign in (1, -1):
                moved = [x.copy() for x in vectors]
                moved[i][c] += sign * h
                if axis is None:
                    values.append(evaluate(model, kind, moved, None, None, field))
                else:
                    values.append(evaluate(model, kind, moved[:-1], moved[-1], q, field))
            gradient[c] = (values[0] - values[1]) / (2 * h)
        result.append(float(np.linalg.norm(np.cross(v, gradient))))
    return result


def is_unit(out, n, what):
    so, axis, q = out
    expect(so.shape == (n, 3), f"{what}: shape of the directions {so.shape}")
    expect(np.all(np.isfinite(so)), f"{what}: directions {so.tolist()}")
    expect(close(np.linalg.norm(so, axis=1), np.ones(n), 1e-8), f"{what}: directions are not unit: {so.tolist()}")
    if axis is not None:
        expect(axis.shape == (3,) and close(np.linalg.norm(axis), 1.0, 1e-8), f"{what}: axis {axis.tolist()}")
        expect(q.shape == (3,) and np.all(np.isfinite(q)), f"{what}: vector {q.tolist()}")


def setup(name, scale, field):
    ham = make(name, scale)
    model, energy = Model(ham), Energy(ham)
    energy.magnetic_field = field
    return ham, model, energy


def judge(case):
    name, kind, scale, field, so, axis = case
    ham, model, energy = setup(name, scale, field)
    before = snapshot(ham)
    n = len(model.names)
    q = None if kind == "ferro" else np.array(Q[kind]) @ model.rcell
    what = f"{kind} minimization of {name} x {scale}, field {field}, from {so}, axis {axis}"
    start = evaluate(model, kind, so, axis, q, field)
    out = run(energy, kind, so, axis, q)
    STATS.step()
    is_unit(out, n, what)
    end = evaluate(model, kind, *out, field)
    expect(end <= start + 1e-9 * max(1, abs(start)), f"{what}: energy went from {start} to {end}")
    if kind == "antiferro":
        expect(close(out[2], q), f"{what}: fixed vector {q} is returned as {out[2]}")
    t = torque(model, kind, *out, field)
    expect(t <= TORQUE * max(1.0, scale), f"{what}: converged, but the torque is {t}, directions {out[0].tolist()}")
    STATS.state((name, kind, round(end, 5)))
    STATS.outcome("moved" if end < start - 1e-6 else "stayed")
    same_snapshot(snapshot(ham), before, f"{what}: the Hamiltonian", tol=0)
    expect(close(energy.spins, [model.S[x] for x in model.names]), f"{what}: spins of the calculator")
    # the same calculator once more, at once or after other calculations
    label = "second run"
    if field is not None:
        label = "after another run"
        energy.ferro(np.array(so) * 2.0)
        energy.optimize("ferro", initial_guess=-np.array(so), max_iterations=2)
    for x, y in zip(run(energy, kind, so, axis, q), out):
        if y is not None:
            expect(close(x, y, 1e-6), f"{what}: {label} gives {x.tolist()} instead of {y.tolist()}")


def starts(name):
    n = len(MODELS[name]["atoms"])
    return list(itertools.product(DIRECTIONS, repeat=n))[:: 1 if n < 3 else 31]


def cases(tier):
    for name in MODELS:
        for kind in ("ferro", "antiferro", "spiral"):
            axes = [None] if kind == "ferro" else AXES
            scales = [1.0] if tier == "quick" and (kind != "ferro" or name in ("trio", "apart")) else [1.0, 0.03, 20.0]
            for scale, field, axis, so in itertools.product(scales, FIELDS, axes, starts(name)):
                if tier == "quick" and kind != "ferro" and len(so) == 2:
                    if field is None or so[0] == so[1] or axis != AXES[DIRECTIONS.index(so[0]) % 2]:
                        continue
                yield [name, kind, scale, field, list(so), axis]
    # gradients of some of the vectors are exactly zero
    for name, kind, field in itertools.product(("apart", "antiferro"), ("ferro", "antiferro", "spiral"), (None, [0.0, 0.0, 5.0])):
        for pair in itertools.permutations([[0.0, 0.0, 1.0], [0.6, 0.0, 0.8], [-1.0, 0.0, 0.0], [0.1, 0.7, -0.3]], 2):
            yield [name, kind, 1.0, field, list(pair), None if kind == "ferro" else [0.0, 0.0, 1.0]]


def truncated(case):
    """Every number of iterations gives a unit state of not higher energy than fewer."""
    name, kind, field, so, axis = case
    ham, model, energy = setup(name, 1.0, field)
    n = len(model.names)
    q = None if kind == "ferro" else np.array(Q[kind]) @ model.rcell
    previous = evaluate(model, kind, so, axis, q, field)
    for steps in range(0, 7):
        out = run(energy, kind, so, axis, q, max_iterations=steps)
        STATS.step()
        what = f"{kind} of {name}, {steps} iterations from {so}, axis {axis}"
        is_unit(out, n, what)
        value = evaluate(model, kind, *out, field)
        STATS.state((name, kind, round(value, 6)))
        expect(value <= previous + 1e-9 * max(1, abs(previous)), f"{what}: energy {previous} -> {value}")
        if steps == 0:
            expect(close(out[0], [unit(v) for v in so], 1e-8), f"{what}: directions {out[0].tolist()}")
            if axis is not None:
                expect(close(out[1], unit(axis), 1e-8) and close(out[2], q, 1e-8), f"{what}: axis or vector")
        previous = value


def truncated_cases(tier):
    for name in MODELS:
        for kind in ("ferro", "antiferro", "spiral"):
            for field, so in itertools.product(FIELDS, starts(name)):
                if tier == "quick" and name == "apart":
                    continue
                axes = [None] if kind == "ferro" else AXES
                if tier == "quick":
                    axes = axes[:1]
                    if len(so) == 2 and (so[0] == so[1] or field is None):
                        continue
                for axis in axes:
                    yield [name, kind, field, list(so), axis]


def tolerances(case):
    """Each element of the tolerance is respected."""
    name, kind, tolerance, so, axis = case
    field = FIELDS[1]
    ham, model, energy = setup(name, 1.0, field)
    n = len(model.names)
    q = None if kind == "ferro" else np.array(Q[kind]) @ model.rcell
    what = f"{kind} of {name} with tolerance {tolerance} from {so}, axis {axis}"
    final = run(energy, kind, so, axis, q, tolerance=tuple(tolerance))
    is_unit(final, n, what)
    # the number of iterations is not told: runs with a limited number of them, by bisection
    def limited(steps):
        STATS.step()
        out = run(energy, kind, so, axis, q, tolerance=tuple(tolerance), max_iterations=steps)
        return out, all(y is None or np.array_equal(x, y) for x, y in zip(out, final))

    low, high = 0, 8
    while not limited(high)[1]:
        low, high = high, 2 * high
        expect(high < 5000, f"{what}: limited runs never come to the result of the unlimited one")
    while high - low > 1:
        middle = (low + high) // 2
        low, high = (low, middle) if limited(middle)[1] else (middle, high)
    previous = limited(low)[0]
    a, b = (evaluate(model, kind, *x, field) for x in (previous, final))
    expect(abs(a - b) <= tolerance[0] * (1 + 1e-6) + 1e-9, f"{what}: the last step changes the energy by {abs(a - b)}")
    # torques are judged before the last step; after it would be as good
    small = []
    for state in (previous, final):
        t = torques(model, kind, *state, field)
        limits = [tolerance[1]] * n + list(tolerance[2:])
        small.append((all(x <= y * 1.001 + 1e-8 for x, y in zip(t, limits)), t))
    expect(small[0][0] or small[1][0], f"{what}: torques of the last two states {small[0][1]} and {small[1][1]}")
    STATS.state((name, kind, str(tolerance), round(b, 6)))
    STATS.outcome("few steps" if high < 8 else "many steps")


def tolerance_cases(tier):
    for name in MODELS:
        for kind in ("ferro", "antiferro", "spiral"):
            loose = 50.0
            limits = [[a, b] for a, b in itertools.product([1e-1, 1e-3, 1e-6, loose], repeat=2)]
            if kind != "ferro":
                limits = [[loose, loose, 1e-3], [loose, 1e-3, loose], [1e-4, loose, loose], [loose, 1e-5, 1e-1], [loose, 1e-1, 1e-5], [1e-2, 1e-2, 1e-2]]
            elif len(MODELS[name]["atoms"]) > 1:
                limits += [[loose, round(10 ** (-n / 4), 6)] for n in range(1, 17, 1 if tier == "thorough" else 3)]
            every = starts(name)
            if tier == "quick":
                every = every[::3] if len(every) < 10 else every[1::5] if kind == "ferro" else every[1::7]
                every = every[:1] if name in ("trio", "apart") else every
            for tolerance, so in itertools.product(limits, every):
                yield [name, kind, tolerance, list(so), None if kind == "ferro" else AXES[len(every) % 2]]


def settings(case):
    """Settings of the algorithm: the result stays a stationary state."""
    name, kind, c1, c2, m, so = case
    ham, model, energy = setup(name, 1.0, FIELDS[1])
    energy.wolfe_c1, energy.wolfe_c2, energy.m = c1, c2, m
    expect((energy.wolfe_c1, energy.wolfe_c2, energy.m) == (c1, c2, m), "settings are not stored")
    q = None if kind == "ferro" else np.array(Q[kind]) @ model.rcell
    axis = None if kind == "ferro" else AXES[0]
    what = f"{kind} of {name} from {so} with c1={c1}, c2={c2}, m={m}"
    start = evaluate(model, kind, so, axis, q, FIELDS[1])
    out = run(energy, kind, so, axis, q)
    STATS.step()
    is_unit(out, len(model.names), what)
    end = evaluate(model, kind, *out, FIELDS[1])
    expect(end <= start + 1e-9 * max(1, abs(start)), f"{what}: energy went from {start} to {end}")
    t = torque(model, kind, *out, FIELDS[1])
    expect(t <= TORQUE, f"{what}: converged, but the torque is {t}")
    STATS.state((name, kind, c1, c2, m, round(end, 5)))


def settings_cases(tier):
    for name, c1, c2, m in itertools.product(["single", "ferro", "antiferro", "trio"], [1e-4, 0.01, 0.3], [0.5, 0.9], [1, 3, 10]):
        for kind in ("ferro",) if tier == "quick" else ("ferro", "spiral"):
            for so in starts(name)[:: 5 if tier == "quick" else 2]:
                yield [name, kind, c1, c2, m, list(so)]


def forms(case):
    """Names and numbers of the cases, forms of the guess, history file, wrong input."""
    what = case[0]
    STATS.step()
    STATS.state(str(case))
    if what == "aliases":
        name, pair = case[1], case[2]
        ham, model, energy = setup(name, 1.0, None)
        so = np.array(starts(name)[2])
        q = np.array(Q["antiferro"]) @ model.rcell
        guess = {0: so, 1: (so, AXES[0]), 2: (so, AXES[0], q)}[pair[0]]
        a = energy.optimize(pair[0], initial_guess=guess, antiferro_q=q, max_iterations=4)
        b = energy.optimize(pair[1], initial_guess=guess, antiferro_q=q, max_iterations=4)
        for x, y in zip(a, b):
            expect(close(x, y, 1e-9), f"case {pair[0]} and {pair[1]} differ: {x} and {y}")
    elif what == "vector":
        ham, model, energy = setup("single", 1.0, FIELDS[1])
        a = energy.optimize("ferro", initial_guess=case[1])
        b = energy.optimize("ferro", initial_guess=[case[1]])
        expect(close(a[0], b[0], 1e-9), f"one spin as a vector and as a list: {a} and {b}")
    elif what == "random":
        name, kind, seed = case[1:]
        np.random.seed(seed)
        ham, model, energy = setup(name, 1.0, FIELDS[1])
        q = np.array(Q["antiferro"]) @ model.rcell
        out = energy.optimize(kind, antiferro_q=q)
        out = (np.array(out[0]), None, None) if kind == "ferro" else tuple(np.array(x) for x in out)
        is_unit(out, len(model.names), f"{case}")
        t = torque(model, kind, *out, FIELDS[1])
        expect(t <= TORQUE, f"{case}: torque {t}")
    elif what == "history":
        history(case)
    elif what == "wrong":
        name, label = case[1:]
        ham, model, energy = setup(name, 1.0, None)
        n = len(model.names)
        so = [DIRECTIONS[0]] * n
        q = [0.1, 0.0, 0.0]
        args = {
            "case": ("magic", so, {}),
            "number": (7, so, {}),
            "tolerance ferro": ("ferro", so, {"tolerance": (1e-5, 1e-5, 1e-5)}),
            "tolerance spiral": ("spiral", (so, AXES[0], q), {"tolerance": (1e-5, 1e-5)}),
            "tolerance antiferro": ("antiferro", (so, AXES[0]), {"tolerance": (1e-5,), "antiferro_q": q}),
            "many spins": ("ferro", [DIRECTIONS[0]] * (n + 1), {}),
            "components": ("ferro", [[1.0, 0.0]] * n, {}),
            "elements antiferro": ("antiferro", (so, AXES[0], q), {"antiferro_q": q}),
            "elements spiral": ("spiral", (so, AXES[0]), {}),
            "axis": ("spiral", (so, [1.0, 0.0], q), {}),
            "vector": ("spiral", (so, AXES[0], [1.0, 0.0]), {}),
            "antiferro vector": ("antiferro", (so, AXES[0]), {"antiferro_q": [1.0]}),
        }[label]
        try:
            energy.optimize(args[0], initial_guess=args[1], max_iterations=1, **args[2])
        except (ValueError, TypeError):
            STATS.outcome("rejected")
        else:
            expect(False, f"{label} is accepted")


def history(case):
    """The saved history: the start and every step in order, each with its energy, in every run."""
    name, kind, step, limit = case[1:]
    ham, model, energy = setup(name, 1.0, FIELDS[1])
    n = len(model.names)
    so, axis = starts(name)[1], None if kind == "ferro" else AXES[0]
    q = None if kind == "ferro" else np.array(Q[kind]) @ model.rcell
    path = os.path.join(os.environ.get("MC_SCRATCH", "."), f"history-{os.getpid()}.txt")
    if os.path.exists(path):
        os.remove(path)
    plain = run(energy, kind, so, axis, q, max_iterations=limit)
    columns = 2 + 3 * n if kind == "ferro" else 9 + 3 * n
    runs = []
    printed = io.StringIO()
    # twice into one file, then to the standard output
    for filename in (path, path, None):
        STATS.step()
        with contextlib.redirect_stdout(printed):
            out = run(energy, kind, so, axis, q, save_history=True, history_filename=filename, history_step=step, max_iterations=limit)
        for x, y in zip(out, plain):
            if y is not None:
                expect(close(x, y, 1e-9), f"{case}: history changes the result")
    with open(path) as f:
        lines = [x.split() for x in (f.read() + "\n" + printed.getvalue()).split("\n") if x.strip()]
    os.remove(path)
    for words in lines:
        expect(len(words) == columns, f"{case}: line of {len(words)} columns instead of {columns}: {words}")
        if words[0] == "Energy":
            runs.append([])
        else:
            expect(bool(runs), f"{case}: no header before {words}")
            runs[-1].append([float(x) for x in words])
    expect(len(runs) == 3, f"{case}: headers of {len(runs)} runs instead of 3")
    expect(runs[0] == runs[1] == runs[2], f"{case}: histories of the runs differ")
    skip = 2 if kind == "ferro" else 3
    values = [x[0] for x in runs[0]]
    states = []
    for x in runs[0]:
        vectors = np.array(x[skip : skip + 3 * n + (0 if kind == "ferro" else 3)]).reshape(-1, 3)
        states.append((vectors, None, None) if kind == "ferro" else (vectors[:-1], vectors[-1], np.array(x[-3:])))
    first = evaluate(model, kind, so, axis, q, FIELDS[1])
    expect(close(values[0], first, 1e-6), f"{case}: history from {values[0]}, expected {first}")
    for value, state in zip(values, states):
        want = evaluate(model, kind, *state, FIELDS[1])
        expect(close(value, want, 1e-6), f"{case}: energy {value} of the state {state}, expected {want}")
    expect(all(b <= a + 1e-6 for a, b in zip(values, values[1:])), f"{case}: energies {values}")
    for x, y in zip(states[-1], out):
        if y is not None:
            expect(close(x, y, 1e-6), f"{case}: the last line {runs[0][-1]} is not the result {out}")
    # torques of each line are the ones of the state before it
    for before, line in zip(states, runs[0][1:]):
        t = torques(model, kind, *before, FIELDS[1])
        want = [max(t)] if kind == "ferro" else [max(t[:-1]), t[-1]]
        expect(all(abs(a - b) <= 1e-5 * max(1, abs(b)) for a, b in zip(line[1:], want)), f"{case}: torques {line[1:skip]}, expected {want}")
    # every number of iterations gives one line
    if limit is not None:
        expect(len(values) <= limit + 1, f"{case}: {len(values)} lines")
    key = (name, kind, limit)
    if key not in _LINES:
        count = 0
        while True:
            now = run(energy, kind, so, axis, q, max_iterations=count)
            if limit is not None and count == limit or all(y is None or np.array_equal(x, y) for x, y in zip(now, plain)):
                break
            count += 1
            expect(count < 500, f"{case}: limited runs never come to the result")
        _LINES[key] = count + 1
    expect(len(values) == _LINES[key] or (limit is None and len(values) - _LINES[key] in (0, 1)), f"{case}: {len(values)} lines instead of {_LINES[key]}")


_LINES = {}


def forms_cases(tier):
    for name in MODELS:
        for pair in ((0, "ferro"), (1, "antiferro"), (2, "spiral")):
            yield ["aliases", name, list(pair)]
        for kind in ("ferro", "antiferro", "spiral"):
            for seed in range(2 if tier == "quick" else 8):
                yield ["random", name, kind, seed]
            for step, limit in itertools.product((1, 2, 3, 1000), (None, 0, 1, 4)):
                if tier == "quick" and (name != "antiferro" and step in (1, 3) or name in ("trio", "apart") and limit in (1, 4)):
                    continue
                yield ["history", name, kind, step, limit]
        for label in (
            "case",
            "number",
            "tolerance ferro",
            "tolerance spiral",
            "tolerance antiferro",
            "many spins",
            "components",
            "elements antiferro",
            "elements spiral",
            "axis",
            "vector",
            "antiferro vector",
        ):
            yield ["wrong", name, label]
    for v in DIRECTIONS:
        yield ["vector", v]


SPACES = [
    Space("starts", cases, judge, "all starting directions of the grid, to convergence; energy and torque from the reference; repeated runs", chunk=4, limit_s=300),
    Space("truncated", truncated_cases, truncated, "0 to 6 iterations from each start: energy never goes up", chunk=2, limit_s=300),
    Space("tolerances", tolerance_cases, tolerances, "each element of the tolerance alone; the last two states of the run are judged", chunk=4, limit_s=300),
    Space("settings", settings_cases, settings, "Wolfe parameters and memory of the algorithm", chunk=2, limit_s=300),
    Space("forms", forms_cases, forms, "forms of the input, history file, wrong input", chunk=1, limit_s=300),
]
ASSUMPTIONS = [
    "default tolerances 1e-5; the torque of the returned state is accepted up to 1e-4 meV, because the code judges it before the last step",
    "runs without an initial guess use the seeded global generator of numpy",
]
