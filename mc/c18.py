"""C18: command line scripts and the general loader."""

import contextlib
import io
import itertools
import os
import re
import shutil
import sys

import numpy as np

from mc import c16
from mc.c07 import MODELS
from mc.c07 import make as make_energy_model
from mc.c09 import Physics, positive
from mc.c09 import make as make_magnon_model
from mc.core import STATS, Space, expect, scratch
from mc.energyref import Model
from mc.models import CELLS, MATRICES, NOTATIONS_ALL, SpinHamiltonian, close, physics, raw, same_map, snapshot

import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from magnopy.io import (  # noqa: E402
    dump_spinham_hdf5,
    dump_spinham_txt,
    load_spinham,
    load_spinham_hdf5,
    load_spinham_txt,
    load_tb2j,
)
from magnopy.score import convert_tb2j, magnon_dispersion, minimize_energy  # noqa: E402


@contextlib.contextmanager
def clean_folder():
    folder = scratch("run")
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    cwd = os.getcwd()
    os.chdir(folder)
    try:
        yield folder
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder, ignore_errors=True)


def files_of(folder):
    out = {}
    for root, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(root, name)
            with open(path, "rb") as f:
                out[os.path.relpath(path, folder)] = f.read()
    return out


PICTURES = []


def take_picture(figure):
    """Curves and labels of a figure."""
    axes = figure.axes
    PICTURES.append(
        {
            "curves": [np.array(line.get_xydata()) for ax in axes for line in ax.get_lines()],
            "labels": [label.get_text() for ax in axes for label in ax.get_xticklabels()],
            "ticks": [float(x) for ax in axes for x in ax.get_xticks()],
            "limits": [list(ax.get_xlim()) for ax in axes],
        }
    )


def call(module, arguments, what):
    """Run the script as from the command line."""
    argv, out = sys.argv, io.StringIO()
    sys.argv = ["script"] + [str(x) for x in arguments]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            module.main()
    except SystemExit as e:
        expect(False, f"{what}: exit with {e.code}: {out.getvalue()[-300:]}")
    finally:
        sys.argv = argv
        for number in plt.get_fignums():
            take_picture(plt.figure(number))
        plt.close("all")
    STATS.step()
    return out.getvalue()


# ------------------------------------------------------------------ TB2J conversion
TB2J_BONDS = [[0, 1, [1, 0, -1], ["iso", "dmi", "ani"], 0], [1, 1, [0, 1, 0], ["iso"], 1], [0, 0, [0, 0, 2], ["iso", "ani"], 2]]


def tb2j_file(path, wrong=False):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    text = c16.text_of(c16.make(["Cr1", "I2"], TB2J_BONDS, wrong_distance=wrong), c16.STYLE)
    with open(path, "w") as f:
        f.write(text)


def expected_output(output, format):
    """-> (name of the file, format) by the documentation of the script."""
    output = "spinham.txt" if output is None else output
    if format is None:
        format = "hdf5" if output.endswith(".hdf5") else "txt"
    if format == "hdf5":
        if output.endswith(".txt"):
            output = output[:-4]
        if not output.endswith(".hdf5"):
            output += ".hdf5"
    return output, format


def same_ham(got, want, what, tol):
    expect(close(got.cell, want.cell, tol), f"{what}: cell")
    expect([a.name for a in got.atoms] == [a.name for a in want.atoms], f"{what}: atoms")
    for a, b in zip(got.atoms, want.atoms):
        expect(close(a.position, b.position, tol) and close(a.spin_vector, b.spin_vector, tol), f"{what}: atom {a.name}")
    K1, A1 = physics(got)
    K2, A2 = physics(want)
    same_map(K1, K2, f"{what}: exchange", tol)
    same_map(A1, A2, f"{what}: on-site", tol)


def judge_convert(case):
    inp, output, format, verbose, long, existing = case
    with clean_folder() as folder:
        if output and os.path.dirname(output):
            os.makedirs(os.path.dirname(output))
        tb2j_file(inp, wrong=existing)
        reference = load_tb2j(inp)
        target, kind = expected_output(output, format)
        if existing:
            # results of another run
            for name in ("spinham.txt", "other.hdf5", "x.txt", "x.hdf5", "x"):
                if name != target:
                    with open(name, "w") as f:
                        f.write("precious")
            if kind == "txt":
                with open(target, "w") as f:
                    f.write("old")
        before = files_of(folder)
        arguments = ["--input-filename" if long else "-if", inp]
        if output is not None:
            arguments += ["--output-filename" if long else "-of", output]
        if format is not None:
            arguments += ["--format" if long else "-f", format]
        if verbose:
            arguments += ["--verbose" if long else "-v"]
        call(convert_tb2j, arguments, f"{case}")
        after = files_of(folder)
        changed = {n for n in set(after) | set(before) if after.get(n) != before.get(n)}
        expect(changed == {os.path.normpath(target)}, f"{case}: changed files {sorted(changed)}, expected {target}")
        if kind == "txt":
            same_ham(load_spinham_txt(target), reference, f"{case}", 1e-4)
        else:
            same_ham(load_spinham_hdf5(target), reference, f"{case}", 1e-10)
            # existing Hamiltonian is not overwritten
            content = files_of(folder)[os.path.normpath(target)]
            try:
                call(convert_tb2j, arguments, f"{case}: again")
            except FileExistsError:
                same_ham(load_spinham_hdf5(target), reference, f"{case}", 1e-10)
                expect(len(content) > 0, f"{case}: file is empty")
        STATS.state(str(case))


def convert_cases(tier):
    inputs = ["exchange.out", "in/exchange.out", "tb2j.txt", "data.hdf5"]
    outputs = [None, "x.txt", "x.hdf5", "x", "out/y.txt", "out/y.dat", "z.hdf5.txt", "a.txt.hdf5", "v.txt.b.txt", "w.hdf5.b.hdf5"]
    for inp in inputs:
        for output in outputs:
            for format in (None, "txt", "hdf5"):
                for verbose, long, existing in itertools.product((False, True), repeat=3):
                    yield [inp, output, format, verbose, long, existing]


# ------------------------------------------------------------------ minimization
GROUND = [None, ["all"], ["ferro"], ["antiferro"], ["spiral"], ["ferro", "spiral"], ["spiral", "ferro"], ["antiferro", "ferro"], ["ferro", "all"]]
FIELDS = [None, [1.0, 2.0, -3.0], [0.0, 0.0, 5.5], [-0.25, -0.0005, 0.3]]
QS = [q for q in itertools.product((-1, 0, 1), repeat=3) if any(q)]


def parse_states(text, names, what):
    """Blocks of the results file in the order of appearance."""
    lines = text.splitlines()
    states, n = [], 0
    while n < len(lines):
        if lines[n].startswith("Spin orientations in the minimum configuration"):
            state = {"spins": [], "positions": [], "names": []}
            n += 2
            for _ in names:
                words = lines[n].split()
                state["names"].append(words[0])
                state["positions"].append([float(x) for x in words[1:4]])
                state["spins"].append([float(x) for x in words[4:7]])
                n += 1
            while n < len(lines) and ":" in lines[n] and lines[n].split(":")[0] in ("Cone axis is", "Spiral vector is"):
                key, value = lines[n].split(":")
                state[key] = [float(x) for x in value.split()]
                n += 1
            states.append(state)
            continue
        n += 1
    return states


def parse_summary(text):
    """[(kind, energy or list of energies)]"""
    out = []
    lines = text[text.index("Summary:") :].splitlines()[1:]
    for line in lines:
        if line.startswith("Ferromagnetic energy"):
            out.append(("ferro", float(line.split(":")[1])))
        elif line.startswith("Spiral energy"):
            out.append(("spiral", float(line.split(":")[1])))
        elif line.startswith("Antiferromagnetic energies"):
            out.append(("antiferro", []))
        elif line.strip():
            number, value = line.split()
            expect(int(number) == len(out[-1][1]) + 1, f"summary: number {number}")
            out[-1][1].append(float(value))
    return out


def check_state(model, ham, state, kind, energy, field, what, tol=2e-6):
    e = np.array(state["spins"])
    expect(np.all(np.abs(np.linalg.norm(e, axis=1) - 1) < 1e-6), f"{what}: spins {e.tolist()} are not unit vectors")
    if kind == "ferro":
        want = model.ferro(e, field=field)
        gradient_at = lambda d: model.ferro(d, field=field)  # noqa: E731
    else:
        axis, q = np.array(state["Cone axis is"]), np.array(state["Spiral vector is"])
        expect(abs(np.linalg.norm(axis) - 1) < 1e-6, f"{what}: axis {axis}")
        want = model.phase_average(e, axis, q, field=field)
        if kind == "antiferro":
            # the phases of the cells are multiples of pi
            rel = model.cell @ q / np.pi
            size = [2 if abs(x) > 0.5 else 1 for x in rel]
            want = model.supercell(e, axis, rel / 2, size, field=field)
        gradient_at = None if kind == "antiferro" else lambda d: model.phase_average(d, axis, q, field=field)
    expect(abs(want - energy) < tol * max(1.0, abs(want)), f"{what}: energy {energy}, energy of the written state {want}")
    if gradient_at is not None:
        for i in range(len(e)):
            for d in np.eye(3):
                t = np.cross(e[i], d)
                if np.linalg.norm(t) < 1e-3:
                    continue
                h = 1e-4
                up, down = e.copy(), e.copy()
                up[i], down[i] = e[i] + h * t, e[i] - h * t
                slope = (gradient_at(up) - gradient_at(down)) / (2 * h)
                expect(abs(slope) < 5e-3, f"{what}: written state is not stationary, slope {slope}")


def input_file(ham, kind):
    if kind == "txt":
        dump_spinham_txt(ham, "model.txt")
        return "model.txt", None
    if kind == "txt as other":
        dump_spinham_txt(ham, "model.hdf5")
        return "model.hdf5", "txt"
    if kind == "hdf5":
        dump_spinham_hdf5(ham, "model.hdf5")
        return "model.hdf5", None
    if kind == "hdf5 as other":
        dump_spinham_hdf5(ham, "exchange.out")
        return "exchange.out", "hdf5"
    raise ValueError(kind)


def judge_minimize(case):
    name, kind, ground, field, seed, long = case
    with clean_folder() as folder:
        ham = make_energy_model(name)
        path, format = input_file(ham, kind)
        others = ["minim-results", "other-results", "minim-ferro-history"]
        for other in others:
            with open(other, "w") as f:
                f.write("precious")
        before = files_of(folder)
        arguments = ["--spinham" if long else "-sh", path]
        if format is not None:
            arguments += ["--spinham-format" if long else "-shf", format]
        if ground is not None:
            arguments += ["--ground-state-type" if long else "-gst", *ground]
        if field is not None:
            arguments += ["--magnetic-field" if long else "-mf", *field]
        if seed is not None:
            arguments += ["--output-seedname" if long else "-os", seed]
        np.random.seed(7)
        call(minimize_energy, arguments, f"{case}")
        seed = "minim" if seed is None else seed
        kinds = ["ferro", "antiferro", "spiral"] if ground is None or "all" in ground else ground
        expected = {f"{seed}-results"}
        for k in kinds:
            expected |= {f"{seed}-{k}-history"} if k != "antiferro" else {f"{seed}-antiferro-history-{n}" for n in range(1, 27)}
        after = files_of(folder)
        changed = {n for n in set(after) | set(before) if after.get(n) != before.get(n)}
        expect(changed == expected, f"{case}: changed files {sorted(changed ^ expected)}")
        text = after[f"{seed}-results"].decode()
        reference = load_spinham_txt(path) if "txt" in kind else load_spinham_hdf5(path)
        model = Model(reference)
        summary = parse_summary(text)
        expect([k for k, _ in summary] == kinds, f"{case}: summary of {[k for k, _ in summary]}, expected {kinds}")
        states = parse_states(text, model.names, f"{case}")
        n = 0
        for k, energies in summary:
            for m, energy in enumerate(energies if k == "antiferro" else [energies]):
                expect(n < len(states), f"{case}: states are missing")
                state = states[n]
                n += 1
                what = f"{case}, {k} {m + 1}"
                expect(state["names"] == model.names, f"{what}: atoms {state['names']}")
                for pos, a in zip(state["positions"], reference.magnetic_atoms):
                    expect(close(pos, a.position, 1e-7), f"{what}: position {pos}")
                if k == "antiferro":
                    q = np.array(QS[m]) @ model.rcell / 2
                    expect(close(state["Spiral vector is"], q, 1e-6), f"{what}: vector {state['Spiral vector is']}, expected {q}")
                check_state(model, reference, state, k, energy, field, what)
            if k == "antiferro":
                expect(len(energies) == 26, f"{case}: {len(energies)} antiferromagnetic energies")
        expect(n == len(states), f"{case}: {len(states)} states, {n} energies")
        STATS.state(str(case))


def minimize_cases(tier):
    kinds = ["txt", "hdf5", "txt as other", "hdf5 as other"]
    seeds = [None, "out", "sub.name", "minim"]
    n = 0
    for name in MODELS:
        for ground in GROUND:
            slow = ground is None or "antiferro" in ground or "all" in ground
            if slow and name != "single" and tier == "quick":
                continue
            for field in FIELDS:
                for kind in kinds:
                    for seed in seeds:
                        for long in (False, True):
                            n += 1
                            if tier == "quick" and (n % 5 if not slow else n % 11):
                                continue
                            if tier != "quick" and slow and n % 5:
                                continue
                            yield [name, kind, ground, field, seed, long]


# ------------------------------------------------------------------ dispersion
def dispersion_input(name, folder):
    """-> path, format, Hamiltonian"""
    os.makedirs(folder, exist_ok=True)
    if name == "txt":
        ham = make_energy_model("ferro")
        path = os.path.join(folder, "model.txt")
        dump_spinham_txt(ham, path)
        return path, "txt", load_spinham_txt(path)
    if name.startswith("hdf5"):
        cell = {"hdf5": "tricl", "hdf5b": "left", "hdf5c": "tricl"}[name]
        spins = np.array([[0, 0, 1.5], [0.6, 0.0, 0.8]])
        pairs = [(0, 1, [0, 0, 0], np.array(MATRICES[0])), (0, 1, [-1, 0, 1], np.array(MATRICES[1])), (1, 1, [0, 0, -1], np.array(MATRICES[2]))]
        positions = [[0, 0, 0], [0.5, 0.25, 0.1]]
        if name == "hdf5c":
            # more bands
            for n in range(6):
                positions.append([0.1 * n, 0.3, 0.5 + 0.07 * n])
                spins = np.vstack([spins, [0.1 * n, -0.2, 1.0]])
                pairs.append((n, n + 2, [0, n % 2, 0], np.array(MATRICES[n % 3]) * (1 + 0.1 * n)))
        p = Physics(CELLS[cell], positions, spins, pairs, {})
        p.stabilize(8.0)
        ham = make_magnon_model(p, NOTATIONS_ALL[5])
        path = os.path.join(folder, "model.hdf5")
        dump_spinham_hdf5(ham, path)
        return path, "hdf5", load_spinham_hdf5(path)
    # TB2J: ferromagnet with the easy axis
    path = os.path.join(folder, "exchange.out")
    model = c16.make(["Cr1"], [[0, 0, [1, 0, 0], ["iso", "ani"], 0], [0, 0, [0, 1, 0], ["iso", "ani"], 0], [0, 0, [0, 0, 1], ["iso"], 0]], cell="ortho")
    for bond in model["bonds"]:
        bond["ani"] = [[0.0, 0, 0], [0, 0.05, 0], [0, 0, 0.4]]
    with open(path, "w") as f:
        f.write(c16.text_of(model, c16.STYLE))
    return path, "tb2j", load_tb2j(path)


def reference_physics(ham):
    atoms = list(ham.magnetic_atoms)
    index = {a.name: n for n, a in enumerate(atoms)}
    K, A = physics(ham)
    pairs = [(index[a], index[b], list(ijk), k) for (a, b, ijk), k in K.items()]
    return Physics(ham.cell, [a.position for a in atoms], [a.spin_vector for a in atoms], pairs, {index[n]: a for n, a in A.items()})


PATHS = [
    None,
    ("G-X", None),
    ("X-G|G-Z", None),
    ("G-P-X", ["P", "$P$", "0.1", "0.2", "-0.3"]),
    ("Q-P|P-G", ["P", "p", "0.25", "0", "0", "Q", "q", "-0.1", "0.4", "1.2"]),
    ("W1-G|W2-W1|W3-W2-W4", ["W4", "r", "0.2", "0.2", "0.1", "W3", "$\\Pi$", "0.25", "0", "0", "W1", "a1", "0.5", "0.125", "0", "W2", "q", "-0.1", "0.4", "1.2"]),
]


def check_picture(picture, p, kp, what):
    """The drawn curves are the energies along the path."""
    x = kp.flatten_points()
    curves = [c for c in picture["curves"] if len(c) == len(x)]
    N = len(p.spins)
    expect(len(curves) == N, f"{what}: {len(curves)} curves of {len(x)} points are drawn, expected {N}")
    for c in curves:
        expect(close(c[:, 0], x, 1e-7), f"{what}: coordinate of the drawn curve")
    step = max(1, len(x) // 7)
    for n, k in enumerate(kp.points(relative=False)):
        if n % step and n != len(x) - 1:
            continue
        want = positive(p.frequencies(k)[0])
        got = np.sort([c[n, 1] for c in curves])
        expect(close(got, want, 1e-6), f"{what}: drawn energies {got} at {k}, expected {want}")
    expect(close(picture["ticks"], kp.ticks(), 1e-7), f"{what}: ticks {picture['ticks']}, expected {kp.ticks()}")
    expect(picture["labels"] == list(kp.labels), f"{what}: labels {picture['labels']}, expected {kp.labels}")
    expect(close(picture["limits"], [[x[0], x[-1]]], 1e-7), f"{what}: limits {picture['limits']}")


def judge_dispersion(case):
    name, seed, path_number, give_format, save, join, interactive, verbose, long = case
    what = f"{case}"
    with clean_folder() as folder:
        path, format, reference = dispersion_input(name, "in")
        with open("precious.txt", "w") as f:
            f.write("precious")
        before = files_of(folder)
        arguments = ["--spinham" if long else "-sh", path]
        if give_format:
            renamed = "in/renamed.dat"
            os.rename(path, renamed)
            path = arguments[1] = renamed
            arguments += ["--spinham-format" if long else "-shf", format]
            before = files_of(folder)
        if seed is not None:
            arguments += ["--output-seedname" if long else "-os", seed]
        points = None
        if PATHS[path_number] is not None:
            k_path, points = PATHS[path_number]
            if points is not None:
                arguments += ["--k-points" if long else "-kps", *points]
            arguments += ["--k-path" if long else "-kp", k_path]
        for flag, short, full in ((save, "-st", "--save-txt"), (join, "-jo", "--join-output"), (interactive, "-i", "--interactive"), (verbose, "-v", "--verbose")):
            if flag:
                arguments.append(full if long else short)
        original = Figure.savefig

        def savefig(figure, *args, **kwargs):
            take_picture(figure)
            kwargs["dpi"] = 20
            return original(figure, *args, **kwargs)

        PICTURES.clear()
        Figure.savefig = savefig
        try:
            printed = call(magnon_dispersion, arguments, what)
        finally:
            Figure.savefig = original
        # where the results are
        head, tail = os.path.split(seed if seed is not None else "dispersion")
        target = os.path.join(head or "in", tail or "dispersion")
        expected = set() if interactive else {target + ".png"}
        if save:
            expected |= {target + ".txt"} if join else {target + "_info.txt", target + "_data.txt"}
        expected = {os.path.normpath(x) for x in expected}
        after = files_of(folder)
        changed = {n for n in set(after) | set(before) if after.get(n) != before.get(n)}
        expect(changed == expected, f"{what}: changed files {sorted(changed)}, expected {sorted(expected)}")
        STATS.state(what)
        # points of the path
        ham = load_spinham(path, spinham_format=format)
        ham.standardize()
        kp = ham.kpoints
        if points is not None:
            for n in range(0, len(points), 5):
                kp.add_hs_point(name=points[n], label=points[n + 1], coordinates=[float(x) for x in points[n + 2 : n + 5]])
                expect(not verbose or points[n] in printed, f"{what}: point {points[n]} is not printed")
        if PATHS[path_number] is not None:
            kp.path = PATHS[path_number][0]
        p = reference_physics(reference)
        if PICTURES:
            check_picture(PICTURES[0], p, kp, what)
        if not save:
            return
        data_name = target + (".txt" if join else "_data.txt")
        rows = []
        for line in after[os.path.normpath(data_name)].decode().splitlines():
            words = line.split()
            try:
                rows.append([float(x) for x in words])
            except ValueError:
                expect(not rows, f"{what}: {line} among the data")
        rows = [r for r in rows if r]
        N = len(reference.magnetic_atoms)
        expect(all(len(r) == 7 + N for r in rows), f"{what}: number of columns")
        rows = np.array(rows)
        expect(rows.shape[0] == len(kp.points()), f"{what}: {rows.shape[0]} rows, expected {len(kp.points())}")
        expect(close(rows[:, 0], kp.flatten_points(), 1e-7), f"{what}: coordinate")
        expect(close(rows[:, 1 + N : 4 + N], kp.points(relative=True), 1e-7), f"{what}: relative coordinates")
        expect(close(rows[:, 4 + N :], kp.points(relative=False), 1e-7), f"{what}: absolute coordinates")
        # energies of the original model (not of the standardized one) at the same points
        for row in rows:
            w, definite = p.frequencies(row[4 + N :])
            expect(np.min(definite) > 1e-6, "the model of the check is not stable")
            want = positive(w)
            expect(close(np.sort(row[1 : 1 + N]), want, 1e-6), f"{what}: energies {np.sort(row[1 : 1 + N])} at {row[4 + N :]}, expected {want}")
            STATS.step()
        header = after[os.path.normpath(target + (".txt" if join else "_info.txt"))].decode()
        expect(os.path.abspath(path) in header, f"{what}: input file is not named")
        expect(kp.path_string in header, f"{what}: path is not written")
        found = np.array([float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", header)])
        for x in [*kp.ticks(), *np.ravel([kp.hs_coordinates[n] for n in kp.hs_names])]:
            expect(np.any(np.abs(found - x) < 1e-6), f"{what}: {x} (a tick or a coordinate of a point) is not written")
        if not join:
            expect(os.path.abspath(data_name) in header, f"{what}: name of the file with data is not written")


def dispersion_cases(tier):
    n = 0
    for name in ("txt", "hdf5", "hdf5b", "tb2j", "hdf5c"):
        for seed in (None, "y", "sub/x", "sub/deep/", "./z"):
            for path_number in range(len(PATHS)):
                for give_format, save, join, interactive, verbose, long in itertools.product((False, True), repeat=6):
                    n += 1
                    if tier == "quick" and n % (59 if path_number == 0 else 17):
                        continue
                    if tier != "quick" and path_number == 0 and n % 5:
                        continue
                    yield [name, seed, path_number, give_format, save, join, interactive, verbose, long]


# ------------------------------------------------------------------ general loader
def judge_loader(case):
    content, filename, format = case
    with clean_folder() as folder:
        ham = make_energy_model("antiferro")
        os.makedirs(os.path.dirname(filename) or ".", exist_ok=True)
        if content == "txt":
            dump_spinham_txt(ham, filename)
            direct = load_spinham_txt(filename)
        elif content == "hdf5":
            dump_spinham_hdf5(ham, filename)
            direct = load_spinham_hdf5(filename)
        else:
            tb2j_file(filename)
            direct = load_tb2j(filename)
        before = files_of(folder)
        if filename.endswith(".hdf5"):
            guess = "hdf5"
        elif filename.endswith("exchange.out"):
            guess = "tb2j"
        else:
            guess = "txt"
        wanted = guess if format is None else format.lower()
        STATS.step()
        STATS.state(str(case))
        try:
            got = load_spinham(filename) if format is None else load_spinham(filename, spinham_format=format)
        except Exception as e:
            STATS.outcome(type(e).__name__)
            expect(wanted != content, f"{case}: {type(e).__name__}: {e}")
            if wanted not in ("txt", "hdf5", "tb2j"):
                expect(isinstance(e, ValueError), f"{case}: {type(e).__name__} for the unknown format")
        else:
            STATS.outcome("loaded")
            expect(wanted in ("txt", "hdf5", "tb2j"), f"{case}: unknown format is accepted")
            if wanted == content:
                same_ham(got, direct, f"{case}", 1e-12)
        expect(files_of(folder) == before, f"{case}: files are changed")


def loader_cases(tier):
    for content in ("txt", "hdf5", "tb2j"):
        for filename in ("model.txt", "model.hdf5", "exchange.out", "my_exchange.out", "sub/exchange.out", "model", "model.hdf5.txt", "exchange.out.txt", "txt", "hdf5.dat", "exchange.out.hdf5"):
            for format in (None, "txt", "hdf5", "tb2j", "TXT", "Hdf5", "TB2J", "json", ""):
                yield [content, filename, format]


SPACES = [
    Space("loader", loader_cases, judge_loader, "content x names of the file x format: load_spinham"),
    Space("convert", convert_cases, judge_convert, "all options of the conversion of TB2J files"),
    Space("minimize", minimize_cases, judge_minimize, "options of the energy minimization; every written state is evaluated independently (combinations are thinned)", chunk=2, limit_s=300),
    Space("dispersion", dispersion_cases, judge_dispersion, "options of the magnon dispersion; every written energy is compared to the equations of motion of the original model (combinations are thinned)", chunk=2, limit_s=300),
]
ASSUMPTIONS = [
    "scripts are run through their main functions with the arguments of the command line",
    "starting states of the minimization are random by design: the generator is seeded, the written states are judged and not compared to another run",
    "resolution of the picture is lowered by a stand-in of savefig; the curves, not the pixels, are judged",
]
