"""C15: failures injected at every operation on HDF5 files."""

import contextlib
import os

import h5py

from mc.c14 import check_files, full, model, same, stored
from mc.core import STATS, Space, expect, scratch

from magnopy.io import dump_spinham_hdf5, load_spinham_hdf5  # noqa: E402

# every way to change the content of a file through h5py
WRITES = [
    (h5py.Group, name)
    for name in ("create_group", "create_dataset", "require_group", "require_dataset", "create_dataset_like", "__setitem__", "__delitem__", "move", "copy")
] + [(h5py.AttributeManager, name) for name in ("__setitem__", "__delitem__", "create", "modify")] + [(h5py.Dataset, "__setitem__"), (h5py.Dataset, "resize"), (h5py.Dataset, "write_direct")]
READS = [(h5py.Group, "__getitem__"), (h5py.Group, "__iter__"), (h5py.Group, "__contains__"), (h5py.Group, "visit"), (h5py.Dataset, "__getitem__"), (h5py.AttributeManager, "__getitem__")]


class Injector:
    """Raises an error at one of the operations: before it or after it took place."""

    def __init__(self, methods):
        self.methods = methods
        self.count = 0
        self.fail_at = None
        self.when = "before"
        self.error = OSError
        self.depth = 0
        self.failed = None

    def wrap(self, cls, name):
        original = getattr(cls, name)
        injector = self

        def method(*args, **kwargs):
            if injector.depth:
                return original(*args, **kwargs)
            number = injector.count
            injector.count += 1
            if number == injector.fail_at and injector.when == "before":
                injector.failed = name
                raise injector.error("injected failure")
            injector.depth += 1
            try:
                result = original(*args, **kwargs)
            finally:
                injector.depth -= 1
            if number == injector.fail_at and injector.when == "after":
                injector.failed = name
                raise injector.error("injected failure")
            return result

        return method

    @contextlib.contextmanager
    def active(self):
        saved = []
        for cls, name in self.methods:
            own = name in vars(cls)
            saved.append((cls, name, own, getattr(cls, name)))
        try:
            for cls, name, own, _ in saved:
                setattr(cls, name, self.wrap(cls, name))
            yield self
        finally:
            for cls, name, own, original in saved:
                if own:
                    setattr(cls, name, original)
                else:
                    delattr(cls, name)


ERRORS = {"OSError": OSError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}
# (content of the file: group -> model; target group)
BEFORE = [
    (None, "spinham"),
    ({"spinham": 1}, "spinham"),
    ({"other": 1}, "spinham"),
    ({"a": 1, "a/b": 2, "c": 3}, "a/b"),
    ({"a": 1, "c": 2}, "a/b"),
    ({"x/y": 1, "x/z": 3}, "x/y"),
    ({"c": 1}, "x/y/z"),
]
NEW = {0: 0, 1: 4}


def prepare(content):
    path = scratch("faults.hdf5")
    if os.path.exists(path):
        os.remove(path)
    stored_models = {}
    for group, number in (content or {}).items():
        ham = model(number)
        dump_spinham_hdf5(ham, path, groupname=group)
        stored_models[group] = stored(full(ham))
    return path, stored_models


def operations(before, new):
    """Number of operations of the dump when nothing fails."""
    content, group = BEFORE[before]
    path, _ = prepare(content)
    injector = Injector(WRITES)
    with injector.active():
        dump_spinham_hdf5(model(NEW[new]), path, groupname=group, overwrite=True)
    os.remove(path)
    return injector.count


def attempt(ham, path, group, overwrite, fail_at, when, error):
    injector = Injector(WRITES)
    injector.fail_at, injector.when, injector.error = fail_at, when, ERRORS[error]
    caught = None
    with injector.active():
        try:
            dump_spinham_hdf5(ham, path, groupname=group, overwrite=overwrite)
        except (Exception, KeyboardInterrupt) as e:
            caught = e
    return caught, injector.failed


def state_after(path, models, group, new_state, what):
    """Every model is as before, the target is as before or completely the new one."""
    for g, want in models.items():
        if g != group:
            same(full(load_spinham_hdf5(path, groupname=g)), want, f"{what}: group {g}")
            STATS.step()
    with h5py.File(path, "r+") as f:  # nothing keeps the file open
        there = group in f and f[group].attrs.get("type") == "SpinHamiltonian"
    if group in models:
        expect(there, f"{what}: the stored Hamiltonian is gone")
    if there:
        got = full(load_spinham_hdf5(path, groupname=group))
        from mc.core import Disagreement

        try:
            same(got, new_state, f"{what}: target group")
            return "new"
        except Disagreement:
            expect(group in models, f"{what}: incomplete Hamiltonian is stored")
            same(got, models[group], f"{what}: target group is neither the old nor the new Hamiltonian")
    return "old"


def judge(case):
    before, new, points, error = case
    content, group = BEFORE[before]
    path, models = prepare(content)
    ham = model(NEW[new])
    memory = full(ham)
    new_state = stored(memory)
    last = "old"
    for fail_at, when in points:
        what = f"{case}"
        caught, failed = attempt(ham, path, group, group in models or last == "new", fail_at, when, error)
        STATS.step()
        same(full(ham), memory, f"{what}: the Hamiltonian in memory")
        if caught is None:
            # the failure was survived (or the dump is shorter this time): everything is stored
            last = state_after(path, models, group, new_state, what)
            expect(last == "new", f"{what}: dump without an error does not store the Hamiltonian")
            STATS.outcome("survived")
            continue
        expect(failed is not None, f"{what}: {type(caught).__name__}: {caught}")
        if not os.path.exists(path):
            expect(not models, f"{what}: the file is gone")
            continue
        last = state_after(path, models, group, new_state, what)
        STATS.outcome(f"{failed}: {last}")
        if failed != "__delitem__" and last == "old" and models:
            check_files({"f": models}, {"f": path}, what)
    # a later dump succeeds
    dump_spinham_hdf5(ham, path, groupname=group, overwrite=group in models or last == "new")
    final = dict(models)
    final[group] = new_state
    check_files({"f": final}, {"f": path}, f"{case}: later dump")
    STATS.state(str(case))


def cases(tier):
    for before in range(len(BEFORE)):
        for new in NEW:
            n = operations(before, new)
            for when in ("before", "after"):
                for fail_at in range(n):
                    for error in ERRORS:
                        if tier == "quick" and error != list(ERRORS)[(fail_at + before) % 3]:
                            continue
                        yield [before, new, [[fail_at, when]], error]


def pair_cases(tier):
    """Two failed dumps one after the other."""
    for before in (1, 3, 4):
        new = 1
        n = operations(before, new)
        for first in range(n):
            for second in range(n):
                if tier == "quick" and (first * 7 + second) % 11:
                    continue
                whens = ["before", "after"]
                yield [before, new, [[first, whens[second % 2]], [second, whens[first % 2]]], "OSError"]


# ------------------------------------------------------------------ the model fails
class Broken:
    """The model can not be read at some point."""

    def __init__(self, target, fail_at):
        self.target, self.fail_at, self.count = target, fail_at, 0


PLACES = ["spin_vector", "g_factor", "name", "position", "matrix"]


def place(name):
    from magnopy.spinham.parameter import MatrixParameter
    from wulfric import Atom

    return (MatrixParameter if name == "matrix" else Atom), name


@contextlib.contextmanager
def broken(name, fail_at, error):
    cls, attribute = place(name)
    original = vars(cls)[attribute]
    counter = {"n": 0, "failed": False}

    def getter(self):
        number = counter["n"]
        counter["n"] += 1
        if number == fail_at:
            counter["failed"] = True
            raise error("injected failure")
        return original.fget(self)

    setattr(cls, attribute, property(getter, original.fset, original.fdel))
    try:
        yield counter
    finally:
        setattr(cls, attribute, original)


def judge_model(case):
    before, name, fail_at, error = case
    content, group = BEFORE[before]
    path, models = prepare(content)
    ham = model(0)
    memory = full(ham)
    caught = None
    with broken(name, fail_at, ERRORS[error]) as counter:
        try:
            dump_spinham_hdf5(ham, path, groupname=group, overwrite=group in models)
        except (Exception, KeyboardInterrupt) as e:
            caught = e
    STATS.step()
    STATS.state(str(case))
    same(full(ham), memory, f"{case}: the Hamiltonian in memory")
    if caught is None:
        expect(state_after(path, models, group, stored(memory), f"{case}") == "new", f"{case}: nothing is stored")
        return
    expect(counter["failed"], f"{case}: {caught}")
    if models:
        check_files({"f": models}, {"f": path}, f"{case}")
    elif os.path.exists(path):
        with h5py.File(path, "r+") as f:
            expect(group not in f, f"{case}: incomplete Hamiltonian is stored")
    dump_spinham_hdf5(ham, path, groupname=group, overwrite=group in models)
    final = dict(models)
    final[group] = stored(memory)
    check_files({"f": final}, {"f": path}, f"{case}: later dump")


def model_cases(tier):
    for before in range(len(BEFORE)):
        for name in PLACES:
            content, group = BEFORE[before]
            path, models = prepare(content)
            with broken(name, -1, OSError) as counter:
                dump_spinham_hdf5(model(0), path, groupname=group, overwrite=True)
            os.remove(path)
            for fail_at in range(counter["n"]):
                yield [before, name, fail_at, list(ERRORS)[(fail_at + before) % 3]]


# ------------------------------------------------------------------ a load fails
def judge_load(case):
    before, fail_at, when, error, named = case
    content, group = BEFORE[before]
    path, models = prepare(content)
    with open(path, "rb") as f:
        data = f.read()
    injector = Injector(READS)
    injector.fail_at, injector.when, injector.error = fail_at, when, ERRORS[error]
    caught, ham = None, None
    group = next(iter(models))
    with injector.active():
        try:
            ham = load_spinham_hdf5(path, groupname=group if named else None)
        except (Exception, KeyboardInterrupt) as e:
            caught = e  # is kept alive while the file is checked
    STATS.step()
    STATS.state(str(case))
    if caught is None:
        same(full(ham), models[group], f"{case}: loaded in spite of the failure")
        STATS.outcome("loaded")
    else:
        STATS.outcome("failed")
    with open(path, "rb") as f:
        expect(f.read() == data, f"{case}: the file is changed by reading")
    check_files({"f": models}, {"f": path}, f"{case}: after the failed load")
    # nothing prevents writing into the file
    new = model(0)
    dump_spinham_hdf5(new, path, groupname=group, overwrite=True)
    same(full(load_spinham_hdf5(path, groupname=group)), stored(full(new)), f"{case}: written after the failed load")


def load_cases(tier):
    for before in (1, 2, 3):
        content, _ = BEFORE[before]
        path, models = prepare(content)
        for named in (True, False):
            if not named and len(models) > 1:
                continue
            injector = Injector(READS)
            with injector.active():
                load_spinham_hdf5(path, groupname=next(iter(models)) if named else None)
            for fail_at in range(injector.count):
                for when in ("before", "after"):
                    yield [before, fail_at, when, list(ERRORS)[fail_at % 3], named]
        os.remove(path)


SPACES = [
    Space("faults", cases, judge, "a failure before and after every operation on the file x content of the file x models x kinds of errors (one kind per point in the quick run)"),
    Space("pairs", pair_cases, judge, "two failed dumps in a row, failures at every pair of operations (thinned in the quick run)"),
    Space("model", model_cases, judge_model, "a failure at every access to the data of the Hamiltonian"),
    Space("load", load_cases, judge_load, "a failure at every read operation of a load"),
]
ASSUMPTIONS = [
    "a failure is an exception of one operation (no space, interrupt); a killed process may damage the file inside of the HDF5 library and is out of scope",
    "if the failure happens after the new Hamiltonian is completely stored, then the target may hold the new one; ValueError from the library is out of scope (it is the way to say that there is no charge)",
]
