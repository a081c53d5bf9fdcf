"""Small explicit-state / bounded-exhaustive model checker used by every check.

A *space* is a finite, deterministically ordered list of cases; a case is a JSON value
that fully determines one execution of the real code (an operation history, an input
file, a fault schedule, a configuration).  ``judge(case)`` runs the execution against
the real implementation and returns the list of disagreements with the oracle.  The
runner visits *every* case of every space (no sampling, no early cut), distributes
them over worker processes, counts states / transitions, writes the evidence file and,
for a violation, a replay file.
"""

import hashlib
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")


def load_target():
    """Import magnopy from the working tree of /repo and from nowhere else."""
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import magnopy

    where = os.path.realpath(os.path.dirname(magnopy.__file__))
    want = os.path.realpath(os.path.join(REPO_SRC, "magnopy"))
    if where != want:
        raise RuntimeError(f"magnopy is imported from {where}, expected {want}")
    logging.disable(logging.CRITICAL)
    return magnopy


def scratch(name=""):
    """A path in the scratch directory of this worker."""
    folder = os.path.join(os.environ.get("MC_SCRATCH") or tempfile.gettempdir(), f"w{os.getpid()}")
    os.makedirs(folder, exist_ok=True)
    return os.path.join(folder, name) if name else folder


class Disagreement(Exception):
    """The implementation disagrees with the oracle."""


def expect(condition, message):
    if not condition:
        raise Disagreement(message)


class Stats:
    """Counters of one worker; merged by the runner."""

    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.state_hashes = set()
        self.outcomes = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, canonical):
        self.state_hashes.add(
            hashlib.blake2b(repr(canonical).encode(), digest_size=8).digest()
        )

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


STATS = Stats()


class Space:
    """name: id of the space in replay files; cases: callable(tier) -> iterable of cases;
    judge: callable(case) raising Disagreement (any other exception is a violation too,
    because the judge catches every exception the property allows)."""

    def __init__(self, name, cases, judge, what, chunk=None, limit_s=60):
        self.name, self.cases, self.judge, self.what = name, cases, judge, what
        self.chunk = chunk
        self.limit_s = limit_s


_SPACE = None
_CASES = None


def run_case(space, case):
    """-> None or a text that describes the disagreement."""
    STATS.executions += 1

    def _too_long(signum, frame):
        raise Disagreement(f"no result within {space.limit_s} s")

    # Time of the processor: other processes of a busy computer do not matter
    signal.signal(signal.SIGPROF, _too_long)
    signal.signal(signal.SIGALRM, _too_long)
    signal.setitimer(signal.ITIMER_PROF, space.limit_s)
    signal.setitimer(signal.ITIMER_REAL, max(600, space.limit_s))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            space.judge(case)
        return None
    except Disagreement as e:
        return str(e)
    except Exception as e:  # noqa: BLE001 - a crash of the code under test
        tb = traceback.format_exc(limit=-3)
        try:
            text = str(e)
        except Exception:  # noqa: BLE001 - exceptions with a broken __str__
            text = "no text"
        return f"unexpected {type(e).__name__}: {text}\n{tb}"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(bounds):
    global STATS
    STATS.__init__()
    lo, hi = bounds
    bad = []
    for i in range(lo, hi):
        message = run_case(_SPACE, _CASES[i])
        if message is not None:
            bad.append((i, message))
            if len(bad) >= 3:
                break
    return (
        STATS.executions,
        STATS.transitions,
        STATS.state_hashes,
        STATS.outcomes,
        bad,
    )


def _silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def main(prop, spaces, assumptions, argv=None):
    """Run all spaces of a property. Exit code 0 or 1."""
    global _SPACE, _CASES
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            i += 1
            replay = argv[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()

    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    os.environ["MC_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if replay is not None:
            return _replay(prop, spaces, os.path.join(cwd, replay))
        return _explore(prop, spaces, assumptions, tier, seed, start)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def _replay(prop, spaces, path):
    with open(path) as f:
        data = json.load(f)
    for space in spaces:
        if space.name == data["space"]:
            message = run_case(space, data["case"])
            print(message if message else "no disagreement")
            if message:
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            return 0
    print(f"unknown space {data['space']}")
    return 1


def _explore(prop, spaces, assumptions, tier, seed, start):
    global _SPACE, _CASES
    workers = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    states = 0
    transitions = 0
    executions = 0
    report = []
    samples = []
    violations = []
    ctx = mp.get_context("fork")
    for space in spaces:
        t0 = time.time()
        cases = list(space.cases(tier))
        _SPACE, _CASES = space, cases
        n = len(cases)
        if n == 0:
            raise RuntimeError(f"space {space.name} is empty")
        chunk = space.chunk or max(1, min(200, n // (workers * 6) + 1))
        bounds = [(lo, min(n, lo + chunk)) for lo in range(0, n, chunk)]
        hashes, outcomes, sp_exec, sp_tr, bad = set(), {}, 0, 0, []
        if workers == 1 or n < 4:
            results = map(_work, bounds)
        else:
            pool = ctx.Pool(workers, initializer=_silence)
            results = pool.imap_unordered(_work, bounds)
        for ex, tr, st, oc, b in results:
            sp_exec += ex
            sp_tr += tr
            hashes |= st
            for k, v in oc.items():
                outcomes[k] = outcomes.get(k, 0) + v
            bad.extend(b)
            if bad and (time.time() - t0 > 120 or os.environ.get("MC_FAILFAST")):
                break  # a violation is decided already
        if not (workers == 1 or n < 4):
            (pool.terminate if bad else pool.close)()
            pool.join()
        bad.sort()
        states += len(hashes)
        transitions += sp_tr
        executions += sp_exec
        report.append(
            {
                "space": space.name,
                "what": space.what,
                "executions": sp_exec,
                "distinct_states": len(hashes),
                "transitions": sp_tr,
                "outcomes": outcomes,
                "disagreements_reported": len(bad),
                "wall_s": round(time.time() - t0, 2),
            }
        )
        samples.append({"space": space.name, "case": cases[(len(cases) * 2) // 3]})
        for index, message in bad[:5]:
            violations.append((space, cases[index], message))
        print(
            f"[{prop}] {space.name}: executions={sp_exec} states={len(hashes)} "
            f"transitions={sp_tr} outcomes={outcomes} "
            f"disagreements={len(bad)} ({time.time() - t0:.1f} s)",
            flush=True,
        )
        if violations and os.environ.get("MC_FAILFAST"):
            break

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": executions,
            "exhaustive": not violations,
            "spaces": report,
            "samples": samples,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for number, (space, case, message) in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{prop}-{number}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "space": space.name,
                        "case": case,
                        "disagreement": message,
                        "replay_with": f"bash run.sh {prop} --replay {path}",
                    },
                    f,
                    indent=1,
                )
            print(f"--- {space.name} case={json.dumps(case)[:600]}\n    {message}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    print(f"[{prop}] held on everything explored", flush=True)
    return 0
