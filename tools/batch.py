"""Runs the quick checks against small hand-written changes, in scratch copies (development tool).

python3 tools/batch.py SPEC.py [id ...]; SPEC.py has BUGS = [(id, property, [(file, old, new), ...]), ...]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
WORKERS = int(os.environ.get("BATCH", "3"))


def one(bug):
    name, props, edits = bug
    d = f"/tmp/batch/{name}"
    shutil.rmtree(d, True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
    try:
        for f, old, new in edits:
            p = f"{d}/repo/src/magnopy/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return name, f"PATTERN {s.count(old)}"
            open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=f"{d}/repo", MC_FAILFAST="1", PYTHONPATH=f"{d}/repo/src")
        out = []
        for prop in props.split():
            r = subprocess.run(["bash", "/verif/run.sh", prop, "quick"], env=env, capture_output=True, text=True, cwd="/verif")
            hit = "VIOLATION" in r.stdout
            out.append(f"{prop}:{'caught' if hit else 'MISSED rc=%s' % r.returncode}")
        if "caught" not in " ".join(out):
            r = subprocess.run(["bash", "-c", f"cd {d}/repo && PYTHONPATH={d}/repo/src /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --hypothesis-profile=ci --ignore=utests/test_io/test_hdf5_internal.py --ignore=utests/test_io/test_txt_internal.py --ignore=utests/test_io/test_txt_verify.py utests 2>&1 | tail -2"], env=env, capture_output=True, text=True)
            out.append("tests: " + r.stdout.strip().replace("\n", " ")[-80:])
        return name, " ".join(out)
    finally:
        shutil.rmtree(d, True)


with ThreadPoolExecutor(WORKERS) as ex:
    for name, res in ex.map(one, [b for b in ns["BUGS"] if not only or b[0] in only]):
        print(f"{name:28} {res}", flush=True)
