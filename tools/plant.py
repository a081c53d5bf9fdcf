"""python3 tools/plant.py SPEC.py ... : confirm planted changes in a scratch copy and keep them in seeded/.

A SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source that
exits with an error if the property is broken)."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    out = os.path.join(HERE, "seeded", s["ID"])
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(work, "repo")
        sh("cp", "-a", "/repo", copy)
        for f, old, new in s["EDITS"]:
            p = os.path.join(copy, "src/magnopy", f)
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            # only lines of the original repository
            orig = sh("git", "-C", copy, "show", f"b28981c:src/magnopy/{f}").stdout
            if old not in orig:
                print("  note: text is not in the original:", repr(old[:60]))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", copy, "diff").stdout
        demo = os.path.join(work, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
        good = sh("bash", os.path.join(demo, "demo.sh"), cwd="/repo")
        bad = sh("bash", os.path.join(demo, "demo.sh"), cwd=copy)
        env = dict(os.environ, PYTHONPATH=os.path.join(copy, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--doctest-modules",
               "--ignore=utests/test_io/test_hdf5_internal.py", "--ignore=utests/test_io/test_txt_internal.py",
               "--ignore=utests/test_io/test_txt_verify.py", "utests", "src", cwd=copy, env=env)
        tail = t.stdout.strip().splitlines()[-1]
        ok = good.returncode == 0 and bad.returncode != 0 and "failed" not in tail and "64 passed" in tail
        print(s["ID"], "OK" if ok else "REJECTED", "| demo", good.returncode, bad.returncode, "| tests:", tail)
        if not ok:
            print(good.stdout[-500:], good.stderr[-800:], "\nBAD:", bad.stdout[-500:], bad.stderr[-500:])
            print("\n".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:800])
            return
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, f), out)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(work)


for spec in sys.argv[1:]:
    main(spec)
