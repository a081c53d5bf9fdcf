"""Development tool for tools/mutate.py only: looks for any violation of a check in a shuffled, thinned list of its cases.

python3 tools/fast.py PROPERTY SECONDS -> exit 1 at the first violation, 0 when the cases or the time run out."""
import importlib, os, random, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
scratch = tempfile.mkdtemp(prefix="fast-")
os.environ["MC_SCRATCH"] = os.environ["MPLCONFIGDIR"] = scratch
os.chdir(scratch)
try:
    from mc import core
    core.load_target()
    spaces = importlib.import_module(f"mc.{sys.argv[1].lower()}").SPACES
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    lists = [(s, list(s.cases("quick"))) for s in spaces]
    for n, (s, c) in enumerate(lists):
        random.Random(n).shuffle(c)
    deadline = time.time() + float(sys.argv[2])
    i = 0
    while any(c for _, c in lists) and time.time() < deadline:
        for s, c in lists:
            t = time.time()
            while c and time.time() - t < 0.4:  # equal time for every space
                case = c.pop()
                m = core.run_case(s, case)
                if m:
                    os.write(2, f"{s.name} {str(case)[:200]} {m[:300]}".encode())
                    sys.exit(1)
except Exception as e:
    os.write(2, repr(e).encode())
    sys.exit(1)
finally:
    import shutil
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
