"""Automatic small changes of the source, to look for gaps of the checks (development tool only).

python3 tools/mutate.py list | run WORKERS LOG [file ...] : works in scratch copies under /tmp/mut."""
import ast, copy, json, os, random, shutil, subprocess, sys
from multiprocessing import Pool, current_process

REPO, PY = "/repo", "/opt/venv/bin/python"
ROOT = "/tmp/mut"
CHECKS = {
    "geometry.py": "C20 C13", "units/inside.py": "C05 C17 C11 C14", "units/si.py": "C05 C17 C11 C14",
    "magnons/diagonalization.py": "C10 C09", "magnons/dispersion.py": "C09 C20 C18",
    "spinham/hamiltonian.py": "C02 C01 C03 C04 C05 C09 C19 C17 C20", "spinham/energy.py": "C05 C06 C04 C07",
    "spinham/parameter.py": "C08 C04", "io/__init__.py": "C18", "io/txt/internal.py": "C13 C11",
    "io/txt/verify.py": "C12 C11", "io/txt/tb2j.py": "C16 C18", "io/txt/vampire.py": "C17",
    "io/hdf5/internal.py": "C14 C15", "score/convert_tb2j.py": "C18", "score/magnon_dispersion.py": "C18",
    "score/minimize_energy.py": "C18",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}


def candidates(tree):
    """(node id, kind) over a walk in fixed order; skips messages and docstrings."""
    skip = set()
    for node in ast.walk(tree):
        bad = isinstance(node, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom, ast.AnnAssign))
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            bad = True
        if isinstance(node, ast.Call):
            text = ast.unparse(node.func)
            if "_logger" in text or "logging" in text or text in ("warn", "print", "warnings.warn") or "add_argument" in text:
                bad = True
        if bad:
            for sub in ast.walk(node):
                skip.add(id(sub))
    out = []
    for n, node in enumerate(ast.walk(tree)):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
            out.append((n, "cmp"))
        elif isinstance(node, ast.BoolOp):
            out.append((n, "bool"))
            out.append((n, "boolfirst"))
            out.append((n, "boollast"))
        elif isinstance(node, ast.BinOp):
            if type(node.op) in SWAP:
                out.append((n, "bin"))
            if isinstance(node.op, (ast.MatMult, ast.Sub, ast.Div)):
                out.append((n, "swapargs"))
            out.append((n, "left"))
        elif isinstance(node, ast.UnaryOp):
            out.append((n, "unary"))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (bool, int, float)):
            out.append((n, "const"))
            if not isinstance(node.value, bool) and node.value not in (0, 1):
                out.append((n, "const0"))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            out.append((n, "true")) if not isinstance(node, ast.While) else None
            out.append((n, "false"))
        elif isinstance(node, ast.Attribute) and node.attr == "T":
            out.append((n, "noT"))
        elif isinstance(node, ast.Call):
            f = ast.unparse(node.func)
            if f in ("np.array", "deepcopy", "tuple", "list", "np.conjugate", "np.conj", "abs", "np.abs", "int", "float", "np.real", "np.sqrt") and len(node.args) >= 1:
                out.append((n, "arg"))
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "conj", "strip", "lower", "transpose", "astype", "split"):
                out.append((n, "recv"))
        elif isinstance(node, (ast.Break, ast.Continue)):
            out.append((n, "pass"))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            out.append((n, "pass"))
        elif isinstance(node, ast.AugAssign):
            out.append((n, "pass"))
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((n, "pass"))
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
            pass
    return out


def mutate(source, n, kind):
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    node = nodes[n]
    new = None
    if kind == "cmp":
        node.ops[0] = SWAP[type(node.ops[0])]()
    elif kind == "bool" or kind == "bin":
        node.op = SWAP[type(node.op)]()
    elif kind == "boolfirst":
        new = node.values[0]
    elif kind == "boollast":
        new = node.values[-1]
    elif kind == "swapargs":
        node.left, node.right = node.right, node.left
    elif kind == "left":
        new = node.left
    elif kind == "unary":
        new = node.operand
    elif kind == "const":
        v = node.value
        node.value = (not v) if isinstance(v, bool) else (v + 1 if isinstance(v, int) else v * 2)
    elif kind == "const0":
        node.value = type(node.value)(0)
    elif kind in ("true", "false"):
        node.test = ast.Constant(kind == "true")
    elif kind == "noT":
        new = node.value
    elif kind == "arg":
        new = node.args[0]
    elif kind == "recv":
        new = node.func.value
    elif kind == "pass":
        new = ast.Pass()
    if new is not None:
        class R(ast.NodeTransformer):
            def visit(self, x):
                return new if x is node else super().generic_visit(x)
        tree = R().visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), getattr(node, "lineno", 0)


def all_mutants(files=None):
    out = []
    for f in CHECKS:
        if files and f not in files:
            continue
        src = open(f"{REPO}/src/magnopy/{f}").read()
        base = ast.unparse(ast.parse(src))
        for n, kind in candidates(ast.parse(src)):
            text, line = mutate(src, n, kind)
            if text != base:
                out.append((f, n, kind, line))
    return out


def prepare(w):
    d = f"{ROOT}/{w}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", REPO, f"{d}/repo"], check=True)
        os.makedirs(f"{d}/verif")
        for x in ("mc", "run.sh", "setup.sh", "tools"):
            subprocess.run(["cp", "-a", f"/verif/{x}", f"{d}/verif/{x}"], check=True)
    return d


def one(args):
    f, n, kind, line, tests = args
    d = prepare(current_process().name)
    target = f"{d}/repo/src/magnopy/{f}"
    src = open(f"{REPO}/src/magnopy/{f}").read()
    text, _ = mutate(src, n, kind)
    open(target, "w").write(text)
    env = dict(os.environ, PYTHONPATH=f"{d}/repo/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", HDF5_USE_FILE_LOCKING="FALSE", VERIF_REPO=f"{d}/repo", MC_WORKERS="1", MC_FAILFAST="1", HYPOTHESIS_STORAGE_DIRECTORY=f"{d}/hyp")
    res = {"file": f, "n": n, "kind": kind, "line": line, "src": src.split("\n")[line - 1].strip()[:110]}
    try:
        for c in CHECKS[f].split():
            r = subprocess.run([PY, "tools/fast.py", c, "12"], cwd=f"{d}/verif", env=env, capture_output=True, text=True, timeout=1500)
            if r.returncode == 1:
                res["result"] = c
                return res
            if r.returncode != 0:
                res["result"] = f"{c} rc {r.returncode}"
                return res
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--doctest-modules",
                            "--deselect", "nothing", *sum((["--ignore", f"utests/test_io/test_{x}.py"] for x in ("hdf5_internal", "txt_internal", "txt_verify")), []),
                            "utests", "src"], cwd=f"{d}/repo", env=env, capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            res["result"] = "tests"
            return res
        res["result"] = "SURVIVED"
    except subprocess.TimeoutExpired:
        res["result"] = "timeout"
    finally:
        shutil.copy(f"{REPO}/src/magnopy/{f}", target)
    return res


if __name__ == "__main__":
    if sys.argv[1] == "list":
        m = all_mutants()
        print(len(m))
        from collections import Counter
        print(Counter(x[0] for x in m))
    else:
        workers, log, files = int(sys.argv[2]), sys.argv[3], sys.argv[4:]
        m = all_mutants(files)
        random.Random(5).shuffle(m)
        done = set()
        if os.path.exists(log):
            done = {(r["file"], r["n"], r["kind"]) for r in map(json.loads, open(log))}
        todo = [x + (True,) for x in m if x[:3] not in done]
        with Pool(workers) as p, open(log, "a") as out:
            for r in p.imap_unordered(one, todo):
                out.write(json.dumps(r) + "\n")
                out.flush()
