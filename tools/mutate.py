"""Mutation analysis: random small changes to the package, those that pass the
repository's stable tests, and whether some contract notices them.

  mutate.py N SEED OUT.jsonl [--files core.py,...]

Scratch copies under /tmp; nothing is committed."""

import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO, PY = "/repo", "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(tree):
    out = []

    def go(n, fn, par):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        doc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
        if doc:
            return
        if fn:
            q = ".".join(fn)
            if isinstance(n, ast.Compare):
                out.append((q, n, "cmp"))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                out.append((q, n, "bin"))
            elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                out.append((q, n, "bin"))
                out.append((q, n, "del"))
            elif isinstance(n, ast.BoolOp):
                out.append((q, n, "bool"))
            elif isinstance(n, ast.UnaryOp):
                out.append((q, n, "unary"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float, str)) and not isinstance(par, ast.JoinedStr):
                out.append((q, n, "const"))
            elif isinstance(n, ast.If):
                out.append((q, n, "true"))
                out.append((q, n, "false"))
            elif isinstance(n, ast.Assign):
                out.append((q, n, "del"))
            elif isinstance(n, ast.Expr):
                out.append((q, n, "del"))
            elif isinstance(n, ast.Call):
                if n.keywords:
                    out.append((q, n, "dropkw"))
                if len(n.args) > 1:
                    out.append((q, n, "swap"))
            elif isinstance(n, (ast.Break, ast.Continue, ast.Raise, ast.Assert)):
                out.append((q, n, "del"))
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                out.append((q, n, "slice"))
        for c in ast.iter_child_nodes(n):
            go(c, fn, n)

    go(tree, [], None)
    return out


def mutate(tree, k, rng):
    """A copy of the tree with site k changed; None if nothing sensible."""
    tree = copy.deepcopy(tree)
    q, n, kind = sites(tree)[k]
    old = ast.unparse(n).split("\n")[0][:120]
    if kind == "cmp":
        i = rng.randrange(len(n.ops))
        n.ops[i] = CMP[type(n.ops[i])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.op, n.operand = ast.Not(), ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "const":
        v = n.value
        if isinstance(v, bool):
            n.value = not v
        elif isinstance(v, int):
            n.value = v + rng.choice([1, -1])
        elif isinstance(v, float):
            n.value = rng.choice([v * 1.001, v + 1, -v]) if v else 1.0
        else:
            if len(v) > 40 or not v:
                return None
            n.value = v + "x" if rng.random() < 0.5 else v[:-1]
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
    elif kind == "dropkw":
        n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind == "swap":
        i = rng.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == "slice":
        if n.slice.lower is not None:
            n.slice.lower = ast.BinOp(n.slice.lower, ast.Add(), ast.Constant(1))
        else:
            n.slice.lower = ast.Constant(1)
    elif kind == "del":
        for p in ast.walk(tree):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    ast.fix_missing_locations(tree)
    new = "pass" if kind == "del" else ast.unparse(n).split("\n")[0][:120]
    if new == old:
        return None
    return tree, f"{q}:{n.lineno} [{kind}] {old}  ->  {new}"


def tests_pass(d, stable):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *stable], cwd=d, env=e, capture_output=True, text=True, timeout=300)
    return r.returncode == 0


def caught(d, dotted, contracts):
    """The first contract that would raise an alarm."""
    code = (
        "import sys,json; sys.path.insert(0, %r)\n"
        "from vc import main as M, harness as H\n"
        "props = M.load_contracts()\n"
        "from vc import run as R\n"
        "for n in %r:\n"
        "    r = M._worker((n, 'quick', 1))\n"
        "    if 'crashed' in r: print('CRASH', n, r['crashed']); continue\n"
        "    hard = [f for f in r['failures'] if f['reproduced']]\n"
        "    if hard: print('HARD', n, hard[0]['clause'], '|', hard[0]['why'][:150]); break\n"
        "    u = M.undischarged(r)\n"
        "    if u: print('NFIF', n, u[0]['clause'], '|', u[0]['detail'][:150]); break\n"
        "else: print('MISSED')\n" % (VERIF, contracts))
    r = subprocess.run([PY, "-c", code], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VC_JOBS="1"), capture_output=True, text=True, timeout=3000)
    return r.stdout.strip().split("\n")[-1] if r.stdout.strip() else "ERROR " + r.stderr[-300:]


def contract_order(dotted):
    sys.path.insert(0, VERIF)
    from vc import main as M, harness as H
    global _REG
    try:
        _REG
    except NameError:
        props = M.load_contracts()
        used = {n for v in props.PROPS.values() for n in v}
        _REG = {n: c.functions for n, c in H.REGISTRY.items() if n in used}
    w = dotted.split(".")
    mod = ".".join(w[: 2 if w[0] == "read" else 1])
    a = [n for n, f in _REG.items() if any(dotted == x or dotted.startswith(x + ".") for x in f)]
    b = [n for n, f in _REG.items() if n not in a and any(x.startswith(mod + ".") for x in f)]
    return a + b


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = sys.argv[sys.argv.index("--files") + 1].split(",") if "--files" in sys.argv else None
    jobs = int(os.environ.get("MUT_JOBS", "8"))
    rng = random.Random(seed)
    os.makedirs(BASE, exist_ok=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = [x.split("::")[0].replace(".", "/") + ".py::" + x.split("::", 1)[1] for x in base["stable"]]
    files = {}
    for d, _, fs in os.walk(REPO + "/calkulate"):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO + "/calkulate")
            if f.endswith(".py") and not p.startswith("plot") and p not in ("__init__.py", "settings.py") and (not only or p in only):
                files[p] = ast.parse(open(os.path.join(d, f)).read())
    pool = [(p, k) for p in sorted(files) for k in range(len(sites(files[p])))]
    rng.shuffle(pool)
    pool = pool[:n]

    def work(job):
        i, (p, k) = job
        m = mutate(files[p], k, random.Random(seed * 100000 + i))
        if m is None:
            return
        tree, what = m
        d = f"{BASE}/m{seed}_{i}"
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
        try:
            open(f"{d}/calkulate/{p}", "w").write(ast.unparse(tree) + "\n")
            try:
                ok = tests_pass(d, stable)
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                return
            dotted = p[:-3].replace("/", ".") + "." + what.split(":")[0]
            try:
                v = caught(d, dotted, contract_order(dotted))
            except subprocess.TimeoutExpired:
                v = "TIMEOUT"
            with open(out, "a") as f:
                f.write(json.dumps(dict(file=p, what=what, verdict=v)) + "\n")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, enumerate(pool)))


if __name__ == "__main__":
    main()
