#!/usr/bin/env python3
"""Mutation campaign: how many small changes to pygsp do the checks see?

mutate.py list                     count the mutants
mutate.py run OUT.jsonl [N] [SEED] run N sampled mutants (8 at a time) in scratch copies of /repo

Each mutant replaces one expression or statement.  The checks run first, failing
fast on one core; those which survive go through the repository's stable tests.
Nothing here is registered in MANIFEST.json.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"P{i:02d}" for i in range(1, 39)]
FIRST = {
    "graphs/graph.py": "P01 P02 P03 P08 P30 P07",
    "graphs/fourier.py": "P05 P06 P07 P16 P08",
    "graphs/difference.py": "P04 P03 P08",
    "graphs/_io.py": "P17 P18",
    "graphs/_layout.py": "P27",
    "graphs/nngraphs": "P21 P20 P26",
    **{f"graphs/{k}.py": "P20 P22" for k in ("barabasialbert community davidsensornet erdosrenyi randomregular randomring "
                                             "stochasticblockmodel swissroll").split()},
    "graphs/": "P19 P22",
    "filters/approximations.py": "P10 P09 P13",
    "filters/filter.py": "P09 P14 P11 P12 P13 P16 P30 P10",
    "filters/modulation.py": "P16",
    "filters/gabor.py": "P16",
    "filters/": "P15 P12 P09",
    "features.py": "P16",
    "learning.py": "P25",
    "optimization.py": "P25",
    "plotting.py": "P30",
    "reduction.py": "P23 P24",
    "utils.py": "P26 P23 P15 P14 P28 P19",
}


def checks_of(path):
    for k, v in FIRST.items():
        if path.startswith(k):
            first = v.split()
            return first + [p for p in (ALL if os.environ.get("MUTATE_ALL") else ["P28", "P32", "P31", "P34", "P37"]) if p not in first]
    return ALL


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//"}
SWAP = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "zeros": "ones", "ones": "zeros",
        "maximum": "minimum", "minimum": "maximum", "sin": "cos", "cos": "sin", "triu": "tril", "tril": "triu",
        "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "tocsr": "tocsc", "sqrt": "abs", "abs": "negative",
        "append": "extend", "less": "greater", "sum": "mean", "mean": "sum", "sort": "unique", "union1d": "intersect1d",
        "vstack": "hstack", "hstack": "vstack", "row": "col", "sources": "targets", "targets": "sources"}


def mutants(path):
    full = os.path.join(REPO, "pygsp", path)
    src = open(full).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = src.encode()

    def pos(lineno, col):
        return starts[lineno - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(n, new, kind):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append(dict(path=path, line=n.lineno, start=a, end=b, old=data[a:b].decode(), new=new, kind=kind))

    def walk(n, skip):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return  # docstrings
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("_get_extra_repr", "__repr__", "build_logger", "filters_handler"):
            if n.name in ("build_logger",):
                return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "_logger" in text(n):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "arith")
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)):
                add(n, text(n.left), "drop-right")
        if isinstance(n, ast.BoolOp):
            parts = [f"({text(v)})" for v in n.values]
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(parts), "bool")
            for i in range(len(parts)):
                add(n, " and ".join(parts[:i] + parts[i + 1:]) if isinstance(n.op, ast.And) else " or ".join(parts[:i] + parts[i + 1:]), "drop-cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({text(n.operand)})", "unary")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, f"not ({text(n.test)})", "negate")
            if isinstance(n, ast.If):
                add(n.test, "False", "never")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.1 if n.value else .1), "const")
            elif n.value is None:
                pass
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, f"{text(n.value)}.{SWAP[n.attr]}", "swap-name")
        if isinstance(n, ast.Name) and n.id in ("sources", "targets") and isinstance(n.ctx, ast.Load):
            add(n, SWAP[n.id], "swap-name")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            add(n, text(n.value), "drop-T")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "conj", "astype", "tocsr", "tocsc", "tolil", "squeeze", "conjugate",
                                                           "reshape", "ravel", "flatten"):
                add(n, text(f.value), "drop-call")
            if isinstance(f, ast.Attribute) and f.attr in ("abs", "sqrt", "array", "asarray", "asanyarray", "atleast_2d", "atleast_1d",
                                                           "unique", "sort", "nan_to_num", "squeeze", "conj", "round", "clip", "maximum", "minimum") and n.args:
                add(n, text(n.args[0]), "drop-call")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                args = [text(a) for a in n.args]
                args[0], args[1] = args[1], args[0]
                rest = [f"{k.arg}={text(k.value)}" if k.arg else f"**{text(k.value)}" for k in n.keywords]
                add(n, f"{text(f)}({', '.join(args + rest)})", "swap-args")
            if n.keywords and all(k.arg for k in n.keywords):
                for i in range(len(n.keywords)):
                    rest = [f"{k.arg}={text(k.value)}" for j, k in enumerate(n.keywords) if j != i]
                    add(n, f"{text(f)}({', '.join([text(a) for a in n.args] + rest)})", "drop-kw")
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "drop-stmt")
            if isinstance(n.op, tuple(BIN)):
                add(n, f"{text(n.target)} {BIN[type(n.op)]}= {text(n.value)}", "aug")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Assign) and not skip and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.For):
            pass
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                pass
        for c in ast.iter_child_nodes(n):
            walk(c, skip)

    walk(ast.parse(src), False)
    seen, uniq = set(), []
    for m in out:
        k = (m["start"], m["end"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        new = data[:m["start"]] + m["new"].encode() + data[m["end"]:]
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        uniq.append(m)
    return uniq


def files():
    for root, dirs, names in os.walk(os.path.join(REPO, "pygsp")):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__", "data")]
        for f in sorted(names):
            if f.endswith(".py"):
                yield os.path.relpath(os.path.join(root, f), os.path.join(REPO, "pygsp"))


def stable_tests(repo, out):
    """The stable tests in a copy: the names that fail."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", HOME="/root", LANG="C.UTF-8")
    env.pop("DISPLAY", None)
    env["PYTHONPATH"] = repo
    try:
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300",
                        "--continue-on-collection-errors", f"--basetemp={out}/tmp", "-o", "junit_family=xunit2",
                        f"--junitxml={out}/junit.xml"], cwd=repo, env=env, capture_output=True, timeout=900)
        subprocess.run(["python3", "/opt/vp/results.py", f"{out}/res.json", f"junit:{out}/junit.xml"], capture_output=True, cwd=repo)
        passed = set(json.load(open(f"{out}/res.json"))["passed"])
    except Exception as e:
        return [repr(e)]
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def judge(m, slot):
    repo, out = f"/tmp/mut/{slot}/repo", f"/tmp/mut/{slot}/out"
    os.makedirs(out, exist_ok=True)
    target = os.path.join(repo, "pygsp", m["path"])
    data = open(os.path.join(REPO, "pygsp", m["path"]), "rb").read()
    open(target, "wb").write(data[:m["start"]] + m["new"].encode() + data[m["end"]:])
    try:
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=out, VERIF_PROCS="1", VERIF_FAILFAST="1", VERIF_BUDGET=os.environ.get("MUTATE_BUDGET", "20"),
                   VERIF_SEED="1", VERIF_TIER="quick")
        odd = []
        for p in checks_of(m["path"]):
            try:
                r = subprocess.run(["python3", f"{VERIF}/harness/run.py", p], env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                odd.append((p, "timeout"))
                continue
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return dict(m, verdict="caught", by=p, how=r.stdout.splitlines()[1].strip()[:200] if len(r.stdout.splitlines()) > 1 else "")
            if r.returncode:
                odd.append((p, r.returncode, (r.stdout + r.stderr)[-300:]))
                if r.returncode == 3 or len(odd) > 2:
                    break
        failed = stable_tests(repo, out)
        return dict(m, verdict="killed-by-tests" if failed else "survived", failed=failed[:3], odd=odd)
    finally:
        open(target, "wb").write(data)


def main():
    todo = [m for f in files() for m in mutants(f)]
    if sys.argv[1] == "list":
        import collections
        c = collections.Counter(m["path"] for m in todo)
        for k, v in sorted(c.items()):
            print(v, k)
        print(len(todo))
        return
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["path"], d["start"], d["end"], d["new"]))
    random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(todo)
    if len(sys.argv) > 5:
        todo = [m for m in todo if sys.argv[5] in m["path"]]
    todo = [m for m in todo if (m["path"], m["start"], m["end"], m["new"]) not in done]
    todo = todo[:int(sys.argv[3]) if len(sys.argv) > 3 else None]
    slots = Queue()
    for k in range(8):
        shutil.rmtree(f"/tmp/mut/{k}", ignore_errors=True)
        os.makedirs(f"/tmp/mut/{k}")
        subprocess.check_call(["cp", "-a", REPO, f"/tmp/mut/{k}/repo"])
        slots.put(k)
    f = open(out, "a")

    def one(m):
        k = slots.get()
        try:
            r = judge(m, k)
        finally:
            slots.put(k)
        f.write(json.dumps(r) + "\n")
        f.flush()

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


main()
