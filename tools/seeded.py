#!/usr/bin/env python3
"""Plant bugs, and run the checks on the planted ones (in scratch copies of /repo).

seeded.py add SPEC.py [ID...]   validate the bugs of SPEC.py (a list BUGS of dicts id, prop, subs, needs, breaks, demo), and keep
                                those which apply, pass the stable tests and have a demonstration as seeded/<id>/
seeded.py run [--demo] [ID...]  run the check of each planted bug's property on it; with --demo also its demonstration
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = f"{VERIF}/seeded"
ROOT = "72560e9"


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def copy():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.check_call(["cp", "-a", REPO, f"{d}/repo"])
    return d, f"{d}/repo"


def stable(repo, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", HOME="/root", LANG="C.UTF-8",
               PYTHONPATH=repo)
    env.pop("DISPLAY", None)
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300",
        "--continue-on-collection-errors", f"--basetemp={out}/tmp", "-o", "junit_family=xunit2", f"--junitxml={out}/junit.xml"],
       repo, 900, env)
    sh(["python3", "/opt/vp/results.py", f"{out}/res.json", f"junit:{out}/junit.xml"], repo)
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(f"{out}/res.json"))["passed"]))


def demo(folder, repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return sh(["bash", f"{folder}/demo.sh"], repo, 300, env)


def add(b):
    d, repo = copy()
    try:
        for rel, old, new in b["subs"]:
            p = f"{repo}/pygsp/{rel}"
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"{rel}: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], repo).stdout
        # At least one changed line of every hunk comes from the original repository.
        original = 0
        for rel in {r for r, _, _ in b["subs"]}:
            blame = sh(["git", "blame", "-s", "HEAD", "--", f"pygsp/{rel}"], repo).stdout.splitlines()
            diff = sh(["git", "diff", "-U0", "--", f"pygsp/{rel}"], repo).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                mine = [l for l in blame[a - 1:a - 1 + n] if l.lstrip("^").split()[0][:7] != ROOT]
                original += n - len(mine)
                if mine:
                    return b["id"], f"changes lines added by fixes: {mine}"
        if not original:
            return b["id"], "no original line is changed"
        folder = f"{d}/{b['id']}"
        os.makedirs(folder)
        open(f"{folder}/patch.diff", "w").write(patch)
        open(f"{folder}/demo.py", "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + b["demo"].lstrip("\n"))
        open(f"{folder}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
                                             'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{folder}/meta.json", "w"), indent=1)
        r = demo(folder, repo)
        if r.returncode == 0:
            return b["id"], "the demonstration passes with the change"
        why = r.stderr.strip().splitlines()[-1:] or [r.returncode]
        failed = stable(repo, d)
        if failed:
            return b["id"], f"stable tests fail: {failed[:3]}"
        sh(["git", "checkout", "--", "."], repo)
        r = demo(folder, repo)
        if r.returncode:
            return b["id"], f"the demonstration fails without the change: {r.stderr[-300:]}"
        if sh(["git", "apply", "--check", f"{folder}/patch.diff"], repo).returncode:
            return b["id"], "does not apply"
        shutil.rmtree(f"{SEEDED}/{b['id']}", ignore_errors=True)
        shutil.copytree(folder, f"{SEEDED}/{b['id']}")
        return b["id"], f"kept ({str(why[0])[:120]})"
    finally:
        shutil.rmtree(d)


def run(b, with_demo=False, only=None):
    d, repo = copy()
    try:
        prop = json.load(open(f"{SEEDED}/{b}/meta.json"))["property"]
        if sh(["git", "apply", f"{SEEDED}/{b}/patch.diff"], repo).returncode:
            return b, prop, "DOES NOT APPLY", ""
        if with_demo and demo(f"{SEEDED}/{b}", repo).returncode == 0:
            return b, prop, "DEMO PASSES", ""
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d, VERIF_PROCS=os.environ.get("VERIF_PROCS", "2"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                   VERIF_TIER="quick", VERIF_FAILFAST="1")
        r = sh(["python3", f"{VERIF}/harness/run.py", only or prop], VERIF, 1800, env)
        if r.returncode == 1 and f"VIOLATION property={only or prop} " in r.stdout:
            lines = r.stdout.splitlines()
            how = [l.strip() for l in lines if not l.startswith(("VIOLATION", "KNOWN"))]
            return b, prop, "caught", (how or lines)[0][:150]
        return b, prop, f"MISSED (exit {r.returncode})", (r.stdout + r.stderr)[-200:] if r.returncode else ""
    finally:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    os.makedirs(SEEDED, exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        if cmd == "add":
            spec = {}
            exec(open(args[0]).read(), spec)
            todo = [b for b in spec["BUGS"] if not args[1:] or b["id"] in args[1:]]
            for b, r in ex.map(add, todo):
                print(f"{b:32s} {r}", flush=True)
        else:
            names = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
            for r in ex.map(lambda b: run(b, "--demo" in args), names):
                print("{:32s} {} {:8s} {}".format(*r), flush=True)


main()
