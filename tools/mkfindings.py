#!/usr/bin/env python3
"""Writes known_findings.jsonl: open findings (JSON lines) and 'fixed:' lines from /repo's fix commits."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = json.load(open(os.path.join(V, "tools", "open_findings.json")))
PROPS = json.load(open(os.path.join(V, "tools", "fix_props.json")))
log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True)
out = [json.dumps(o) for o in OPEN]
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ps = [p for k, p in PROPS.items() if s.startswith(k)]
    assert len(ps) == 1, (s, ps)
    out.append(f"fixed: property={ps[0]} {h} {s}")
open(os.path.join(V, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
print(len(OPEN), "open", len(out) - len(OPEN), "fixed")
