"""python3 tools/mkseed.py SPEC.py [ids..]: builds /verif/seeded/<id>/ from a spec file (a dict SEEDS: id -> property, file,
edits [(old, new)], demo (Python text), needs, breaks), confirming that the demo passes without and fails with the patch."""
import json
import os
import subprocess
import sys

SPEC = {}
exec(open(sys.argv[1], encoding="utf-8").read(), SPEC)
want = sys.argv[2:] or list(SPEC["SEEDS"])
WT = "/tmp/seed/wt"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT], stderr=subprocess.DEVNULL)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"], check=True)
SH = """#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken; run with cwd /repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec "${PY:-python3}" "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
HEAD = """import os, sys, types, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use = lambda *a, **k: None
"""


def demo(d):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=WT, capture_output=True, text=True, timeout=280)


for i in want:
    s = SPEC["SEEDS"][i]
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(HEAD + s["demo"].strip("\n") + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
    r0 = demo(d)
    for f, old, new in s["edits"]:
        p = f"{WT}/most_queue/{f}"
        t = open(p, encoding="utf-8", newline="").read()
        crlf = "\r\n" in t
        if crlf:
            t = t.replace("\r\n", "\n")
        assert t.count(old) == 1, (i, f, t.count(old))
        t = t.replace(old, new)
        if crlf:
            t = t.replace("\n", "\r\n")
        open(p, "w", encoding="utf-8", newline="").write(t)
    diff = subprocess.run(["git", "-C", WT, "diff", "--binary"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    # removed lines must be lines of the original repository
    r1 = demo(d)
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
    ok = subprocess.run(["git", "-C", WT, "apply", "--check", d + "/patch.diff"]).returncode == 0
    print(f"{i}: without {r0.returncode}, with {r1.returncode}, applies {ok}", "" if r0.returncode == 0 and r1.returncode and ok else "BAD\n" + r0.stderr[-600:] + r0.stdout[-300:])
    print("    ", (r1.stderr.strip().splitlines() or [""])[-1][:150])
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT])
