"""Mutation sampling: python3 tools/mutate.py CHECK[,CHECK..] file[:start-end] [--n N] [--seed S] [--jobs J]
Makes single-point mutants of a /repo source file in scratch copies and reports which survive the checks."""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(tree, lo, hi):
    out = []
    for node in ast.walk(tree):
        ln = getattr(node, "lineno", None)
        if ln is None or not lo <= ln <= hi:
            continue
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append((node, "cmp"))
        elif isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            if isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            out.append((node, "bin"))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
            out.append((node, "const"))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((node, "bool"))
        elif isinstance(node, ast.BoolOp):
            out.append((node, "boolop"))
        elif isinstance(node, ast.If):
            out.append((node, "negif"))
        if hasattr(node, "body") and isinstance(node.body, list):
            for i, s in enumerate(node.body):
                if lo <= s.lineno <= hi and isinstance(s, (ast.Assign, ast.AugAssign)) or (
                        lo <= s.lineno <= hi and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
                        and not (isinstance(s.value.func, ast.Name) and s.value.func.id == "print")):
                    out.append((node, ("del", i)))
    return out


def apply(node, kind):
    if kind == "cmp":
        node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == "bin":
        node.op = BIN[type(node.op)]()
    elif kind == "const":
        node.value = node.value + 1 if isinstance(node.value, int) else node.value * 1.1 + 0.01
    elif kind == "bool":
        node.value = not node.value
    elif kind == "boolop":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "negif":
        node.test = ast.UnaryOp(ast.Not(), node.test)
    else:
        node.body[kind[1]] = ast.Pass()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("checks")
    ap.add_argument("file")
    ap.add_argument("--n", type=int, default=30)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--func", default="")
    a = ap.parse_args()
    f, _, rng = a.file.partition(":")
    lo, hi = (map(int, rng.split("-")) if rng else (0, 10**9))
    src = open(os.path.join("/repo", f), encoding="utf-8").read()
    tree = ast.parse(src)
    names = [x for x in a.func.split(",") if x]
    rngs = [(n.lineno, n.end_lineno) for n in ast.walk(tree)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in names]

    def pick(t):
        out = sites(t, lo, hi)
        if names:
            out = [s for s in out if any(l <= s[0].lineno <= h for l, h in rngs)]
        return out
    order = list(range(len(pick(tree))))
    random.Random(a.seed).shuffle(order)
    muts = []
    for i in order[:a.n]:
        t = ast.parse(src)
        node, kind = pick(t)[i]
        isdel = kind[0] == "del"
        ln = node.body[kind[1]].lineno if isdel else node.lineno
        before = ast.unparse(node.body[kind[1]] if isdel else node)
        apply(node, kind)
        ast.fix_missing_locations(t)
        after = "pass" if isdel else ast.unparse(node)
        muts.append((ln, before.split("\n")[0], after.split("\n")[0], ast.unparse(t)))

    def run(m):
        ln, before, after, text = m
        d = tempfile.mkdtemp(prefix="mut_")
        try:
            shutil.copytree("/repo/most_queue", d + "/most_queue", ignore=shutil.ignore_patterns("tests", "tutorials", "__pycache__"))
            open(os.path.join(d, f), "w", encoding="utf-8").write(text)
            res = []
            for c in a.checks.split(","):
                p = subprocess.run(["bash", "/verif/run.sh", c, "--scale", a.scale, "--jobs", "2"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE="1"), timeout=1500)
                if p.returncode == 1:
                    return m, "killed", p.stdout.split("\n")[1].strip()[:150]
                if p.returncode != 0:
                    res.append("ERR" + p.stdout[-300:])
            return m, ("ERROR" if res else "SURVIVED"), " ".join(res)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    k = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for m, st, info in ex.map(run, muts):
            if st == "killed":
                k += 1
            else:
                print(f"{st} line {m[0]}: {m[1][:110]}  ->  {m[2][:110]} {info}", flush=True)
    print(f"{k}/{len(muts)} killed")


main()
