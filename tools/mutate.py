#!/usr/bin/env python3
"""Looks for gaps of the checks: small mechanical changes of the server's code, in scratch copies (never in /repo).

mutate.py gen               list the mutants that compile and pass the stable tests -> /tmp/mut/alive.json
mutate.py run [FILTER] [N]  run the checks against N of them until one reports a violation -> /tmp/mut/results.jsonl
mutate.py left              show the ones that no check reports
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

OUT = "/tmp/mut"
REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["mod_wsgi/mod_dashlivesim.py", "dashlib/dash_proxy.py", "dashlib/mpd_proxy.py", "dashlib/mpdprocessor.py", "dashlib/configprocessor.py",
         "dashlib/segtimeline.py", "dashlib/mediasegmentfilter.py", "dashlib/mp4filter.py", "dashlib/initsegmentfilter.py",
         "dashlib/moduloperiod.py", "dashlib/chunker.py", "dashlib/segmentmuxer.py", "dashlib/scte35.py", "dashlib/emsg.py",
         "dashlib/ttml_timing_offset.py", "dashlib/timeformatconversions.py", "dashlib/sessionid.py",
         "vodanalyzer/dashanalyzer.py", "cc_inserter/cc_inserter.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "//", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(rel):
    full = os.path.join(REPO, "dashlivesim", rel)
    src = open(full).read()
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)

    def pos(n, end=False):
        return offs[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    covered = cover().get(rel)
    tree = ast.parse(src)
    out = []

    def add(n, new, kind):
        a, b = pos(n), pos(n, True)
        if covered is not None and not any(k in covered for k in range(n.lineno, n.end_lineno + 1)):
            return
        if src[a:b] != new:
            out.append({"file": rel, "line": n.lineno, "a": a, "b": b, "new": new, "kind": kind, "old": src[a:b]})

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                skip.add(node.body[0])
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "print":
            skip.update(ast.walk(node))
        if isinstance(node, ast.Raise):
            skip.update(ast.walk(node))
        if isinstance(node, ast.FunctionDef) and node.name in ("__str__", "main", "__repr__"):
            skip.update(ast.walk(node))
        if isinstance(node, ast.JoinedStr):
            skip.update(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = seg(src, node.left), seg(src, node.comparators[0])
            add(node, "%s %s %s" % (l, CMP[type(node.ops[0])], r), "cmp")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            add(node, "(%s %s %s)" % (seg(src, node.left), BIN[type(node.op)], seg(src, node.right)), "bin")
            if isinstance(node.op, (ast.Add, ast.Sub)):
                add(node, "(%s)" % seg(src, node.left), "drop")
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add(node, str(not node.value), "bool")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            add(node, str(node.value + 1), "const")
            if node.value:
                add(node, str(node.value - 1), "const")
        elif isinstance(node, ast.BoolOp):
            vs = [seg(src, v) for v in node.values]
            for i in range(len(vs)):
                add(node, "(%s)" % (" and " if isinstance(node.op, ast.And) else " or ").join(vs[:i] + vs[i + 1:]), "bool")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, "(%s)" % seg(src, node.operand), "not")
        elif isinstance(node, (ast.If, ast.IfExp)):
            add(node.test, "True", "if")
            add(node.test, "False", "if")
        elif isinstance(node, (ast.Assign, ast.AugAssign)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            add(node, "pass", "del")
        elif isinstance(node, ast.Call) and getattr(node.func, "id", "") in ("int", "round", "min", "max", "abs", "float") and node.args:
            add(node, "(%s)" % seg(src, node.args[0]), "call")
            if len(node.args) > 1:
                add(node, "(%s)" % seg(src, node.args[1]), "call")
            if node.func.id == "int":
                add(node, "round(%s)" % seg(src, node.args[0]), "call")
        elif isinstance(node, ast.Return) and node.value is not None:
            pass
        elif isinstance(node, ast.Break):
            add(node, "pass", "break")
        elif isinstance(node, ast.Continue):
            add(node, "pass", "continue")
    return src, out


_cov = {}


def cover():
    if not _cov:
        import glob
        for p in glob.glob("/tmp/cov/*.json"):
            for f, l in json.load(open(p)):
                _cov.setdefault(f, set()).add(l)
    return _cov


def apply(tree, m, src):
    with open(os.path.join(tree, "dashlivesim", m["file"]), "w") as f:
        f.write(src[:m["a"]] + m["new"] + src[m["b"]:])


def gen(filt=""):
    jobs = []
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or None
    for rel in FILES:
        if filt not in rel:
            continue
        src, ms = mutants(rel)
        jobs += [(src, m) for m in ms]
    print(len(jobs), "mutants")
    trees = []
    for k in range(8):
        t = "%s/t%d" % (OUT, k)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(REPO, t, ignore=shutil.ignore_patterns(".git"))
        os.makedirs(t + "/dashlivesim/tests/out_test", exist_ok=True)
        trees.append(t)
    alive = []

    def work(k):
        for src, m in jobs[k::8]:
            t = trees[k]
            try:
                compile(src[:m["a"]] + m["new"] + src[m["b"]:], "x", "exec")
            except SyntaxError:
                continue
            apply(t, m, src)
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "dashlivesim/tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=t,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
                if r.returncode == 0:
                    alive.append(m)
            except subprocess.TimeoutExpired:
                pass
            with open(os.path.join(t, "dashlivesim", m["file"]), "w") as f:
                f.write(src)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(work, range(8)))
    if filt:
        alive += [m for m in json.load(open(OUT + "/alive.json")) if filt not in m["file"]]
    alive.sort(key=lambda m: (m["file"], m["a"], m["new"]))
    json.dump(alive, open(OUT + "/alive.json", "w"))
    print(len(alive), "alive")


ORDER = {"mod_wsgi/mod_dashlivesim.py": "C12 C13 C09 C18 C11 C10", "dashlib/dash_proxy.py": "C01 C06 C03 C05 C14 C09 C19 C07 C04 C18 C02",
         "dashlib/mpd_proxy.py": "C06 C08 C20 C21 C05 C14 C02 C07", "dashlib/mpdprocessor.py": "C08 C21 C20 C05 C14 C02 C09 C15 C23 C06",
         "dashlib/configprocessor.py": "C06 C01 C02 C23 C14 C21 C07 C05 C09 C08 C18", "dashlib/segtimeline.py": "C05 C02 C07 C06 C08",
         "dashlib/mediasegmentfilter.py": "C04 C03 C16 C15 C09 C06 C05", "dashlib/mp4filter.py": "C10 C04", "dashlib/initsegmentfilter.py": "C04 C10",
         "dashlib/moduloperiod.py": "C07 C02", "dashlib/chunker.py": "C09", "dashlib/segmentmuxer.py": "C19", "dashlib/scte35.py": "C15",
         "dashlib/emsg.py": "C15 C14 C08", "dashlib/ttml_timing_offset.py": "C16", "dashlib/timeformatconversions.py": "C21 C06",
         "dashlib/sessionid.py": "C13", "vodanalyzer/dashanalyzer.py": "C17", "cc_inserter/cc_inserter.py": "C24"}
ALL = [l.split('"')[3] for l in open(HERE + "/properties.jsonl")]


def run(filt, n):
    alive = json.load(open(OUT + "/alive.json"))
    done = set()
    if os.path.exists(OUT + "/results.jsonl"):
        for l in open(OUT + "/results.jsonl"):
            r = json.loads(l)
            done.add((r["file"], r["a"], r["new"], r["old"]))
    todo = [m for m in alive if filt in m["file"] and (m["file"], m["a"], m["new"], m["old"]) not in done]
    random.Random(7).shuffle(todo)
    todo = todo[:n]
    here = OUT + "/verif%d" % os.getpid()       # checks as they are now
    shutil.copytree(HERE, here, ignore=shutil.ignore_patterns(".git", "out", "evidence"))
    shutil.copytree(REPO, here + "/repo", ignore=shutil.ignore_patterns(".git"))
    os.makedirs(here + "/out", exist_ok=True)
    os.makedirs(here + "/evidence", exist_ok=True)
    cov = {p: set((f, l) for f, l in json.load(open("/tmp/cov/%s.json" % p))) if os.path.exists("/tmp/cov/%s.json" % p) else None
           for p in ALL}
    quick = {}
    for p in ALL:
        quick[p] = int(subprocess.run(["/opt/venv/bin/python", "-c", "import importlib; print(importlib.import_module('sim.props.%s').PROP.RUNS['quick'])"
                                       % p.lower()], cwd=HERE, capture_output=True, text=True).stdout)
    lock = threading.Lock()

    def one(tree, m):
        src = open(os.path.join(here, "repo", "dashlivesim", m["file"])).read()
        if src[m["a"]:m["b"]] != m["old"]:
            return
        first = ORDER[m["file"]].split()
        order = first + [c for c in ALL if c not in first]
        lines = range(m["line"], m["line"] + m["old"].count("\n") + 1)
        order = [c for c in order if cov[c] is None and c in first or cov[c] and any((m["file"], l) in cov[c] for l in lines)]
        first = [c for c in order if c in first]
        apply(tree, m, src)
        plan = [(c, 80) for c in first] + [(c, quick[c] // 3) for c in first] + [(c, 200) for c in order if c not in first]
        caught, why, err = None, None, []
        for c, k in plan:
            try:
                r = subprocess.run(["./check", c, "--runs", str(k), "--procs", "1"], cwd=here, capture_output=True, text=True, timeout=600,
                                   env=dict(os.environ, DST_FIRST="1", DST_REPO=tree))
            except subprocess.TimeoutExpired:
                err.append("timeout " + c)
                continue
            if r.returncode == 1:
                caught = c
                why = [l[:300] for l in r.stdout.split("\n") if l.startswith("violation")][:1]
                break
            if r.returncode != 0:
                err.append(c + ": " + (r.stdout + r.stderr)[-300:])
        with open(os.path.join(tree, "dashlivesim", m["file"]), "w") as f:
            f.write(src)
        with lock:
            with open(OUT + "/results.jsonl", "a") as f:
                f.write(json.dumps(dict(m, caught=caught, why=why, err=err, checks=order)) + "\n")

    jobs = list(reversed(todo))
    par = int(os.environ.get("PAR", "8"))

    def work(k):
        tree = here + "/tree%d" % k
        shutil.copytree(here + "/repo", tree)
        while True:
            with lock:
                if not jobs:
                    return
                m = jobs.pop()
            one(tree, m)
    try:
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(work, range(par)))
    finally:
        shutil.rmtree(here)


def left():
    rs = [json.loads(l) for l in open(OUT + "/results.jsonl")]
    print(len(rs), "judged,", sum(1 for r in rs if not r["caught"]), "unreported")
    for r in sorted(rs, key=lambda r: (r["file"], r["line"])):
        if not r["caught"] or r["caught"].startswith("error"):
            print("%s:%d [%s] %s -> %s %s" % (r["file"], r["line"], r["kind"], " ".join(r["old"].split())[:90], " ".join(r["new"].split())[:90], r["caught"] or ""))


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "gen":
        gen(*sys.argv[2:3])
    elif sys.argv[1] == "run":
        run(sys.argv[2] if len(sys.argv) > 2 else "", int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 6)
    else:
        left()
