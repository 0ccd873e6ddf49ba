#!/usr/bin/env python3
"""plant.py ID [--no-check] [--seed N]: verify one planted bug of /verif/seeded against /repo (applies and undoes the patch)."""
import json
import os
import re
import subprocess
import sys
import time

BASE = "b74521a"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(patch):
    "Are the removed lines ones of the original repository?"
    bad = []
    name = None
    old = 0
    for line in open(patch):
        if line.startswith("--- a/"):
            name = line[6:].strip()
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line).group(1))
        elif name and line.startswith("-"):
            blame = sh("git -C /repo blame -s -l -L %d,%d %s" % (old, old, name)).stdout.split(" ")[0].lstrip("^")
            full = sh("git -C /repo merge-base --is-ancestor %s %s && echo yes" % (blame, BASE)).stdout
            if "yes" not in full and not full.strip():
                bad.append("%s:%d %s" % (name, old, line.strip()))
            old += 1
        elif name and not line.startswith("+"):
            old += 1
    return bad


def main():
    sid = sys.argv[1]
    folder = "/verif/seeded/" + sid
    prop = json.load(open(folder + "/meta.json"))["property"]
    patch = folder + "/patch.diff"
    if sh("git -C /repo status --porcelain -uno").stdout:
        sys.exit("repo is not clean")
    bad = original_lines(patch)
    if bad:
        print("NOT ORIGINAL:", bad)
    res = sh("bash %s/demo.sh" % folder, cwd="/repo")
    print("clean demo", res.returncode, res.stdout[-300:] if res.returncode else "", res.stderr[-600:] if res.returncode else "")
    res = sh("git -C /repo apply --check " + patch)
    if res.returncode:
        sys.exit("patch does not apply: " + res.stderr)
    sh("git -C /repo apply " + patch)
    try:
        print(sh("sh /verif/tools/rt.sh").stdout.strip())
        res = sh("bash %s/demo.sh" % folder, cwd="/repo")
        print("patched demo", res.returncode, (res.stdout + res.stderr)[-300:])
        if "--no-check" not in sys.argv:
            start = time.time()
            res = sh("./check %s" % prop, cwd="/verif")
            print("check", prop, res.returncode, "%.0fs" % (time.time() - start))
            print("\n".join(l[:300] for l in res.stdout.splitlines() if "VIOLATION" in l or "violat" in l.lower())[:900])
    finally:
        sh("git -C /repo checkout -- .")


main()
