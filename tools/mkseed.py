"""Helper to write a planted bug: mkseed(id, property, [(file, old, new)...], needs, breaks, demo)."""
import json
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def mkseed(sid, prop, edits, needs, breaks, demo, dmls="dashlivesim/"):
    folder = os.path.join("/verif/seeded", sid)
    os.makedirs(folder, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True).stdout
    try:
        for name, old, new in edits:
            path = os.path.join("/repo", dmls + name)
            text = open(path).read()
            assert text.count(old) == 1, (name, text.count(old), old)
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    open(folder + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(folder + "/meta.json", "w"), indent=1)
    open(folder + "/demo.py", "w").write(demo.lstrip("\n"))
    shutil.copy(HERE + "/seedlib/asset.py", folder)
    shutil.copy(HERE + "/seedlib/demo.sh", folder)
