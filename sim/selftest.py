"""Self tests of the simulator: determinism across processes, locks, virtual time, replay."""
import os
import subprocess
import sys
import threading

from . import core, seams, world
from .core import Sim


def kernel():
    world.setup()
    seen = []

    def once():
        sim = Sim(7)
        sim.world = None
        lock = threading.Lock()
        out = []

        def work(n):
            def fn():
                for _ in range(3):
                    with lock:
                        out.append(n)
                        sim.yield_()
                        out.append(n)
                    sim.sleep_us(10 * n)
            return fn
        for i in range(3):
            sim.spawn("t%d" % i, work(i))
        sim.run()
        assert all(out[i] == out[i + 1] for i in range(0, len(out), 2)), out
        seen.append((tuple(out), sim.now_us, sim.trace.hexdigest()))
    once()
    once()
    assert seen[0] == seen[1], "kernel is not deterministic"
    assert seen[0][1] == 60, seen[0][1]
    assert seams.REAL.time() > 1e9
    assert core.current_task() is None
    # what a judging callback raises must not get lost
    sim = Sim(1)
    sim.world = None

    def judge():
        raise core.HarnessError("found")
    sim.spawn("judge", judge)
    try:
        sim.run()
    except core.HarnessError:
        pass
    else:
        raise AssertionError("an error of the harness was lost")


def digests(pid, n, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    out = subprocess.run([sys.executable, "-m", "sim.runner", pid, "--digests", str(n)], env=env,
                         capture_output=True, text=True, timeout=600)
    return out.stdout


def main():
    kernel()
    here = os.path.dirname(os.path.abspath(__file__))
    pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(here, "props")) if f[0] == "c" and f.endswith(".py"))
    bad = 0
    for pid in pids:
        a, b = digests(pid, 6, 0), digests(pid, 6, 4242)
        same = a == b and a.count("\n") >= 6
        bad += not same
        print("%s: %s" % (pid, "repeats exactly in other processes" if same else "DOES NOT REPEAT (reported, not fatal)"))
    print("self test done, %d of %d properties not exactly repeatable" % (bad, len(pids)))
    return 0
