"""Seeded search: many simulated runs over all cores, minimisation, replay files, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import core, seams
from .core import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "out")
RTIME = seams.REAL.time


class Result:
    "What one simulated run produced."

    def __init__(self):
        self.violations = []       # (sig, message)
        self.counts = {}
        self.states = set()        # small hashables: distinct situations reached
        self.sim_s = 0.0
        self.requests = 0
        self.digest = ""
        self.inter = ""            # interleaving hash
        self.preempts = 0
        self.switches = 0
        self.lines = 0
        self.nontrivial = True

    def bad(self, sig, msg):
        self.violations.append((sig, msg))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def absorb(self, world):
        for k, v in world.counts.items():
            self.count("fault:" + k, v)
        self.sim_s += world.sim.span_us / 1e6
        self.requests += world.nreq
        self.preempts += world.sim.n_preempt
        self.switches += world.sim.n_switch
        self.lines += world.sim.total_lines
        d = world.digest()
        self.digest = hashlib.sha256((self.digest + d).encode()).hexdigest()
        self.inter = hashlib.sha256((self.inter + world.sim.trace.hexdigest()).encode()).hexdigest()
        if world.vfs.stray:
            self.bad("stray-io", "file access outside the content and configuration roots: %s" % world.vfs.stray[:3])


def load(pid):
    return importlib.import_module("sim.props.%s" % pid.lower()).PROP


def run_scenario(prop, scn):
    "One simulated run -> Result.  Never raises except HarnessError."
    res = Result()
    try:
        prop.run(scn, res)
    except HarnessError:
        raise
    except Exception as exc:  # the oracle could not interpret what the server produced
        tb = traceback.extract_tb(exc.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        res.bad("uninterpretable", "output could not be interpreted: %s: %s (%s)" % (type(exc).__name__, exc, where))
        res.tb = "".join(traceback.format_exception(exc))
    return res


def gen(prop, seed, index, tier):
    rng = random.Random("%s/%s/%d" % (prop.id, seed, index))
    scn = prop.gen(rng, tier)
    return json.loads(json.dumps(scn))


_G = {}


class Stuck(BaseException):
    "A run took far too long in real time."


def _alarm(*_):
    raise Stuck("no progress for 150 s of real time")


def _slice(args):
    k, n, runs, deadline = args
    prop, seed, tier = _G["prop"], _G["seed"], _G["tier"]
    out = {"runs": 0, "requests": 0, "sim_s": 0.0, "counts": {}, "states": set(), "inter": set(), "digests": set(),
           "nontrivial": set(), "viol": [], "preempts": 0, "switches": 0, "lines": 0, "error": None, "samples": []}
    signal.signal(signal.SIGALRM, _alarm)
    lines = cover_start() if FIRST is not None or COVER else None
    for i in range(k, runs, n):
        if RTIME() > deadline or (FIRST is not None and FIRST.is_set()):
            break
        try:
            signal.setitimer(signal.ITIMER_REAL, 150)
            scn = gen(prop, seed, i, tier)
            res = run_scenario(prop, scn)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except HarnessError as exc:
            out["error"] = "run %d: %s\n%s" % (i, exc, traceback.format_exc())
            break
        except BaseException as exc:
            out["error"] = "run %d: %s: %s\n%s" % (i, type(exc).__name__, exc, traceback.format_exc())
            break
        out["runs"] += 1
        out["requests"] += res.requests
        out["sim_s"] += res.sim_s
        out["preempts"] += res.preempts
        out["switches"] += res.switches
        out["lines"] += res.lines
        for key, v in res.counts.items():
            out["counts"][key] = out["counts"].get(key, 0) + v
        out["states"] |= {hash_small(s) for s in res.states}
        out["inter"].add(res.inter[:16])
        out["digests"].add(res.digest[:16])
        if res.nontrivial:
            out["nontrivial"].add(hash_small(json.dumps(scn, sort_keys=True)))
        if len(out["samples"]) < 1 and i < n:
            out["samples"].append(trim(scn))
        fresh = [v for v in res.violations if not known(prop.id, v[0])]
        for v in res.violations:
            if known(prop.id, v[0]):
                out["counts"]["known:" + v[0]] = out["counts"].get("known:" + v[0], 0) + 1
        if fresh:
            out["viol"].append((i, scn, fresh[:5]))
            if FIRST is not None:
                FIRST.set()
            if len(out["viol"]) >= 3:
                break
    if lines is not None:
        out["covered"] = sorted(lines)
    return out


# For the tools that look for gaps (tools/mutate.py): stop at the first violation; record the lines executed
FIRST = multiprocessing.get_context("fork").Event() if os.environ.get("DST_FIRST") else None
COVER = os.environ.get("DST_COVER")


def cover_start():
    lines = set()
    if COVER:
        mon = sys.monitoring
        mon.use_tool_id(3, "cover")

        def hit(code, line):
            if "dashlivesim" in code.co_filename:
                lines.add((code.co_filename.split("dashlivesim/", 1)[1], line))
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, hit)
        mon.set_events(3, mon.events.LINE)
    return lines


def hash_small(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def trim(scn):
    s = json.dumps(scn)
    return s if len(s) < 1500 else s[:1500] + "..."


_known = None


def known_data():
    global _known
    if _known is None:
        p = os.path.join(HERE, "known_findings.json")
        _known = json.load(seams.REAL.open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
    return _known


def known(pid, sig):
    return any(f["property"] == pid and f["sig"] == sig for f in known_data()["findings"])


def minimise(prop, scn, sig, budget_s=60.0):
    "Greedy delta debugging over the scenario's lists and optional values."
    end = RTIME() + budget_s
    best = scn
    tries = 0

    def still(c):
        nonlocal tries
        tries += 1
        try:
            return any(v[0] == sig for v in run_scenario(prop, json.loads(json.dumps(c))).violations)
        except BaseException:
            return False

    for key in prop.SHRINK:
        if not isinstance(best.get(key), list):
            continue
        n = max(1, len(best[key]) // 2)
        while n >= 1 and RTIME() < end:
            i = 0
            changed = False
            while i < len(best[key]) and RTIME() < end:
                c = copy.deepcopy(best)
                del c[key][i:i + n]
                if still(c):
                    best = c
                    changed = True
                else:
                    i += n
            if n == 1 and not changed:
                break
            n = max(1, n // 2) if not (n == 1 and changed) else 1
    for key, simple in getattr(prop, "SIMPLIFY", {}).items():
        if key in best and best[key] != simple and RTIME() < end:
            c = copy.deepcopy(best)
            c[key] = simple
            if still(c):
                best = c
    # drop per-op decorations
    for key in prop.SHRINK:
        if not isinstance(best.get(key), list):
            continue
        for i, op in enumerate(best[key]):
            if isinstance(op, dict):
                for k in [k for k in op if k in getattr(prop, "OPTIONAL", ())]:
                    if RTIME() > end:
                        break
                    c = copy.deepcopy(best)
                    del c[key][i][k]
                    if still(c):
                        best = c
    return best, tries


def write_replay(prop, seed, index, scn, sig, msg, digest, orig_len):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s-%s.replay.json" % (prop.id, seed, index))
    with seams.REAL.open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "run": index, "signature": sig, "violation": msg,
                   "digest": digest, "scenario": scn, "original_size": orig_len}, f, indent=1)
    return path


def replay(path):
    with seams.REAL.open(path) as f:
        rec = json.load(f)
    prop = load(rec["property"])
    a = run_scenario(prop, json.loads(json.dumps(rec["scenario"])))
    hit = [v for v in a.violations if v[0] == rec["signature"]]
    print("replayed %s: %d violation(s), digest %s" % (path, len(a.violations),
                                                       "identical" if a.digest == rec["digest"] else "DIFFERENT"))
    for sig, msg in a.violations:
        print("  %s: %s" % (sig, msg))
    if hasattr(a, "tb"):
        print(a.tb)
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    return 0


def check(pid, tier, seed, runs=None, procs=None, wall=None):
    t0 = RTIME()
    prop = load(pid)
    runs = runs or prop.RUNS[tier]
    wall = wall or (420 if tier == "quick" else 3 * 3600)
    procs = procs or os.cpu_count() or 4
    procs = max(1, min(procs, runs, 16))
    _G.update(prop=prop, seed=seed, tier=tier)
    status = 0
    viols = []
    # pinned scenarios: findings on record and regressions of repaired defects
    pinned = []
    pdir = os.path.join(HERE, "sim", "pinned")
    for name in sorted(os.listdir(pdir)) if os.path.isdir(pdir) and not os.environ.get("DST_NOPIN") else []:
        if name.startswith(pid + "-") and name.endswith(".json"):
            with seams.REAL.open(os.path.join(pdir, name)) as f:
                pinned.append((name, json.load(f)))
    ctx = multiprocessing.get_context("fork")
    deadline = t0 + wall
    with ctx.Pool(procs) as pool:
        parts = pool.map(_slice, [(k, procs, runs, deadline) for k in range(procs)], chunksize=1)
    errors = [p["error"] for p in parts if p["error"]]
    if COVER:
        with seams.REAL.open(COVER, "w") as f:
            json.dump(sorted({tuple(x) for p in parts for x in p.get("covered", [])}), f)
    pin_known = set()
    pin_counts = 0
    for name, rec in pinned:
        try:
            res = run_scenario(prop, rec["scenario"])
        except BaseException as exc:
            errors.append("pinned %s: %s" % (name, traceback.format_exc()))
            continue
        pin_counts += 1
        for sig, msg in res.violations:
            if known(pid, sig):
                pin_known.add(sig)
            else:
                viols.append(("pin-" + name[:-5], rec["scenario"], [(sig, msg)]))
                break
    for p in parts:
        viols += p["viol"]
    agg = {"runs": 0, "requests": 0, "sim_s": 0.0, "preempts": 0, "switches": 0, "lines": 0}
    counts = {}
    sets = {"states": set(), "inter": set(), "digests": set(), "nontrivial": set()}
    samples = []
    for p in parts:
        for k in agg:
            agg[k] += p[k]
        for k, v in p["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k in sets:
            sets[k] |= p[k]
        samples += p["samples"]
    search_s = max(1e-6, RTIME() - t0)
    for f in known_data()["findings"]:
        if f["property"] == pid and (f["sig"] in pin_known or counts.get("known:" + f["sig"])):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if viols:
        # the smallest case of the most basic kind first
        viols.sort(key=lambda v: (v[2][0][0] == "uninterpretable", len(json.dumps(v[1]))))
        index, scn, vs = viols[0]
        sig, msg = vs[0]
        small, tries = (scn, 0) if FIRST is not None else minimise(prop, scn, sig, 40.0 if tier == "quick" else 300.0)
        res = run_scenario(prop, json.loads(json.dumps(small)))
        hit = [v for v in res.violations if v[0] == sig] or [(sig, msg)]
        path = write_replay(prop, seed, index, small, sig, hit[0][1], res.digest, len(json.dumps(scn)))
        print("violation %s: %s" % (sig, hit[0][1]))
        print("found in run %s of seed %s; minimised with %d extra runs from %d to %d bytes" %
              (index, seed, tries, len(json.dumps(scn)), len(json.dumps(small))))
        kinds = sorted({v[0] for x in viols for v in x[2]})
        print("all signatures seen: %s" % ", ".join(kinds))
        if hasattr(res, "tb"):
            print(res.tb)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    elif errors:
        status = 2
    for e in errors:
        print("ERROR (harness, not a verdict): %s" % e)
    wall_s = RTIME() - t0
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    other = {k: v for k, v in sorted(counts.items()) if not k.startswith("fault:")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": agg["runs"] + pin_counts,
              "distinct_nontrivial": len(sets["nontrivial"]),
              "rule": prop.RULE,
              "samples": samples[:3],
              "simulated_runs": agg["runs"],
              "pinned_scenarios": pin_counts,
              "runs_per_hour": int(agg["runs"] / search_s * 3600),
              "requests": agg["requests"],
              "simulated_seconds": round(agg["sim_s"], 1),
              "repo_source_lines_executed": agg["lines"],
              "fault_kinds_injected": faults,
              "checks_made": other,
              "scheduler_switches": agg["switches"],
              "line_level_preemptions": agg["preempts"],
              "distinct_interleavings": len(sets["inter"]),
              "distinct_outcomes": len(sets["digests"]),
              "distinct_states": len(sets["states"]),
              "state_measure": getattr(prop, "STATE_MEASURE", "outcome digests"),
              "real_components": prop.REAL,
              "stub_components": prop.STUB,
          },
          "assumptions": prop.ASSUMPTIONS,
          "wall_s": round(wall_s, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with seams.REAL.open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%s: %d runs, %d requests, %.0f simulated s, %d distinct outcomes, %.1f s wall, exit %d" %
          (pid, tier, seed, agg["runs"], agg["requests"], agg["sim_s"], len(sets["digests"]), wall_s, status))
    return status


def determinism(pid, seed, runs):
    "Print the digests of the first runs (compared across processes by the self test)."
    prop = load(pid)
    for i in range(runs):
        res = run_scenario(prop, gen(prop, seed, i, "quick"))
        print(i, res.digest, len(res.violations))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--procs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--one", type=int, help="run a single index verbosely")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.selftest:
        from . import selftest
        return selftest.main()
    if a.replay:
        return replay(a.replay)
    if a.digests:
        return determinism(a.prop, a.seed, a.digests) or 0
    if a.one is not None:
        prop = load(a.prop)
        scn = gen(prop, a.seed, a.one, a.tier)
        res = run_scenario(prop, scn)
        print(json.dumps(scn)[:3000])
        for v in res.violations:
            print(v)
        if hasattr(res, "tb"):
            print(res.tb)
        print(res.counts)
        return 1 if res.violations else 0
    return check(a.prop, a.tier, a.seed, a.runs, a.procs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
