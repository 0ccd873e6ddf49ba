"""C11: a response depends only on its own request and the clock."""
import re

from .. import content
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from ..urls import gen_request
from .c10 import clock_us

HOSTS = ["other.example", "b.example:8080", "[::1]:8059", "x"]
RANGES = ["bytes=0-", "bytes=0-99", "bytes=10-19", "bytes=-20", "bytes=5-1000000", "bytes=x"]


def switches(rng):
    top = 1000 if rng.random() < 0.8 else 4000
    r = rng.random()
    if r < 0.3:
        step = rng.randrange(5, 60)
        a = rng.randrange(1, top)
        return [a + k * step for k in range(rng.randrange(3, 30))]
    return sorted({rng.randrange(1, top) for _ in range(rng.choice([1, 2, 4, 12]))})


def headers(op):
    "Request headers of an operation."
    hdr = {}
    if op.get("hdr"):
        hdr["Range"] = op["hdr"]
    if op.get("host"):
        hdr["Host"] = op["host"]
    return hdr or None


class C11(BaseProp):
    id = "C11"
    RUNS = {"quick": 4000, "thorough": 120000}
    SHRINK = ("ops", "kills", "steps")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "lat": 0}
    OPTIONAL = ("switch", "hdr", "pace", "quit", "restart", "host")
    RULE = ("one run = 1-2 assets, 1-3 workers with skewed and stepping clocks; 6-40 requests of every kind, under several server names, with different "
            "options, in bursts that are interleaved statement by statement, with slow readers, disconnecting clients, "
            "processes killed in mid-request and restarted; each response is compared (status line, headers, bytes) with the "
            "one a just started process gives to the same request at the same clock reading; non-trivial = two requests "
            "overlapped inside one worker and both were judged")
    STATE_MEASURE = "(kind, status, kinds it overlapped with in the same worker)"

    def gen(self, rng, tier):
        specs = [content.gen_spec(rng, plain=rng.random() < 0.6, subs=rng.random() < 0.5, image=rng.random() < 0.4)]
        siblings = None  # Assets with the same names of Representations and files, asked for in turn in the same way
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                siblings = rng.choice(["chunkdur_0.5/", "chunkdur_1/", "sidx_1/", "", ""])
            specs.append(content.gen_spec(rng, name=rng.choice(["b", specs[0]["name"] + "_b"]), plain=siblings is None,
                                          subs=rng.random() < 0.5, D=specs[0]["D"] if siblings is not None else None))
        assets = [content.build(s) for s in specs]
        t0 = pick_time(rng)
        at = us(t0, rng.choice(FRACS))
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        long = rng.random() < 0.15
        twins = rng.random() < 0.3
        last = None
        for _ in range(rng.randrange(15, 40) if long else rng.randrange(5, 12)):
            k = rng.randrange(len(specs))
            if twins and last is not None and rng.random() < 0.5:
                op = {"url": last["url"], "kind": last["kind"], "https": last["https"]}
            else:
                op = gen_request(rng, specs[k], assets[k], at, bad=0.08)
            if siblings is not None and op["kind"] != "bad":
                prefix = "/livesim/"
                if siblings and "chunkdur" not in op["url"] and "/sidx_" not in op["url"]:
                    op["url"] = op["url"].replace(prefix, prefix + siblings, 1)
                if last is not None and rng.random() < 0.6 and last["kind"] != "bad":
                    here = "/%s/" % specs[last["a"]]["name"]
                    op = {"url": last["url"].replace(here, "/%s/" % specs[1 - last["a"]]["name"]),
                          "kind": last["kind"], "https": last["https"]}
                    k = 1 - last["a"]
                op["a"] = k
            op["at"] = at
            op["w"] = rng.randrange(nw)
            last = op
            if rng.random() < (0.2 if long else 0.75):
                op["switch"] = switches(rng)
            if rng.random() < 0.1:
                op["hdr"] = rng.choice(RANGES)
            if "chunkdur" in op["url"] and rng.random() < 0.4:
                op["pace"] = [rng.choice([0, 1000, 700_000, 4_000_000]) for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.08:
                op["quit"] = rng.choice([0, 1, 2])
            if rng.random() < 0.04:
                op["restart"] = 1
            ops.append(op)
            at += rng.choice([0, 0, 0, 0, 0, 1, 1000, 999_999, 3_000_000, 61_000_000])
        lim = 0
        if rng.random() < 0.12:   # session limits, so that some of the answers are redirects and refusals of another kind
            lim = rng.choice([1, 5, 60])
            for op in ops:
                t = op["at"] // 1_000_000
                st = rng.choice([None, t, t, t - lim - 1, t + 100])
                if st is not None and st >= 0:
                    op["url"] = op["url"].replace("/livesim/", "/livesim/sts_%d/" % st, 1)
                if op.get("switch") and rng.random() < 0.7:
                    op["switch"] = sorted(rng.randrange(1, 60) for _ in range(rng.choice([1, 3, 8])))
        kills = []
        if rng.random() < 0.25:
            for _ in range(rng.choice([1, 2])):
                o = rng.choice(ops)
                kills.append({"w": rng.randrange(nw), "at": o["at"] + rng.choice([0, 1, 500, 500_000]), "again": rng.choice(ops)["url"]})
        out = {"assets": specs, "t0": ops[0]["at"], "workers": nw, "max_session": lim, "ops": ops, "kills": kills,
                "skews": gen_skews(rng, nw) if rng.random() < 0.4 else [],
                "steps": gen_steps(rng, t0 * 1_000_000, max(1, at - t0 * 1_000_000), rng.choice([1, 2])) if rng.random() < 0.2 else [],
                "sched": rng.randrange(1 << 30), "lat": rng.choice([0, 0, 0, 0, 50])}
        if rng.random() < 0.3:     # the same server under several names
            for op in ops:
                if rng.random() < 0.5:
                    op["host"] = rng.choice(HOSTS)
                elif rng.random() < 0.3:
                    op["https"] = not op.get("https")
        elif rng.random() < 0.12:  # every viewer asks for the same kind of thing, statement by statement in turn
            a = rng.randrange(len(assets))
            rep = rng.choice(assets[a].of_type("video") or assets[a].reps)
            opt = rng.choice(["scte35_1/", "scte35_3/", "scte35_2/", "scte35_8/", "sidx_1/", "tfdt_32/", "periods_60/"])
            D = specs[a]["D"]
            for op in ops:
                now = op["at"] // 1_000_000
                nr = rng.choice([now // D - 1, max(now - now % 60 + rng.choice([2, 4, 22, 38]) - rng.choice([0, 60, 120, 180]), 0) // D])
                op.update({"url": "/livesim/%stsbd_300/%s/%s/%d.m4s" % (opt, specs[a]["name"], rep.id, nr),
                           "kind": "seg", "a": a, "at": ops[0]["at"], "w": 0})
                step = rng.choice([1, 2, 3, 5, 7, 11])
                lo = rng.randrange(1, 1500)
                op["switch"] = sorted(set(range(lo, lo + 40 * step, step)))
        return out

    def run(self, scn, res):
        w, assets = make_world(scn, asset_specs=scn["assets"])
        rw, _ = make_world({"t0": 0, "sched": 1, "max_session": scn.get("max_session", 0)}, asset_specs=scn["assets"])
        w.vfs.read_lat_us = scn.get("lat", 0)
        nw = len(w.workers)
        active = {i: set() for i in range(nw)}
        got = []
        tasks = []

        def launch(op, idx):
            wk = w.workers[op["w"] % nw]

            def start():
                if op.get("restart"):
                    wk.restart()
                pace = op.get("pace")
                state = {"n": 0}

                def reader(r, chunk):
                    state["n"] += 1
                    if "quit" in op and state["n"] > op["quit"]:
                        return False
                    if pace:
                        w.sim.sleep_us(pace[(state["n"] - 1) % len(pace)])
                    return True
                hdr = headers(op)
                over = set()

                def fn():
                    for other in active[wk.idx]:
                        other[1].add(op["kind"])
                        over.add(other[0])
                    me = _Me(op["kind"], over)
                    active[wk.idx].add(me)
                    try:
                        r = w.serve(wk, op["url"], hdr, bool(op.get("https")), reader)
                    finally:
                        active[wk.idx].discard(me)
                    got.append((op, r, over))
                    return r
                t = w.sim.spawn("r%d" % idx, fn, wk, None, tuple(op.get("switch", ())))
                w.nreq += 1
                tasks.append(t)
            w.sim.at(max(op["at"], w.sim.start_us), start)

        for i, op in enumerate(scn["ops"]):
            launch(op, i)
        for k in scn["kills"]:
            def kill(k=k):
                wk = w.workers[k["w"] % nw]
                for t in tasks:
                    if t.worker is wk and t.state != "done":
                        w.sim.kill(t)
                        w.count("process_kill")
                wk.restart()
            w.sim.at(max(k["at"], w.sim.start_us), kill)
            launch({"url": k["again"], "kind": "after-kill", "at": k["at"] + 1, "w": k["w"]}, 1000)
        w.sim.run()
        res.absorb(w)
        if w.vfs.open_handles and not scn["kills"]:
            res.bad("handle-leak", "%d file handles are still open after all requests" % w.vfs.open_handles)
            return
        lost = [t for t in tasks if t.result is None and not t.killed]
        if lost:
            res.bad("no-response", "%s: request was not answered: %s" % (lost[0].name, lost[0].exc))
            return
        n_over = 0
        for op, r, over in got:
            if r.killed:
                continue
            if not wellformed(r, res):
                return
            if not r.readings:
                res.bad("no-clock", "%s: no clock reading" % r.url)
                return
            c = clock_us(r.readings[0])
            moved = any(clock_us(x) != c for x in r.readings)
            rw.workers[0].restart()
            rw.sim.now_us = c
            q = rw.get(op["url"], headers=headers(op), https=bool(op.get("https")))
            if q.hung or q.exc is not None:
                res.bad("exception", "%s alone: %s %s" % (op["url"], q.exc, q.hung))
                return
            if moved and op["kind"] in ("mpd", "period", "after-kill", "bad"):
                res.count("clock_moved")
                continue
            n_over += bool(over)
            res.count("compared")
            res.states.add((op["kind"], r.status, tuple(sorted(over))))
            if r.status == q.status == 302:  # the session id is drawn at random
                for x in (r, q):
                    x.hlist = [(k, re.sub("/sid_[0-9a-zA-Z]+/", "/sid_/", v)) for k, v in x.hlist]
            same = (r.status, r.reason, sorted(r.hlist)) == (q.status, q.reason, sorted(q.hlist))
            whole = r.body == q.body if r.complete else q.body.startswith(r.body)
            if not same or not whole:
                what = "status %s/%s" % (r.status, q.status) if r.status != q.status else \
                    "headers %s / %s" % ([h for h in r.hlist if h not in q.hlist], [h for h in q.hlist if h not in r.hlist]) \
                    if not same else diff(r.body, q.body)
                res.bad("differs", "%s at %.6f (worker %d, overlapping %s): differs from the answer of a fresh process: %s" % (
                    r.url, r.readings[0], r.worker, sorted(over) or "nothing", what))
                return
        res.nontrivial = n_over >= 2


class _Me:
    def __init__(self, kind, over):
        self.kind, self.over = kind, over

    def __getitem__(self, k):
        return (self.kind, self.over)[k]


def diff(a, b):
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d/%d bytes, first difference at %d: %r / %r" % (len(a), len(b), i, a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])


PROP = C11()
