"""C23: relative start and stop times are pinned at first contact."""
import re
import xml.etree.ElementTree as ET
from fractions import Fraction as Fr

from .. import client, content, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from .c02 import PPH
from .c20 import difference

NS = mpdref.NS


class C23(BaseProp):
    id = "C23"
    RUNS = {"quick": 3500, "thorough": 70000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0}
    OPTIONAL = ("switch", "restart", "hop")
    RULE = ("one run = 1-3 clients that first contact a startrel/stoprel URL at drawn instants, then refresh through the "
            "Location they got and fetch segments relative to it, on 1-3 workers with skewed/stepped clocks, restarts and "
            "preemption; every answer is compared with what the absolute URL of the first contact's clock gives on a just "
            "started process; non-trivial = a refresh or segment through a Location was judged")
    STATE_MEASURE = "(option names, sign of offsets, phase in the session, position of the start in its segment)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True, nvid=1)
        D, L = spec["D"], spec["L"]
        t0 = max(200_000, pick_time(rng))
        tl = rng.random() < 0.3
        opts = []
        off = rng.choice([0, -1, -D, -20, -20, -59, -600, -7000 if not tl else -90, 1, D, 15, 60])
        start_rel = rng.random() < 0.85
        opts.append(["startrel", off] if start_rel else [rng.choice(["start", "ast"]), t0 + off])
        length = rng.choice([1, D, D + 1, 10, 30, 60, 61, 600])
        q = rng.random()
        if not start_rel or q < 0.5:
            opts.append(["stoprel", off + length])
        elif q < 0.6:
            opts.append(["stop", t0 + off + length])
        elif q < 0.75:
            for _ in range(rng.choice([1, 1, 2])):
                opts.append(["dur", max(D, rng.choice([length, 10, 30]))])
        if rng.random() < 0.25:
            opts.append(["timeoffset", rng.choice([0, 0, (t0 + off) // D // 3 * D])])
        if tl:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.3:
            opts.append(["periods", rng.choice(PPH)])
            if rng.random() < 0.4:
                opts.append(["continuous", 1])
            if rng.random() < 0.3:
                opts.append(["peroff", 1])
            if rng.random() < 0.3:
                n = dict(opts)["periods"]
                opts.append([rng.choice(["xlink", "mpdcallback"]), rng.choice([x for x in PPH if n % x == 0])])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 7])])
        if rng.random() < 0.4:
            opts.append(["tsbd", rng.choice([1, 10, 30, 600])])
        if rng.random() < 0.2:
            opts.append(["mup", rng.choice([1, 5, 30])])
        if rng.random() < 0.2:
            opts.append(["ato", rng.choice(["inf", 1, 0.5])])
        if rng.random() < 0.15:
            opts.append(["spd", rng.choice([1, 10])])
        if rng.random() < 0.15:
            opts.append(["utc", rng.choice(["head", "ntp-sntp", "httpiso"])])
        if rng.random() < 0.15:
            opts.append(["scte35", rng.choice([1, 2, 3])])
        if rng.random() < 0.15:
            opts.append(["chunkdur", rng.choice([0.5, 1])])
        if rng.random() < 0.1:
            opts.append(["init", rng.choice([1, 10])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = {"at": us(t0, rng.choice(FRACS)) + rng.choice([0, 0, 1, 500_000, us(1), us(D)]), "w": rng.randrange(nw), "then": []}
            for _ in range(rng.randrange(1, 7)):
                st = {"k": rng.choice(["mpd", "mpd", "seg", "seg", "init"]), "w": rng.randrange(nw),
                      "dt": rng.choice([0, 1, 400_000, us(1), us(D), us(D) - 1, us(10), us(30), us(61), us(700)]),
                      "pick": rng.randrange(1 << 20)}
                if rng.random() < 0.3:
                    st["hop"] = 1          # the clock of the client: at the end of the session
                if rng.random() < 0.15:
                    st["switch"] = sorted(rng.randrange(1, 2000) for _ in range(3))
                if rng.random() < 0.08:
                    st["restart"] = 1
                op["then"].append(st)
            if rng.random() < 0.2:
                op["switch"] = sorted(rng.randrange(1, 2500) for _ in range(3))
            ops.append(op)
        ops.sort(key=lambda o: o["at"])
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw, "https": int(rng.random() < 0.2),
                "skews": gen_skews(rng, nw) if rng.random() < 0.4 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 30_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"t0": 0, "sched": 1}, asset_specs=[scn["asset"]])
        opts = [tuple(x) for x in scn["opts"]]
        o = dict(opts)
        if "startrel" not in o and "start" not in o and "ast" not in o or "startrel" not in o and "stoprel" not in o:
            return
        https = bool(scn.get("https"))
        D = a.D
        origin = "http%s://%s" % ("s" if https else "", w.HOST)
        flags = {"loc": 0}
        later = []

        def prefix(some):
            return "/livesim/" + "".join("%s_%s/" % x for x in some) + a.name + "/"

        def absolute(now):
            "The options of the session that a first contact at second now describes."
            return [(k[:-3], now + v) if k in ("startrel", "stoprel") else (k, v) for k, v in opts]

        def reference(path, t):
            rw.sim.now_us = int(round(t * 1_000_000))
            return rw.get(path, https=https)

        def first(op, r):
            if not wellformed(r, res) or res.violations:
                return
            later.append(lambda: judge_mpd(r, int(r.readings[0]), None))
            if r.status != 200:
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad:
                return
            if len(m.location) == 1 and m.location[0].startswith(origin + "/"):
                step(op["then"], 0, m.location[0], int(r.readings[0]), m)

        def step(steps, i, loc, now0, m):
            if i >= len(steps):
                return
            st = steps[i]
            at = w.sim.now_us + st["dt"]
            s = model.Session(a, absolute(now0))
            if st.get("hop"):
                end = s.stop if s.stop is not None else s.ast + (s.announced(now0) or 100)
                at = max(at, us(end) + (st["pick"] % 5 - 2) * 700_000)
            wk = st["w"] % len(w.workers)
            if st.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            sw = tuple(st.get("switch", ()))
            path = client.path_of(loc)
            if st["k"] == "mpd" or not m.periods or not all(p.sets for p in m.periods):
                def cb(r):
                    if not wellformed(r, res) or res.violations:
                        return
                    later.append(lambda: judge_mpd(r, now0, path))
                    try:
                        m2 = mpdref.MPD(r.body) if r.status == 200 else m
                    except mpdref.Bad:
                        return
                    step(steps, i + 1, m2.location[0] if m2.location else loc, now0, m2)
                w.spawn_request(path, at_us=at, worker=wk, https=https, switch=sw, cb=cb)
                return

            def ask():
                t = Fr(w.sim.now_us, 1_000_000)
                live = [p for p in m.periods if p.href is None]
                if not live:
                    step(steps, i + 1, loc, now0, m)
                    return
                p = live[st["pick"] % len(live)]
                sets = [x for x in p.sets if x.type != "image"]
                ast_ = sets[st["pick"] // 3 % len(sets)]
                rid = ast_.reps[st["pick"] // 7 % len(ast_.reps)]
                base = path.rsplit("/", 1)[0] + "/"
                if st["k"] == "init":
                    url = base + ast_.t.init.replace("$RepresentationID$", rid)
                else:
                    its = client.items(m, m.periods.index(p), ast_, t, tail=12)
                    if not its:
                        step(steps, i + 1, loc, now0, m)
                        return
                    url = client.path_of(client.url_for(origin + base, ast_, rid, its[st["pick"] // 11 % len(its)]))

                def cb(r):
                    if not wellformed(r, res) or res.violations:
                        return
                    later.append(lambda: judge_file(r, now0, base, url))
                    step(steps, i + 1, loc, now0, m)
                w.spawn_request(url, at_us=w.sim.now_us, worker=wk, https=https, switch=sw, cb=cb)
            w.sim.at(max(at, w.sim.now_us), ask)

        def judge_mpd(r, now0, path):
            "path: the address within the session if this was a refresh."
            t = r.readings[0]
            what = "%s at clock %.6f (first contact in second %d)" % (r.url, t, now0)
            want = absolute(now0)
            s = model.Session(a, want)
            if s.stop is not None and s.stop <= s.ast:
                return          # A session that ends before it starts
            q = reference(prefix(want) + a.mpd_name, t)
            if r.status != q.status:
                res.bad("status", "%s: status %s %r, the absolute URL gives %s" % (what, r.status, r.body[:150], q.status))
                return
            if r.status != 200:
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            if m.ast != s.ast:
                res.bad("start", "%s: starts %s, expected %s" % (what, m.ast, s.ast))
                return
            if m.dur != s.announced(int(t)):
                res.bad("duration", "%s: lasts %s, expected %s" % (what, m.dur, s.announced(int(t))))
                return
            if path is None:
                if m.base:
                    res.bad("baseurl", "%s: BaseURL %s beside the Location" % (what, m.base))
                    return
                if len(m.location) != 1:
                    res.bad("location-count", "%s: Locations %s" % (what, m.location))
                    return
                problem = self.misplaced(m.location[0], origin, opts, want, a)
                if problem:
                    res.bad("location", "%s: Location %s %s" % (what, m.location[0], problem))
                    return
                mine = opts
            else:
                if m.location:
                    res.bad("location-again", "%s: Locations %s" % (what, m.location))
                    return
                if not m.base:
                    res.bad("no-baseurl", "%s: no BaseURL" % what)
                    return
                mine = None
                flags["loc"] += 1
            x, y = canon(r.body, a), canon(q.body, a)
            if x != y:
                res.bad("session-differs" if path is None else "refresh-differs", "%s: not what %s gives: %s" % (
                    what, prefix(want), difference(x, y)))
                return
            res.count("first_contacts" if path is None else "refreshes")
            phase = "before" if t < s.ast else "during" if s.announced(int(t)) is None or t < s.ast + s.announced(int(t)) else "after"
            res.states.add((tuple(sorted(o)), int(o.get("startrel", 0)) > 0, phase, now0 % D, mine is None))

        def judge_file(r, now0, base, url):
            t = r.readings[0]
            what = "%s at clock %.6f (first contact in second %d)" % (r.url, t, now0)
            q = reference(prefix(absolute(now0)) + url[len(base):], t)
            if r.status != q.status or r.status == 200 and r.body != q.body:
                res.bad("file-differs", "%s: status %s with %d bytes, the absolute URL gives %s with %d bytes" % (
                    what, r.status, len(r.body), q.status, len(q.body)))
                return
            flags["loc"] += 1
            res.count("files")
            res.count("files_ok", r.status == 200)

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            w.spawn_request(prefix(opts) + a.mpd_name, at_us=max(w.sim.start_us, op["at"]), worker=wk, https=https,
                            switch=tuple(op.get("switch", ())), cb=lambda r, op=op: first(op, r))
        w.sim.run()
        res.absorb(w)
        # The absolute sessions come from another, undisturbed simulation
        for judge in later:
            if not res.violations:
                judge()
        res.nontrivial = bool(flags["loc"])

    def misplaced(self, loc, origin, opts, want, a):
        "What is wrong with the Location of a session with these relative and absolute options."
        D = a.D
        if not loc.startswith(origin + "/livesim/"):
            return "is elsewhere"
        if not loc.endswith("/" + a.name + "/" + a.mpd_name):
            return "is another content"
        mid = loc[len(origin) + len("/livesim/"):-len(a.name + "/" + a.mpd_name)]
        got = [tuple(x.split("_", 1)) for x in mid.split("/") if x]
        if len(got) != len(want):
            return "does not carry the options"
        for (gk, gv), (k, v), (ok, _) in zip(got, want, opts):
            if ok in ("startrel", "stoprel"):
                if gk != k or not re.match("^[0-9]+$", gv):
                    return "has no absolute %s" % k
                if k == "start" and int(gv) // D != v // D or k == "stop" and -(-int(gv) // D) != -(-v // D):
                    return "has %s %s instead of %s" % (k, gv, v)
            elif (gk, gv) != (k, str(v)):
                return "has %s_%s instead of %s_%s" % (gk, gv, k, v)
        return None


def canon(body, a):
    "The MPD without its own address."
    root = ET.fromstring(body)
    for tag in ("BaseURL", "Location"):
        for e in root.findall(NS + tag):
            root.remove(e)
    for p in root.findall(NS + "Period"):
        k = mpdref.XL + "href"
        if p.get(k) is not None:
            p.set(k, p.get(k).rsplit("/", 1)[1])
    return ET.canonicalize(ET.tostring(root, encoding="unicode"), strip_text=True, rewrite_prefixes=True)


PROP = C23()
