"""C14: simulated BaseURL outages."""
import re
import struct

from .. import client, content, model, mp4ref, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, rng_of, us, wellformed
from .c10 import clock_us

PATTERNS = ["u10_d20", "d10_u20", "u20_d10", "d20_u10", "u30_d30", "d30_u30", "u5_d55", "d5_u55", "u1_d1", "d1_u1", "u7_d6",
            "d7_u6", "u59_d1", "d59_u1", "u40_d40", "d40_u40", "u13_d4", "d60_u1", "u60_d10", "u3_d2", "d15_u15", "u100_d50", "d2_u58"]
EVENT = b"urn:mpeg:dash:event:2012\x00"


def parse_pattern(p):
    a, b = p.split("_")
    return a[0], int(a[1:]), int(b[1:])


def down(p, t):
    "Is the server behind this BaseURL down in second t?  The pattern restarts after every full minute."
    kind, a, b = parse_pattern(p)
    x = t % 60
    if x == 0:
        return False
    phase = (x - 1) % (a + b)
    return phase >= a if kind == "u" else phase < a


def about_to_fail(p, t):
    """Last up second before a down stretch (up-down patterns): the instant of the last-segment event.
    None: the pattern would fail next, but a new minute begins (not judged)."""
    kind, a, b = parse_pattern(p)
    x = t % 60
    if kind != "u" or down(p, t):
        return False
    if down(p, t + 1):
        return True
    return None if x >= a and x % (a + b) == a else False


def last_up(p, t):
    while down(p, t):
        t -= 1
    return t


def strip_events(body):
    "The segment without last-segment events, and those events."
    out, ev = [], []
    for b in mp4ref.parse(body):
        raw = b.raw()
        if b.type == b"emsg" and EVENT in raw:
            ev.append(raw)
        else:
            out.append(raw)
    return b"".join(out), ev


class C14(BaseProp):
    id = "C14"
    RUNS = {"quick": 5500, "thorough": 100000}
    SHRINK = ("ops", "pats", "opts", "clients", "steps")
    SIMPLIFY = {"workers": 1, "skews": [], "loss": 0}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one asset and 1-3 up/down patterns (plus start, timeline, tsbd, ato, events, chunks...); segments, init "
            "segments and MPDs are requested in every kind of second around the edges of the patterns and of minutes, and "
            "clients follow the MPD and try its BaseURLs one after the other while replies get lost, workers restart and "
            "clocks are skewed and step; oracle: the pattern evaluated at the clock reading and the same request without "
            "baseurl options; non-trivial = a refusal and a delivery under one pattern, or a fail-over")
    STATE_MEASURE = "(pattern kind, phase relative to the edges, request kind, up/down, loss signalling)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.7, subs=rng.random() < 0.2, image=rng.random() < 0.2)
        for r in spec["reps"]:
            r["styp"] = r.get("styp", 1) or 1
        D = spec["D"]
        t0 = pick_time(rng)
        pats = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if rng.random() < 0.75:
                pats.append(rng.choice(PATTERNS))
            else:
                k = rng.choice("ud")
                pats.append("%s%d_%s%d" % (k, rng.randrange(1, 40), "d" if k == "u" else "u", rng.randrange(1, 40)))
        opts = []
        if rng.random() < 0.3:
            opts.append(["start", max(0, t0 - rng.choice([0, D, 100, 5000]))])
            if rng.random() < 0.3:
                opts.append(["dur", rng.choice([60, 6000])])
        if rng.random() < 0.6:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
            if rng.random() < 0.7:
                opts.append(["segtimelineloss", 1])
        if rng.random() < 0.3:
            opts.append(["tsbd", rng.choice([10, 30, 600])])
        if rng.random() < 0.2:
            opts.append(["ato", rng.choice([1, D, "inf"])])
        if rng.random() < 0.2:
            opts.append(["periods", rng.choice([2, 20, 60])])
        if rng.random() < 0.15:
            opts.append(["scte35", rng.choice([1, 3])])
        if rng.random() < 0.1:
            opts.append(["sidx", 1])
        if rng.random() < 0.15:
            opts.append(["utc", "direct"])
        if rng.random() < 0.1 and D % 2 == 0:
            opts.append(["chunkdur", D / 2])
        if rng.random() < 0.1:
            opts.append(["snr", rng.choice([0, 1, 7])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        at = us(t0, rng.choice(FRACS))
        ops = []
        edges = sorted({x for p in pats for x in range(60) if down(p, x) != down(p, x + 1) and x < 59}) or [0]
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            x = rng.choice(edges) + rng.choice([0, 0, 1, 1, 2, -1]) if r < 0.6 else rng.choice([0, 1, 59, 58, rng.randrange(60)])
            t = at // 1_000_000
            nt = t - t % 60 + x % 60
            if nt < t or nt == t and rng.random() < 0.5:
                nt += 60
            at = max(at, us(nt, rng.choice(FRACS)))
            ops.append({"at": at, "k": rng.choice(["seg", "seg", "seg", "seg", "init", "mpd", "mpd", "multi"]), "p": rng.randrange(3),
                        "rep": rng.randrange(8), "back": rng.choice([0, 0, 0, 1, 2, -1]), "w": rng.randrange(nw),
                        "tt": int(rng.random() < 0.2)})
            if rng.random() < 0.2:
                ops[-1]["switch"] = sorted(rng.randrange(1, 1200) for _ in range(3))
            if rng.random() < 0.05:
                ops[-1]["restart"] = 1
        clients = []
        for _ in range(rng.choice([0, 0, 1])):
            clients.append({"at": us(t0) + rng.randrange(0, 60_000_000), "n": rng.choice([4, 8]), "seed": rng.randrange(1 << 30),
                            "poll": rng.choice([D, D, 1, 7]) * 1_000_000 + rng.choice([0, 250_000])})
        return {"asset": spec, "t0": ops[0]["at"], "pats": pats, "opts": opts, "pos": rng.randrange(0, 5), "ops": ops,
                "clients": clients, "workers": nw, "loss": int(rng.random() < 0.3),
                "skews": gen_skews(rng, nw) if rng.random() < 0.3 else [],
                "steps": gen_steps(rng, ops[0]["at"], max(1, at - ops[0]["at"]), 1) if rng.random() < 0.15 else [],
                "sched": rng.randrange(1 << 30)}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"asset": scn["asset"], "t0": 0})
        nw = len(w.workers)
        opts, pats = scn["opts"], scn["pats"]
        res.nontrivial = False
        if not pats:
            return
        pos = min(scn["pos"], len(opts))

        def with_pats(ps):
            return opts[:pos] + [["baseurl", p] for p in ps] + opts[pos:]
        plain_opts = [o for o in opts if o[0] != "segtimelineloss"]
        s = model.Session(a, opts)
        loss_sig = ["segtimelineloss", 1] in opts
        vs = [x for x in a.reps if x.type != "image"]
        got = []

        def url_of(op, t):
            rep = vs[op["rep"] % len(vs)]
            p = pats[op["p"] % len(pats)]
            k = op["k"]
            if k == "mpd":
                return model.Session(a, with_pats(pats)).mpd_url(), model.Session(a, plain_opts).mpd_url(), pats
            ps = [p] if k != "multi" else pats
            x, y = model.Session(a, with_pats(ps)), model.Session(a, plain_opts)
            if k == "init":
                return x.init_url(rep), y.init_url(rep), ps
            nr = max(0, s.start_nr + (t - s.ast) // a.D - 1 - op["back"])
            if op["tt"] and rep.type in ("video", "audio") and nr >= s.start_nr:
                tail = "%s/t%d.m4s" % (rep.path, a.seg_time(rep, s.index(nr)))
                return x.prefix + tail, y.prefix + tail, ps
            return x.seg_url(rep, nr), y.seg_url(rep, nr), ps

        for op in scn["ops"]:
            url, plain, ps = url_of(op, op["at"] // 1_000_000)

            def start(op=op, url=url, plain=plain, ps=ps):
                if op.get("restart"):
                    w.workers[op["w"] % nw].restart()
                w.spawn_request(url, worker=op["w"] % nw, switch=tuple(op.get("switch", ())),
                                cb=lambda r: got.append((op["k"], r, plain, ps)))
            w.sim.at(max(op["at"], w.sim.start_us), start)
        over = []
        tasks = []
        mpd_url, mpd_plain, _ = url_of({"k": "mpd", "rep": 0, "p": 0}, 0)
        for c in scn["clients"]:
            tasks.append(w.sim.spawn("client", lambda c=c: self.play(w, c, scn, mpd_url, mpd_plain, plain_opts, a, got, over), None,
                                     max(c["at"], w.sim.start_us)))
        w.sim.run()
        res.absorb(w)
        for t in tasks:
            if t.exc is not None:
                res.bad("client", "client program: %s: %s" % (type(t.exc).__name__, t.exc))
                return
        seen = set()
        for k, r, plain, ps in got:
            if not wellformed(r, res):
                return
            if not r.readings:
                res.bad("no-clock", "%s: no clock reading" % r.url)
                return
            c = clock_us(r.readings[0])
            if "chunkdur" not in r.url and any(clock_us(x) // 1_000_000 != c // 1_000_000 for x in r.readings):
                res.count("clock_moved")
                continue
            t = c // 1_000_000
            rw.sim.now_us = c
            q = rw.get(plain)
            if q.hung or q.exc is not None:
                res.bad("exception", "%s: %s %s" % (plain, q.exc, q.hung))
                return
            what = "%s at %.6f (second %d of the minute)" % (r.url, r.readings[0], t % 60)
            if k == "mpd":
                if not self.judge_mpd(what, r, q, t, a, with_pats(pats), pats, loss_sig, plain, rw, res):
                    return
                continue
            is_down = len(ps) == 1 and down(ps[0], t) and k in ("seg", "multi", "client")
            edge = any(down(ps[0], t + d) != down(ps[0], t) for d in (-1, 1))
            res.states.add((ps[0][0], edge, k, is_down, loss_sig, r.status))
            if is_down:
                seen.add("down")
                if r.status != 404:
                    res.bad("not-down", "%s: %s although the server is down" % (what, r.status))
                    return
                if not r.body.strip():
                    res.bad("unexplained", "%s: 404 without explanation" % what)
                    return
                res.count("refused")
                continue
            if r.status != q.status:
                res.bad("down" if q.status == 200 else "served", "%s: status %s (%r), without outages %s" % (
                    what, r.status, r.body[:50], q.status))
                return
            if r.status != 200:
                continue
            if k in ("seg", "multi", "client"):
                seen.add("up")
            res.count("served")
            x, y, ev = r.body, q.body, []
            if k in ("seg", "multi", "client"):
                try:
                    x, ev = strip_events(r.body)
                except Exception as exc:
                    res.bad("boxes", "%s: %s" % (what, exc))
                    return
            if x != y:
                res.bad("changed", "%s: %d bytes differ from the answer without outages (%d bytes)" % (what, len(x), len(y)))
                return
            want = len(ps) == 1 and k in ("seg", "multi", "client") and about_to_fail(ps[0], t)
            if ev and want is False:
                res.bad("event", "%s: carries a last-segment event, the server is not about to fail" % what)
                return
            if loss_sig and want and len(ev) != 1:
                res.bad("no-event", "%s: %d last-segment events just before the outage" % (what, len(ev)))
                return
            if ev:
                e = ev[0]
                if e[12:12 + len(EVENT)] != EVENT or e[12 + len(EVENT):14 + len(EVENT)] != b"1\x00" or \
                        struct.unpack(">I", e[:4])[0] != len(e) or struct.unpack(">I", e[14 + len(EVENT):18 + len(EVENT)])[0] == 0:
                    res.bad("event-form", "%s: event %r" % (what, e))
                    return
                if mpdref.timestamp(e[30 + len(EVENT):].decode()) != t:
                    res.bad("event-form", "%s: event for the MPD of %r" % (what, e[30 + len(EVENT):]))
                    return
                res.count("events")
        for ok, ups, what in over:
            for p, url, c in ups if not ok else []:
                rw.sim.now_us = c
                if rw.get(url).status != 200:
                    continue
                res.bad("fail-over", "%s: no BaseURL gave the segment although %s was up" % (what, p))
                return
            res.count("fail_over" if ok else "all_down")
        res.nontrivial = seen == {"down", "up"} or any(o[0] for o in over)

    def judge_mpd(self, what, r, q, t, a, opts, pats, loss_sig, plain, rw, res):
        "The MPD is available as if there were no outages, and lists one BaseURL per pattern."
        if r.status != q.status:
            res.bad("mpd", "%s: status %s, without outages %s" % (what, r.status, q.status))
            return False
        if r.status != 200:
            return True
        m = mpdref.MPD(r.body, strict_order=True)
        want = []
        for p in pats:
            o = [x for x in opts if x[0] != "baseurl"]
            want.append((sorted("%s_%s" % tuple(x) for x in o), "baseurl_" + p))
        if len(m.base) != len(pats):
            res.bad("baseurls", "%s: %d BaseURLs for %d patterns" % (what, len(m.base), len(pats)))
            return False
        for (b, _, _), (o, bu) in zip(m.base, want):
            path = client.path_of(b)
            mm = re.match(r"/livesim/(.*)%s/\Z" % re.escape(a.name), path)
            parts = mm.group(1).strip("/").split("/") if mm else []
            if not mm or sorted(x for x in parts if not x.startswith("baseurl_")) != o or \
                    [x for x in parts if x.startswith("baseurl_")] != [bu] or "//" in path:
                res.bad("baseurls", "%s: BaseURL %s should carry %s and %s" % (what, b, o, bu))
                return False
        res.count("mpd")
        if not loss_sig:
            return True
        fail = pats[0]
        ref_t = t
        truncated = fail[0] == "u" and down(fail, t)
        if truncated:
            ref_t = last_up(fail, t)
            rw.sim.now_us = ref_t * 1_000_000
            q = rw.get(plain)
        n = mpdref.MPD(q.body)
        x = [(p.id, [(s.type, s.t.timeline, s.t.start if "$Number$" in s.t.media else None) for s in p.sets]) for p in m.periods]
        y = [(p.id, [(s.type, s.t.timeline, s.t.start if "$Number$" in s.t.media else None) for s in p.sets]) for p in n.periods]
        if x != y:
            res.bad("timeline", "%s: the timelines are not those of second %d (%s): %s / %s" % (
                what, ref_t % 60, "last up second" if truncated else "now", str(x)[:200], str(y)[:200]))
            return False
        res.count("timeline_cut" if truncated else "timeline_full")
        want_ev = about_to_fail(fail, t)
        for p in m.periods:
            for s in p.sets:
                has = ("urn:mpeg:dash:event:2012", "1") in s.inband
                if want_ev is not None and has != want_ev:
                    res.bad("announce", "%s: last-segment event stream %s in %s" % (
                        what, "missing" if want_ev else "announced", s.type))
                    return False
        return True

    def play(self, w, c, scn, mpd_url, mpd_plain, plain_opts, a, got, over):
        "Follows the MPD; for the newest segment tries BaseURL after BaseURL."
        rng = rng_of("c14", c["seed"])
        nw = len(w.workers)

        def fetch(url, plain, ps, k):
            wk = w.workers[rng.randrange(nw)]
            task = w.sim.spawn("x", lambda: w.serve(wk, url), wk)
            me = w.sim.cur
            task.done_cb = lambda t: w.sim.wake(me)
            w.sim.wait()
            w.nreq += 1
            if task.exc is not None:
                raise task.exc
            got.append((k, task.result, plain, ps))
            if scn["loss"] and rng.random() < 0.1:
                w.count("reply_lost")
                return None
            return task.result

        for _ in range(c["n"]):
            r = fetch(mpd_url, mpd_plain, scn["pats"], "mpd")
            if r is None or r.status != 200:
                w.sim.sleep_us(500_000)
                continue
            m = mpdref.MPD(r.body)
            for s in m.periods[-1].sets:
                if s.type == "image":
                    continue
                its = client.items(m, len(m.periods) - 1, s, int(r.readings[0]), tail=2)
                if not its:
                    continue
                it = its[-1]
                ok = False
                ups = []
                lost = False
                pre = client.path_of(mpd_plain).rsplit("/", 1)[0] + "/"
                for (b, _), p in zip(client.bases(m, mpd_url), scn["pats"]):
                    u = client.url_for(b, s, s.reps[0], it)
                    q = fetch(u, client.url_for(pre, s, s.reps[0], it), [p], "client")
                    if q is None:
                        lost = True
                        continue
                    if not down(p, clock_us(q.readings[0]) // 1_000_000):
                        ups.append((p, client.url_for(pre, s, s.reps[0], it), clock_us(q.readings[0])))
                    if q.status == 200:
                        ok = True
                        break
                # a single refusal is judged on its own; here: nobody answered although some server was up
                if not lost and not scn["skews"] and not scn["steps"] and not any(k == "dur" for k, _ in scn["opts"]):
                    over.append((ok, ups, "newest segment of %s" % mpd_url))
            w.sim.sleep_us(c["poll"])


PROP = C14()
