"""C05: SegmentTimelines."""
from .. import client, content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed

PPH = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


class C05(BaseProp):
    id = "C05"
    RUNS = {"quick": 4500, "thorough": 90000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart", "fetch")
    RULE = ("one run = one asset, one option set with a SegmentTimeline; 3-9 MPDs over time from 1-3 workers with skewed "
            "and stepped clocks, each followed by fetches of listed segments by time, number and plain number; "
            "non-trivial = at least one non-empty timeline was checked and a listed segment was fetched")
    STATE_MEASURE = "(options, media type, timeline length class, loop wrap inside, first/last loop positions class)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.7, nvid=1, video=rng.random() < 0.93,
                                audio=rng.random() < 0.93)
        if not [r for r in spec["reps"] if r["type"] in ("video", "audio")]:
            spec["reps"].append(content.video_rep(rng, spec["D"], spec["L"], "V100", True))
        for r in spec["reps"]:
            if r.get("vardur"):
                r["vardur"] = 0
        D = spec["D"]
        t0 = pick_time(rng)
        opts = [[rng.choice(["segtimeline", "segtimelinenr"]), 1]]
        r = rng.random()
        if r < 0.45:
            opts.append([rng.choice(["start", "ast"]), max(0, t0 - rng.choice([0, 0, 1, 3, D, 2 * D, 10, 100, 1000, -5, 4000]))])
            q = rng.random()
            if q < 0.3:
                opts.append(["stop", int(opts[-1][1]) + rng.choice([1, D, 3 * D, 20, 60, 1010])])
            elif q < 0.6:
                for _ in range(rng.choice([1, 1, 2])):
                    opts.append(["dur", rng.choice([D, 5, 20, 30, 60])])
            if rng.random() < 0.3:
                ast = int([v for k, v in opts if k in ("start", "ast")][0]) // D * D
                opts.append(["timeoffset", rng.choice([0, ast // D // 2 * D, ast, max(0, ast - D * spec["L"])])])
        elif r < 0.7:
            opts.append(["periods", rng.choice(PPH)])
            if rng.random() < 0.4:
                opts.append(["peroff", 1])
            if rng.random() < 0.4:
                opts.append(["continuous", 1])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
            if opts[-1][1] and any(k == "periods" for k, _ in opts):
                opts.pop()
        if rng.random() < 0.5:
            opts.append(["tsbd", rng.choice([1, 5, 10, 20, 60, 600])])
        if rng.random() < 0.15:
            opts.append(["mup", rng.choice([0, 2, 5, 30])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        t = t0 + rng.choice([-2, 0, 0, 0, 1, 30])
        edges = []
        for _ in range(rng.randrange(3, 10)):
            if rng.random() < 0.3 and edges:
                t = rng.choice(edges)
            at = us(t, rng.choice(FRACS))
            op = {"at": max(us(1), at), "w": rng.randrange(nw), "fetch": rng.choice([0, 2, 4]),
                  "delay": rng.choice([0, 0, 1, 200_000, 1_000_000]), "pick": rng.randrange(1 << 20)}
            if rng.random() < 0.2:
                op["switch"] = sorted(rng.randrange(1, 1500) for _ in range(3))
            if rng.random() < 0.05:
                op["restart"] = 1
            ops.append(op)
            t += rng.choice([0, 1, 1, 2, D, D, D * spec["L"], 17, 60, 3600])
        return {"asset": spec, "opts": opts, "t0": min(o["at"] for o in ops), "workers": nw,
                "skews": gen_skews(rng, nw) if rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 20_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        s = model.Session(a, scn["opts"])
        nr_mode = "segtimelinenr" in s.o and "segtimeline" not in s.o
        base_nr = 1 if s.snr_default else int(s.o.get("snr", 0))
        seen = {}
        latest = {}
        state = {"tl": 0, "seg": 0}

        def on_mpd(op, r):
            if not wellformed(r, res):
                return
            now = int(r.readings[0])
            if now < s.ast:
                res.count("before_ast")
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s at clock %d: %r" % (r.url, r.status, now, r.body[:200]))
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s at clock %d: %s" % (r.url, now, exc))
                return
            fetch = []
            for pi, p in enumerate(m.periods):
                for st in p.sets:
                    if not self.judge_set(res, s, a, m, pi, st, now, base_nr, nr_mode, r.url, state):
                        return
                    if st.t.timeline is None:
                        continue
                    for t, d in st.t.timeline:
                        k = (st.type, t)
                        if seen.setdefault(k, d) != d:
                            res.bad("changed", "%s: the %s segment at %d was listed with duration %d, now %d" %
                                    (r.url, st.type, t, seen[k], d))
                            return
                    fetch += [(pi, p, st, it) for it in client.items(m, pi, st, now)]
            mono = latest.get("m")
            mine = {st.type: (sts[0], sts[-1]) for st in [x for p in m.periods for x in p.sets]
                    if st.t.timeline is not None
                    for sts in [[e for q in m.periods for y in q.sets if y.type == st.type for e in y.t.timeline]] if sts}
            if mono is not None and mono[0] <= now:
                for typ, (lo, hi) in mine.items():
                    if typ in mono[1] and (lo < mono[1][typ][0] or hi < mono[1][typ][1]):
                        res.bad("went-back", "%s: %s timeline moved back: %s to %s" % (r.url, typ, mono[1][typ], (lo, hi)))
                        return
            latest["m"] = (now, mine)
            if not fetch:
                return
            rnd = op["pick"]
            picks = [fetch[0], fetch[-1]] + [fetch[(rnd // (7 ** j)) % len(fetch)] for j in range(4)]
            base = client.bases(m, r.url)[0][0]
            for pi, p, st, it in picks[:op.get("fetch", 0)]:
                rep = st.reps[rnd % len(st.reps)]
                rid = [x for x in a.reps if x.id == rep][0]
                i = self.index_of(a, rid, it.time)
                if i is None:
                    res.bad("no-such-segment", "%s: listed time %d starts no segment" % (r.url, it.time))
                    return
                nr = base_nr + i
                urls = [client.url_for(base, st, rep, it),
                        s.prefix + "%s/%d.m4s" % (rid.path, nr), s.prefix + "%s/t%d.m4s" % (rid.path, it.time)]
                got = {}
                for j, u in enumerate(urls):
                    w.spawn_request(u, at_us=w.sim.now_us + op["delay"], worker=(op["w"] + j * (rnd & 1)) % len(w.workers),
                                    cb=lambda rr, j=j, got=got, it=it, rid=rid, nr=nr: on_seg(rr, j, got, it, rid, nr))

        def on_seg(r, j, got, it, rep, nr):
            if not wellformed(r, res) or res.violations:
                return
            if r.status != 200:
                if s.window(nr, r.readings[0]) == "ok":
                    res.bad("listed-refused", "%s: listed segment refused at clock %.6f: %r" % (r.url, r.readings[0], r.body[:150]))
                return
            got[j] = r.body
            boxes, frags, spare = media.decode(rep, r.body)
            if not frags or frags[0].tfdt != it.time or sum(f.dur for f in frags) != it.dur:
                res.bad("untruthful", "%s: listed at %d+%d, the media has %d+%d" % (
                    r.url, it.time, it.dur, frags[0].tfdt if frags else -1, sum(f.dur for f in frags)))
                return
            state["seg"] += 1
            res.count("fetched")
            if len(set(got.values())) > 1:
                res.bad("not-same", "%s: addresses by time and number gave different bytes" % r.url)

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            if op.get("restart"):
                w.sim.at(op["at"], w.workers[wk].restart)
            w.spawn_request(s.mpd_url(), at_us=op["at"], worker=wk, switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op: on_mpd(op, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = bool(state["tl"] and state["seg"])

    @staticmethod
    def index_of(a, rep, t):
        wraps, rel = divmod(t, a.loop * rep.ts)
        for k, sg in enumerate(rep.segs):
            if sg.t == rel:
                return wraps * a.L + k
        return None

    def judge_set(self, res, s, a, m, pi, st, now, base_nr, nr_mode, url, state):
        p = m.periods[pi]
        what = "%s at clock %d, Period %s, %s" % (url, now, p.id, st.type)
        rep = [r for r in a.reps if r.id == st.reps[0]][0]
        if rep.type not in ("video", "audio"):
            if st.t.duration is None or st.t.duration != a.D * st.t.timescale:
                res.bad("other-set", "%s: duration %s" % (what, st.t.duration))
                return False
            return True
        tl = st.t.timeline
        if tl is None:
            res.bad("no-timeline", "%s: no SegmentTimeline" % what)
            return False
        if st.t.timescale != rep.ts or st.t.duration is not None:
            res.bad("timescale", "%s: timescale %s duration %s" % (what, st.t.timescale, st.t.duration))
            return False
        if ("$Time$" in st.t.media) == nr_mode or ("$Number$" in st.t.media) != nr_mode:
            res.bad("template", "%s: media template %r" % (what, st.t.media))
            return False
        pto = st.t.pto if st.t.pto else p.base_pto * rep.ts
        if pto != (p.start + s.pto) * rep.ts:
            res.bad("pto", "%s: presentation time offset %s of %s, Period starts at %s" % (what, pto, rep.ts, p.start))
            return False
        nowc = min(now, s.stop) if s.stop is not None else now
        lo = max(p.start, nowc - s.ast - s.tsbd)
        hi = nowc - s.ast
        if s.stop is not None and now > s.stop:
            hi += a.D       # over: everything to the last segment
        if pi + 1 < len(m.periods):
            hi = min(hi, m.periods[pi + 1].start)
        e = s.announced(now)
        ts, off = rep.ts, s.pto
        LO, HI = (lo + off) * ts, (hi + off) * ts

        def B(i):
            return a.seg_time(rep, i)
        first0 = s.pto // s.D
        g = int(LO // (a.D * ts))
        F = {i for i in range(max(first0, g - 3), g + 4) if B(i) <= LO <= B(i + 1)}
        if lo == 0 and p.start == 0:
            F = {first0}
        if not F:
            F = {first0}
        last = int(HI // (a.D * ts)) + 2
        while B(last + 1) > HI:
            last -= 1
        if e is not None:   # the session has this many segments, wherever exactly the last one ends
            last = min(last, first0 + e // a.D - 1)
        state["tl"] += bool(tl)
        res.count("timelines")
        if not tl:
            if last >= max(F):
                res.bad("empty", "%s: empty timeline although segments %d..%d have ended" % (what, max(F), last))
                return False
            return True
        i0 = self.index_of(a, rep, tl[0][0])
        if i0 is None:
            res.bad("no-such-segment", "%s: first listed time %d starts no segment" % (what, tl[0][0]))
            return False
        if i0 not in F:
            res.bad("first", "%s: starts at segment %d, expected %s (window starts at %d)" % (what, i0, sorted(F), lo))
            return False
        if i0 + len(tl) - 1 != last:
            res.bad("last", "%s: ends with segment %d, expected %d" % (what, i0 + len(tl) - 1, last))
            return False
        for k, (t, d) in enumerate(tl):
            if (t, d) != (B(i0 + k), B(i0 + k + 1) - B(i0 + k)):
                res.bad("entry", "%s: entry %d is %d+%d, segment %d is %d+%d" % (
                    what, k, t, d, i0 + k, B(i0 + k), B(i0 + k + 1) - B(i0 + k)))
                return False
        if nr_mode and st.t.start_attr != base_nr + i0 and not (st.t.start_attr is None and base_nr + i0 == 1):
            res.bad("start-number", "%s: startNumber %s, the first listed segment is number %d" % (
                what, st.t.start_attr, base_nr + i0))
            return False
        res.states.add((tuple(sorted(k for k, _ in s.opts)), st.type, min(len(tl), 40) // 8,
                        i0 // a.L != last // a.L, i0 % a.L == 0, last % a.L == a.L - 1))
        return True


PROP = C05()
