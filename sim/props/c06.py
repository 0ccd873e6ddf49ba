"""C06: time-limited sessions."""
from .. import content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed


class C06(BaseProp):
    id = "C06"
    RUNS = {"quick": 6000, "thorough": 120000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one limited session (start+dur..., or start+stop); MPD and segment requests around its start, its "
            "announced ends and long after, from 1-3 workers with skewed/stepped clocks and restarts; non-trivial = an MPD "
            "was judged and a segment next to an end was requested")
    STATE_MEASURE = "(limit kind, request kind, predicted state, position relative to the end, options)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.6, nvid=1, image=rng.random() < 0.3)
        D = spec["D"]
        t0 = pick_time(rng)
        opts = [[rng.choice(["start", "ast"]), t0]]
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                opts.append(["dur", rng.choice([D, D + 1, 2 * D, 10, 20, 30, 45, 60, 100])])
            if rng.random() < 0.5:
                opts.append(["mup", rng.choice([0, 1, 2, 5, 10, 30])])
        else:
            opts.append(["stop", t0 + rng.choice([1, D - 1, D, D + 1, 3 * D, 20, 61])])
            if opts[-1][1] <= t0:
                opts[-1][1] = t0 + 1
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
        if rng.random() < 0.3:
            ast = t0 // D * D
            opts.append(["timeoffset", rng.choice([0, ast, max(0, ast - D * spec["L"]), ast // D // 3 * D])])
        if rng.random() < 0.3:
            opts.append(["tsbd", rng.choice([5, 20, 60, 600])])
        if rng.random() < 0.25:
            opts.append(["ato", rng.choice(["inf", 1, D, 0.5])])
        if rng.random() < 0.1:
            opts.append(["sidx", 1])
        if rng.random() < 0.12:
            opts.append(["chunkdur", rng.choice([D, D / 2, D / 4, 0.3])])
        # durations keep their order
        durs = [o for o in opts if o[0] == "dur"]
        rest = [o for o in opts if o[0] != "dur"]
        rng.shuffle(rest)
        k = rng.randrange(len(rest) + 1)
        opts = rest[:k] + durs + rest[k:]
        a = content.build(spec)
        s = model.Session(a, opts)
        nw = rng.choice([1, 1, 2, 3])
        end = s.end_nr()
        t_end = s.seg_ast(end - 1)
        ops = []
        aets = []
        tot = 0
        for d in s.durs:
            tot += d
            aets.append((s.raw_start + tot) // D * D)
        mup = int(s.o.get("mup", 10))
        marks = [s.ast, t_end, t_end, t_end + 60] + [x for e in aets for x in (e, e - 2 * mup, e + 60)]
        if s.stop is not None:
            marks += [s.stop, s.stop, s.stop + 5000]
        for _ in range(rng.randrange(6, 20)):
            m = rng.choice(marks)
            if rng.random() < 0.45:
                ops.append({"k": "mpd", "at": us(m + rng.choice([-2, -1, 0, 0, 1, 1, 2, 30]), rng.choice(FRACS))})
            else:
                nr = rng.choice([s.start_nr, end - 1, end - 1, end - 1, end - 2, end, end + 1, s.start_nr - 1,
                                 rng.randrange(s.start_nr, end + 3)])
                if rng.random() < 0.6:
                    at = us(s.seg_ast(nr)) + rng.choice([-1_000_000, -1000, 0, 1000, 500_000, 3_000_000])
                else:
                    at = us(m + rng.choice([-1, 0, 1, 20, 60, 61, 62, 500]), rng.choice(FRACS))
                ops.append({"k": "seg", "nr": max(0, nr), "rep": rng.randrange(len(a.reps)), "at": at,
                            "by": "t" if rng.random() < 0.15 else "n"})
        if s.stop is not None and rng.random() < 0.4 and end - s.start_nr < 40:
            at = us(s.stop + rng.choice([1, 2, 100, 10 ** 6]))
            rep = rng.randrange(len(a.reps))
            for nr in range(s.start_nr, end + 1):
                ops.append({"k": "seg", "nr": nr, "rep": rep, "at": at + (nr - s.start_nr) * 1000, "by": "n"})
        for op in ops:
            op["at"] = max(us(1), op["at"])
            op["w"] = rng.randrange(nw)
            if rng.random() < 0.15:
                op["switch"] = sorted(rng.randrange(1, 900) for _ in range(3))
            if rng.random() < 0.05:
                op["restart"] = 1
        ops.sort(key=lambda o: o["at"])
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw,
                "skews": gen_skews(rng, nw) if rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30), "comp": 1,
                "steps": gen_steps(rng, us(t0), 60_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        s = model.Session(a, scn["opts"])
        if not s.durs and s.stop is None:
            return      # no limit left in it
        kind = "dur" if s.durs else "stop"
        end = s.end_nr()
        ends = []
        flags = {"mpd": 0, "seg": 0}

        def on_mpd(op, r):
            if not wellformed(r, res):
                return
            t = r.readings[0]
            now = int(t)
            what = "%s at clock %.6f" % (r.url, t)
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s %r" % (what, r.status, r.body[:150]))
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            flags["mpd"] += 1
            if m.ast != s.ast:
                res.bad("ast", "%s: availabilityStartTime %s, expected %s" % (what, m.ast, s.ast))
                return
            if s.stop is not None:
                if m.dur != s.stop - s.ast:
                    res.bad("duration", "%s: duration %s, the session lasts %s" % (what, m.dur, s.stop - s.ast))
                    return
                want = "dynamic" if t < s.stop else "static" if t >= s.stop + 1 else m.type
                if m.type != want:
                    res.bad("type", "%s: %s although the stop time is %s" % (what, m.type, s.stop))
                    return
                if m.type == "static" and m.mup is not None:
                    res.bad("static-update", "%s: static with an update period" % what)
                    return
                if m.type == "dynamic" and m.mup is None:
                    res.bad("no-update", "%s: dynamic without an update period" % what)
                    return
            else:
                aet, _ = s.aet(now)
                if m.aet != aet or m.dur != aet - s.ast:
                    res.bad("announced", "%s: announced end %s (duration %s), expected %s (%s)" % (
                        what, m.aet, m.dur, aet, aet - s.ast))
                    return
                if m.type != "dynamic":
                    res.bad("type", "%s: %s" % (what, m.type))
                    return
                for t2, e2 in ends:
                    if (t2 - t) * (e2 - m.aet) < 0:
                        res.bad("end-moved-back", "%s: end %s, at %.3f it was %s" % (what, m.aet, t2, e2))
                        return
                ends.append((t, m.aet))
            res.states.add((kind, "mpd", m.type, min(3, max(-3, now - (s.stop or aet))), len(s.durs)))

        def on_seg(op, rep, nr, r):
            if not wellformed(r, res) or not r.readings:
                return
            preds = {s.window(nr, t) for t in r.readings}
            if None in preds:
                res.count("edge_not_judged")
                return
            what = "%s nr %d of %d..%d at clock %.6f (%s)" % (rep.type, nr, s.start_nr, end - 1, r.readings[0], r.url)
            flags["seg"] += abs(nr - end) <= 1
            res.states.add((kind, rep.type, tuple(sorted(preds)), max(-2, min(2, nr - end)),
                            tuple(sorted({k for k, _ in s.opts}))))
            if r.status == 200 and "ok" not in preds:
                res.bad("served", "%s: served although %s" % (what, sorted(preds)))
                return
            if r.status != 200:
                if preds == {"ok"}:
                    res.bad("refused", "%s: %s %r" % (what, r.status, r.body[:150]))
                elif r.status != 404:
                    res.bad("status", "%s: %s" % (what, r.status))
                return
            res.count("judged_media")
            if rep.type == "image":
                if r.body != a.vod(rep, s.index(nr))[0].raw:
                    res.bad("thumbnail", "%s: wrong thumbnail" % what)
                return
            boxes, frags, spare = media.decode(rep, r.body)
            if not media.check_time(res, s, rep, nr, frags, what):
                return
            seg = a.vod(rep, s.index(nr))[0]
            has, brands = media.vod_brands(seg)
            if has:
                media.check_brands(res, has, brands, boxes, bool(s.durs) and nr == end - 1, what)

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = op["at"]
            if scn.get("comp"):
                at = max(w.sim.start_us, at - w.workers[wk].clock_off(at))
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            sw = tuple(op.get("switch", ()))
            if op["k"] == "mpd":
                w.spawn_request(s.mpd_url(), at_us=at, worker=wk, switch=sw, cb=lambda r, op=op: on_mpd(op, r))
                continue
            rep = a.reps[op["rep"] % len(a.reps)]
            nr = op["nr"]
            url = s.seg_url(rep, nr)
            if op["by"] == "t" and rep.type in ("video", "audio") and nr >= s.start_nr:
                url = url.replace("/%d.m4s" % nr, "/t%d.m4s" % a.seg_time(rep, s.index(nr)))
            w.spawn_request(url, at_us=at, worker=wk, switch=sw,
                            cb=lambda r, op=op, rep=rep, nr=nr: on_seg(op, rep, nr, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = bool(flags["mpd"] and flags["seg"])


PROP = C06()
