"""C07: modulo sessions."""
from .. import client, content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from .c05 import PROP as TL


class C07(BaseProp):
    id = "C07"
    RUNS = {"quick": 5500, "thorough": 120000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart", "fetch")
    RULE = ("one run = one modulo_N option set; MPD and segment requests around the steps of the pattern in one or more "
            "intervals, from 1-3 workers with skewed/stepped clocks and restarts; every MPD may be followed by fetches of "
            "listed segments; non-trivial = an MPD was judged and a segment next to the end was requested")
    STATE_MEASURE = "(phase of the pattern, request kind, predicted state, distance to the end, options)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.6, nvid=1, image=rng.random() < 0.25)
        for r in spec["reps"]:
            if r.get("vardur"):
                r["vardur"] = 0
        D = spec["D"]
        n = rng.choice([1, 1, 2, 3, 5, 7, 10, 15, 20, 30, 60, 90])
        T = 60 * n
        opts = [["modulo", n]]
        if rng.random() < 0.3:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 7, 1000])])
        if rng.random() < 0.4:
            opts.append(["tsbd", rng.choice([1, 10, 60, 600, 4000])])
        if rng.random() < 0.25:
            opts.append(["ato", rng.choice(["inf", 1, D, 0.5])])
        if rng.random() < 0.1:
            opts.append(["sidx", 1])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        iv = pick_time(rng) // T * T
        ops = []
        for _ in range(rng.randrange(6, 20)):
            ast = iv + T * rng.choice([0, 0, 0, 1, 1, 2])
            phase = rng.randrange(5)
            # a moment inside or at the edge of the phase
            lo, hi = [(0, 1), (1, 3), (3, 5), (5, 9), (9, 10)][phase]
            lo, hi = ast + lo * T // 10, ast + hi * T // 10
            end = ast + T * (2, 4, 6, 8)[min(phase, 3)] // 10
            r = rng.random()
            if r < 0.3:
                t = rng.choice([lo - 1, lo, lo, lo + 1, hi - 1, hi - 1])
            elif r < 0.5:
                t = rng.choice([end - 1, end, end + 1, end + T // 20, end + T // 20 + 60, end + T // 20 + 61])
            else:
                t = rng.randrange(lo, hi)
            at = us(t, rng.choice(FRACS))
            if rng.random() < 0.4:
                ops.append({"k": "mpd", "at": at, "fetch": rng.choice([0, 0, 2, 4]), "pick": rng.randrange(1 << 20),
                            "delay": rng.choice([0, 1, 500_000])})
            else:
                # number relative to the start: near now, near each end, near the start
                cand = [(t - ast) // D - 1, (t - ast) // D, (t - ast) // D - 2]
                cand += [e * T // 10 // D + x for e in (2, 4, 6, 8) for x in (-2, -1, -1, 0)]
                cand += [0, -1, rng.randrange(0, max(1, T // D))]
                rel = rng.choice(cand[:3] if rng.random() < 0.3 else cand)
                if rng.random() < 0.5:
                    at = us(ast + (rel + 1) * D) + rng.choice([-1_000_000, -1000, 0, 1000, 500_000, 3_000_000])
                ops.append({"k": "seg", "rel": rel, "rep": rng.randrange(len(spec["reps"])), "at": at})
        for op in ops:
            op["at"] = max(us(1), op["at"])
            op["w"] = rng.randrange(nw)
            if rng.random() < 0.15:
                op["switch"] = sorted(rng.randrange(1, 900) for _ in range(3))
            if rng.random() < 0.05:
                op["restart"] = 1
        ops.sort(key=lambda o: o["at"])
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw,
                "skews": gen_skews(rng, nw) if rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30), "comp": 1,
                "steps": gen_steps(rng, us(iv), us(T), rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        if not any(k == "modulo" for k, _ in opts):
            opts = opts + [["modulo", 1]]
        flags = {"mpd": 0, "seg": 0}
        base_nr = 1 if ["snr", -1] in opts else int(dict(opts).get("snr", 0))
        seen = {}

        def on_mpd(op, r):
            if not wellformed(r, res):
                return
            t = r.readings[0]
            s = model.Modulo(a, opts, t)
            what = "%s at clock %.6f (phase %d)" % (r.url, t, s.phase)
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s %r" % (what, r.status, r.body[:150]))
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            flags["mpd"] += 1
            got = (m.type, m.ast, m.dur, m.aet, m.mup)
            tl = "segtimelinenr" in s.o or "segtimeline" in s.o
            exp = ("dynamic", s.ast, s.dur, s.end, 0 if tl else s.mup)  # a timeline is refreshed for each segment
            if got != exp:
                res.bad("pattern", "%s: (type, AST, duration, AET, update period) is %s, expected %s" % (what, got, exp))
                return
            # the announced pattern is a function of the clock: never moving back with it
            for t2, e2 in seen.items():
                if (t2 - t) * (e2 - m.aet) < 0:
                    res.bad("end-moved-back", "%s: end %s, at %.3f it was %s" % (what, m.aet, t2, e2))
                    return
            seen[t] = m.aet
            res.states.add(("mpd", s.phase, min(3, int(t) % s.T), tuple(sorted(k for k, _ in opts))))
            nr_mode = "segtimelinenr" in s.o and "segtimeline" not in s.o
            fetch = []
            for st in m.periods[0].sets:
                if tl:
                    if not TL.judge_set(res, s, a, m, 0, st, int(t), base_nr, nr_mode, r.url, {"tl": 0}):
                        return
                elif st.t.start != s.start_nr:
                    res.bad("start-number", "%s: startNumber %s, expected %s" % (what, st.t.start, s.start_nr))
                    return
                base, ato = client.bases(m, r.url)[0]
                fetch += [(st, it) for it in client.items(m, 0, st, min(t, s.ast + s.dur), ato, tail=4)]
            if not fetch:
                return
            rnd = op["pick"]
            picks = [fetch[-1], fetch[0]] + [fetch[(rnd // 7 ** j) % len(fetch)] for j in range(3)]
            for st, it in picks[:op.get("fetch", 0)]:
                rid = st.reps[rnd % len(st.reps)]
                rep = [x for x in a.reps if x.id == rid][0]
                nr = s.start_nr + round(it.start / s.D)
                w.spawn_request(client.url_for(base, st, rid, it), at_us=w.sim.now_us + op["delay"],
                                worker=op["w"] % len(w.workers), cb=lambda rr, rep=rep, nr=nr: on_seg(rep, nr, rr))

        def on_seg(rep, nr, r):
            if not wellformed(r, res) or not r.readings:
                return
            t = r.readings[0]
            s = model.Modulo(a, opts, t)
            pred = s.window(nr, t)
            if pred is None or len(r.readings) > 1 and model.Modulo(a, opts, r.readings[-1]).window(nr, r.readings[-1]) != pred:
                res.count("edge_not_judged")
                return
            end = s.end_nr()
            what = "%s nr %d of %d..%d at clock %.6f, phase %d (%s)" % (rep.type, nr, s.start_nr, end - 1, t, s.phase, r.url)
            flags["seg"] += abs(nr - end) <= 1
            res.states.add((s.phase, rep.type, pred, max(-2, min(2, nr - end)), tuple(sorted(k for k, _ in opts))))
            if (r.status == 200) != (pred == "ok"):
                res.bad("served" if r.status == 200 else "refused", "%s: status %s although %s: %r" % (
                    what, r.status, pred, r.body[:120] if r.status != 200 else ""))
                return
            if r.status != 200:
                if r.status != 404:
                    res.bad("status", "%s: %s" % (what, r.status))
                return
            res.count("judged_media")
            if rep.type == "image":
                if r.body != a.vod(rep, s.index(nr))[0].raw:
                    res.bad("thumbnail", "%s: wrong thumbnail" % what)
                return
            boxes, frags, spare = media.decode(rep, r.body)
            if not media.check_time(res, s, rep, nr, frags, what):
                return
            has, brands = media.vod_brands(a.vod(rep, s.index(nr))[0])
            if has:
                media.check_brands(res, has, brands, boxes, nr == end - 1, what)

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = op["at"]
            if scn.get("comp"):
                at = max(w.sim.start_us, at - w.workers[wk].clock_off(at))
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            sw = tuple(op.get("switch", ()))
            s = model.Modulo(a, opts, op["at"] / 1e6)
            if op["k"] == "mpd":
                w.spawn_request(s.mpd_url(), at_us=at, worker=wk, switch=sw, cb=lambda r, op=op: on_mpd(op, r))
                continue
            rep = a.reps[op["rep"] % len(a.reps)]
            nr = max(0, s.start_nr + op["rel"])
            w.spawn_request(s.seg_url(rep, nr), at_us=at, worker=wk, switch=sw,
                            cb=lambda r, rep=rep, nr=nr: on_seg(rep, nr, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = bool(flags["mpd"] and flags["seg"])


PROP = C07()
