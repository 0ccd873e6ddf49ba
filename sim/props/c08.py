"""C08: multi-period MPDs."""
from fractions import Fraction as Fr

from .. import client, content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from .c02 import PPH
from .c05 import PROP as TL

CONT = "urn:mpeg:dash:period_continuity:2014"
CALLBACK = "urn:mpeg:dash:event:callback:2015"


class C08(BaseProp):
    id = "C08"
    RUNS = {"quick": 4500, "thorough": 120000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0}
    OPTIONAL = ("switch", "restart", "fetch")
    RULE = ("one run = one multi-period option set, MPDs polled around Period starts, half periods and the moments at which "
            "Periods leave the window, on 1-3 workers with skewed/stepped clocks, restarts and preemption; every MPD is "
            "followed by fetches of listed segments next to the boundaries; non-trivial = an MPD was judged and a segment "
            "reached through a Period was judged")
    STATE_MEASURE = "(option names, Periods listed, index of the Period modulo 4, media type)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.7, nvid=1, image=False)
        for r in spec["reps"]:
            if r.get("vardur"):
                r["vardur"] = 0
            r.pop("saio", None)
        D, L = spec["D"], spec["L"]
        t0 = pick_time(rng)
        n = rng.choice(PPH + [60, 60, 30, 20, 12] + [0])
        pd = 3600 // n if n else 3600
        opts = [["periods", n]]
        div = [x for x in PPH if n and n % x == 0]
        ast = 0
        stop = None
        r = rng.random()
        if r < 0.45:
            st = max(0, t0 - rng.choice([-3, 0, 1, D, 10, pd // 2, pd, 3 * pd, 20000]))
            ast = st // D * D
            opts.append([rng.choice(["start", "ast"]), st])
            q = rng.random()
            if q < 0.2 and n:
                for _ in range(rng.choice([1, 1, 2])):
                    opts.append(["dur", rng.choice([30, pd // 2, pd, pd + 1, 3 * pd])])
            elif q < 0.4 and n:
                stop = st + rng.choice([1, D, pd // 2, pd, pd + D, 2 * pd, 5 * pd])
                opts.append(["stop", stop])
            if rng.random() < 0.4:
                opts.append(["timeoffset", rng.choice([0, ast, max(0, ast - D * L), ast // D // 3 * D])])
        elif r < 0.5 and n:
            opts.append(["modulo", rng.choice([1, 2, 5, 10, 30, 60])])
        if n:
            kind = rng.random()
            if kind < 0.25:
                opts.append(["etp", rng.choice(div)])
                if rng.random() < 0.6:
                    opts.append(["etpDuration", rng.choice([1, 7, pd // 3, pd // 2, pd])])
            if kind > 0.7:
                opts.append(["xlink", rng.choice(div)])
                if rng.random() < 0.5:
                    opts.append(["insertad", rng.choice([1, 2, 3, 4, 5])])
            if rng.random() < 0.3:
                opts.append(["mpdcallback", rng.choice(div)])
        if rng.random() < 0.5:
            opts.append(["continuous", 1])
        if rng.random() < 0.35:
            opts.append(["peroff", 1])
        if rng.random() < 0.4:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.35:
            opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
        tsbd = spec["tsbd"]
        if rng.random() < 0.7:
            tsbd = rng.choice([1, 5, 30, pd // 2, pd - D if pd > D else 1, pd, 3 * pd, 6 * pd])
            opts.append(["tsbd", tsbd])
        if rng.random() < 0.15:
            opts.append(["mup", rng.choice([1, 10])])
        if rng.random() < 0.15:
            opts.append(["ato", rng.choice(["inf", 1, D])])
        if rng.random() < 0.1:
            opts.append(["scte35", 1])
        if rng.random() < 0.1:
            opts.append(["chunkdur", 0.5])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        k0 = max(0, t0 - ast) // pd
        ops = []
        for _ in range(rng.randrange(3, 9)):
            k = max(0, k0 + rng.choice([-1, 0, 0, 0, 1, 2, 4]))
            e = rng.choice([0, pd // 2, tsbd, tsbd + D, pd // 2 - 5, rng.randrange(pd)])
            t = ast + k * pd + e + rng.choice([-1, 0, 0, 1])
            if stop is not None and rng.random() < 0.3:
                t = stop + rng.choice([-1, 0, 1, D, 2 * D, 5000])
            ops.append({"at": max(us(1), us(t, rng.choice(FRACS))), "w": rng.randrange(nw), "fetch": rng.choice([0, 2, 4]),
                        "delay": rng.choice([0, 0, 1, 200_000]), "pick": rng.randrange(1 << 20)})
            if rng.random() < 0.2:
                ops[-1]["switch"] = sorted(rng.randrange(1, 2500) for _ in range(3))
            if rng.random() < 0.05:
                ops[-1]["restart"] = 1
        ops.sort(key=lambda o: o["at"])
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw, "https": int(rng.random() < 0.2), "comp": 1,
                "skews": gen_skews(rng, nw) if rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 20_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        if "periods" not in o:
            return
        n = int(o["periods"])
        https = bool(scn.get("https"))
        tl = "segtimeline" in o or "segtimelinenr" in o
        nr_mode = "segtimelinenr" in o and "segtimeline" not in o
        base_nr = 1 if int(o.get("snr", 0)) == -1 else int(o.get("snr", 0))
        flags = {"mpd": 0, "seg": 0}
        cont, peroff = "continuous" in o, "peroff" in o
        pd = 3600 // n if n else None
        for k in ("etp", "xlink", "mpdcallback"):
            if k in o and (not n or n % int(o[k])):
                return      # not an accepted combination (only reached while shrinking)
        if "insertad" in o and "xlink" not in o or "etpDuration" in o and "etp" not in o:
            return

        def session(t):
            return model.Modulo(a, opts, t) if "modulo" in o else model.Session(a, opts)

        def expected(s, now):
            if n == 0:
                return [0]
            rel = now - s.ast
            end = s.announced(now)
            if s.stop is not None:
                rel = min(rel, s.stop - s.ast)
            lst = [k for k in range(max(0, (rel - s.tsbd - a.D) // pd - 2), max(0, rel // pd) + 3)
                   if (k + 1) * pd > rel - s.tsbd - a.D and (k * pd <= rel + pd // 2 or k == 0)]
            if end is not None:
                keep = [k for k in lst if k * pd < end]
                lst = keep or [max(end - 1, 0) // pd]   # past the end: the last Period stays
            return lst

        def on_mpd(op, r):
            if not wellformed(r, res):
                return
            t = r.readings[0]
            now = int(t)
            s = session(t)
            what = "%s at clock %.6f" % (r.url, t)
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s %r" % (what, r.status, r.body[:150]))
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            flags["mpd"] += 1
            ks = expected(s, now)
            got = [p.id or (p.href or "?")[-12:] for p in m.periods]
            if len(m.periods) != len(ks):
                res.bad("periods", "%s (AST %d, window %d): Periods %s, expected %s" % (what, s.ast, s.tsbd, got, ks))
                return
            if pd and m.type == "dynamic" and not tl and m.mup is not None and m.mup > pd // 2:
                res.bad("update-period", "%s: update period %s, Periods are announced %s ahead" % (what, m.mup, pd // 2))
                return
            sel = [k for k in ks if "xlink" in o and k % (n // int(o["xlink"])) == 0]
            ad = "insertad" in o
            remote = sel[1:] if ad else sel
            prev = None
            fetch = []
            for i, (k, p) in enumerate(zip(ks, m.periods)):
                pw = "%s, Period %d (p%d)" % (what, i, k)
                if (p.href is not None) != (k in remote):
                    res.bad("xlink", "%s: %s a remote Period" % (pw, "is" if p.href else "is not"))
                    return
                if p.href is not None:
                    if not ad and not p.href.endswith("+p%d.period" % k):
                        res.bad("xlink", "%s: refers to %s" % (pw, p.href))
                        return
                    prev = "p%d" % k
                    continue
                start = k * pd if n else 3600000
                if (p.id, p.start) != ("p%d" % k, start):
                    res.bad("period", "%s: id %s start %s, expected start %d" % (pw, p.id, p.start, start))
                    return
                edur = None
                if "etp" in o and k % (n // int(o["etp"])) == 0:
                    edur = int(o["etpDuration"]) if "etpDuration" in o else pd // 2
                if ad and i + 1 < len(ks) and (k + 1) % (n // int(o["xlink"])) == 0:
                    edur = pd
                if p.duration != edur:
                    res.bad("duration", "%s: duration %s, expected %s" % (pw, p.duration, edur))
                    return
                cb = "mpdcallback" in o and k % (n // int(o["mpdcallback"])) == 0
                want = [(CALLBACK, "1", ["%s://%s/livesim/mpdcallback/" % ("https" if https else "http", w.HOST)])] if cb else []
                have = p.events
                if have != want:
                    res.bad("callback", "%s: event streams %s, expected %s" % (pw, have, want))
                    return
                if bool(p.segbase) != (peroff and start + s.pto != 0):
                    res.bad("offset-level", "%s: %d SegmentBase elements" % (pw, p.segbase))
                    return
                for st in p.sets:
                    c = [v for u, v in st.suppl if u == CONT]
                    if c != ([prev] if cont and prev else []):
                        res.bad("continuity", "%s, %s: period continuity with %s, expected %s" % (pw, st.type, c, prev))
                        return
                    if peroff and st.t.pto:
                        res.bad("offset-level", "%s, %s: offset %s at the template" % (pw, st.type, st.t.pto))
                        return
                    if st.t.timeline is not None and tl:
                        if not judge_tl(s, m, i, k, p, st, now, edur, r.url):
                            return
                        continue
                    if st.t.start != s.start_nr + start // a.D:
                        res.bad("start-number", "%s, %s: start number %s, expected %d" % (
                            pw, st.type, st.t.start, s.start_nr + start // a.D))
                        return
                    pto = Fr(st.t.pto, st.t.timescale) if st.t.pto else p.base_pto
                    if pto != start + s.pto:
                        res.bad("pto", "%s, %s: presentation time offset %s, expected %d" % (pw, st.type, pto, start + s.pto))
                        return
                prev = p.id
                for st in p.sets:
                    if st.type in ("video", "audio"):
                        for it in client.items(m, i, st, t, tail=3) + client.items(m, i, st, t)[:2]:
                            if not pd or it.start < start + pd:
                                fetch.append((p, st, it))
            if not fetch:
                return
            # prefer segments at the boundaries
            fetch.sort(key=lambda x: (min(abs(x[2].start - q.start) for q in m.periods if q.start is not None),
                                      x[2].start, x[1].type))
            base = client.bases(m, r.url)[0][0]
            rnd = op["pick"]
            for j, (p, st, it) in enumerate([fetch[0], fetch[-1]] + [fetch[rnd // 7 ** x % len(fetch)] for x in range(3)]):
                if j >= op.get("fetch", 0):
                    break
                rid = st.reps[rnd % len(st.reps)]
                rep = [x for x in a.reps if x.id == rid][0]
                w.spawn_request(client.url_for(base, st, rid, it), at_us=w.sim.now_us + op["delay"],
                                worker=op["w"] % len(w.workers), https=https,
                                cb=lambda rr, p=p, st=st, it=it, rep=rep, k=m.periods.index(p), s=s, np=len(m.periods):
                                on_seg(rr, p, st, it, rep, k, s, np))

        def judge_tl(s, m, i, k, p, st, now, edur, url):
            # C05's oracle, with the Period's own end
            if edur is None or p.start + edur >= s_end(m, i):
                if i + 1 < len(m.periods) and m.periods[i + 1].start is None and pd:
                    m.periods[i + 1].start = p.start + pd       # remote Period: starts after this one
                    ok = TL.judge_set(res, s, a, m, i, st, now, base_nr, nr_mode, url, {"tl": 0})
                    m.periods[i + 1].start = None
                    return ok
                return TL.judge_set(res, s, a, m, i, st, now, base_nr, nr_mode, url, {"tl": 0})

            class M:
                periods = m.periods[:i + 1] + [type("P", (), {"start": p.start + edur})]
            return TL.judge_set(res, s, a, M, i, st, now, base_nr, nr_mode, url, {"tl": 0})

        def s_end(m, i):
            return m.periods[i + 1].start if i + 1 < len(m.periods) and m.periods[i + 1].start is not None else 1 << 60

        def on_seg(r, p, st, it, rep, k, s, np):
            if not wellformed(r, res) or res.violations:
                return
            t = r.readings[0]
            what = "%s (Period %s from %s, listed at %s; clock %.6f)" % (r.url, p.id, p.start, float(it.start), t)
            if "modulo" in o and session(t).ast != s.ast:
                return
            i = TL.index_of(a, rep, it.time) if tl else None
            if tl and i is None:
                res.bad("no-such-segment", "%s: no segment starts at the listed time %d" % (what, it.time))
                return
            nr = base_nr + i if tl else it.number
            pred = session(t).window(nr, t)
            if r.status != 200:
                if pred == "ok":
                    res.bad("refused", "%s: status %s: %r" % (what, r.status, r.body[:120]))
                return
            boxes, frags, spare = media.decode(rep, r.body)
            if not frags:
                res.bad("no-media", "%s: no fragment" % what)
                return
            pto = Fr(st.t.pto, st.t.timescale) if st.t.pto else p.base_pto
            real = p.start + Fr(frags[0].tfdt, rep.ts) - pto
            tol = Fr(0) if tl else rep.slack
            off = 0 if tl else p.start % a.D        # the Period starts inside a segment
            if abs(real + off - it.start) > tol:
                res.bad("misplaced", "%s: the media starts at %s" % (what, float(real)))
                return
            flags["seg"] += 1
            res.count("segments")
            res.states.add((tuple(sorted(o)), np, int(p.id[1:]) % 4, st.type))

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = op["at"]
            if scn.get("comp"):
                at = max(w.sim.start_us, at - w.workers[wk].clock_off(at))
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            url = "/livesim/" + "".join("%s_%s/" % (k, v) for k, v in opts) + a.name + "/" + a.mpd_name
            w.spawn_request(url, at_us=at, worker=wk, https=https, switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op: on_mpd(op, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = bool(flags["mpd"] and flags["seg"])


PROP = C08()
