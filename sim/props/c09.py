"""C09: low-latency chunks."""
from fractions import Fraction as Fr

from .. import content, media, model, mp4ref, mpdref
from ..common import BaseProp, gen_skews, make_world, pick_time, us, wellformed

CHUNKS = [0.1, 0.125, 0.2, 0.25, 0.5, 0.64, 1, 1.5, 2]


class C09(BaseProp):
    id = "C09"
    RUNS = {"quick": 9000, "thorough": 120000}
    SHRINK = ("ops", "over", "faults", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart", "pace", "quit")
    RULE = ("one run = one chunk duration and option set; simultaneous readers ask for segments from before their first chunk "
            "is due to long after the last one, at their own pace (fast, slow, stalling, disconnecting), on 1-3 workers with "
            "skewed clocks, timers that oversleep, a slow disk, restarts and line-level preemption between the requests; "
            "non-trivial = a paced response (one that had to wait) was judged")
    STATE_MEASURE = "(chunks, chunks that waited, reader kind, media type, 32/64 bit decode time, options)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.6, nvid=1, image=False)
        for r in spec["reps"]:
            r.pop("saio", None)
            r["styp"] = r.get("styp", 1) or 1
        D, L = spec["D"], spec["L"]
        scale = [r["ts"] for r in spec["reps"]]
        frames = [Fr(r["frame"], r["ts"]) for r in spec["reps"] if "frame" in r]
        ok = [c for c in CHUNKS + [D, D / 2, 2 * D, D / 4] if all((Fr(c) * ts).denominator == 1 for ts in scale)
              and all(Fr(c) >= f for f in frames)]
        cd = rng.choice(ok or [D])
        if rng.random() < 0.2:      # any duration, however small or odd
            cd = rng.choice([0.001, 0.01, 0.033, 0.3, 0.7, 0.999, 1.2345, 1e-06, round(rng.random() * 2 * D + 0.0005, 4)])
        opts = [["chunkdur", cd]]
        t0 = pick_time(rng)
        ast = 0
        if rng.random() < 0.4:
            st = max(0, t0 - rng.choice([0, D, 20, 1000, 100000]))
            opts.append([rng.choice(["start", "ast"]), st])
            ast = st // D * D
            if rng.random() < 0.3:
                opts.append(["dur", t0 - st + rng.choice([5, D, 30])])
            if rng.random() < 0.4:
                opts.append(["timeoffset", rng.choice([0, ast, ast // D // 3 * D])])
        if rng.random() < 0.8:
            opts.append(["ato", rng.choice(["inf", D, D, D - min(cd, D), D / 2, 2 * D + 1, 0.25])])
        if rng.random() < 0.25:
            opts.append(["snr", rng.choice([-1, 0, 1, 7, 1000])])
        if rng.random() < 0.25:
            opts.append(["tsbd", rng.choice([5, 30, 600])])
        if rng.random() < 0.15:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.1:
            opts.append(["sidx", 1])
        if rng.random() < 0.12:
            opts.append(["scte35", rng.choice([1, 2, 3])])
        if rng.random() < 0.1:
            opts.append(["utc", rng.choice(["direct", "head"])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        cur = (t0 - ast) // D
        ops = []
        for _ in range(rng.randrange(2, 7)):
            if rng.random() < 0.1:
                ops.append({"k": "mpd", "at": us(t0) + rng.randrange(0, us(10)), "w": rng.randrange(nw)})
                continue
            rel = max(0, cur + rng.choice([-1, 0, 0, 0, 1, 1, 2, -3]))
            seg0 = us(ast + rel * D)
            at = seg0 + rng.choice([0, 0, -1, 1, -us(1), -100_000, rng.randrange(0, us(D)), rng.randrange(0, us(D)), us(D),
                                    us(D) + 1, us(D) - 100_000, us(2 * D), int(cd * 1e6), int(cd * 1e6) - 100_000,
                                    int(cd * 1e6) - 99_999, us(3 * D) + 5])
            op = {"k": "seg", "rel": rel, "rep": rng.randrange(len(spec["reps"])), "at": max(us(1), at),
                  "w": rng.randrange(nw)}
            r = rng.random()
            if r < 0.3:
                op["pace"] = [rng.choice([0, 0, 1000, 50_000, 300_000, us(D), us(3 * D)]) for _ in range(6)]
            if r > 0.92:
                op["quit"] = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.3:
                op["switch"] = sorted(rng.randrange(1, 1500) for _ in range(3))
            if rng.random() < 0.03:
                op["restart"] = 1
            ops.append(op)
        if rng.random() < 0.3 and ops[0]["k"] == "seg":     # a crowd at the very same moment
            ops += [dict(ops[0], w=rng.randrange(nw), rep=rng.randrange(len(spec["reps"]))) for _ in range(rng.randrange(1, 4))]
        ops.sort(key=lambda o: o["at"])
        faults = []
        if rng.random() < 0.15:
            faults.append({"kind": "slow", "match": rng.choice([".m4s", "init.mp4", ".cfg"]), "op": "open",
                           "arg": rng.choice([1000, 200_000, us(D)]), "count": rng.choice([1, 3])})
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw, "comp": 1,
                "skews": gen_skews(rng, nw) if rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30),
                "over": [rng.choice([0, 1000, 40_000, 700_000, us(D)]) for _ in range(5)] if rng.random() < 0.25 else [],
                "faults": faults, "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        if "chunkdur" not in o:
            return
        s = model.Session(a, opts)
        cd = Fr(o["chunkdur"])
        D = a.D
        flags = {"paced": 0}
        for f in scn.get("faults", []):
            w.vfs.faults.append(make_fault(f))
        over = scn.get("over", [])
        for wk in w.workers:
            wk.over = list(over)
        slop = max(over, default=0) + 2

        def on_mpd(r):
            if not wellformed(r, res):
                return
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s %r" % (r.url, r.status, r.body[:150]))
                return
            try:
                m = mpdref.MPD(r.body)
                for p in m.periods:
                    for st in p.sets:
                        got = mpdref.baseurl_ato(st.t.ato)
                        want = None if s.ato_inf else s.ato
                        if (got is None) != (want is None) or got is not None and abs(got - want) > Fr(1, 500_000) or \
                                st.t.atc != "false":
                            res.bad("signalling", "%s, %s: availabilityTimeOffset %s availabilityTimeComplete %s" % (
                                r.url, st.type, st.t.ato, st.t.atc))
                            return
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (r.url, exc))
                return
            if not m.utc:
                res.bad("signalling", "%s: no UTCTiming for a low-latency client" % r.url)
            res.count("mpds")

        def on_seg(op, rep, nr, r, done):
            if not wellformed(r, res) or res.violations:
                return
            t = r.readings[0]
            pred = s.window(nr, t)
            what = "%s (segment starts at %s, requested at clock %.6f)" % (r.url, s.seg_ast(nr) - D, t)
            if pred is None:
                res.count("edge_not_judged")
                return
            if (r.status == 200) != (pred == "ok"):
                res.bad("served" if r.status == 200 else "refused", "%s: status %s although %s: %r" % (
                    what, r.status, pred, r.body[:120] if r.status != 200 else ""))
                return
            if r.status != 200:
                return
            if "content-length" in r.headers:
                res.bad("framing", "%s: a chunked response has Content-Length %s" % (what, r.headers["content-length"]))
                return
            off = w.workers[r.worker].clock_off(0)
            start = s.seg_ast(nr) - D
            waited = 0
            # pacing
            disk = sum(f["arg"] * 1 * f["count"] for f in scn.get("faults", []))
            ready = r.t0
            for i, (at, data) in enumerate(r.chunks, start=1):
                due = (start + min(i * cd, Fr(D)) - Fr(1, 10)) * 1_000_000 - off     # true time, us
                if at < due - 2:
                    res.bad("early", "%s: chunk %d left at clock %.6f, %.6f s before %.6f" % (
                        what, i, (at + off) / 1e6, float(due - at) / 1e6, float(due + off) / 1e6))
                    return
                limit = max(due, ready + (disk if i == 1 else 0)) + (slop if due > ready - 2 else 2)
                if at > limit:
                    res.bad("late", "%s: chunk %d left at clock %.6f, %.6f s after it could (due %.6f)" % (
                        what, i, (at + off) / 1e6, float(at - max(due, ready)) / 1e6, float(due + off) / 1e6))
                    return
                waited += due > ready
                ready = done[i - 1] if i - 1 < len(done) else at
            if op.get("quit") and not r.complete:
                res.count("disconnected")
            # content
            try:
                trex = mp4ref.Trex(rep.init)
                tick = Fr(int(cd * rep.ts), rep.ts)     # the duration in whole ticks
                head = True
                samples = []
                tnext = None
                single = False
                for i, (at, data) in enumerate(r.chunks, start=1):
                    boxes = mp4ref.parse(data)
                    if i == 1:
                        lead = leading(boxes, data)
                    kinds = [b.type for b in boxes]
                    while head and kinds and kinds[0] in (b"styp", b"emsg", b"sidx", b"prft"):
                        kinds.pop(0)
                    if kinds != [b"moof", b"mdat"]:
                        res.bad("chunk-layout", "%s: chunk %d has boxes %s" % (what, i, [b.type for b in boxes]))
                        return
                    head = False
                    frags, spare = mp4ref.fragments(boxes, data, trex)
                    f = frags[0]
                    if len(frags) != 1 or spare or not f.samples:
                        res.bad("chunk-layout", "%s: chunk %d: %d fragments, %d spare bytes, %d samples" % (
                            what, i, len(frags), spare, len(f.samples)))
                        return
                    if f.seqno != nr or f.track != rep.tid:
                        res.bad("chunk-ids", "%s: chunk %d has sequence number %d, track %d" % (what, i, f.seqno, f.track))
                        return
                    want = s.a.seg_time(rep, s.index(nr)) if tnext is None else tnext
                    if f.tfdt != want:
                        res.bad("chunk-time", "%s: chunk %d starts at %d, expected %d" % (what, i, f.tfdt, want))
                        return
                    tnext = f.tfdt + f.dur
                    samples += f.samples
                    if r.complete and i < len(r.chunks) and Fr(tnext - s.a.seg_time(rep, s.index(nr)), rep.ts) < i * tick:
                        res.bad("chunk-short", "%s: the first %d chunks last %d of %d, less than %s s" % (
                            what, i, tnext - s.a.seg_time(rep, s.index(nr)), rep.ts, float(i * cd)))
                        return
                    if i > 1 and not single and Fr(f.tfdt - s.a.seg_time(rep, s.index(nr)), rep.ts) >= (i - 1) * cd + \
                            Fr(max(x[2] for x in samples), rep.ts) and i <= len(r.chunks) - 1:
                        res.bad("chunk-long", "%s: chunk %d only starts %d of %d into the segment" % (
                            what, i, f.tfdt - s.a.seg_time(rep, s.index(nr)), rep.ts))
                        return
                    single = len(f.samples) == 1
            except mp4ref.Bad as exc:
                res.bad("malformed", "%s: %s" % (what, exc))
                return
            seg, _ = a.vod(rep, s.index(nr))
            ref = seg.samples
            if r.complete and len(samples) != len(ref) or len(samples) > len(ref):
                res.bad("sample-count", "%s: %d samples, the segment has %d" % (what, len(samples), len(ref)))
                return
            for k, (g, v) in enumerate(zip(samples, ref)):
                if rep.type != "subtitles" and g[0] != v.data:
                    res.bad("sample-data", "%s: sample %d is %r.., expected %r.." % (what, k, g[0][:30], v.data[:30]))
                    return
                if g[2] != v.dur or g[4] != v.cto or bool(g[3] & 0x10000) != bool(v.flags & 0x10000):
                    res.bad("sample-meta", "%s: sample %d: duration %d cto %d flags %x, expected %d %d %x" % (
                        what, k, g[2], g[4], g[3], v.dur, v.cto, v.flags))
                    return
            flags["paced"] += waited > 0
            res.count("judged")
            res.count("chunks", len(r.chunks))
            res.states.add((min(len(r.chunks), 12), min(waited, 12), bool(op.get("pace")), rep.type,
                            s.a.seg_time(rep, s.index(nr)) >> 32 > 0, tuple(sorted(o))))
            if r.complete:      # same text, segment type and events as in the whole segment
                u = r.url.replace("chunkdur_%s/" % o["chunkdur"], "")
                body = [g[0] for g in samples] if rep.type == "subtitles" else None
                w.spawn_request(u, at_us=w.sim.now_us, worker=r.worker, cb=lambda rr: same(rr, rep, nr, body, lead))

        def leading(boxes, data):
            out = []
            for b in boxes:
                if b.type == b"moof":
                    break
                if b.type in (b"styp", b"emsg"):
                    out.append(b.raw())
            return out

        def same(r, rep, nr, body, lead):
            if not wellformed(r, res) or r.status != 200:
                return
            boxes, frags, _ = media.decode(rep, r.body)
            whole = leading(boxes, r.body)
            if whole != lead:
                res.bad("lead-boxes", "%s: segment type and events before the first fragment are %r, in chunks %r" % (
                    r.url, [x[4:24] for x in whole], [x[4:24] for x in lead]))
                return
            res.count("whole_compared")
            if body is not None and [g[0] for f in frags for g in f.samples] != body:
                res.bad("sample-data", "%s: chunked and whole segment differ" % r.url)

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = op["at"]
            if scn.get("comp"):
                at = max(w.sim.start_us, at - w.workers[wk].clock_off(at))
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            if op["k"] == "mpd":
                w.spawn_request(s.mpd_url(), at_us=at, worker=wk, cb=on_mpd)
                continue
            rep = a.reps[op["rep"] % len(a.reps)]
            nr = max(0, s.start_nr + op["rel"] + (s.pto // D if s.toff is not None else 0) * 0)
            done = []

            def reader(r, chunk, op=op, done=done):
                k = len(r.chunks)
                if op.get("quit") and k >= op["quit"]:
                    return False
                p = op.get("pace")
                if p and p[(k - 1) % len(p)]:
                    w.count("slow_reader")
                    w.sim.sleep_us(p[(k - 1) % len(p)])
                done.append(w.sim.now_us)
                return True
            w.spawn_request(s.seg_url(rep, nr), at_us=at, worker=wk, switch=tuple(op.get("switch", ())), reader=reader,
                            cb=lambda r, op=op, rep=rep, nr=nr, done=done: on_seg(op, rep, nr, r, done))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = flags["paced"] > 0


def make_fault(spec):
    from ..vfs import Fault
    return Fault(spec)


PROP = C09()
