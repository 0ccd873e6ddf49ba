"""C16: subtitle segments keep in step with the clock."""
import re

from .. import content, media, model, mp4ref
from ..common import BaseProp, gen_skews, make_world, pick_time, us, wellformed

BEGIN = re.compile(rb'(?<![\w])(begin|end)="(\d+):(\d\d):(\d\d)([.:]?\d*)"')
CLOCK = re.compile(rb"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z")


class C16(BaseProp):
    id = "C16"
    RUNS = {"quick": 12000, "thorough": 250000}
    SHRINK = ("ops", "opts", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one asset with subtitle documents of varied content and one session; players fetch stretches of "
            "consecutive subtitle (and now and then other) segments around loop wraps, session starts and the instants where "
            "hour counts grow by digits or decode times pass 32 bits, whole or chunked, from 1-3 workers with skewed clocks, "
            "restarts, slow and failing disk, line-level preemption; each document is compared with an independently built one; "
            "non-trivial = at least two documents were judged")
    STATE_MEASURE = "(digits of the hour count, decode time width, cues in the document, loop position, chunked, options)"

    def gen(self, rng, tier):
        D = rng.choice([1, 2, 2, 3, 4, 6, 8, 10, 60, 300])
        L = rng.choice([1, 2, 3, 5, 8, 13])
        spec = content.gen_spec(rng, D=D, L=L, plain=True, nvid=1, subs=True, audio=False, image=False,
                                video=D <= 10)
        for r in spec["reps"]:
            if r["type"] == "subtitles":
                if rng.random() < 0.75:
                    r["rich"] = rng.randrange(1, 10 ** 6)
                r["tfhd_sdi"] = rng.choice([0, 1])
                r["tfhd_flags"] = rng.choice([0, 1])
                r["styp"] = rng.choice([1, 1, 2, 0])
                r["sidx"] = rng.choice([0, 0, 1, 2])
        if rng.random() < 0.3:
            r2 = dict([r for r in spec["reps"] if r["type"] == "subtitles"][0], id="S2", lang="fin")
            spec["reps"].append(r2)
        ts = [r["ts"] for r in spec["reps"] if r["type"] == "subtitles"][0]
        t0 = pick_time(rng)
        if rng.random() < 0.15:
            t0 = rng.choice([100, 359_990, 4_000, 35_999_990, 90_000])
        opts, ast = [], 0
        if rng.random() < 0.5:
            st = max(0, t0 - rng.choice([0, D, 45, 3500, 86390, 359_995, 10 ** 8]))
            ast = st // D * D
            opts.append([rng.choice(["start", "ast"]), st])
            if rng.random() < 0.6:
                opts.append(["timeoffset", rng.choice([0, ast, ast, ast // D // 3 * D, max(0, ast // D * D - 3 * D)])])
        if rng.random() < 0.25:
            opts.append(["snr", rng.choice([-1, 0, 1, 1000])])
        inf = rng.random() < 0.8
        if inf:
            opts.append(["ato", "inf"])
        if rng.random() < 0.25:
            opts.append(["sidx", 1])
        if rng.random() < 0.15:
            opts.append(["chunkdur", rng.choice([D, D, 1])])
        if rng.random() < 0.1:
            opts.append(["segtimeline", 1])
        rng.shuffle(opts)
        a = content.build(spec)
        s = model.Session(a, opts)
        nw = rng.choice([1, 1, 2, 3])
        now = s.start_nr + max(0, (t0 - s.ast) // D - 1)
        marks = [now]
        if inf:
            for media_t in (0, 3600, 86400, 360_000, 3_600_000, 36_000_000, 2 ** 32 // ts):
                n = media_t // D - s.index(0)
                if n >= s.start_nr and n < 2 ** 31:
                    marks += [n, n]
            marks.append(now - s.index(now) % L + L)
        ops = []
        for _ in range(rng.randrange(1, 4)):
            m = rng.choice(marks) - rng.randrange(0, 3)
            rep = rng.choice([i for i, r in enumerate(spec["reps"]) if r["type"] == "subtitles"])
            for k in range(rng.choice([1, 2, 3, L + 1])):
                nr = m + k
                if nr < s.start_nr:
                    continue
                at = us(t0) + rng.randrange(0, us(3)) if inf else us(s.seg_ast(nr)) + rng.randrange(0, us(D))
                if not inf and nr < now - 2:
                    continue
                op = {"nr": nr, "rep": rep if rng.random() < 0.85 else rng.randrange(len(spec["reps"])), "at": at,
                      "w": rng.randrange(nw)}
                if rng.random() < 0.3:
                    op["switch"] = sorted(rng.randrange(1, 900) for _ in range(3))
                if rng.random() < 0.02:
                    op["restart"] = 1
                ops.append(op)
                if rng.random() < 0.1:
                    ops.append(dict(op, w=rng.randrange(nw)))
        if not ops:
            ops = [{"nr": now, "rep": 0, "at": us(t0 + 3 * D), "w": 0}]
        ops.sort(key=lambda o: o["at"])
        faults = []
        if rng.random() < 0.15:
            faults.append({"kind": rng.choice(["slow", "EIO", "ENOENT", "EMFILE"]), "match": rng.choice([".m4s", ".cfg"]),
                           "op": "open", "arg": 200_000, "count": rng.choice([1, 2]), "skip": rng.randrange(0, 5)})
        return {"asset": spec, "opts": opts, "t0": max(us(1), ops[0]["at"] - us(20)), "workers": nw,
                "skews": gen_skews(rng, nw) if inf and rng.random() < 0.5 else [], "sched": rng.randrange(1 << 30),
                "faults": faults, "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        s = model.Session(a, opts)
        D = a.D
        if scn.get("faults"):
            from ..vfs import Fault
            for f in scn["faults"]:
                w.vfs.faults.append(Fault(f))
        spans, bodies = {}, {}
        n = [0]

        def judge(op, rep, r):
            if not wellformed(r, res) or res.violations:
                return
            nr = op["nr"]
            what = "%s nr %d (media time %d s)" % (r.url, nr, s.index(nr) * D)
            if r.status != 200:
                if not r.faults and s.window(nr, r.readings[0]) == "ok":
                    res.bad("refused", "%s: status %s %r" % (what, r.status, r.body[:200]))
                return
            try:
                boxes, frags, spare = media.decode(rep, r.body)
            except mp4ref.Bad as exc:
                res.bad("malformed", "%s: %s" % (what, exc))
                return
            if not media.check_time(res, s, rep, nr, frags, what):
                return
            end = frags[-1].tfdt + frags[-1].dur
            spans.setdefault(rep.id, {})[nr] = (frags[0].tfdt, end)
            if rep.type != "subtitles":
                return
            if spare or sum(len(f.samples) for f in frags) != 1:
                res.bad("sample-size", "%s: %d samples, %d bytes of mdat belong to no sample" % (
                    what, sum(len(f.samples) for f in frags), spare))
                return
            if end - frags[0].tfdt != D * rep.ts:
                res.bad("duration", "%s: lasts %d of %d" % (what, end - frags[0].tfdt, rep.ts))
                return
            doc = [x[0] for f in frags for x in f.samples][0]
            i = s.index(nr)
            k, off = i % a.L, i // a.L * a.loop
            vod = rep.segs[k].ttml
            want = rep._ttml(k, off, nr)
            # times first, for a telling message
            bv, bd = BEGIN.findall(vod), BEGIN.findall(doc)
            if len(bv) != len(bd):
                res.bad("cue-times", "%s: %d begin/end times, VoD document has %d" % (what, len(bd), len(bv)))
                return
            for x, y in zip(bv, bd):
                ts = [int(z[1]) * 3600 + int(z[2]) * 60 + int(z[3]) for z in (x, y)]
                if x[0] != y[0] or x[4] != y[4] or ts[1] - ts[0] != off or int(y[2]) > 59 or int(y[3]) > 59:
                    res.bad("cue-times", "%s: %s is %s, VoD has %s, %d loops of %d s are over" % (
                        what, y[0].decode(), b":".join(y[1:]), b":".join(x[1:]), i // a.L, a.loop))
                    return
            cw, cd = CLOCK.findall(want), CLOCK.findall(doc)
            if cw != cd:
                res.bad("clock-text", "%s: clock texts %s, expected %s" % (what, cd, cw))
                return
            if doc != want:
                j = next((q for q in range(min(len(doc), len(want))) if doc[q] != want[q]), min(len(doc), len(want)))
                res.bad("document", "%s: document reads %r, expected %r" % (what, doc[max(0, j - 30):j + 40],
                                                                           want[max(0, j - 30):j + 40]))
                return
            if bodies.setdefault((rep.id, nr), r.body) != r.body:
                res.bad("not-same", "%s: differs from what was served before" % what)
                return
            n[0] += 1
            res.count("documents")
            res.count("cues", len(bv) // 2)
            hrs = max([len(y[1]) for y in bd], default=0)
            res.states.add((hrs, frags[0].tfdt_ver, len(bv), k, "chunkdur" in o, tuple(sorted(o))))

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            if op.get("restart"):
                w.sim.at(op["at"], w.workers[wk].restart)
            rep = a.reps[op["rep"] % len(a.reps)]
            w.spawn_request(s.seg_url(rep, op["nr"]), at_us=op["at"], worker=wk, switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op, rep=rep: judge(op, rep, r))
        w.sim.run()
        res.absorb(w)
        if not res.violations:
            for rid, x in spans.items():
                for nr, (b, e) in sorted(x.items()):
                    if nr + 1 in x and x[nr + 1][0] != e:
                        res.bad("gap", "%s%s: segment %d ends at %d, segment %d starts at %d" % (
                            s.prefix, rid, nr, e, nr + 1, x[nr + 1][0]))
                        return
                    res.count("pairs", nr + 1 in x)
        res.nontrivial = n[0] >= 2


PROP = C16()
