"""C03: the endless, gap-free media timeline."""
from .. import content, media, model
from ..common import BaseProp, ctype, gen_skews, gen_steps, make_world, pick_time, us, wellformed


class C03(BaseProp):
    id = "C03"
    RUNS = {"quick": 8000, "thorough": 200000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "drop", "restart")
    RULE = ("one run = one asset and option set; up to 24 segment requests by number or time in shuffled order, at several "
            "instants (years apart) and on several workers, overlapping at source-line level; non-trivial = at least "
            "one pair of consecutive segments of one Representation was served")
    STATE_MEASURE = "(media type, loop position class, loops magnitude, tfdt width in VoD and served, options)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.5)
        D, L = spec["D"], spec["L"]
        t0 = pick_time(rng)
        if rng.random() < 0.15:
            t0 = rng.choice([20, 500, 47721, 47722, 95443, 4294967 // 2, 2 ** 31, 2 ** 32 - 100, 2 ** 32 + 5])
        opts = []
        if rng.random() < 0.4:
            opts.append([rng.choice(["start", "ast"]), max(0, t0 - rng.choice([0, 1, 7, 100, 10000, 10 ** 6, 10 ** 9]))])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
        if rng.random() < 0.8:
            opts.append(["ato", rng.choice(["inf", "inf", "inf", D, 1])])
        else:
            opts.append(["tsbd", rng.choice([60, 600, 5])])
        if opts[0][0] in ("start", "ast") and rng.random() < 0.35:
            ast = int(opts[0][1]) // D * D
            opts.append(["timeoffset", rng.choice([0, ast // D // 2 * D, ast, max(0, ast - D * L)])])
        for o in ("sidx", "segtimelinenr"):
            if rng.random() < 0.1:
                opts.append([o, 1])
        rng.shuffle(opts)
        a = content.build(spec)
        s = model.Session(a, opts)
        nw = rng.choice([1, 2, 3])
        ops = []
        inf = s.ato_inf
        base = s.start_nr + max(0, (t0 - s.ast) // D - 2)
        marks = [base]
        # numbers around loop wraps
        loops = (s.index(base) // L)
        marks.append(base + L - s.index(base) % L)
        if inf:
            marks += [s.start_nr, s.start_nr + rng.randrange(0, 3 * L)]
            # where decode times pass 32 bits
            for r in a.reps:
                x = 2 ** 32 // (D * r.ts)
                n = x - s.index(s.start_nr) + s.start_nr
                if n > s.start_nr:
                    marks.append(n)
            marks.append(s.start_nr + (loops // 2) * L)
        for _ in range(rng.randrange(3, 8)):
            m = rng.choice(marks) + rng.randrange(-2, 3)
            n = rng.choice([1, 2, 2, 3])
            rep = rng.randrange(len(a.reps))
            for k in range(n):
                nr = m + k
                if nr < s.start_nr or nr >= 2 ** 32 - 1:
                    continue
                at = us(t0 + rng.choice([0, 0, 0, 1, 1, 2, 5]))
                if inf and rng.random() < 0.2:
                    at += rng.choice([3600, 86400 * 365, 10 ** 8]) * 1_000_000
                if not inf:
                    at = us(s.seg_ast(nr)) + rng.randrange(0, max(1, s.tsbd * 1_000_000))
                    if at < us(t0) - 4000 * 10 ** 6:
                        continue
                op = {"rep": rng.randrange(len(a.reps)) if rng.random() < 0.2 else rep, "nr": nr, "at": at,
                      "w": rng.randrange(nw), "by": "t" if rng.random() < 0.2 else "n"}
                if rng.random() < 0.25:
                    op["switch"] = sorted(rng.randrange(1, 700) for _ in range(3))
                if rng.random() < 0.05:
                    op["drop"] = 1
                if rng.random() < 0.05:
                    op["restart"] = 1
                ops.append(op)
        rng.shuffle(ops)
        return {"asset": spec, "opts": opts, "t0": min([us(t0)] + [o["at"] for o in ops]) - 1_000_000 if t0 > 10
                else us(t0), "workers": nw, "skews": gen_skews(rng, nw), "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 4_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        s = model.Session(a, scn["opts"])
        seen = {}

        def judge(op, rep, nr, r):
            if op.get("drop"):
                return
            if not wellformed(r, res) or r.status != 200:
                if r.status == 404 and r.readings and s.window(nr, r.readings[0]) == "ok" and not res.violations:
                    res.bad("refused", "%s: refused inside its window: %r" % (r.url, r.body[:150]))
                return
            what = "%s %s nr %d (%s)" % (rep.type, rep.id, nr, r.url)
            key = (rep.id, nr)
            if rep.type == "image":
                want = a.vod(rep, s.index(nr))[0].raw
                if r.body != want:
                    res.bad("thumbnail", "%s: not the thumbnail of loop position %d" % (what, s.index(nr) % a.L))
                return
            boxes, frags, spare = media.decode(rep, r.body)
            res.count("segments")
            if not media.check_time(res, s, rep, nr, frags, what):
                return
            seg = a.vod(rep, s.index(nr))[0]
            first = seg.samples[0].data
            if rep.type != "subtitles" and frags[0].samples[0][0] != first:
                res.bad("wrong-media", "%s: carries %r, the loop has %r there" % (what, frags[0].samples[0][0][:24],
                                                                                 first[:24]))
                return
            if key in seen:
                if seen[key][0] != r.body:
                    res.bad("not-same", "%s: differs from what was served before for this number" % what)
                    return
                res.count("same_number_again")
            seen[key] = (r.body, frags[0].tfdt, frags[-1].tfdt + frags[-1].dur)
            for d, x in ((1, 2), (-1, 1)):
                nb = seen.get((rep.id, nr + d))
                if nb is None:
                    continue
                mine = frags[-1].tfdt + frags[-1].dur if d == 1 else frags[0].tfdt
                if mine != nb[1 if d == 1 else 2]:
                    res.bad("gap", "%s: %s %d but the neighbour %s %d" % (
                        what, "ends" if d == 1 else "starts", mine, "starts" if d == 1 else "ends",
                        nb[1 if d == 1 else 2]))
                    return
                res.count("consecutive_pairs")
                res.nontrivial = True
            for other in a.reps:
                if other.type in ("video", "audio") and other is not rep and (other.id, nr) in seen and \
                        rep.type in ("video", "audio"):
                    o = seen[(other.id, nr)]
                    so, sm = a.vod(other, s.index(nr))[0], seg
                    live = frags[0].tfdt * other.ts - o[1] * rep.ts
                    vod = sm.t * other.ts - so.t * rep.ts
                    if live != vod:
                        res.bad("alignment", "%s: misaligned with %s by %d, VoD by %d" % (what, other.id, live, vod))
                        return
                    res.count("aligned_pairs")
            i = s.index(nr)
            res.states.add((rep.type, i % a.L in (0, a.L - 1), len(str(i // a.L)), rep.spec.get("tfdt"),
                            frags[0].tfdt >> 32 > 0, tuple(sorted(k for k, _ in s.opts))))

        res.nontrivial = False
        for op in scn["ops"]:
            rep = a.reps[op["rep"] % len(a.reps)]
            nr = op["nr"]
            url = s.seg_url(rep, nr)
            if op["by"] == "t" and rep.type in ("video", "audio"):
                url = url.replace("/%d.m4s" % nr, "/t%d.m4s" % a.seg_time(rep, s.index(nr)))
            wk = op["w"] % len(w.workers)
            reader = None
            if op.get("drop"):
                def reader(r, chunk):
                    return False
            if op.get("restart"):
                w.sim.at(op["at"], w.workers[wk].restart)
            w.spawn_request(url, at_us=op["at"], worker=wk, switch=tuple(op.get("switch", ())), reader=reader,
                            cb=lambda r, op=op, rep=rep, nr=nr: judge(op, rep, nr, r))
        w.sim.run()
        res.absorb(w)


PROP = C03()
assert ctype
