"""C04: rewriting never damages the media."""
from .. import content, media, model
from ..common import BaseProp, make_world, pick_time, us, wellformed


class C04(BaseProp):
    id = "C04"
    RUNS = {"quick": 8000, "thorough": 200000}
    SHRINK = ("ops", "opts")
    SIMPLIFY = {"workers": 1, "policy": "fifo"}
    OPTIONAL = ("switch",)
    RULE = ("one run = one asset with a drawn combination of box flavours (tfdt width, sidx, styp, tfhd/trex/trun "
            "defaults, auxiliary data, init versions) and an option set that forces rewrites; up to 16 segment and init "
            "requests, overlapping at source-line level; non-trivial = at least three segments were compared sample by "
            "sample")
    STATE_MEASURE = "(flavour of the Representation, options, served tfdt width, boxes in the output)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=False, image=False)
        D, L = spec["D"], spec["L"]
        if rng.random() < 0.12:
            for r in spec["reps"]:
                if r["type"] != "subtitles":
                    r["styp"] = 0
                    r.pop("vod_lmsg", None)
        t0 = pick_time(rng)
        opts = []
        kind = rng.choice(["inf", "inf", "dur", "plain", "outage"])
        if kind == "inf":
            if rng.random() < 0.4:
                opts.append(["start", t0 - rng.choice([0, 10, 10 ** 4, 10 ** 8])])
            opts.append(["ato", "inf"])
        elif kind == "dur":
            opts.append(["start", t0 - rng.randrange(0, 4 * D * L)])
            opts.append(["dur", rng.randrange(D, 3 * D * L + D)])
            if rng.random() < 0.3:
                opts.append(["dur", rng.randrange(D, D * L + D)])
            opts.append(["ato", "inf"])
        elif kind == "outage":
            u, d = rng.choice([(10, 20), (20, 10), (40, 20), (30, 30), (7, 5)])
            opts.append(["baseurl", "u%d_d%d" % (u, d)])
            opts.append(["ato", "inf"])
        if rng.random() < 0.5:
            opts.append(["sidx", rng.choice([1, 1, 1, 0])])
        if rng.random() < 0.3 and spec["reps"][0].get("styp", 1):
            opts.append(["scte35", rng.choice([1, 2, 3])])
        if rng.random() < 0.2:
            opts.append(["snr", rng.choice([1, 77])])
        rng.shuffle(opts)
        a = content.build(spec)
        s = model.Session(a, opts)
        ops = []
        base = s.start_nr + max(0, (t0 - s.ast) // D - 2)
        nw = rng.choice([1, 2])
        for _ in range(rng.randrange(5, 17)):
            rep = rng.randrange(len(a.reps))
            r = a.reps[rep]
            at = us(t0 + rng.choice([0, 0, 0, 1]))
            if rng.random() < 0.15:
                ops.append({"k": "init", "rep": rep, "nr": 0, "at": at, "w": rng.randrange(nw)})
                continue
            nr = base + rng.randrange(-3, 1)
            if kind == "inf":
                cross = 2 ** 32 // (D * r.ts) - s.index(0)
                nr = rng.choice([base, cross, cross, cross + rng.randrange(1, 3 * L), base * 3, s.start_nr]) + \
                    rng.randrange(-2, 3)
            elif kind == "dur":
                nr = rng.choice([s.end_nr() - 1, s.end_nr() - 2, s.start_nr + rng.randrange(0, 2 * L)])
            elif kind == "outage":
                # instants around the last second before the outage
                at = us(t0 // 60 * 60 + u + rng.choice([0, 0, 0, -1, 1]), rng.choice([0, 500_000]))
                nr = base
            if not s.start_nr <= nr < 2 ** 32 - 1:
                continue
            op = {"k": "seg", "rep": rep, "nr": nr, "at": at, "w": rng.randrange(nw)}
            if rng.random() < 0.3:
                op["switch"] = sorted(rng.randrange(1, 700) for _ in range(3))
            ops.append(op)
        return {"asset": spec, "opts": opts, "kind": kind, "t0": us(t0 - 120), "workers": nw,
                "sched": rng.randrange(1 << 30), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        s = model.Session(a, scn["opts"])
        o = dict(scn["opts"])
        insert = str(o.get("sidx", 0)) == "1"
        n = [0]

        def judge(op, rep, r):
            if not wellformed(r, res):
                return
            what = "%s %s nr %d (%s)" % (rep.type, rep.id, op["nr"], r.url)
            if r.status != 200:
                if r.status == 404 and op["k"] == "seg" and scn["kind"] in ("inf", "dur") and \
                        s.window(op["nr"], r.readings[0]) == "ok":
                    res.bad("refused", "%s refused: %r" % (what, r.body[:150]))
                return
            if op["k"] == "init":
                media.check_init(res, rep, r.body, what)
                res.count("inits")
                return
            nr = op["nr"]
            boxes, frags, spare = media.decode(rep, r.body)
            seg = a.vod(rep, s.index(nr))[0]
            has, brands = media.vod_brands(seg)
            ends = [s.start_nr + (e - s.ast) // a.D - 1 for e in _ends(s)]
            lmsg = bool(ends) and nr == ends[-1]
            ok = media.layout(res, boxes, what, events=rep.type == "video" or "baseurl" in o) and \
                len(frags) == 1 or res.bad("layout", "%s: %d fragments" % (what, len(frags)))
            ok = ok and media.check_time(res, s, rep, nr, frags, what)
            ok = ok and media.check_samples(res, s, rep, nr, frags, spare, what)
            ok = ok and media.check_aux(res, rep, seg, frags, what)
            ok = ok and media.check_sidx(res, rep, boxes, frags, insert, what)
            ok = ok and media.check_brands(res, has, brands, boxes, lmsg, what)
            if ok:
                kinds = [b.type for b in boxes]
                old = [b.type for b in media.mp4ref.parse(seg.raw)]
                if [k for k in kinds if k not in (b"sidx", b"emsg")] != [k for k in old if k != b"sidx"]:
                    res.bad("boxes", "%s: boxes %s, VoD segment has %s" % (what, kinds, old))
                    return
                n[0] += 1
                res.count("segments")
                res.states.add((repr(sorted((k, v) for k, v in rep.spec.items() if k not in ("ts", "frame", "id"))),
                                frags[0].tfdt_ver, tuple(kinds), tuple(sorted(o))))

        for op in scn["ops"]:
            rep = a.reps[op["rep"] % len(a.reps)]
            url = s.init_url(rep) if op["k"] == "init" else s.seg_url(rep, op["nr"])
            w.spawn_request(url, at_us=op["at"], worker=op["w"] % len(w.workers), switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op, rep=rep: judge(op, rep, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = n[0] >= 3


def _ends(s):
    "Segment-aligned ends of the duration-limited session (the last one counts)."
    if not s.durs:
        return []
    return [(s.raw_start + sum(s.durs)) // s.D * s.D]


PROP = C04()
