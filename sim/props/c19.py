"""C19: two Representations multiplexed on the fly are the two separate ones."""
from .. import content, media, model, mp4ref
from ..common import FRACS, BaseProp, gen_skews, make_world, pick_time, us, wellformed
from ..vfs import Fault


class C19(BaseProp):
    id = "C19"
    RUNS = {"quick": 4500, "thorough": 150000}
    SHRINK = ("ops", "opts", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch",)
    RULE = ("one run = one asset with drawn box flavours (also per Representation, in sub-directories), an option set, up to "
            "14 requests for pairs of Representations in either order around window edges, loop wraps, 32-bit decode time "
            "overflow and session ends, overlapping at source-line level, some with a disk fault on a file of one of the two; "
            "each is compared track by track with the two separate requests at the same instant on another worker; "
            "non-trivial = at least two multiplexed segments were compared")
    STATE_MEASURE = "(flavours of the two Representations, order, options, decode time widths, status)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=False, image=False, nvid=rng.choice([1, 1, 2]), subs=rng.random() < 0.3)
        D, L = spec["D"], spec["L"]
        if rng.random() < 0.5:  # more in one directory
            sub = rng.choice(["", "en/", "x/"])
            for r in spec["reps"]:
                r["dir"] = sub
        if rng.random() < 0.15:
            for r in spec["reps"]:
                if r["type"] != "subtitles":
                    r["styp"] = 0
                    r.pop("vod_lmsg", None)
        if rng.random() < 0.3:
            tids = rng.sample([1, 2, 3, 7, 1000], 3)
            for r in spec["reps"]:
                r["tid"] = tids[["video", "audio", "subtitles"].index(r["type"])]
        if rng.random() < 0.15:
            rng.choice(spec["reps"])["bulk"] = rng.choice([65400, 70000, 140000])
        a = content.build(spec)
        t0 = pick_time(rng)
        opts = []
        kind = rng.choice(["inf", "inf", "plain", "plain", "dur", "modulo", "outage"])
        if kind == "inf":
            opts.append(["ato", "inf"])
            if rng.random() < 0.3:
                opts.append(["start", t0 - rng.choice([0, 10, 10 ** 4, 10 ** 8])])
        elif kind == "plain":
            if rng.random() < 0.5:
                opts.append(["start", t0 - rng.choice([0, D, 100, 10 ** 6])])
                if rng.random() < 0.3:
                    opts.append(["timeoffset", opts[-1][1] // D // 2 * D])
                if rng.random() < 0.4:
                    opts.append(["init", rng.choice([0, 5, 60])])
            if rng.random() < 0.4:
                opts.append(["ato", rng.choice([0.5, 1, D, 30])])
            if rng.random() < 0.4:
                opts.append(["tsbd", rng.choice([1, 20, 600])])
        elif kind == "dur":
            opts.append(["start", t0 - rng.randrange(0, 4 * D * L)])
            opts.append(["dur", rng.randrange(D, 3 * D * L + D)])
            opts.append(["ato", "inf"])
        elif kind == "modulo":
            opts.append(["modulo", rng.choice([1, 2, 10])])
        else:
            opts.append(["baseurl", rng.choice(["u20_d10", "d10_u20", "u30_d30"])])
        if rng.random() < 0.2:
            opts.append(["snr", rng.choice([-1, 1, 77])])
        if rng.random() < 0.2:
            opts.append(["sidx", 1])
        if rng.random() < 0.2:
            opts.append(["scte35", rng.choice([1, 2, 3])])
        rng.shuffle(opts)
        s = model.Modulo(a, opts, t0) if kind == "modulo" else model.Session(a, opts)
        pairs = [(i, j) for i, x in enumerate(a.reps) for j, y in enumerate(a.reps)
                 if x.tid != y.tid and x.dir == y.dir]
        nw = rng.choice([1, 2])
        ops = []
        for _ in range(rng.randrange(4, 15) if pairs else 0):
            i, j = rng.choice(pairs)
            at = us(t0 + rng.choice([0, 0, 1, D]), rng.choice(FRACS))
            op = {"k": "init" if rng.random() < 0.15 else "seg", "a": i, "b": j, "at": at, "w": rng.randrange(nw), "nr": 0}
            if op["k"] == "init" and s.ast > 100 and rng.random() < 0.4:
                op["at"] = us(s.ast - s.init_off + rng.choice([-1, 0, 1]), rng.choice(FRACS))
            nr = s.start_nr + (op["at"] // 1_000_000 - s.ast) // D - 1 + rng.choice([0, 0, 0, 1, -1, -L])
            if kind == "inf":
                cross = 2 ** 32 // (D * rng.choice([a.reps[i], a.reps[j]]).ts) - s.index(0)
                nr = rng.choice([nr, cross, cross + rng.randrange(1, 3 * L), nr * 3, s.start_nr]) + rng.randrange(-2, 3)
            elif kind == "dur":
                nr = rng.choice([s.end_nr(), s.end_nr() - 1, s.end_nr() - 2, s.start_nr - 1, s.start_nr + rng.randrange(2 * L)])
            elif rng.random() < 0.2 and op["k"] == "seg":
                edge = rng.choice([s.seg_ast(nr) - s.ato, s.seg_ast(nr) + D + s.tsbd])
                op["at"] = max(0, int(edge * 1_000_000) + rng.choice([-1000, -1, 0, 1, 1000, 1_000_000]))
            if not 0 <= nr < 2 ** 32 - 1:
                continue
            op["nr"] = nr
            if rng.random() < 0.4:
                op["switch"] = sorted(rng.randrange(1, 1500) for _ in range(rng.choice([1, 3, 6])))
            ops.append(op)
        faults = []
        if rng.random() < 0.15 and ops:
            op = rng.choice(ops)
            faults.append({"kind": rng.choice(["ENOENT", "EIO", "EACCES", "EMFILE"]), "op": "open", "rep": rng.choice("ab"),
                           "at": op["at"], "of": ops.index(op)})
        lo = min([o["at"] for o in ops] or [us(t0)])
        return {"asset": spec, "opts": opts, "kind": kind, "t0": max(0, lo - 1_000_000), "workers": nw,
                "skews": gen_skews(rng, nw) if rng.random() < 0.2 else [], "sched": rng.randrange(1 << 30), "ops": ops,
                "faults": faults}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"t0": 0, "sched": 1}, asset_specs=[scn["asset"]])
        opts = scn["opts"]
        o = dict(opts)
        n = [0]
        got = []

        def sess(t):
            return model.Modulo(a, opts, t) if "modulo" in o else model.Session(a, opts)

        def alone(url, t):
            rw.sim.now_us = int(round(t * 1_000_000))
            return rw.get(url)

        def judge(op, ra, rb, r, faulty):
            if not wellformed(r, res) or res.violations:
                return
            t = r.readings[0]
            s = sess(int(t))
            if op["k"] == "init":
                ua, ub = s.init_url(ra), s.init_url(rb)
            else:
                ua, ub = s.seg_url(ra, op["nr"]), s.seg_url(rb, op["nr"])
            qa, qb = alone(ua, t), alone(ub, t)
            what = "%s at %.6f" % (r.url, t)
            if (qa.status, qb.status) not in ((200, 200), (404, 404)):
                res.count("not_comparable")
                return
            if r.status != qa.status:
                if faulty and r.status == 404:
                    res.count("refused_by_fault")
                    return
                res.bad("window", "%s: %d %r, the separate ones %d %r" % (what, r.status, r.body[:160] if r.status != 200 else "",
                                                                      qa.status, qa.body[:100] if qa.status != 200 else ""))
                return
            res.count("muxed_%d" % r.status)
            if r.status != 200:
                return
            if op["k"] == "init":
                self.judge_init(res, what, ra, rb, r.body)
                return
            if self.judge_seg(res, what, op["nr"], ra, rb, qa.body, qb.body, r.body):
                n[0] += 1
                res.states.add((flavour(ra), flavour(rb), tuple(sorted(o)), r.status))

        for i, op in enumerate(scn["ops"]):
            if op["a"] >= len(a.reps) or op["b"] >= len(a.reps):
                continue
            ra, rb = a.reps[op["a"]], a.reps[op["b"]]
            s = sess(op["at"] // 1_000_000)
            url = s.prefix + "%s%s__%s/%s" % (ra.dir, ra.id, rb.id, "init.mp4" if op["k"] == "init" else "%d.m4s" % op["nr"])
            hit = [f for f in scn["faults"] if f["of"] == i]

            def start(hit=hit, ra=ra, rb=rb):
                for f in hit:
                    rep = ra if f["rep"] == "a" else rb
                    w.vfs.faults.append(Fault({"kind": f["kind"], "op": "open", "match": "/%s/" % rep.path, "n": 1}))
            if hit:
                w.sim.at(op["at"], start)
            w.spawn_request(url, at_us=op["at"], worker=op["w"] % len(w.workers), switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op, ra=ra, rb=rb: got.append((op, ra, rb, r)))
        w.sim.run()
        res.absorb(w)
        for op, ra, rb, r in got:
            judge(op, ra, rb, r, bool(scn["faults"]))
        res.nontrivial = n[0] >= 2

    def judge_init(self, res, what, ra, rb, body):
        boxes = mp4ref.parse(body)
        if [b.type for b in boxes] != [b"ftyp", b"moov"]:
            res.bad("init-boxes", "%s: boxes %s" % (what, [b.type for b in boxes]))
            return
        moov = boxes[1]
        traks = moov.all(b"trak")
        trexs = moov.one(b"mvex").all(b"trex")
        if len(traks) != 2 or len(trexs) != 2 or len(moov.all(b"mvhd")) != 1:
            res.bad("init-tracks", "%s: %d tracks, %d track defaults" % (what, len(traks), len(trexs)))
            return
        for rep, trak, trex in zip((ra, rb), traks, trexs):
            vod = [b for b in mp4ref.parse(rep.init) if b.type == b"moov"][0]
            if trak.raw() != neutral(vod.one(b"trak")):
                res.bad("init-track", "%s: track of %s is not the one of its own init segment without duration" % (what, rep.id))
                return
            if trex.raw() != vod.one(b"mvex").one(b"trex").raw():
                res.bad("init-defaults", "%s: defaults of %s are not the ones of its own init segment" % (what, rep.id))
                return
        mv = moov.one(b"mvhd")
        o = mv.start + 8
        p, k = (o + 16, 4) if body[o] == 0 else (o + 24, 8)
        if any(body[p:p + k]):
            res.bad("init-duration", "%s: the movie has a duration" % what)
            return
        for mh in moov.one(b"mvex").all(b"mehd"):
            if any(mh.raw()[12:]):
                res.bad("init-duration", "%s: the movie has a fragment duration" % what)
                return
        first = mp4ref.parse(ra.init)
        if boxes[0].raw() != [b for b in first if b.type == b"ftyp"][0].raw():
            res.bad("init-ftyp", "%s: file type is not the one of %s" % (what, ra.id))
        res.count("inits")

    def judge_seg(self, res, what, nr, ra, rb, ba, bb, body):
        boxes = mp4ref.parse(body)
        if not media.layout(res, boxes, what):
            return False
        ia, ib = mp4ref.Trex(ra.init), mp4ref.Trex(rb.init)
        both = mp4ref.Trex(ra.init)
        both.by_track.update(ib.by_track)
        frags, spare = mp4ref.fragments(boxes, body, both)
        if spare:
            res.bad("spare", "%s: %d bytes of media data belong to no sample" % (what, spare))
            return False
        if sorted(f.track for f in frags) != sorted([ra.tid, rb.tid]):
            res.bad("tracks", "%s: tracks %s" % (what, [f.track for f in frags]))
            return False
        if any(f.seqno != nr for f in frags):
            res.bad("sequence-number", "%s: sequence numbers %s" % (what, [f.seqno for f in frags]))
            return False
        for rep, trex, one in ((ra, ia, ba), (rb, ib, bb)):
            f = [x for x in frags if x.track == rep.tid][0]
            (q,), _ = mp4ref.fragments(mp4ref.parse(one), one, trex)
            if f.tfdt != q.tfdt:
                res.bad("decode-time", "%s: %s at %d, separately at %d" % (what, rep.id, f.tfdt, q.tfdt))
                return False
            if [x[:5] for x in f.samples] != [x[:5] for x in q.samples]:
                res.bad("samples", "%s: samples of %s differ from the separate segment" % (what, rep.id))
                return False
            if (f.aux is None) != (q.aux is None) or (f.aux and (f.aux[0] != f.aux[1] or f.aux[2] != q.aux[2])):
                res.bad("aux", "%s: auxiliary data of %s: saio points to %s, the data is at %s" % (
                    what, rep.id, f.aux and f.aux[0], f.aux and f.aux[1]))
                return False
        ka, kb = mp4ref.brands(mp4ref.parse(ba)), mp4ref.brands(mp4ref.parse(bb))
        got = mp4ref.brands(boxes)
        if got not in (ka, kb):
            res.bad("brands", "%s: segment type %s, separately %s and %s" % (what, got, ka, kb))
            return False
        lm = [b"lmsg" in x[1] for x in (ka, kb, got) if x]
        if len(set(lm)) > 1:
            res.bad("lmsg", "%s: last-segment mark differs: %s %s %s" % (what, ka, kb, got))
            return False
        res.count("segments")
        return True


def neutral(trak):
    "Track box bytes with the durations zeroed."
    d = bytearray(trak.raw())
    for b, pos, wide in ((trak.one(b"tkhd"), 20, 28), (trak.one(b"mdia").one(b"mdhd"), 16, 24)):
        o = b.start - trak.start + 8
        p, k = (o + pos, 4) if d[o] == 0 else (o + wide, 8)
        d[p:p + k] = b"\0" * k
    return bytes(d)


def flavour(rep):
    return repr(sorted((k, v) for k, v in rep.spec.items() if k not in ("ts", "frame", "id")))


PROP = C19()
