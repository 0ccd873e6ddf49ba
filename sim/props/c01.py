"""C01: availability windows."""
from fractions import Fraction as Fr

from .. import content, model
from ..common import (FRACS, STUB_SERVER, BaseProp, ctype, gen_skews, gen_steps, make_world, pick_time, us,
                      wellformed)

EDGE_OFF = [-60_000_000, -1_000_000, -999_999, -500_000, -1_000, -10, 0, 0, 10, 1_000, 500_000, 999_999, 1_000_000,
            60_000_000]


class C01(BaseProp):
    id = "C01"
    RUNS = {"quick": 6000, "thorough": 120000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    RULE = ("one run = one asset, one option set, 1-3 workers with skewed/stepped clocks and up to 24 requests placed "
            "around both edges of their windows; non-trivial = at least one request was served and one refused")
    STATE_MEASURE = "(kind, predicted window state, options present, side and distance class of the nearest edge)"
    STUB = STUB_SERVER

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True, nvid=1, image=rng.random() < 0.5)
        D = spec["D"]
        opts = []
        t0 = pick_time(rng)
        if rng.random() < 0.45:
            opts.append([rng.choice(["start", "ast"]), max(0, t0 - rng.choice([0, 1, 3, D, 10, 100, 1000, -5, -20, 4000]))])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 2, 7, 1000, 123456])])
        if rng.random() < 0.35:
            opts.append(["tsbd", rng.choice([0, 1, 5, 10, 60, 300, 3600])])
        if rng.random() < 0.4:
            v = rng.choice(["inf", 0, 0.5, 1, 1.5, D / 2, D, 0.125, 0.1, 2 * D, -1, -3.5, "x", 0.3])
            opts.append(["ato", v])
        if rng.random() < 0.3:
            opts.append(["init", rng.choice([0, 1, 10, 60])])
        if any(o[0] in ("start", "ast") for o in opts) and rng.random() < 0.25:
            ast = int(opts[0][1]) // D * D
            opts.append(["timeoffset", rng.choice([0, ast - D * rng.randrange(0, 50), ast])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        a = content.build(spec)
        s = model.Session(a, opts)
        ops = []
        for _ in range(rng.randrange(8, 25)):
            rep = rng.randrange(len(a.reps))
            # choose a reading time and then a number whose window has an edge near it
            t = us(t0 + rng.randrange(-3, 40), rng.choice(FRACS))
            base = (t / 1e6 - s.ast) // D + s.start_nr
            r = rng.random()
            off = rng.choice(EDGE_OFF) + rng.randrange(-2, 3)
            kind = "seg"
            if r < 0.40:      # around the early edge
                nr = int(base) + rng.randrange(-2, 3)
                t = int((s.seg_ast(nr) - (0 if s.ato_inf else s.ato)) * 1_000_000) + off
            elif r < 0.70:    # around the late edge
                nr = int(base) - s.tsbd // D - 1 + rng.randrange(-2, 3)
                t = int((s.seg_ast(nr) + D + s.tsbd) * 1_000_000) + off
            elif r < 0.80:    # around the first number
                nr = s.start_nr + rng.randrange(-3, 4)
                if rng.random() < 0.7:
                    t = int((s.seg_ast(nr) - s.ato) * 1_000_000) + off
            elif r < 0.90:
                kind = "init"
                nr = 0
                t = us(s.ast - s.init_off) + off
            else:
                nr = int(base) + rng.randrange(-400, 10)
            ops.append({"k": kind, "rep": rep, "nr": nr if rng.random() < 0.1 else max(0, nr), "at": max(1_000_000, t), "w": rng.randrange(nw)})
        ops.sort(key=lambda o: o["at"])
        start = min([us(t0)] + [o["at"] for o in ops]) - 1_000_000
        return {"asset": spec, "opts": opts, "t0": max(0, start), "workers": nw, "skews": gen_skews(rng, nw) if
                rng.random() < 0.6 else [], "steps": gen_steps(rng, us(t0), 40_000_000, rng.choice([0, 0, 1, 2])),
                "sched": rng.randrange(1 << 30), "ops": ops, "comp": rng.random() < 0.8}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        s = model.Session(a, scn["opts"])
        seen = set()

        def judge(op, r):
            if not wellformed(r, res):
                return
            if not r.readings:
                res.bad("no-clock", "%s was answered without reading the clock" % r.url)
                return
            rep = a.reps[op["rep"] % len(a.reps)]
            preds = set()
            for t in r.readings:
                if op["k"] == "init":
                    preds.add("ok" if s.init_window(t) else "before-start")
                else:
                    preds.add(s.window(op["nr"], t))
            if None in preds:
                res.count("edge_not_judged")
                return
            got = r.status
            res.states.add((op["k"], rep.type, tuple(sorted(preds)), tuple(sorted(k for k, _ in s.opts))))
            seen.add(got == 200)
            res.count("judged")
            t = r.readings[0]
            want_ok = "ok" in preds
            want_no = preds - {"ok"}
            what = "%s %s nr %d at clock %.6f (ast %d, D %d, tsbd %d, ato %s)" % (
                rep.type, op["k"], op["nr"], t, s.ast, s.D, s.tsbd, "inf" if s.ato_inf else float(s.ato))
            if got == 200:
                if not want_ok:
                    res.bad("served-outside", "%s: served although %s [%s]" % (what, sorted(preds), r.url))
                    return
                if op["k"] == "seg" and rep.type == "image":
                    good = r.body[:4] == b"\xff\xd8\xff\xe0"
                else:
                    good = r.body[4:8] in (b"ftyp", b"styp", b"moof", b"sidx")
                if not good:
                    res.bad("not-media", "%s: 200 without media: %r" % (what, r.body[:40]))
            elif got == 404:
                if not want_no:
                    res.bad("refused-inside", "%s: refused although available: %r [%s]" % (what, r.body[:120], r.url))
                    return
                text = r.body.decode("utf-8", "replace").lower()
                words = [x for p in want_no for x in model.WORDS[p]]
                if not ctype(r).startswith("text/plain") or not any(x in text for x in words):
                    res.bad("no-explanation", "%s: refused (%s) with %r %r" % (what, sorted(want_no), ctype(r),
                                                                              r.body[:120]))
                if b"moof" in r.body or b"moov" in r.body:
                    res.bad("media-in-404", "%s: media bytes in a refusal" % what)
            else:
                res.bad("status", "%s: status %s" % (what, got))

        for op in scn["ops"]:
            rep = a.reps[op["rep"] % len(a.reps)]
            if op["k"] == "init":
                if rep.type == "image":
                    continue
                url = s.init_url(rep)
            else:
                url = s.seg_url(rep, op["nr"])
            wk = op["w"] % len(w.workers)
            # op times are worker-clock times when comp is set: requests hit the edge on that worker's clock
            at = op["at"]
            if scn.get("comp"):
                at -= w.workers[wk].clock_off(at)
            w.spawn_request(url, at_us=max(at, w.sim.start_us), worker=wk, cb=lambda r, op=op: judge(op, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = len(seen) == 2


PROP = C01()
assert Fr(1) == 1
