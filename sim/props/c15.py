"""C15: SCTE-35 splice events."""
import re

from .. import content, media, model, mp4ref, mpdref
from ..common import BaseProp, gen_skews, make_world, pick_time, us, wellformed

SCHEME = "urn:scte:scte35:2013:xml"
PROFILE = "http://dashif.org/guidelines/adin/app"
SCHEDULE = {1: [10], 2: [10, 40], 3: [10, 36, 46]}
TS = 90000


def splices(n, lo, hi):
    "Scheduled splice times in [lo, hi] on the media timeline (s)."
    return [m * 60 + x for m in range(max(0, lo // 60 - 1), hi // 60 + 2) for x in SCHEDULE[n] if lo <= m * 60 + x <= hi]


class C15(BaseProp):
    id = "C15"
    RUNS = {"quick": 5000, "thorough": 80000}
    SHRINK = ("ops", "opts", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "restart", "t")
    RULE = ("one run = one session with an SCTE-35 rate; viewers fetch the segments of a stretch of one or several minutes (all "
            "of them, in order at the live pace or in random order, some repeatedly, also by time address) from 1-3 workers with "
            "skewed clocks, restarts, a slow or failing disk and line-level preemption; every event box is decoded and checked "
            "against an independent schedule, each segment is compared with the same segment without the option; "
            "non-trivial = a whole splice announcement was covered")
    STATE_MEASURE = "(rate, segment duration, splice second, announcements seen, options, media type)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, D=rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 30]),
                                L=rng.choice([1, 2, 3, 5]), plain=rng.random() < 0.7)
        for r in spec["reps"]:
            r["styp"] = r.get("styp", 1) or 1
        D = spec["D"]
        rate = rng.choice([1, 2, 3, 3])
        opts = [["scte35", rate]]
        t0 = pick_time(rng)
        ast = 0
        if rng.random() < 0.5:
            st = max(0, t0 - rng.choice([0, D, 20, 45, 600, 10 ** 5, 10 ** 8]))
            ast = st // D * D
            opts.append([rng.choice(["start", "ast"]), st])
            if rng.random() < 0.4:
                opts.append(["timeoffset", rng.choice([0, ast, ast // D // 3 * D, max(0, ast // D * D - 3 * D)])])
            elif rng.random() < 0.2:
                opts.append(["dur", t0 - st + rng.choice([60, 300])])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 7, 1000])])
        live = rng.random() < 0.3
        if live:
            if rng.random() < 0.5:
                opts.append(["ato", rng.choice([D, D / 2, 0.5])])
        else:
            opts.append(["ato", "inf"])
        if rng.random() < 0.2:
            opts.append(["sidx", 1])
        if rng.random() < 0.15:
            opts.append(["tsbd", rng.choice([5, 600])])
        if rng.random() < 0.15:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.1 and not live:
            opts.append(["chunkdur", D])
        if rng.random() < 0.1:
            opts.append(["modulo", 10] if ast == 0 and live and D <= 5 else ["utc", "direct"])
        if any(k == "modulo" for k, _ in opts):
            opts = [x for x in opts if x[0] not in ("snr", "modulo")]
        rng.shuffle(opts)
        nw = rng.choice([1, 2, 3])
        cur = (t0 - ast) // D
        far = rng.choice([0, 0, 0, 10 ** 3, 10 ** 6]) if not live and not any(k == "dur" for k, _ in opts) else 0
        rel0 = max(0, cur - rng.randrange(0, 60 // D + 2)) + far
        if rng.random() < 0.1:
            rel0 = 0
        n = max(2, rng.choice([30, 62, 75]) // D + 2)
        n = min(n, 40)
        ops = []
        for k in range(n):
            for _ in range(1 if rng.random() < 0.8 else 2):
                rel = rel0 + k
                op = {"k": "seg", "rel": rel, "rep": 0, "w": rng.randrange(nw)}
                op["at"] = us(ast + (rel + 1) * D) + rng.randrange(us(8), us(9)) if live else \
                    us(t0) + rng.randrange(0, us(60))
                if rng.random() < 0.1:
                    op["rep"] = rng.randrange(len(spec["reps"]))
                if rng.random() < 0.1:
                    op["t"] = 1
                if rng.random() < 0.2:
                    op["switch"] = sorted(rng.randrange(1, 900) for _ in range(3))
                if rng.random() < 0.01:
                    op["restart"] = 1
                ops.append(op)
        if not live and not any(k == "dur" for k, _ in opts) and rng.random() < 0.5:
            # Viewers of the same channel a long time apart
            for _ in range(rng.choice([1, 2, 3])):
                far = rng.choice([3600, 86400, 7 * 86400, 10 * 2 ** 8, 10 * 2 ** 16, 2 ** 16, 2 ** 20, 10 * 2 ** 20, 10 ** 6, 365 * 86400])
                far *= rng.choice([1, 1, 2, 3])
                k0 = rng.randrange(n)
                for k in range(k0, min(n, k0 + 3)):
                    rel = rel0 + k + rng.choice([far, far, -far]) // D
                    if rel >= 0 and (rel + 3) * D < 2 ** 31:
                        ops.append({"k": "seg", "rel": rel, "rep": 0, "w": rng.randrange(nw), "at": us(t0) + rng.randrange(0, us(60))})
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append({"k": "mpd", "at": rng.choice(ops)["at"], "w": rng.randrange(nw)})
        ops.sort(key=lambda o: o["at"])
        faults = []
        if rng.random() < 0.15:
            faults.append({"kind": rng.choice(["slow", "EIO", "ENOENT", "EMFILE"]), "match": rng.choice([".m4s", ".cfg", "init.mp4"]),
                           "op": "open", "arg": 200_000, "count": rng.choice([1, 2]), "skip": rng.randrange(0, 9)})
        skews = gen_skews(rng, nw) if live and rng.random() < 0.5 else []
        return {"asset": spec, "opts": opts, "t0": max(us(1), ops[0]["at"] - us(20)), "workers": nw,
                "skews": skews, "sched": rng.randrange(1 << 30), "faults": faults, "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        if "scte35" not in o:
            return
        rate = int(o["scte35"])
        s = model.Session(a, opts)
        bare = model.Session(a, [x for x in opts if x[0] != "scte35"])
        D = a.D
        faulty = bool(scn.get("faults"))
        if faulty:
            from ..vfs import Fault
            for f in scn["faults"]:
                w.vfs.faults.append(Fault(f))
        seen = {}        # video rep id -> {nr: [(splice, payload)]}
        known = {}       # splice -> (id, dur, data)
        ids = {}

        def on_mpd(r):
            if not wellformed(r, res):
                return
            if r.status != 200:
                if not r.faults:
                    res.bad("mpd-refused", "%s: status %s %r" % (r.url, r.status, r.body[:150]))
                return
            try:
                m = mpdref.MPD(r.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (r.url, exc))
                return
            if PROFILE not in m.profiles:
                res.bad("profile", "%s: profiles %s lack the ad-insertion profile" % (r.url, m.profiles))
            for p in m.periods:
                for st in p.sets:
                    has = [x for x in st.inband if x[0] == SCHEME]
                    if (st.type == "video") != (len(has) == 1) or any(x[1] != "999" for x in has):
                        res.bad("signalling", "%s: %s AdaptationSet declares event streams %s" % (r.url, st.type, st.inband))
                        return
            res.count("mpds")

        def on_seg(op, rep, nr, r):
            if not wellformed(r, res) or res.violations:
                return
            what = "%s nr %d (media time %d s)" % (r.url, nr, s.index(nr) * D)
            if r.status != 200:
                if not r.faults and s.window(nr, r.readings[0]) == "ok":
                    res.bad("refused", "%s: status %s %r" % (what, r.status, r.body[:120]))
                return
            if rep.type == "image":
                return
            try:
                boxes = mp4ref.parse(r.body)
                evs = mp4ref.emsgs(boxes)
            except Exception as exc:            # a box that cannot be parsed
                res.bad("malformed", "%s: %s" % (what, exc))
                return
            mo = [b.start for b in boxes if b.type == b"moof"][0]
            if rep.type != "video":
                if evs:
                    res.bad("foreign-event", "%s: %s segment carries an event" % (what, rep.type))
                return
            got = []
            for e in evs:
                txt = e["data"].decode("utf-8", "replace")
                if e["scheme"] != SCHEME or e["value"] != "999":
                    res.bad("event-scheme", "%s: event of scheme %s value %s" % (what, e["scheme"], e["value"]))
                    return
                if e["pos"] > mo:
                    res.bad("event-place", "%s: event after the first fragment" % what)
                    return
                t = e["timescale"]
                sp = s.index(nr) * D + e["delta"] / t if e["v"] == 0 else e["time"] / t
                if t != TS or sp != int(sp) or int(sp) not in splices(rate, int(sp), int(sp)):
                    res.bad("event-time", "%s: event at media time %s s (delta %s / %s), no splice is scheduled then" % (
                        what, sp, e.get("delta"), t))
                    return
                sp = int(sp)
                if sp - s.index(nr) * D <= 0:
                    res.bad("event-late", "%s: splice %d announced when it is past" % (what, sp))
                    return
                if e["dur"] != 10 * TS:
                    res.bad("event-duration", "%s: duration %d / %d" % (what, e["dur"], t))
                    return
                x = re.search(r'spliceEventId="(\d+)"', txt), re.search(r'ptsTime="(\d+)"', txt), \
                    re.search(r'BreakDuration [^>]*duration="(\d+)"', txt)
                if None in x:
                    res.bad("event-message", "%s: message %r" % (what, txt))
                    return
                sid, pts, bd = (int(y.group(1)) for y in x)
                if pts != sp * TS % 2 ** 33 or bd != 10 * TS:
                    res.bad("event-message", "%s: splice %d s has ptsTime %d (expected %d), break duration %d" % (
                        what, sp, pts, sp * TS % 2 ** 33, bd))
                    return
                key = (e["id"], sid, e["data"])
                if known.setdefault(sp, key) != key:
                    res.bad("event-changed", "%s: splice %d announced as %s and as %s" % (what, sp, known[sp], key))
                    return
                for kk in (("e", e["id"]), ("s", sid)):
                    if ids.setdefault(kk, sp) != sp:
                        res.bad("event-id", "%s: splices %d and %d share id %s" % (what, ids[kk], sp, kk))
                        return
                got.append(sp)
                res.states.add((rate, D, sp % 60, len(evs), tuple(sorted(o)), rep.type))
            if len(set(got)) != len(got):
                res.bad("event-twice", "%s: one segment announces %s" % (what, got))
                return
            old = seen.setdefault(rep.id, {}).setdefault(nr, got)
            if old != got:
                res.bad("event-unstable", "%s: announces %s, earlier %s" % (what, got, old))
                return
            res.count("segments")
            res.count("events", len(got))
            stripped = b"".join(b.raw() for b in boxes if b.type != b"emsg")
            u = bare.prefix + r.url.split("/" + a.name + "/", 1)[1]
            w.spawn_request(u, at_us=w.sim.now_us, worker=r.worker, cb=lambda rr: same(rr, stripped, bool(got)))

        def same(r, want, ev):
            if r.status != 200 or r.faults:
                return
            if r.body != want:
                i = next((k for k in range(min(len(want), len(r.body))) if want[k] != r.body[k]), min(len(want), len(r.body)))
                res.bad("segment-changed", "%s: with the splice option the segment differs at byte %d besides the event" % (
                    r.url, i))
            res.count("compared_with_event" if ev else "compared")

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = max(w.sim.start_us, op["at"] - w.workers[wk].clock_off(op["at"]))
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            if op["k"] == "mpd":
                w.spawn_request(s.mpd_url(), at_us=at, worker=wk, cb=on_mpd)
                continue
            rep = a.reps[op["rep"] % len(a.reps)]
            nr = s.start_nr + op["rel"]
            url = s.seg_url(rep, nr)
            if op.get("t") and rep.type in ("video", "audio"):
                url = s.prefix + "%s/t%d.m4s" % (rep.path, s.a.seg_time(rep, s.index(nr)))
            w.spawn_request(url, at_us=at, worker=wk, switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op, rep=rep, nr=nr: on_seg(op, rep, nr, r))
        w.sim.run()
        res.absorb(w)
        covered = 0
        if not res.violations:
            for rid, segs in seen.items():
                if not segs:
                    continue
                due = set()
                for nr in segs:
                    due.update(splices(rate, s.index(nr) * D + 6, s.index(nr) * D + D + 8))
                for sp in sorted(due):
                    # every segment that overlaps the announcement (8 to 6 s ahead) was fetched
                    need = [k for k in range((sp - 8) // D, (sp - 6 - 1) // D + 1)]
                    nrs = [k - s.index(0) for k in need]
                    if not all(n in segs for n in nrs):
                        continue
                    covered += 1
                    if not any(sp in got and sp - s.index(n) * D >= 6 for n, got in segs.items()):
                        res.bad("splice-missed", "%s%s: all segments around %d s (numbers %s) were fetched, none announces the "
                                "splice at %d s in time" % (s.prefix, rid, sp - 8, nrs, sp))
                        break
        res.count("splices_covered", covered)
        res.nontrivial = covered > 0


PROP = C15()
