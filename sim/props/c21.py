"""C21: clock information given to clients."""
import xml.etree.ElementTree as ET
from fractions import Fraction as Fr

from .. import content, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from .c02 import PPH
from ..vfs import Fault
from .c14 import down, last_up

NS = mpdref.NS
UTC = {"direct": "direct", "head": "http-head", "ntp": "ntp", "sntp": "sntp", "httpxsdate": "http-xsdate",
       "httpiso": "http-iso"}
SECS = [0, 1, 2, 9, 10, 59, 60, 61, 100, 599, 600, 3599, 3600, 3601, 3660, 7200, 86399, 86400, 86401, 86460, 90000, 90061,
        172800, 259200, 864000, 31536000, 31622400, 94608000, 100000000]
DURATIONS = {"timeShiftBufferDepth", "minimumUpdatePeriod", "suggestedPresentationDelay", "mediaPresentationDuration",
             "maxSegmentDuration", "minBufferTime", "maxSubsegmentDuration"}
STAMPS = {"availabilityStartTime", "availabilityEndTime", "publishTime"}
# Instants at which calendar arithmetic goes wrong
CALENDAR = [951782399, 951782400, 951868799, 951868800, 1582934399, 1582934400, 1583020799, 1583020800, 1709164799,
            1709164800, 1709251199, 1709251200, 1735603200, 1735689599, 1735689600, 2147483647, 2147483648, 4107542399,
            4107542400, 4294967295, 4294967296, 4133980799, 4133980800, 978307199, 119, 120, 3599, 86399, 86400]


class C21(BaseProp):
    id = "C21"
    RUNS = {"quick": 5500, "thorough": 150000}
    SHRINK = ("ops", "steps", "opts", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one option set whose numbers are spread over seconds to years, MPDs polled 2-9 times at drawn instants "
            "(calendar corners, sub-second phases) from 1-3 workers with skewed and stepped clocks, slow disks that let "
            "the clock move during a request, preemption and restarts; non-trivial = an MPD was judged")
    STATE_MEASURE = "(option names, UTC method list, seconds that passed within the request, clock direction)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True, nvid=1)
        D = spec["D"]
        t0 = pick_time(rng) if rng.random() < 0.6 else rng.choice(CALENDAR)
        opts = []
        if rng.random() < 0.75:
            opts.append(["utc", "-".join(rng.choice(["direct", "direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"])
                                         for _ in range(rng.choice([1, 1, 2, 3, 4, 6])))])
        r = rng.random()
        mode = ""
        if r < 0.45:
            # A very early start is only possible when few Periods and no timeline entries lie in the window
            st = max(0, t0 - rng.choice([0, 1, D, 59, 60, 3600, 86400, 86400 * 3, 31622400, 10 ** 8, -5, -3600, -86400 * 40]))
            opts.append([rng.choice(["start", "ast"]), st])
            q = rng.random()
            mode = "start"
            if q < 0.35:
                opts.append(["stop", st + rng.choice(SECS[1:])])
                mode = "stop"
            elif q < 0.7:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    opts.append(["dur", max(D, rng.choice(SECS[1:]))])
                mode = "dur"
            if rng.random() < 0.3:
                opts.append(["timeoffset", rng.choice([0, st // D * D, st // D // 2 * D])])
        elif r < 0.52:
            opts.append(["modulo", rng.choice([1, 2, 3, 5, 6, 10, 15, 30, 60])])
            mode = "modulo"
        elif r < 0.57:
            opts.append(["tfdt", 32])
            mode = "tfdt"
        tl = rng.random() < 0.3
        if rng.random() < 0.5:
            opts.append(["tsbd", rng.choice([x for x in SECS if x <= 900] if tl or "periods" in dict(opts) else SECS)])
        if tl:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.5:
            opts.append(["mup", rng.choice(SECS)])
        if rng.random() < 0.5:
            opts.append(["spd", rng.choice(SECS)])
        if rng.random() < 0.25 and (tl is False or mode not in ("stop",)) and dict(opts).get("tsbd", 60) <= 86400:
            opts.append(["periods", rng.choice(PPH)])
            if dict(opts)["periods"] > 6 and dict(opts).get("tsbd", 60) > 7200:
                opts[-1][1] = 2
        elif rng.random() < 0.08 and mode in ("", "start"):
            opts.append(["periods", 0])
        if rng.random() < 0.3:
            opts.append(["chunkdur", rng.choice([0.5, 1, D, 0.25])])
        if rng.random() < 0.1:
            opts.append(["ato", rng.choice(["inf", 1, 0.5])])
        if rng.random() < 0.1:
            opts.append(["scte35", rng.choice([1, 2, 3])])
        if rng.random() < 0.15:
            opts.append(["baseurl", rng.choice(["u20_d10", "d10_u20", "u7_d6", "u30_d30"])])
            if tl and rng.random() < 0.7:
                opts.append(["segtimelineloss", 1])
        rng.shuffle(opts)
        o = dict(opts)
        span = o.get("stop", 0) - o.get("start", o.get("ast", 0)) if mode == "stop" else sum(v for k, v in opts if k == "dur")
        if (tl or "periods" in o) and mode in ("stop", "dur") and span > 7200:
            opts = [x for x in opts if x[0] not in ("periods", "segtimeline", "segtimelinenr", "segtimelineloss")]
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        at = us(t0, rng.choice(FRACS))
        for _ in range(rng.randrange(2, 10)):
            ops.append({"at": max(us(100), at), "w": rng.randrange(nw)})
            if rng.random() < 0.25:
                ops[-1]["switch"] = sorted(rng.randrange(1, 2500) for _ in range(rng.choice([1, 3, 6])))
            if rng.random() < 0.08:
                ops[-1]["restart"] = 1
            at += rng.choice([0, 1, 1000, 400_000, 999_999, us(1), us(1), us(D), us(11), us(60), us(3601), us(86401)])
        faults = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            faults.append({"kind": "slow", "match": rng.choice([".cfg", ".mpd", ".dat"]),
                           "arg": rng.choice([1, 1000, 400_000, 999_999, 1_000_000, 2_500_000, 61_000_000])})
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw, "https": int(rng.random() < 0.2),
                "skews": gen_skews(rng, nw) if rng.random() < 0.4 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, ops[0]["at"], 60_000_000, rng.choice([0, 0, 1, 2])), "ops": ops, "faults": faults}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        for f in scn.get("faults", []):
            w.vfs.faults.append(Fault(f))
        opts = [tuple(x) for x in scn["opts"]]
        o = dict(opts)
        https = bool(scn.get("https"))
        url = "/livesim/" + "".join("%s_%s/" % x for x in opts) + a.name + "/" + a.mpd_name
        flags = {"mpd": 0}

        def on_mpd(op, r):
            if not wellformed(r, res) or res.violations:
                return
            what = "%s at clock %s" % (url, " ".join("%.6f" % x for x in r.readings))
            if r.status != 200:
                res.bad("refused", "%s: status %d %r" % (what, r.status, r.body[:150]))
                return
            lo, hi = Fr(min(r.readings)), Fr(max(r.readings))
            t = r.readings[0]
            try:
                root = ET.fromstring(r.body)
                valid(root)
                m = mpdref.MPD(r.body)
            except (ET.ParseError, mpdref.Bad) as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            flags["mpd"] += 1
            # -- the clock
            at = mpdref.timestamp(root.get("publishTime"))
            pattern = next((v for k, v in opts if k == "baseurl"), None)
            if "segtimelineloss" in o and pattern and pattern[0] == "u" and down(pattern, int(t)):
                if at != last_up(pattern, int(t)):
                    res.bad("publish-down", "%s: published %s, the encoder stopped at %s" % (what, at, last_up(pattern, int(t))))
                    return
            elif not lo - 1 < at <= hi:
                res.bad("publish-time", "%s: published %s" % (what, root.get("publishTime")))
                return
            want = o["utc"].split("-") if "utc" in o else ["httpiso"] if "chunkdur" in o else []
            kids = [mpdref.local(x.tag) for x in root]
            last = len(kids) - 1 - kids[::-1].index("Period")
            if kids[last + 1:] != ["UTCTiming"] * len(want) or "UTCTiming" in kids[:last]:
                res.bad("utc-place", "%s: children %s for the methods %s" % (what, kids, want))
                return
            for e, method in zip(list(root)[last + 1:], want):
                if e.get("schemeIdUri") != "urn:mpeg:dash:utc:%s:2014" % UTC[method]:
                    res.bad("utc-method", "%s: %s for %s of %s" % (what, e.get("schemeIdUri"), method, want))
                    return
                v = e.get("value")
                if method == "direct":
                    try:
                        now = mpdref.timestamp(v)
                    except mpdref.Bad as exc:
                        res.bad("direct-malformed", "%s: %s" % (what, exc))
                        return
                    if not lo - 1 < now <= hi:
                        res.bad("direct-time", "%s: the direct time is %s" % (what, v))
                        return
                    res.count("direct_times")
                elif not v or method == "head" and not v.startswith("http%s://%s/" % ("s" if https else "", w.HOST)):
                    res.bad("utc-value", "%s: %s at %r" % (what, method, v))
                    return
            # -- the configured numbers
            s = model.Modulo(a, opts, t) if "modulo" in o else model.Session(a, opts)
            if "tfdt" in o:
                s.ast = int(t) // 10800 * 10800
            timeline = "segtimeline" in o or "segtimelinenr" in o
            static = m.type == "static"
            if m.ast != s.ast:
                res.bad("start", "%s: starts %s, expected %s" % (what, root.get("availabilityStartTime"), s.ast))
                return
            e = None if static or s.stop is not None else s.tsbd
            if m.tsbd != e:
                res.bad("tsbd", "%s: timeShiftBufferDepth %s, expected %s" % (what, root.get("timeShiftBufferDepth"), e))
                return
            d = root.get("suggestedPresentationDelay")
            if (None if d is None else mpdref.duration(d)) != (int(o["spd"]) if "spd" in o else None):
                res.bad("delay", "%s: suggestedPresentationDelay %s, expected %s" % (what, d, o.get("spd")))
                return
            if static:
                e = None
            elif timeline:
                e = 0
            elif "modulo" in o:
                e = s.mup
            elif "tfdt" in o:
                e = 5400
            elif "mup" in o:
                e = int(o["mup"])
            else:
                e = 10 if s.raw_start is not None else m.mup
            if m.mup != e and int(o.get("periods", 0)) < 1 or static and m.mup is not None:
                res.bad("update-period", "%s: minimumUpdatePeriod %s, expected %s" % (what, root.get("minimumUpdatePeriod"), e))
                return
            if not timeline and mpdref.duration(root.get("maxSegmentDuration") or "PT0S") != a.D:
                res.bad("max-segment", "%s: maxSegmentDuration %s" % (what, root.get("maxSegmentDuration")))
                return
            e = 10800 if "tfdt" in o else s.announced(int(t))
            if m.dur != e:
                res.bad("duration", "%s: duration %s, expected %s" % (what, root.get("mediaPresentationDuration"), e))
                return
            e = s.ast + 10800 if "tfdt" in o else s.end if "modulo" in o else s.aet(int(t))[0]
            d = root.get("availabilityEndTime")
            if (None if d is None else mpdref.timestamp(d)) != e:
                res.bad("end", "%s: availabilityEndTime %s, expected %s" % (what, d, e))
                return
            # -- when the media was produced
            n = 0
            for e in root.iter(NS + "ProducerReferenceTime"):
                n += 1
                # Media time x is produced at AST + x - media time at AST
                d = e.get("wallClockTime")
                wall = mpdref.timestamp(d if d.endswith("Z") else d + "Z")
                if int(e.get("presentationTime")) == 0 and wall != s.ast - s.pto:
                    res.bad("producer-time", "%s: media time 0 produced at %s, not at %s" % (what, d, s.ast - s.pto))
                    return
            if "chunkdur" in o:
                if n != sum(len(p.sets) for p in m.periods):
                    res.bad("producer-count", "%s: %d ProducerReferenceTimes" % (what, n))
                    return
                res.count("producer_times", n)
            passed = int(hi) - int(lo)
            res.states.add((tuple(sorted(o)), o.get("utc"), min(passed, 3), r.readings[-1] >= r.readings[0]))

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            at = max(w.sim.start_us, op["at"])
            if op.get("restart"):
                w.sim.at(at, w.workers[wk].restart)
            w.spawn_request(url, at_us=at, worker=wk, https=https, switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op: on_mpd(op, r))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = bool(flags["mpd"])


def valid(root):
    "Every time and duration in the MPD is a valid ISO 8601 value."
    for e in root.iter():
        for k, v in e.attrib.items():
            if k in DURATIONS or mpdref.local(e.tag) == "Period" and k in ("start", "duration"):
                mpdref.duration(v)
            elif k in STAMPS:
                mpdref.timestamp(v)


PROP = C21()
