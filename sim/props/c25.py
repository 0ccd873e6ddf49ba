"""C25: the live MPD carries over everything else the VoD MPD says."""
import xml.etree.ElementTree as ET

from .. import content
from ..common import FRACS, BaseProp, gen_skews, make_world, pick_time, us, wellformed
from ..urls import gen_request
from ..vfs import Fault
from ..world import CONTENT

NS = "{urn:mpeg:dash:schema:mpd:2011}"
HREF = "{http://www.w3.org/1999/xlink}href"
MPD_REWRITTEN = {"type", "mediaPresentationDuration", "profiles", "maxSegmentDuration", "minimumUpdatePeriod", "id", "publishTime",
                 "availabilityStartTime", "availabilityEndTime", "timeShiftBufferDepth", "suggestedPresentationDelay"}
PERIOD_REWRITTEN = {"id", "start", "duration"}
SCTE = "urn:scte:scte35:2013:xml"
SIMPLE, MAIN = "http://dashif.org/guidelines/dash-if-simple", "http://dashif.org/guidelines/dash-if-main"


class Differs(Exception):
    pass


def options(url):
    "The options of a request path."
    o = {}
    for part in url.split("?")[0].split("/")[2:-1]:
        if "_" in part:
            k, v = part.split("_", 1)
            o.setdefault(k, v)
    return o


def name(e):
    return e.tag.replace(NS, "")


def where(e):
    return "%s%s" % (name(e), "".join(" %s=%r" % (k, e.get(k)) for k in ("contentType", "id", "schemeIdUri") if e.get(k) is not None))


def same_attrs(live, vod, but=()):
    a = {k: v for k, v in live.attrib.items() if k not in but}
    b = {k: v for k, v in vod.attrib.items() if k not in but}
    if a != b:
        ks = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        raise Differs("%s: %s" % (where(vod), ", ".join("%s is %r, in the VoD MPD %r" % (k, a.get(k), b.get(k)) for k in ks)))


def same_tree(live, vod):
    "Equal up to prefixes, comments and layout."
    if live.tag != vod.tag:
        raise Differs("%s where the VoD MPD has %s" % (where(live), where(vod)))
    same_attrs(live, vod)
    a, b = live.text or "", vod.text or ""
    if len(vod) or len(live):
        a, b = a.strip(), b.strip()
    if a != b:
        raise Differs("text of %s is %r, in the VoD MPD %r" % (where(vod), a, b))
    same_list(list(live), list(vod), where(vod))


def same_list(live, vod, what, each=same_tree):
    for x, y in zip(live, vod):
        if x.tag != y.tag:
            raise Differs("in %s: %s where the VoD MPD has %s" % (what, where(x), where(y)))
        each(x, y)
    if len(live) != len(vod):
        rest = live[len(vod):] or vod[len(live):]
        raise Differs("in %s: %s %s" % (what, "additional" if len(live) > len(vod) else "without", ", ".join(map(where, rest))))


def without(children, tests):
    "The children less at most one for which each of the tests holds."
    tests = list(tests)
    out = []
    for c in children:
        for t in tests:
            if t(c):
                tests.remove(t)
                break
        else:
            out.append(c)
    return out


def added(tag, scheme=None, **attrs):
    return lambda e: e.tag == NS + tag and (scheme is None or e.get("schemeIdUri") == scheme) and \
        all(e.get(k) == v for k, v in attrs.items())


def same_template(o, timed):
    def check(live, vod):
        but = {"startNumber", "presentationTimeOffset"}
        if "chunkdur" in o:
            but |= {"availabilityTimeOffset", "availabilityTimeComplete"}
        kids = list(live)
        media = vod.get("media")
        if timed:
            but |= {"timescale", "duration"}
            kids = without(kids, [added("SegmentTimeline")])
            if "segtimeline" in o:
                media = media.replace("$Number$", "t$Time$")
        if live.get("media") != media:
            raise Differs("SegmentTemplate with media %r, in the VoD MPD %r" % (live.get("media"), vod.get("media")))
        same_attrs(live, vod, but | {"media"})
        same_list(kids, list(vod), "SegmentTemplate")
    return check


def same_set(o):
    def check(live, vod):
        same_attrs(live, vod)
        kind = vod.get("contentType")
        tests = []
        if "scte35" in o and kind == "video":
            tests.append(added("InbandEventStream", SCTE))
        if "segtimelineloss" in o:
            tests.append(added("InbandEventStream", "urn:mpeg:dash:event:2012"))
        if "continuous" in o:
            tests.append(added("SupplementalProperty", "urn:mpeg:dash:period_continuity:2014"))
        if "chunkdur" in o:
            tests.append(added("ProducerReferenceTime", id="0", presentationTime="0"))
        timed = ("segtimeline" in o or "segtimelinenr" in o) and kind in ("video", "audio")
        tmpl = same_template(o, timed)

        def each(x, y):
            (tmpl if x.tag == NS + "SegmentTemplate" else same_tree)(x, y)
        same_list(without(list(live), tests), list(vod), where(vod), each)
    return check


def same_period(live, vod, o):
    remote = live.get(HREF) is not None
    if remote and not len(live):
        return False        # replaced by a link
    if not remote:
        same_attrs(live, vod, PERIOD_REWRITTEN)
    tests = []
    if "peroff" in o:
        tests.append(added("SegmentBase"))
    if "mpdcallback" in o:
        tests.append(added("EventStream", "urn:mpeg:dash:event:callback:2015"))
    if "insertad" in o:
        tests.append(added("AssetIdentifier", "urn:org:dashif:asset-id:2013"))
    aset = same_set(o)

    def each(x, y):
        (aset if x.tag == NS + "AdaptationSet" else same_tree)(x, y)
    same_list(without(list(live), tests), list(vod), "Period", each)
    return True


def same_mpd(live, vod, o):
    "Check a live MPD against the VoD MPD; the number of Periods compared."
    if live.tag != vod.tag:
        raise Differs("root element %s" % live.tag)
    same_attrs(live, vod, MPD_REWRITTEN)
    want = vod.get("profiles").split(",")
    got = live.get("profiles", "").split(",")
    if "segtimelineloss" in o:
        want = [MAIN if p == SIMPLE else p for p in want]
        got = [MAIN if p == SIMPLE else p for p in got]
    extra = set(got) - set(want)
    if got[:len(want)] != want or len(set(got)) != len(got) or \
            any(not ("scte35" in o and "adin" in p or "chunkdur" in o and "low-latency" in p) for p in extra):
        raise Differs("profiles %r, in the VoD MPD %r" % (live.get("profiles"), vod.get("profiles")))
    n = 0
    period = vod.find(NS + "Period")
    for p in live.findall(NS + "Period"):
        n += same_period(p, period, o)
    rewritten = {NS + "BaseURL", NS + "Location", NS + "UTCTiming", NS + "Period"}
    for b in live.findall(NS + "BaseURL"):
        if not (b.text or "").strip().startswith(("http://", "https://")):
            raise Differs("BaseURL %r of the VoD MPD" % b.text)
    kids = [c for c in live if c.tag not in rewritten]
    if "chunkdur" in o:
        kids = without(kids, [added("ServiceDescription", id="0")])
    same_list(kids, [c for c in vod if c.tag not in rewritten], "MPD")
    return n


def rewritten(root):
    "What the session makes of the MPD: the rewritten attributes and added elements."
    out = []
    if root.tag == NS + "MPD":
        out.append(sorted((k, root.get(k)) for k in MPD_REWRITTEN if root.get(k) is not None))
        out += [(name(c), sorted(c.attrib.items()), c.text) for c in root if name(c) in ("BaseURL", "Location", "UTCTiming")]
        periods = root.findall(NS + "Period")
    else:
        periods = [root]
    for p in periods:
        out.append([(k, p.get(k)) for k in sorted(PERIOD_REWRITTEN | {HREF})])
        out += [sorted(c.attrib.items()) for c in p if name(c) == "SegmentBase"]
        for a in p.findall(NS + "AdaptationSet"):
            for t in a.findall(NS + "SegmentTemplate"):
                out.append([(k, t.get(k)) for k in ("startNumber", "presentationTimeOffset", "timescale", "duration",
                                                    "availabilityTimeOffset", "availabilityTimeComplete")])
                out += [[(name(s), sorted(s.attrib.items())) for s in tl] for tl in t.findall(NS + "SegmentTimeline")]
    return out


class C25(BaseProp):
    id = "C25"
    RUNS = {"quick": 8000, "thorough": 200000}
    SHRINK = ("ops", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo"}
    OPTIONAL = ("switch", "pub", "restart")
    RULE = ("one run = one asset with a VoD MPD of a drawn flavour (descriptors, labels, event streams, foreign namespaces, "
            "special characters, encodings); 1-3 workers serve MPDs and remote Periods with drawn options, overlapping and "
            "preempted at line level, with stalled and failing disks, restarts, and sometimes a new MPD published in between; "
            "every document is compared with the VoD MPD of its time (nothing lost, changed, added or moved but what the options "
            "say) and with a fresh deployment whose VoD MPD says nothing else (same session); non-trivial = a Period was compared")
    STATE_MEASURE = "(option names, document kind, kinds of elements carried over, encoding)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True)
        sh = spec.setdefault("shape", {}) if rng.random() < 0.5 else {}
        spec["shape"] = sh
        sh.pop("prefix", None)
        sh["deco"] = rng.randrange(1 << 30)
        sh["metrics"] = rng.choice([0, 1])
        if rng.random() < 0.4:
            sh["enc"] = rng.choice(["utf-8-sig", "utf-16", "iso-8859-1", "us-ascii", "none"])
        a = content.build(spec)
        t0 = pick_time(rng)
        nw = rng.choice([1, 1, 2, 3])
        at = us(t0, rng.choice(FRACS))
        first = at
        ops = []
        while len(ops) < rng.choice([2, 3, 4, 6]):
            op = gen_request(rng, spec, a, at, bad=0)
            if op["kind"] not in ("mpd", "period"):
                continue
            if rng.random() < 0.08 and "/start_" not in op["url"] and "/ast_" not in op["url"] and "/modulo_" not in op["url"]:
                op["url"] = op["url"].replace("/livesim/", "/livesim/startrel_%d/" % -rng.choice([0, 20, 3000]), 1)
                if rng.random() < 0.6:
                    op["url"] = op["url"].replace("/livesim/", "/livesim/stoprel_%d/" % rng.choice([20, 60, 7200]), 1)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                n = dict(op, at=at, w=rng.randrange(nw))
                if rng.random() < 0.4:
                    n["switch"] = sorted(rng.randrange(1, 3000) for _ in range(rng.choice([2, 5])))
                if rng.random() < 0.03:
                    n["restart"] = 1
                ops.append(n)
                at += rng.choice([0, 0, 0, 1, 1000, 400_000, 30_000_000])
        scn = {"asset": spec, "t0": first, "workers": nw, "ops": ops, "faults": [], "sched": rng.randrange(1 << 30),
               "skews": gen_skews(rng, nw) if rng.random() < 0.3 else []}
        if rng.random() < 0.25:
            scn["faults"] = [{"kind": rng.choice(["slow", "slow", "short_read", "read_eio", "EIO", "ENOENT", "EMFILE"]),
                              "match": rng.choice([".mpd", ".cfg", ".dat"]), "arg": rng.choice([100, 200_000]),
                              "count": rng.choice([1, 2, 4]), "skip": rng.randrange(4)}]
        if rng.random() < 0.3:
            scn["pub"] = {"at": rng.randrange(first, at + 1), "deco": rng.randrange(1 << 30)}
        return scn

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        for f in scn["faults"]:
            w.vfs.faults.append(Fault(f))
        path = "%s/%s/%s" % (CONTENT, a.name, a.mpd_name)
        versions = [(0, ET.fromstring(a.mpd_bytes()))]
        if scn.get("pub"):
            spec = dict(scn["asset"], shape=dict(scn["asset"]["shape"], deco=scn["pub"]["deco"]))
            raw = content.build(spec).mpd_bytes()
            versions.append((scn["pub"]["at"], ET.fromstring(raw)))

            def publish():
                w.vfs.put(path, raw)
                w.count("republished")
            w.sim.at(scn["pub"]["at"], publish)
        got = []
        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            if op.get("restart"):
                w.sim.at(op["at"], w.workers[wk].restart)
            w.spawn_request(op["url"], at_us=op["at"], worker=wk, https=bool(op.get("https")), switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op: got.append((op, r)))
        w.sim.run()
        res.absorb(w)
        if len(got) != len(scn["ops"]):
            if not any(op.get("restart") for op in scn["ops"]):
                res.bad("no-response", "%d of %d requests were answered" % (len(got), len(scn["ops"])))
                return
        sh = {k: v for k, v in scn["asset"]["shape"].items() if k not in ("deco", "enc", "metrics")}
        plain, _ = make_world({"asset": dict(scn["asset"], shape=sh), "t0": 0})
        for op, r in got:
            if not wellformed(r, res):
                return
            if not r.readings:
                continue
            what = "%s at clock %.6f" % (r.url, r.readings[0])
            clock = int(round(r.readings[0] * 1e6))
            plain.sim.now_us = clock
            q = plain.get(op["url"], https=bool(op.get("https")))
            moved = any(int(round(x * 1e6)) != clock for x in r.readings)
            hard = [f for f in r.faults if f[0] not in ("slow", "short_read")]
            if r.status != q.status:
                if not hard and not moved:
                    res.bad("status", "%s: status %s %r; with a VoD MPD without anything else %s" % (what, r.status, r.body[:150], q.status))
                    return
                continue
            if r.status != 200:
                continue
            try:
                live = ET.fromstring(r.body)
            except ET.ParseError as exc:
                res.bad("malformed", "%s: %s: %r" % (what, exc, r.body[:300]))
                return
            o = options(r.url)
            cand = [v for i, (t, v) in enumerate(versions) if t <= r.t1 and
                    (i + 1 == len(versions) or versions[i + 1][0] >= r.t0)]
            err = []
            for v in cand:
                try:
                    if live.tag == NS + "Period":
                        n = same_period(live, v.find(NS + "Period"), o)
                    else:
                        n = same_mpd(live, v, o)
                    err = []
                    break
                except Differs as exc:
                    err.append(str(exc))
            if err:
                res.bad("not-carried-over", "%s: %s" % (what, " / of the next VoD MPD: ".join(err)))
                return
            res.count("documents")
            res.count("periods", n)
            if n:
                res.nontrivial = True
            if not moved:
                x, y = rewritten(live), rewritten(ET.fromstring(q.body))
                if x != y:
                    i = next((i for i, (p, q_) in enumerate(zip(x, y)) if p != q_), min(len(x), len(y)))
                    res.bad("session-changed", "%s: %s; with a VoD MPD without anything else %s" % (what, x[i:i + 1], y[i:i + 1]))
                    return
                res.count("same_session")
            res.states.add((tuple(sorted(o)), op["kind"], tuple(sorted({name(e)[:12] for e in live.iter()})),
                            scn["asset"]["shape"].get("enc")))


PROP = C25()
