"""C20: remote (xlink) Periods resolve to what they replace."""
import re
import xml.etree.ElementTree as ET
from fractions import Fraction as Fr

from .. import client, content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from .c02 import PPH

NS = mpdref.NS
XL = mpdref.XL
AD = "http://vm1.dashif.org/dynamicxlink/"


class C20(BaseProp):
    id = "C20"
    RUNS = {"quick": 2500, "thorough": 90000}
    SHRINK = ("ops", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one multi-period option set with xlink (and possibly ad insertion), MPDs polled around Period starts, "
            "half periods and window ends on 1-3 workers with skewed/stepped clocks, restarts and preemption; every "
            "reference is fetched after a drawn delay on any worker and compared, element by element, with the Period that "
            "an MPD without xlink has at that instant; then a segment is fetched through the resolved Period; non-trivial = "
            "an MPD and a reference were judged")
    STATE_MEASURE = "(option names, Periods listed, Periods replaced, index of the fetched Period modulo 4)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True, nvid=1)
        D, L = spec["D"], spec["L"]
        t0 = pick_time(rng)
        n = rng.choice(PPH + [60, 60, 30, 20, 12])
        pd = 3600 // n
        div = [x for x in PPH if n % x == 0]
        opts = [["periods", n], ["xlink", rng.choice(div + [n])]]
        ast = 0
        stop = None
        r = rng.random()
        if r < 0.45:
            st = max(0, t0 - rng.choice([-3, 0, D, 10, pd // 2, pd, 3 * pd, 20000]))
            ast = st // D * D
            q = rng.random()
            opts.append([rng.choice(["start", "ast"]), st])
            if q < 0.2:
                for _ in range(rng.choice([1, 1, 2])):
                    opts.append(["dur", rng.choice([30, pd // 2, pd, pd + 1, 3 * pd])])
            elif q < 0.4:
                stop = st + rng.choice([1, D, pd // 2, pd, 2 * pd, 5 * pd])
                opts.append(["stop", stop])
            if rng.random() < 0.3:
                opts.append(["timeoffset", ast // D // 3 * D])
        elif r < 0.5:
            opts.append(["modulo", rng.choice([1, 5, 10, 60])])
        if rng.random() < 0.3:
            opts.append(["insertad", rng.choice([1, 2, 3, 4, 5])])
        elif rng.random() < 0.2:
            opts.append(["etp", rng.choice(div)])
        if rng.random() < 0.25:
            opts.append(["mpdcallback", rng.choice(div)])
        if rng.random() < 0.5:
            opts.append(["continuous", 1])
        if rng.random() < 0.35:
            opts.append(["peroff", 1])
        if rng.random() < 0.4:
            opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
        if rng.random() < 0.3:
            opts.append(["snr", rng.choice([-1, 0, 1, 1000])])
        if rng.random() < 0.8:
            opts.append(["tsbd", rng.choice([1, 30, pd // 2, pd, min(3 * pd, 9000), min(6 * pd, 9000), min(14 * pd, 9000)])])
        if rng.random() < 0.15:
            opts.append(["ato", rng.choice(["inf", 1, D])])
        if rng.random() < 0.15:
            opts.append(["utc", "direct-head"])
        if rng.random() < 0.15:
            opts.append(["scte35", rng.choice([1, 3])])
        if rng.random() < 0.1:
            opts.append(["chunkdur", 0.5])
        if rng.random() < 0.15:
            for _ in range(rng.choice([1, 2])):
                opts.append(["baseurl", rng.choice(["u20_d10", "d10_u20", "u30_d30"])])
        if rng.random() < 0.1:
            opts.append(["mup", rng.choice([1, 10])])
        rng.shuffle(opts)
        nw = rng.choice([1, 1, 2, 3])
        k0 = max(0, t0 - ast) // pd
        ops = []
        for _ in range(rng.randrange(2, 7)):
            k = max(0, k0 + rng.choice([-1, 0, 0, 0, 1, 2, 4]))
            e = rng.choice([0, pd // 2, rng.randrange(pd), rng.randrange(pd)])
            t = ast + k * pd + e + rng.choice([-1, 0, 0, 1])
            if stop is not None and rng.random() < 0.3:
                t = stop + rng.choice([-1, 0, 1, 2 * D, 5000])
            ops.append({"at": max(us(1), us(t, rng.choice(FRACS))), "w": rng.randrange(nw), "w2": rng.randrange(nw),
                        "delay": rng.choice([0, 0, 1, 200_000, 1_000_000, 10_000_000, pd * 500_000, pd * 1_000_000]),
                        "pick": rng.randrange(1 << 20)})
            if rng.random() < 0.2:
                ops[-1]["switch"] = sorted(rng.randrange(1, 3500) for _ in range(rng.choice([1, 3, 6])))
            if rng.random() < 0.08:
                ops[-1]["restart"] = 1
        ops.sort(key=lambda o: o["at"])
        return {"asset": spec, "opts": opts, "t0": ops[0]["at"], "workers": nw, "https": int(rng.random() < 0.2),
                "skews": gen_skews(rng, nw) if rng.random() < 0.3 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 20_000_000, rng.choice([0, 0, 1])), "ops": ops}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"t0": 0, "sched": 1}, asset_specs=[scn["asset"]])
        opts = [tuple(x) for x in scn["opts"]]
        o = dict(opts)
        if "periods" not in o or "xlink" not in o:
            return
        n, m = int(o["periods"]), int(o["xlink"])
        https = bool(scn.get("https"))
        if n % m or "etp" in o and n % int(o["etp"]) or "mpdcallback" in o and n % int(o["mpdcallback"]):
            return
        if "segtimeline" not in o and "segtimelinenr" not in o and 3600 // n % a.D:
            whole = False
        else:
            whole = True
        ad = int(o.get("insertad", 0))
        rate = n // m
        pd = 3600 // n
        flags = {"mpd": 0, "ref": 0}
        later, ids = [], {}

        def path(skip):
            return "/livesim/" + "".join("%s_%s/" % (k, v) for k, v in opts if k not in skip) + a.name + "/" + a.mpd_name

        url = path(())
        plain_url = path(("xlink", "insertad"))
        gone = "".join("%s_%s/" % (k, v) for k, v in opts)
        kept = "".join("%s_%s/" % (k, v) for k, v in opts if k not in ("xlink", "insertad"))

        def plain(t):
            "The MPD without xlink at clock reading t."
            rw.sim.now_us = int(round(t * 1_000_000))
            return rw.get(plain_url, https=https)

        def on_mpd(op, r):
            "While the simulation runs: fetch the references of the MPD just received."
            if not wellformed(r, res) or res.violations:
                return
            later.append(lambda: judge_mpd(r))
            if r.status != 200:
                return
            try:
                mx = mpdref.MPD(r.body)
            except mpdref.Bad:
                return
            refs = [(x.href, i) for i, x in enumerate(mx.periods) if x.href is not None]
            if ad:
                return
            for j, (href, i) in enumerate(refs):
                if len(refs) > 4 and (j + op["pick"]) % len(refs) > 2:
                    continue
                if op.get("restart"):
                    w.workers[op["w2"] % len(w.workers)].restart()
                w.spawn_request(client.path_of(href), at_us=w.sim.now_us + op["delay"], worker=(op["w2"] + j) % len(w.workers),
                                https=https, switch=tuple(op.get("switch", ())) if j == 0 else (),
                                cb=lambda rr, i=i: on_ref(op, r, i, rr, len(refs)))

        def judge_mpd(r):
            t = r.readings[0]
            what = "%s at clock %.6f" % (url, t)
            q = plain(t)
            if r.status != q.status:
                res.bad("status", "%s: status %d %r, without xlink %d" % (what, r.status, r.body[:150], q.status))
                return
            if r.status != 200:
                return
            try:
                mx, mp = mpdref.MPD(r.body), mpdref.MPD(q.body)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s: %s" % (what, exc))
                return
            flags["mpd"] += 1
            if len(mx.periods) != len(mp.periods):
                res.bad("period-count", "%s: %d Periods, without xlink %d" % (what, len(mx.periods), len(mp.periods)))
                return
            rest = canon(strip_periods(mx.root), gone, kept)
            if rest != canon(strip_periods(mp.root), gone, kept):
                res.bad("rest-changed", "%s: the MPD differs outside of the Periods: %s" % (
                    what, difference(rest, canon(strip_periods(mp.root), gone, kept))))
                return
            sel = [i for i, p in enumerate(mp.periods) if int(p.id[1:]) % rate == 0]
            remote = sel[1:] if ad else sel
            refs = []
            for i, (x, p) in enumerate(zip(mx.periods, mp.periods)):
                pw = "%s, Period %d (%s)" % (what, i, p.id)
                if i not in remote:
                    if x.href is not None:
                        res.bad("replaced", "%s: replaced by a reference" % pw)
                        return
                    e, f = ET.fromstring(ET.tostring(x.elem)), ET.fromstring(ET.tostring(p.elem))
                    found = e.findall(NS + "AssetIdentifier")
                    if len(found) != (1 if ad else 0):
                        res.bad("asset-identifier", "%s: %d asset identifiers" % (pw, len(found)))
                        return
                    for k in found:
                        e.remove(k)
                    if ad and e.get("duration") == "PT%dS" % pd and f.get("duration") is None and i + 1 in sel:
                        del e.attrib["duration"]
                    if canon(e) != canon(f):
                        res.bad("kept-changed", "%s: differs from the Period without xlink: %s" % (pw, difference(canon(e), canon(f))))
                        return
                    continue
                if x.href is None:
                    res.bad("not-replaced", "%s: is not replaced by a reference" % pw)
                    return
                if x.elem.get(XL + "actuate") != "onLoad":
                    res.bad("actuate", "%s: actuate is %r" % (pw, x.elem.get(XL + "actuate")))
                    return
                if ad:
                    if not x.href.startswith(AD):
                        res.bad("ad-service", "%s: refers to %s" % (pw, x.href))
                        return
                    if ad == 5:
                        e, f = ET.fromstring(ET.tostring(x.elem)), ET.fromstring(ET.tostring(p.elem))
                        e.attrib.clear()
                        f.attrib.clear()
                        if canon(e) != canon(f):
                            res.bad("default-content", "%s: default content: %s" % (pw, difference(canon(e), canon(f))))
                            return
                    elif len(x.elem):
                        res.bad("not-empty", "%s: reference with content" % pw)
                        return
                    continue
                want = "%s://%s%s" % ("https" if https else "http", w.HOST, url)
                if "baseurl" not in o and not x.href.startswith(want + "+") or not x.href.startswith(want.split("//")[0]):
                    res.bad("elsewhere", "%s: refers to %s" % (pw, x.href))
                    return
                if len(x.elem):
                    res.bad("not-empty", "%s: reference with content" % pw)
                    return
                refs.append((p.id, x.href))
            if len({h for _, h in refs}) != len(refs):
                res.bad("same-reference", "%s: references %s" % (what, refs))
                return
            ids[id(r)] = {i: p.id for i, p in enumerate(mp.periods)}

        def on_ref(op, mpd_r, index, r, nrefs):
            "While the simulation runs: play on through the resolved Period."
            if not wellformed(r, res) or res.violations:
                return
            later.append(lambda: judge_ref(mpd_r, index, r, nrefs))
            if r.status != 200 or not whole:
                return
            try:
                p = mpdref.parse_period(ET.fromstring(r.body))
                mx = mpdref.MPD(mpd_r.body)
            except (ET.ParseError, mpdref.Bad, ValueError, KeyError):
                return
            if p.start is None or not p.sets:
                return
            mx.periods = [p]
            t = r.readings[0]
            st = p.sets[op["pick"] % len(p.sets)]
            if st.type == "image" or not st.reps:
                return
            its = [it for it in client.items(mx, 0, st, t, tail=40) if it.start < p.start + pd]
            if not its:
                return
            it = its[op["pick"] // 5 % len(its)]
            rid = st.reps[op["pick"] % len(st.reps)]
            base = client.bases(mx, url)[op["pick"] % max(1, len(mx.base))][0]
            w.spawn_request(client.url_for(base, st, rid, it), at_us=w.sim.now_us, worker=op["w2"] % len(w.workers), https=https,
                            cb=lambda rr: later.append(lambda: judge_seg(rr, p, st, it, rid)))

        def judge_ref(mpd_r, index, r, nrefs):
            pid = ids.get(id(mpd_r), {}).get(index)
            if pid is None:
                return
            t = r.readings[0]
            what = "%s at clock %.6f" % (r.url, t)
            q = plain(t)
            mp = mpdref.MPD(q.body) if q.status == 200 else None
            mine = [p for p in mp.periods if p.id == pid] if mp else []
            if not mine:
                if r.status == 200:
                    res.bad("ghost", "%s: 200 for a Period that no MPD lists now" % what)
                else:
                    res.count("left_window")
                return
            if r.status != 200:
                res.bad("unresolved", "%s: status %d %r, but %s is listed without xlink" % (what, r.status, r.body[:150], pid))
                return
            try:
                e = ET.fromstring(r.body)
            except ET.ParseError as exc:
                res.bad("not-xml", "%s: %s: %r" % (what, exc, r.body[:120]))
                return
            if canon(e) != canon(mine[0].elem):
                res.bad("resolved-differs", "%s: differs from the Period without xlink: %s" % (
                    what, difference(canon(e), canon(mine[0].elem))))
                return
            flags["ref"] += 1
            res.count("resolved")
            res.states.add((tuple(sorted(o)), nrefs, int(pid[1:]) % 4))

        def judge_seg(r, p, st, it, rid):
            if not wellformed(r, res) or res.violations:
                return
            rep = [x for x in a.reps if x.id == rid][0]
            t = r.readings[0]
            s = model.Modulo(a, opts, t) if "modulo" in o else model.Session(a, opts)
            what = "%s (Period %s from %s, listed at %s; clock %.6f)" % (r.url, p.id, p.start, float(it.start), t)
            if r.status != 200:
                # Judged by C01/C02: only a segment well inside the window has to be there
                if s.ast + it.end < t - 1 and it.start + s.tsbd > t - s.ast + a.D and "baseurl" not in o and \
                        "modulo" not in o and s.end_nr() is None and not s.ato_inf:
                    res.bad("refused", "%s: status %s: %r" % (what, r.status, r.body[:120]))
                return
            boxes, frags, spare = media.decode(rep, r.body)
            pto = Fr(st.t.pto, st.t.timescale) if st.t.pto else p.base_pto
            real = p.start + Fr(frags[0].tfdt, rep.ts) - pto
            tol = 0 if st.t.timeline is not None else rep.slack
            if rep.type != "subtitles" and not abs(real - it.start) <= tol:
                res.bad("misplaced", "%s: the media starts at %s" % (what, float(real)))
                return
            res.count("segments")

        for op in scn["ops"]:
            wk = op["w"] % len(w.workers)
            w.spawn_request(url, at_us=max(w.sim.start_us, op["at"]), worker=wk, https=https,
                            switch=tuple(op.get("switch", ())), cb=lambda r, op=op: on_mpd(op, r))
        w.sim.run()
        res.absorb(w)
        # The MPDs without xlink come from another, undisturbed simulation
        for judge in later:
            if not res.violations:
                judge()
        res.nontrivial = bool(flags["mpd"] and (flags["ref"] or ad))


def strip_periods(root):
    e = ET.fromstring(ET.tostring(root))
    for p in e.findall(NS + "Period"):
        e.remove(p)
    return e


def canon(e, old=None, new=None):
    text = ET.canonicalize(ET.tostring(e, encoding="unicode"), strip_text=True, rewrite_prefixes=True)
    if old is not None:
        # The options are a part of BaseURL and Location
        text = text.replace("/livesim/" + old, "/livesim/" + new)
        text = re.sub(r"/(xlink|insertad)_[0-9]+(?=/)", "", text)
    return text


def difference(a, b):
    i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r / %r" % (a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80])


PROP = C20()
