"""C02: everything an MPD advertises can be fetched."""
from fractions import Fraction as Fr

from .. import client, content, media, model, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed

PPH = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
TOL = Fr(3, 1_000_000)


def gen_opts(rng, D, L, t0):
    "An accepted combination of addressing options around the instant t0."
    opts = []
    limited = False
    r = rng.random()
    ast = 0
    if r < 0.35:
        st = max(0, t0 - rng.choice([-3, 0, 1, D, 5, 10, 20, 100, 1000, 5000]))
        opts.append([rng.choice(["start", "ast"]), st])
        ast = st // D * D
        q = rng.random()
        if q < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                opts.append(["dur", rng.choice([10, 30, 60, 1000, 6000])])
            limited = True
        elif q < 0.6:
            opts.append(["stop", st + rng.choice([1, D, 30, 120, 1010, 6000])])
            limited = True
        if rng.random() < 0.4:
            opts.append(["timeoffset", rng.choice([0, ast, max(0, ast - D * L), ast // D // 3 * D])])
    elif r < 0.42:
        opts.append(["modulo", rng.choice([1, 2, 5, 10, 30, 60])])
        limited = True
    elif r < 0.47:
        opts.append(["tfdt", 32])
        limited = True
    if rng.random() < 0.35:
        n = rng.choice(PPH + [0])
        if n or ast == 0 and not limited:
            opts.append(["periods", n])
            if rng.random() < 0.4:
                opts.append(["continuous", 1])
            if n and rng.random() < 0.25:
                opts.append(["etp", rng.choice([x for x in PPH if n % x == 0])])
                if rng.random() < 0.5:
                    opts.append(["etpDuration", rng.choice([1, 10, 3600 // n // 2, 3600 // n])])
            if n and rng.random() < 0.15:
                opts.append(["mpdcallback", rng.choice([x for x in PPH if n % x == 0])])
            if rng.random() < 0.4:
                opts.append(["peroff", 1])
    if rng.random() < 0.45:
        opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
    if rng.random() < 0.3:
        opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
    if rng.random() < 0.45:
        opts.append(["tsbd", rng.choice([1, 5, 10, 20, 60, 600, 4000])])
    if rng.random() < 0.3:
        opts.append(["ato", rng.choice(["inf", 0.5, 1, D, 2 * D, 0.25, 1.75])])
    if rng.random() < 0.15:
        opts.append(["init", rng.choice([1, 5, 60])])
    if rng.random() < 0.15:
        opts.append(["mup", rng.choice([0, 1, 2, 5, 30])])
    if rng.random() < 0.12:
        for _ in range(rng.choice([1, 2])):
            opts.append(["baseurl", rng.choice(["u60_d0", "u30_d0", "d0_u60"])])
    if rng.random() < 0.12:
        opts.append(["chunkdur", rng.choice([0.5, 1, D / 2, D, 2 * D])])
    if rng.random() < 0.1:
        opts.append(["sidx", 1])
    if rng.random() < 0.1:
        opts.append(["scte35", rng.choice([1, 2, 3])])
    if rng.random() < 0.1:
        opts.append(["spd", rng.choice([1, 10])])
    if rng.random() < 0.1:
        opts.append(["utc", rng.choice(["direct", "head-ntp", "httpiso"])])
    if rng.random() < 0.1:
        opts.insert(0, ["sts", t0])
    rng.shuffle(opts)
    return opts


class C02(BaseProp):
    id = "C02"
    RUNS = {"quick": 4000, "thorough": 80000}
    SHRINK = ("clients", "steps", "opts")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0}
    RULE = ("one run = one asset and option set, 1-3 clients that fetch the MPD, keep or refresh it, and fetch the init and "
            "media segments it declares available (newest, oldest, random, next to play) through a network with delay, "
            "loss and retries, from 1-3 workers with skewed/stepped clocks and restarts; non-trivial = a segment that the "
            "MPD declared available was fetched")
    STATE_MEASURE = "(option names, media type, request kind, MPD age class, Periods listed)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.8, image=rng.random() < 0.2)
        for r in spec["reps"]:
            if r.get("vardur"):
                r["vardur"] = 0
            r.pop("saio", None)
        if rng.random() < 0.12:
            spec["vod_baseurl"] = rng.choice([1, 1, 2, 3])
        D, L = spec["D"], spec["L"]
        t0 = pick_time(rng)
        opts = gen_opts(rng, D, L, t0)
        nw = rng.choice([1, 1, 2, 3])
        clients = []
        for c in range(rng.choice([1, 1, 2, 3])):
            steps = [{"k": "mpd", "dt": us(rng.choice([0, 0, 0, 1, D]), rng.choice(FRACS))}]
            for _ in range(rng.randrange(4, 14)):
                k = rng.choice(["mpd", "mpd", "init", "edge", "edge", "edge", "old", "old", "rand", "next", "next"])
                st = {"k": k, "dt": rng.choice([0, 0, 1, 100_000, 500_000, us(1), us(D), us(D) - 1, us(3 * D), us(60),
                                                us(1000)] + [us(100_000)] * (rng.random() < 0.1))}
                steps.append(st)
            for st in steps:
                st["w"] = rng.randrange(nw)
                st["out"] = rng.choice([0, 0, 1, 20_000, 300_000, 2_000_000])
                st["pick"] = rng.randrange(1 << 20)
                if rng.random() < 0.12:
                    st["lost"] = rng.choice([1, 2])
                if rng.random() < 0.1:
                    st["switch"] = sorted(rng.randrange(1, 1500) for _ in range(3))
                if rng.random() < 0.05:
                    st["restart"] = 1
            clients.append({"steps": steps, "at": us(t0, rng.choice(FRACS)) + rng.choice([0, 0, 1, 1000])})
        return {"asset": spec, "opts": opts, "t0": us(t0), "workers": nw, "https": int(rng.random() < 0.2),
                "skews": gen_skews(rng, nw) if rng.random() < 0.4 else [], "sched": rng.randrange(1 << 30),
                "steps": gen_steps(rng, us(t0), 60_000_000, rng.choice([0, 0, 0, 1])), "clients": clients}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        prefix = "/livesim/" + "".join("%s_%s/" % (k, v) for k, v in opts) + a.name + "/"
        mpd_url = prefix + a.mpd_name
        init_off = int(o.get("init", 0))
        flags = {"ok": 0}
        https = bool(scn.get("https"))

        class Cl:
            pass

        def start(cl, i, at, retry=0):
            steps = cl.steps
            if i >= len(steps) or res.violations:
                return
            st = steps[i]
            at += 0 if retry else st["dt"]
            wk = (st["w"] + retry) % len(w.workers)
            if st.get("lost") == 1 and not retry:      # the request never arrives; the client tries again
                w.count("request_lost")
                w.sim.at(at + 1_000_000, lambda: start(cl, i, at + 1_000_000, 1))
                return
            if st.get("restart") and not retry:
                w.sim.at(at, w.workers[wk].restart)
            if st["k"] == "mpd" or cl.mpd is None:
                arrive = at + st["out"]
                w.count("network_delay", 1 if st["out"] else 0)
                w.spawn_request(mpd_url, at_us=arrive, worker=wk, https=https, switch=tuple(st.get("switch", ())),
                                cb=lambda r: on_mpd(cl, i, r, retry))
                return
            # choose when the time has come
            w.sim.at(max(at, w.sim.now_us), lambda: ask(cl, i, wk, retry))

        def nxt(cl, i, retry):
            st = cl.steps[i]
            if st.get("lost") == 2 and not retry:
                w.count("response_lost")
                start(cl, i, w.sim.now_us + 1_000_000, 1)
            else:
                start(cl, i + 1, w.sim.now_us)

        def on_mpd(cl, i, r, retry):
            if not wellformed(r, res):
                return
            t = r.readings[0]
            if r.status != 200:
                res.bad("mpd-refused", "%s: status %s at clock %.6f: %r" % (r.url, r.status, t, r.body[:200]))
                return
            try:
                m = mpdref.MPD(r.body)
                for p in m.periods:
                    if p.start is None:
                        raise mpdref.Bad("Period without start")
                for pi, p in enumerate(m.periods):
                    for st in p.sets:
                        check_future(r, m, pi, p, st, t)
            except mpdref.Bad as exc:
                res.bad("mpd-malformed", "%s at clock %.6f: %s" % (r.url, t, exc))
                return
            res.count("mpds")
            if not (cl.steps[i].get("lost") == 2 and not retry):
                cl.mpd, cl.t, cl.url = m, t, r.url
                cl.scheme_ok = all(b[0].startswith("http%s://%s/" % ("s" if https else "", w.HOST)) for b in m.base)
                if not cl.scheme_ok:
                    res.bad("scheme", "%s: BaseURLs %s for a%s request to %s" % (r.url, m.base, "n https" if https else " http", w.HOST))
            nxt(cl, i, retry)

        def check_future(r, m, pi, p, st, t):
            if st.t.timeline:
                it = client.items(m, pi, st, t)[-1]
                if m.type == "dynamic" and m.ast + it.end > Fr(t) + TOL:
                    res.bad("future", "%s: at clock %.6f the timeline lists a segment that ends at %s" % (
                        r.url, t, float(m.ast + it.end)))

        def media_reps(st):
            return [x for x in a.reps if x.id in st.reps]

        def ask(cl, i, wk, retry):
            if res.violations:
                return
            st = cl.steps[i]
            m = cl.mpd
            cand = [(pi, s) for pi, p in enumerate(m.periods) for s in p.sets]
            pick = st["pick"]
            bases = client.bases(m, cl.url)
            base, bato = bases[pick % len(bases)]
            arrive = w.sim.now_us + st["out"]
            w.count("network_delay", 1 if st["out"] else 0)
            if st["k"] == "init":
                cand = [c for c in cand if c[1].t.init]
                if not cand:
                    return start(cl, i + 1, w.sim.now_us)
                pi, s = cand[pick % len(cand)]
                rid = s.reps[pick // 7 % len(s.reps)]
                url = base + client.fill(s.t.init, rid)
                rep = [x for x in a.reps if x.id == rid][0]
                w.spawn_request(url, at_us=arrive, worker=wk, https=https, switch=tuple(st.get("switch", ())),
                                cb=lambda r: on_init(cl, i, r, retry, rep))
                return
            tc = Fr(w.sim.now_us, 1_000_000)
            lim = tc
            if m.mup and m.type == "dynamic":
                lim = min(tc, Fr(cl.t) + m.mup)
            elif m.type == "dynamic" and m.mup == 0:
                lim = min(tc, Fr(cl.t))
            pool = []
            for pi, s in cand:
                tot = client.ato_of(bato, s.t)
                its = client.items(m, pi, s, lim, bato)
                pool += [(pi, s, it, tot) for it in its]
            if not pool:
                res.count("nothing_available")
                return start(cl, i + 1, w.sim.now_us)
            typ = cand[pick % len(cand)][1].type
            mine = [x for x in pool if x[1].type == typ] or pool
            mine.sort(key=lambda x: x[2].start)
            if st["k"] == "edge":
                pi, s, it, tot = mine[-1]
            elif st["k"] == "old":
                lo = lim - m.ast - m.tsbd if m.tsbd is not None and m.type == "dynamic" else None
                keep = [x for x in mine if lo is None or x[2].end >= lo] or mine
                pi, s, it, tot = keep[pick // 11 % min(2, len(keep))]
            elif st["k"] == "next" and typ in cl.pos:
                ahead = [x for x in mine if x[2].end > cl.pos[typ]]
                if not ahead:
                    res.count("caught_up")
                    return start(cl, i + 1, w.sim.now_us)
                pi, s, it, tot = ahead[0]
                behind = max(lim, Fr(cl.t)) - m.ast - m.tsbd if m.tsbd is not None and m.type == "dynamic" else 0
                if it.start > cl.pos[typ] + 1 and cl.pos[typ] > behind + 2 * a.D and "etp" not in o \
                        and cl.ast == m.ast and mine[0][2].start > 0:
                    res.bad("gap", "%s: the MPD from %.6f continues at %s after %s of %s" % (
                        mpd_url, cl.t, float(it.start), float(cl.pos[typ]), typ))
                    return
                res.count("continued")
            else:
                pi, s, it, tot = mine[pick // 11 % len(mine)]
            rid = s.reps[pick // 7 % len(s.reps)]
            rep = [x for x in a.reps if x.id == rid][0]
            url = client.url_for(base, s, rid, it)
            w.spawn_request(url, at_us=arrive, worker=wk, https=https, switch=tuple(st.get("switch", ())),
                            cb=lambda r: on_seg(cl, i, r, retry, rep, m, pi, s, it, tot, typ, st["k"]))

        def session_gone(m, t):
            if "modulo" in o:
                return model.Modulo(a, opts, t).ast != m.ast
            if "tfdt" in o:
                return int(t) // 10800 * 10800 != m.ast
            return False

        def on_init(cl, i, r, retry, rep):
            m = cl.mpd
            if not wellformed(r, res):
                return
            t = r.readings[0]
            if not session_gone(m, t):
                if int(t) >= m.ast - init_off:
                    if r.status != 200:
                        res.bad("init-refused", "%s: status %s at clock %.6f: %r" % (r.url, r.status, t, r.body[:150]))
                        return
                    res.count("init")
                    media.check_init(res, rep, r.body, r.url)
            nxt(cl, i, retry)

        def on_seg(cl, i, r, retry, rep, m, pi, s, it, tot, typ, kind):
            if not wellformed(r, res):
                return
            p = m.periods[pi]
            ts = [Fr(x) for x in r.readings[:1]]
            t = ts[0]
            lo = hi = None
            if s.t.timeline is not None:
                lo = Fr(-(-(m.ast + it.end) // 1))
            elif tot is not None:
                lo = m.ast + it.end - tot
            else:
                lo = Fr(m.ast)
            if m.type == "dynamic" and m.tsbd is not None and tot is not None:
                hi = m.ast + it.end + m.tsbd
            if m.aet is not None:
                hi = min(hi, m.aet) if hi is not None else m.aet
            what = "%s (Period %s, %s, media %s-%s after AST %s; clock %.6f, MPD from %.6f)" % (
                r.url, p.id, s.type, float(it.start), float(it.end), m.ast, t, cl.t)
            if m.dur is not None and s.t.timeline is None and it.end > m.dur:
                hi = Fr(0)      # the announced end lies inside this segment: not judged
            must = t >= lo + TOL and (hi is None or t <= hi - TOL) and not session_gone(m, t)
            if must:
                if r.status != 200:
                    res.bad("refused", "%s: declared available, but status %s: %r" % (what, r.status, r.body[:150]))
                    return
                flags["ok"] += 1
                res.count("judged")
                res.states.add((tuple(sorted(o)), s.type, kind, min(4, int(max(0, t - Fr(cl.t))) // 30), len(m.periods)))
            if r.status == 200 and not session_gone(m, t):
                if rep.type == "image":
                    pass
                elif rep.type != "subtitles":
                    boxes, frags, spare = media.decode(rep, r.body)
                    if not frags:
                        res.bad("no-media", "%s: no fragments" % what)
                        return
                    pto = s.t.pto if s.t.pto else p.base_pto * s.t.timescale
                    real = Fr(frags[0].tfdt, rep.ts) - Fr(pto, s.t.timescale) + p.start
                    exact = s.t.timeline is not None
                    tol = Fr(0) if exact else rep.slack
                    if not exact and p.start % a.D:
                        tol += a.D      # Period boundaries inside a segment
                    if abs(real - it.start) > tol:
                        res.bad("misplaced", "%s: the media starts at %s, listed at %s" % (what, float(real), float(it.start)))
                        return
                    if must:
                        cl.pos[typ] = it.end
                        cl.ast = m.ast
            nxt(cl, i, retry)

        for c in scn["clients"]:
            cl = Cl()
            cl.steps, cl.mpd, cl.t, cl.url, cl.pos = c["steps"], None, None, None, {}
            cl.ast = None
            w.sim.at(c["at"], lambda cl=cl: start(cl, 0, w.sim.now_us))
        w.sim.run()
        res.absorb(w)
        res.nontrivial = flags["ok"] > 0


PROP = C02()
