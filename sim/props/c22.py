"""C22: a player that follows its MPD plays without interruption."""
import random
from fractions import Fraction as Fr

from .. import client, content, media, model, mp4ref, mpdref
from ..common import FRACS, BaseProp, make_world, pick_time, us, wellformed
from ..vfs import Fault

PPH = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
PATTERNS = ["u20_d10", "u30_d30", "d10_u20", "u50_d10", "d30_u30", "u5_d1", "d2_u10"]


def gen_opts(rng, D, L, t0):
    "A session that a player meets at t0.  Lengths are whole segments."
    opts = []
    r = rng.random()
    ast = 0
    kind = "endless"
    if r < 0.45:
        st = max(0, (t0 - rng.choice([-2 * D, -3, 0, 1, D, 10, 20, 100, 1000, 5000])) // D * D)
        ast = st
        opts.append([rng.choice(["start", "ast"]), st])
        q = rng.random()
        left = max(0, t0 - st) // D * D
        if q < 0.4:
            kind = "dur"
            opts.append(["dur", left + D * rng.choice([1, 2, 3, 5, 10, 20])])
            for _ in range(rng.choice([0, 0, 1, 2])):
                opts.append(["dur", D * rng.choice([1, 2, 4, 10])])
        elif q < 0.65:
            kind = "stop"
            opts.append(["stop", st + left + D * rng.choice([1, 3, 10, 20])])
        if rng.random() < 0.4:
            opts.append(["timeoffset", rng.choice([0, ast, max(0, ast - D * L), ast // D // 3 * D])])
    elif r < 0.53:
        kind = "rel"
        opts.append(["startrel", -D * rng.choice([0, 1, 5, 20])])
        if rng.random() < 0.6:
            opts.append(["stoprel", D * rng.choice([1, 3, 10])])
    elif r < 0.62:
        kind = "modulo"
        opts.append(["modulo", rng.choice([1, 2, 5, 10])])
    elif r < 0.66:
        kind = "tfdt"
        opts.append(["tfdt", 32])
    if kind in ("endless", "dur", "stop", "rel") and rng.random() < 0.4:
        fit = [n for n in PPH if 3600 // n % D == 0 and 3600 % n == 0]
        if fit:
            n = rng.choice(fit + [60] * (60 % D == 0))
            opts.append(["periods", n])
            if rng.random() < 0.4:
                opts.append(["continuous", 1])
            if rng.random() < 0.3:
                opts.append(["peroff", 1])
            if rng.random() < 0.35:
                opts.append(["xlink", rng.choice([x for x in PPH if n % x == 0])])
            if rng.random() < 0.15:
                opts.append(["mpdcallback", rng.choice([x for x in PPH if n % x == 0])])
    if rng.random() < 0.45:
        opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
    if rng.random() < 0.3:
        opts.append(["snr", rng.choice([-1, 0, 1, 5, 1000])])
    if rng.random() < 0.45:
        opts.append(["tsbd", rng.choice([10, 20, 60, 600])])
    if rng.random() < 0.25:
        opts.append(["ato", rng.choice([0.5, 1, D, 0.25, D / 2])])
    if rng.random() < 0.15:
        opts.append(["init", rng.choice([1, 60])])
    if rng.random() < 0.2:
        opts.append(["mup", rng.choice([0, 1, 2, 5, D])])
    if rng.random() < 0.2:
        for _ in range(rng.choice([1, 2, 2])):
            opts.append(["baseurl", rng.choice(PATTERNS)])
    if rng.random() < 0.12:
        opts.append(["chunkdur", rng.choice([0.5, 1, D / 2])])
    if rng.random() < 0.1:
        opts.append(["sidx", 1])
    if rng.random() < 0.1:
        opts.append(["scte35", rng.choice([1, 2, 3])])
    if rng.random() < 0.1:
        opts.append(["spd", rng.choice([1, 10])])
    if rng.random() < 0.1:
        opts.append(["utc", rng.choice(["direct", "head-ntp", "httpiso"])])
    rng.shuffle(opts)
    return opts


class C22(BaseProp):
    id = "C22"
    RUNS = {"quick": 1200, "thorough": 40000}
    SHRINK = ("clients", "opts", "restarts", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "https": 0, "max_session": 0}
    RULE = ("one run = one asset, one session and 1-3 players that do what an MPD says: join at the live edge or some segments "
            "behind, refresh at the address and rate given, resolve remote Periods, fail over between BaseURLs, fetch each next "
            "segment when it is due in a Representation of their choice, through a network with delay, loss and retries, from "
            "1-3 workers with slightly skewed clocks, restarts and disks that fail or stall for a while, for 8-60 segments or to the "
            "end of the session (or into the next one); non-trivial = a player played at least six consecutive segments")
    STATE_MEASURE = "(option names, media type, Periods passed, way the playback ended)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.75, image=False, subs=rng.random() < 0.2)
        for r in spec["reps"]:
            r.pop("saio", None)
            if r.get("vardur"):
                r["vardur"] = 0
        D, L = spec["D"], spec["L"]
        t0 = pick_time(rng)
        if rng.random() < 0.4:     # near the place where things change
            t0 = t0 // 60 * 60 + rng.choice([-1, 1]) * rng.randrange(0, 4 * D)
            if rng.random() < 0.5:
                t0 = t0 // 3600 * 3600 - rng.randrange(0, 5 * D)
        opts = gen_opts(rng, D, L, t0)
        if any(k == "tfdt" for k, _ in opts) and rng.random() < 0.8:
            t0 = t0 // 10800 * 10800 - rng.randrange(0, 4 * D)
        t0 = max(t0, 0)            # no server's clock reads a time before 1970
        nw = rng.choice([1, 1, 2, 3])
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            clients.append({"at": us(t0, rng.choice(FRACS)) + us(rng.choice([0, 0, 1, 7])), "seed": rng.randrange(1 << 20),
                            "behind": rng.choice([0, 0, 1, 2, 5]), "loss": rng.choice([0, 0, 0.05, 0.2]),
                            "net": rng.choice([0, 1, 20_000, 150_000]), "n": rng.choice([8, 8, 15, 30, 60]),
                            "switch": rng.choice([0, 0, 1])})
        return {"asset": spec, "opts": opts, "t0": us(t0), "workers": nw, "https": int(rng.random() < 0.2),
                "skews": [rng.randrange(-400_000, 400_000) for _ in range(nw)] if rng.random() < 0.4 else [],
                "max_session": rng.choice([0] * 8 + [100_000]), "sched": rng.randrange(1 << 30), "clients": clients,
                "faults": [{"kind": rng.choice(["EIO", "ENOENT", "EMFILE", "read_eio", "slow", "slow"]), "arg": 200_000,
                            "match": rng.choice([".cfg", ".mpd", ".m4s", "init", ".dat", "sim"]), "op": None,
                            "count": rng.choice([1, 2, 4]), "skip": rng.choice([0, 3, 10, 40, 100])}
                           for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.2 else [],
                "restarts": [[us(t0) + rng.randrange(0, us(20 * D)), rng.randrange(nw)] for _ in
                             range(rng.choice([0, 0, 1, 3]))]}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        D = a.D
        opts = scn["opts"]
        o = dict(map(tuple, opts))
        for k in ("periods", "xlink", "mpdcallback"):
            if k in o and k != "periods" and ("periods" not in o or int(o["periods"]) % int(o[k])):
                return
        mpd_url = "/livesim/" + "".join("%s_%s/" % (k, v) for k, v in opts) + a.name + "/" + a.mpd_name
        https = bool(scn.get("https"))
        skew = max([abs(s) for s in scn.get("skews", [])] or [0])
        margin = Fr(2 * skew + 2_000, 1_000_000)     # what a client has to allow for clocks that differ
        flags = {"run": 0}
        open_ = []
        for f in scn.get("faults", []):
            w.vfs.faults.append(Fault(f))

        for at, wk in scn.get("restarts", []):
            w.sim.at(max(at, w.sim.start_us), w.workers[wk % len(w.workers)].restart)
            w.count("worker_restart")

        def drive(gen, rnd, cl):
            "Runs a player: it yields the URLs to fetch and the times to wait for."
            def step(value):
                if res.violations:
                    return
                try:
                    act = gen.send(value)
                except StopIteration:
                    open_.remove(gen)
                    return
                except (mpdref.Bad, mp4ref.Bad) as exc:
                    res.bad("malformed", "a player of %s at %.6f: %s" % (mpd_url, w.sim.now_us / 1e6, exc))
                    return
                if act[0] == "wait":
                    w.sim.at(max(w.sim.now_us + 1, act[1]), lambda: step(None))
                else:
                    fetch(act[1], 0)

            def fetch(url, tries):
                delay = rnd.randrange(cl["net"] + 1)
                if tries < 5 and rnd.random() < cl["loss"]:
                    w.count("request_lost")
                    w.sim.at(w.sim.now_us + 500_000, lambda: fetch(url, tries + 1))
                    return
                w.count("network_delay", 1 if delay else 0)
                lost = tries < 5 and rnd.random() < cl["loss"]
                sw = tuple(sorted(rnd.randrange(1, 2000) for _ in range(3))) if rnd.random() < 0.05 else ()
                w.spawn_request(url, at_us=w.sim.now_us + delay, worker=rnd.randrange(len(w.workers)), https=https, switch=sw,
                                cb=lambda r: got(url, tries, r, lost))

            def got(url, tries, r, lost):
                if not wellformed(r, res):
                    return
                if lost:
                    w.count("response_lost")
                    w.sim.at(w.sim.now_us + 500_000, lambda: fetch(url, tries + 1))
                elif r.faults and r.status != 200:
                    res.count("retry_after_disk_fault")
                    w.sim.at(w.sim.now_us + 500_000, lambda: fetch(url, tries))
                elif r.status == 302:
                    w.count("redirect")
                    if tries > 8:
                        res.bad("redirects", "%s: redirected for ever" % url)
                    else:
                        fetch(client.path_of(r.headers["location"][0]), tries + 6)
                else:
                    step(r)
            open_.append(gen)
            w.sim.at(max(cl["at"], w.sim.start_us), lambda: step(None))

        def player(cl, rnd):
            url = mpd_url
            m, t_mpd = None, None
            pos, hist, over, lmsg, sizes = {}, {}, {}, {}, {}
            count, streak, passed = 0, 0, set()
            base_i, fell = 0, False
            refused_remote, tried = set(), 0
            poll = Fr(D, 4)
            limit = w.sim.now_us + us((cl["n"] + 20) * D + 1500)
            seen_old = set()

            def here(link):
                "The path of an address, which has to lead to the server under the name the player knows."
                if "://" in link and not link.startswith("%s://%s/" % ("https" if https else "http", w.HOST)):
                    res.bad("elsewhere", "%s called on %s (https %s) sends players to %s" % (mpd_url, w.HOST, https, link))
                return client.path_of(link)

            def now():
                return Fr(w.sim.now_us, 1_000_000)

            def say():
                return "%s (player from %.3f, now %.6f, MPD from %.6f, AST %s)" % (
                    mpd_url, cl["at"] / 1e6, w.sim.now_us / 1e6, t_mpd, m.ast)

            def ended():
                "Has the presentation been played to the end that its MPD announces?"
                return m.dur is not None and min(pos.values()) >= m.dur // D * D - Fr(D, 2)

            force = False
            while True:
                if w.sim.now_us > limit:
                    res.bad("no-progress", "%s: %d segments in %.0f s" % (say(), count, (w.sim.now_us - cl["at"]) / 1e6))
                    return
                if m is None or force or m.type == "dynamic" and m.mup is not None and now() >= Fr(t_mpd) + max(m.mup, poll):
                    force = False
                    r = yield ("get", url)
                    if r.status != 200:
                        res.bad("mpd-refused", "%s at clock %.6f: status %s %r" % (url, r.readings[0], r.status, r.body[:150]))
                        return
                    old, m, t_mpd = m, mpdref.MPD(r.body), r.t0 / 1e6
                    if m.location:
                        url = here(m.location[0])
                    for i, p in enumerate(m.periods):
                        if p.href is not None:
                            q = yield ("get", here(p.href))
                            if q.status != 200:
                                if p.href in refused_remote:
                                    res.bad("remote-refused", "%s: %s: status %s %r" % (say(), p.href, q.status, q.body[:150]))
                                    return
                                # perhaps it is leaving, or the worker's clock is behind; the next MPD tells
                                refused_remote.add(p.href)
                                yield ("wait", w.sim.now_us + int((margin + 1) * 1_000_000))
                                force = True
                                break
                            refused_remote.discard(p.href)
                            m.periods[i] = remote(q.body)
                            res.count("remote_period")
                        if not force and m.periods[i].start is None:
                            raise mpdref.Bad("Period without start")
                    res.count("mpds")
                    if force:
                        m = old
                        continue
                    if old is not None and old.ast != m.ast:
                        if not ({"modulo", "tfdt"} & set(o)):
                            res.bad("moved", "%s: the availability start time was %s before" % (say(), old.ast))
                            return
                        pos, hist, over, lmsg = {}, {}, {}, {}
                        res.count("next_presentation")
                    continue
                bases = client.bases(m, url)
                for b in m.base:
                    here(b[0])
                base, bato = bases[base_i % len(bases)]
                types = sorted({s.type for p in m.periods for s in p.sets})
                if types != sorted({r.type for r in a.reps}):
                    res.bad("types", "%s: media types %s" % (say(), types))
                    return
                lim = now() - margin
                if m.type == "dynamic" and m.mup is not None:
                    lim = min(lim, Fr(t_mpd) + max(m.mup, poll))
                typ = min(types, key=lambda x: (pos.get(x, Fr(-1)), x))
                its = []
                for pi, p in enumerate(m.periods):
                    for s in p.sets:
                        if s.type == typ:
                            its += [(pi, s, it) for it in client.items(m, pi, s, lim, bato)
                                    if m.type == "dynamic" or m.ast is None or m.ast + it.end <= lim]
                if m.dur is not None:     # a session consists of whole segments
                    its = [x for x in its if x[2].start < m.dur // D * D - Fr(D, 2)]
                its.sort(key=lambda x: x[2].start)
                if s_timeline(m):     # seconds after which a segment that is complete must be listed
                    slow = (m.mup if m.mup is not None else Fr(0)) + 1
                    its = [x for x in its if m.ast is None or m.ast + x[2].end + margin <= now()]
                else:
                    slow = Fr(0)
                if typ not in pos:
                    if its:
                        k = max(0, len(its) - 1 - cl["behind"])
                        for x in types:
                            pos[x] = its[k][2].start
                    elif m.type == "static" and now() > m.ast + m.dur + D + 2 * margin:
                        res.bad("empty", "%s: a static MPD without %s" % (say(), typ))
                        return
                    elif m.dur is not None and m.type == "dynamic" and now() > m.ast + m.dur + D and not {"modulo", "tfdt"} & set(o):
                        res.count("came_too_late")
                        return
                    else:
                        yield ("wait", w.sim.now_us + int(poll * 1_000_000))
                        continue
                ahead = [x for x in its if x[2].start >= pos[typ] - Fr(D, 2)]
                if not ahead:
                    if ended():
                        if t_mpd < m.ast + m.dur and m.type == "dynamic":     # perhaps it has been extended
                            yield ("wait", int((m.ast + m.dur + margin) * 1_000_000))
                            force = True
                            continue
                        if {"modulo", "tfdt"} & set(o) and count < cl["n"]:
                            key = (m.ast, m.dur)
                            if key not in seen_old:
                                seen_old.add(key)
                                res.count("waits_for_next")
                                limit += us(700)
                            force = True
                            yield ("wait", w.sim.now_us + us(max(1, min(m.mup or 1, 10))))
                            continue
                        res.states.add((tuple(sorted(o)), "end", len(passed), m.type))
                        res.count("played_to_the_end")
                        check_end()
                        break
                    if m.type == "static" and now() > m.ast + m.dur + D + 2 * margin:
                        res.bad("incomplete", "%s: static, but nothing follows %s of %s" % (say(), float(pos[typ]), typ))
                        return
                    if m.tsbd is not None and m.type == "dynamic" and now() > m.ast + pos[typ] + D + m.tsbd:
                        res.count("fell_out_of_the_buffer")
                        fell = True
                        hist.pop(typ, None)
                        streak = 0
                        pos[typ] += D
                        continue
                    late = now() - (m.ast + pos[typ] + D)
                    if late > slow + margin + 2 * poll + Fr(cl["net"], 250_000) + 8 * (cl["loss"] > 0) + 8 * bool(w.vfs.faults):
                        res.bad("stall", "%s: the %s segment after %s has been complete for %.1f s and is not offered" % (
                            say(), typ, float(pos[typ]), late))
                        return
                    yield ("wait", w.sim.now_us + int(poll * 1_000_000))
                    continue
                pi, s, it = ahead[0]
                p = m.periods[pi]
                if it.start > pos[typ] + Fr(D, 2):
                    if m.tsbd is not None and m.type == "dynamic" and pos[typ] <= now() - m.ast - m.tsbd + D:
                        res.count("fell_out_of_the_buffer")
                        fell = True
                        hist.pop(typ, None)
                        streak = 0
                    else:
                        res.bad("gap", "%s: %s is followed by %s in %s" % (say(), float(pos[typ]), float(it.start), typ))
                        return
                rid = rnd.choice(s.reps)
                if rid not in sizes and s.t.init:
                    r = yield ("get", base + client.fill(s.t.init, rid))
                    sizes[rid] = 1
                    if r.status != 200:
                        del sizes[rid]
                        if "baseurl" in o and b"server down" in r.body:
                            base_i += 1
                            yield ("wait", w.sim.now_us + 700_000)
                            continue
                        if skew and r.status == 404 and tried < 3:
                            tried += 1
                            yield ("wait", w.sim.now_us + int(margin * 1_000_000))
                            continue
                        if {"modulo", "tfdt"} & set(o) and gone(m, Fr(r.readings[0])):
                            force = True
                            continue
                        res.bad("init-refused", "%s: %s: status %s %r" % (say(), r.url, r.status, r.body[:100]))
                        return
                    continue
                rep = [x for x in a.reps if x.id == rid][0]
                r = yield ("get", client.url_for(base, s, rid, it))
                what = "%s: %s (%s, Period %s, media %s-%s, server clock %.6f)" % (
                    say(), r.url, typ, p.id, float(it.start), float(it.end), r.readings[0])
                if r.status != 200:
                    if "baseurl" in o and b"server down" in r.body:
                        res.count("base_down")
                        base_i += 1
                        if base_i % len(bases) == 0:
                            yield ("wait", w.sim.now_us + 700_000)
                        continue
                    t = Fr(r.readings[0])
                    if m.type == "dynamic" and m.tsbd is not None and t > m.ast + it.end + m.tsbd - margin:
                        res.count("fell_out_of_the_buffer")
                        fell = True
                        hist.pop(typ, None)
                        streak = 0
                        pos[typ] = it.end
                        continue
                    if skew and r.status == 404 and tried < 3:      # a worker whose clock is behind
                        tried += 1
                        res.count("refused_by_slow_clock")
                        yield ("wait", w.sim.now_us + int(margin * 1_000_000))
                        continue
                    if {"modulo", "tfdt"} & set(o) and gone(m, t):
                        force = True
                        continue
                    res.bad("refused", "%s: status %s %r" % (what, r.status, r.body[:150]))
                    return
                tried = 0
                boxes, frags, _ = media.decode(rep, r.body)
                if not frags:
                    res.bad("no-media", "%s: no fragment" % what)
                    return
                if typ in lmsg and lmsg[typ][1] == m.dur:
                    res.bad("after-last", "%s: follows the segment at %s that was marked as the last one" % (what, lmsg[typ][0]))
                    return
                start = frags[0].tfdt
                end = start + sum(f.dur for f in frags)
                if typ in hist and hist[typ] != Fr(start, rep.ts):
                    res.bad("discontinuity", "%s: starts at media time %s/%d, the one before ended at %s" % (
                        what, start, rep.ts, hist[typ]))
                    return
                pto = s.t.pto if s.t.pto else p.base_pto * s.t.timescale
                real = Fr(start, rep.ts) - Fr(pto, s.t.timescale) + p.start
                if abs(real - it.start) > (0 if s.t.timeline is not None else rep.slack):
                    res.bad("misplaced", "%s: starts at %s" % (what, float(real)))
                    return
                # frames of other media have been played for the same time
                if not fell and max(pos.values()) - min(pos.values()) > 2 * D + 1:
                    res.bad("drift", "%s: positions %s" % (what, {k: float(v) for k, v in pos.items()}))
                    return
                br = mp4ref.brands(boxes)
                if br and b"lmsg" in br[1]:
                    lmsg[typ] = (float(it.start), m.dur)
                streak = streak + 1 if typ in hist else 0
                hist[typ] = Fr(end, rep.ts)
                pos[typ] = it.end
                passed.add((m.ast, p.id))
                count += 1
                res.count("segments")
                res.states.add((tuple(sorted(o)), typ, min(3, len(passed)), "play"))
                if streak >= 6 * len(types) and not flags["run"]:
                    flags["run"] = 1
                if cl["switch"]:
                    yield ("wait", w.sim.now_us + rnd.choice([0, 1000, 300_000]))
                if count >= cl["n"] * len(types):
                    break

            return

        def check_end():
            pass

        def s_timeline(m):
            return any(s.t.timeline is not None for p in m.periods for s in p.sets)

        def gone(m, t):
            if "modulo" in o:
                return model.Modulo(a, opts, t).ast != m.ast
            return int(t) // 10800 * 10800 != m.ast

        for c in scn["clients"]:
            rnd = random.Random("player/%d" % c["seed"])
            drive(player(c, rnd), rnd, c)
        w.sim.run()
        res.absorb(w)
        if open_ and not res.violations:
            res.bad("stuck", "%d players of %s never got an answer" % (len(open_), mpd_url))
            return
        res.nontrivial = flags["run"] > 0


def remote(data):
    "The Period in a document that a reference points at."
    import xml.etree.ElementTree as ET
    root = ET.fromstring(data)
    if root.tag != mpdref.NS + "Period":
        found = root.findall(".//" + mpdref.NS + "Period")
        if len(found) != 1:
            raise mpdref.Bad("a remote document with %d Periods" % len(found))
        root = found[0]
    return mpdref.parse_period(root)


PROP = C22()
