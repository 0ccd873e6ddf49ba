"""C17: the VoD analyzer."""
import configparser
import importlib
import struct

from .. import content, core, world
from ..common import BaseProp, make_world, pick_time, us
from ..vfs import Fault
from ..world import CONF, CONTENT
from .c10 import clock_us, make_ref, same

FRAMES = {48000: [480, 960, 1024, 1000, 1920, 3200], 44100: [441, 882, 1024, 1050, 2205], 90000: [900, 3000, 3600, 7500],
          32000: [320, 1024, 2560]}


def truth(a, extra=None):
    "What the configuration of asset a must say."
    t = {"first": a.first, "n": a.L, "dur": a.D, "media": {}}
    for typ in ("video", "audio"):
        reps = a.of_type(typ)
        if reps:
            t["media"][typ] = (sorted(r.id for r in reps), reps[0].ts, a.loop * reps[0].ts,
                               [(s.nr, s.t, s.dur) for s in reps[0].segs])
    return t


def read_state(vfs, name):
    """(config, index) on the simulated disk: config is None when there is none, 'bad' when it cannot be complete;
    index maps media to the expanded list of segments, or None."""
    node = vfs.files.get("%s/%s.cfg" % (CONF, name))
    if node is None:
        return None, None
    c = configparser.RawConfigParser()
    try:
        c.read_string(node.data.decode())
        cfg = {"first": c.getint("Setup", "first_segment_in_loop"), "n": c.getint("Setup", "nr_segments_in_loop"),
               "dur": c.getint("Setup", "segment_duration_s"), "media": {}}
        dats = {}
        for typ in ("video", "audio"):
            if not c.has_section(typ):
                continue
            cfg["media"][typ] = (sorted(x.strip() for x in c.get(typ, "representations").split(",")),
                                 c.getint(typ, "timescale"), c.getint(typ, "total_duration"))
            dats[typ] = c.get(typ, "dat_file")
    except (configparser.Error, ValueError):
        return "bad", None
    index = {}
    for typ, f in dats.items():
        node = vfs.files.get("%s/%s" % (CONF, f))
        if node is None or len(node.data) % 12:
            index[typ] = None
            continue
        out = []
        for i in range(0, len(node.data), 12):
            nr, rep, t, d = struct.unpack_from("<HHII", node.data, i)
            out += [(nr + k, t + k * d, d) for k in range(rep + 1)]
        index[typ] = out
    return cfg, index


def matches(cfg, index, t):
    "Does this configuration say exactly t?"
    if not isinstance(cfg, dict) or any(cfg[k] != t[k] for k in ("first", "n", "dur")) or set(cfg["media"]) != set(t["media"]):
        return False
    return all(cfg["media"][m] == t["media"][m][:3] for m in t["media"]) and \
        all(index[m] == t["media"][m][3] for m in t["media"])


class C17(BaseProp):
    id = "C17"
    RUNS = {"quick": 4500, "thorough": 100000}
    SHRINK = ("ops", "during")
    SIMPLIFY = {"policy": "fifo", "lat": 0}
    OPTIONAL = ("power", "faults")
    REAL = ["dashlivesim VoD analyzer and the dashlivesim WSGI application that uses its files, from /repo's sources",
            "Python standard library (xml, configparser, io)"]
    RULE = ("one run = one asset (sometimes replaced by another of the same name midway), an initial state of the configuration "
            "directory (empty, complete, torn, foreign) and several analyzer runs with permuted directory listings, of which "
            "some meet read, write, stat, rename and fsync errors, full disks or short writes, are killed at an I/O call or "
            "lose power; after each run the files and a server's responses are compared with the asset's true loop; requests "
            "also run while the analyzer does; non-trivial = a failed run was followed by a judged one")
    STATE_MEASURE = "(initial state, outcome sequence of the analyzer runs with fault kind and file, replaced)"

    # -- scenario
    def _spec(self, rng, name):
        D, L = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 4, 5, 8])
        spec = content.gen_spec(rng, name=name, D=D, L=L, plain=rng.random() < 0.5, subs=False, image=False)
        if rng.random() < 0.15:
            spec["reps"] = [r for r in spec["reps"] if r["type"] == rng.choice(["video", "audio"])] or spec["reps"]
        spec["tsbd"] = 300
        spec.pop("vod_baseurl", None)
        spec.get("shape", {}).pop("split", None)  # The analyzer refuses several AdaptationSets of a kind
        for r in spec["reps"]:
            r.pop("vod_lmsg", None)
            if r["type"] == "audio" and rng.random() < 0.85:
                c = [(ts, f) for ts in FRAMES for f in FRAMES[ts] if L * D * ts % f == 0]
                r["ts"], r["frame"] = rng.choice(c)
                r["cut"] = rng.choice(["floor", "round", "ceil"])
                r.pop("fixsize", None)
                r.pop("tfhd_size", None)
                r.pop("trex_size", None)
        if rng.random() < 0.35:
            k = rng.choice([1, 1, 2, L])
            who = rng.choice([[r["id"] for r in spec["reps"] if r["type"] == "audio"], [spec["reps"][0]["id"]],
                              [spec["reps"][-1]["id"]]])
            if len(who) < len(spec["reps"]):
                return spec, {"k": min(k, L), "reps": who}
        elif L > 1 and rng.random() < 0.15:  # From segment k on, the media is too early or too late by d ms
            r = rng.choice(spec["reps"])
            return spec, {"drift": r["id"], "k": rng.randrange(1, L), "d": rng.choice([-1, 1]) * rng.choice([250, 400, 1000])}
        return spec, None

    def _fault(self, rng, nf):
        r = rng.random()
        if r < 0.35:
            return {"kind": "kill", "match": rng.choice(["", ".dat", ".dat", ".cfg", ".cfg", ".tmp", "/conf", "/conf"]),
                    "skip": rng.choice([0, 1, 2, 3, 4, 6, rng.randrange(0, 4 * nf)]), "count": 1}
        if r < 0.6:
            return {"kind": rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "read_eio", "short_read"]),
                    "match": rng.choice([".m4s", ".m4s", ".mpd", "init.mp4", ""]), "skip": rng.randrange(0, nf),
                    "count": rng.choice([1, 1, -1])}
        if r < 0.7:
            return {"kind": "EIO", "op": rng.choice(["stat", "listdir", "stat"]), "match": rng.choice(["", ".m4s", "/conf"]),
                    "skip": rng.randrange(0, nf), "count": rng.choice([1, -1])}
        if r < 0.9:
            return {"kind": rng.choice(["enospc", "write_eio", "short_write"]), "match": rng.choice(["", ".dat", ".cfg"]),
                    "arg": rng.choice([0, 1, 5, 11, 12, 13, 24, 60]), "skip": rng.choice([0, 0, 1, 2]), "count": rng.choice([1, -1])}
        return {"kind": "EIO", "op": rng.choice(["open", "rename", "fsync", "unlink"]),
                "match": rng.choice([".dat", ".cfg", "/conf"]), "skip": rng.choice([0, 0, 1]), "count": 1}

    def gen(self, rng, tier):
        a, ax = self._spec(rng, "clip")
        b, bx = self._spec(rng, "clip") if rng.random() < 0.5 else (None, None)
        nf = max(2, len(a["reps"]) * (a["L"] + 1))
        init = rng.choice(["none", "none", "same", "same", "torn", "junk"] + (["other", "mixed", "mixed"] if b else ["same"]))
        ops = []
        swapped = False
        for i in range(rng.randrange(2, 5)):
            if b and not swapped and rng.random() < 0.5:
                ops.append({"k": "replace"})
                swapped = True
            op = {"k": "analyze", "perm": rng.randrange(1000), "verbose": rng.choice([0, 1])}
            if rng.random() < 0.65:
                op["faults"] = [self._fault(rng, nf) for _ in range(rng.choice([1, 1, 1, 2]))]
                if rng.random() < 0.4:
                    op["power"] = rng.randrange(1, 1 << 20)
            ops.append(op)
        ops.append({"k": "analyze", "perm": rng.randrange(1000), "verbose": 0})
        during = []
        if rng.random() < 0.4:
            for _ in range(rng.randrange(1, 6)):
                during.append({"op": rng.randrange(len(ops)), "at": rng.choice([0, 50, 500, rng.randrange(0, 100 * nf)]),
                               "u": rng.randrange(4)})
        return {"asset": a, "more": ax, "b": b, "bmore": bx, "init": init, "t0": us(pick_time(rng)), "ops": ops,
                "during": during, "lat": rng.choice([0, 20, 100]) if not during else rng.choice([20, 100]),
                "sched": rng.randrange(1 << 30)}

    # -- run
    def run(self, scn, res):
        w, _ = make_world(dict(scn, asset=scn["asset"]))
        assets = [content.build(scn["asset"])] + ([content.build(scn["b"])] if scn.get("b") else [])
        more = [scn.get("more"), scn.get("bmore")]
        vfs = w.vfs
        name = assets[0].name
        vfs.files = {}
        w.vfs.dirs |= {CONF, CONTENT}
        truths = [truth(x) for x in assets]
        refs = {}

        def ref(i):
            if i not in refs:
                refs[i] = make_ref({"asset": scn["asset"] if i == 0 else scn["b"]})
            return refs[i]

        surplus = {}                # asset nr -> (Representation, index, segment) of media beyond the common loop

        def install(i):
            for p in [p for p in vfs.files if p.startswith(CONTENT)]:
                del vfs.files[p]
            for p, d in assets[i].files.items():
                if p.startswith(CONTENT):
                    vfs.put(p, d)
            x = more[i]
            if x and "drift" in x:
                r = assets[i].by_id[x["drift"]]
                for s in r.segs[x["k"]:]:
                    t = max(0, s.t + x["d"] * r.ts // 1000)
                    at = s.raw.index(b"tfdt")
                    raw = struct.pack(">Q", t) if s.raw[at + 4] else struct.pack(">I", t)
                    vfs.put("%s/%s/%s/%d.m4s" % (CONTENT, name, r.path, s.nr),
                            s.raw[:at + 8] + raw + s.raw[at + 8 + len(raw):])
            elif x:
                try:
                    big = content.build(dict(assets[i].spec, L=2 * assets[i].L))
                except AssertionError:
                    return
                for rid in x["reps"]:
                    for s in big.by_id[rid].segs[assets[i].L:assets[i].L + x["k"]]:
                        vfs.put("%s/%s/%s/%d.m4s" % (CONTENT, name, big.by_id[rid].path, s.nr), s.raw)
                        surplus.setdefault(i, []).append((big.by_id[rid], s.nr - assets[i].first, s))

        def drifts(i):
            "The analyzer has to refuse the asset."
            return bool(more[i]) and "drift" in more[i]

        def good(i):
            "All segment ends within 100 ms of the ideal grid: the analyzer has to accept the asset."
            return all(abs(s.t + s.dur - (k + 1) * assets[i].D * r.ts) < int(r.ts * 0.1)
                       for r, k, s in [(r, k, s) for r in assets[i].reps for k, s in enumerate(r.segs)] + surplus.get(i, []))

        install(0)
        init = scn["init"]
        src = assets[-1] if init == "other" else assets[0]
        if init != "none":
            conf = dict(src.files)
            if init == "mixed":         # died between the files of two versions
                conf.update((p, d) for p, d in assets[-1].files.items() if p.endswith(".dat"))
            for p, d in conf.items():
                if p.startswith(CONF):
                    if init == "junk":
                        d = b"\x00junk" * 30
                    elif init == "torn":
                        d = d[:len(d) // 2]
                    vfs.put(p, d)
            if init in ("junk", "torn"):
                vfs.put("%s/%s.cfg.tmp" % (CONF, name), b"leftover")
        world.purge()
        with core.outside():
            mod = importlib.import_module("dashlivesim.vodanalyzer.dashanalyzer")
        cur = 0
        failed = nontrivial = False
        log = []
        urls = ["/livesim/segtimeline_1/%s/Manifest.mpd" % name, "/livesim/segtimelinenr_1/tsbd_30/%s/Manifest.mpd" % name,
                "/livesim/%s/Manifest.mpd" % name]
        mpd = "%s/%s/Manifest.mpd" % (CONTENT, name)

        cfg, index = read_state(vfs, name)
        if isinstance(cfg, dict) and index and any(x is not None and len(x) != cfg["n"] for x in index.values()):
            for u in urls[:2]:
                r = w.get(u)
                if r.status == 200:
                    res.bad("torn-config", "%s answers 200 with a configuration of %d segments and index files of %s" % (
                        u, cfg["n"], {m: x and len(x) for m, x in index.items()}))
                    return
            res.count("mixed_refused")

        def seg_urls(i):
            a = assets[i]
            now = w.sim.now_us // 1_000_000
            nr = now // a.D - 1
            return ["/livesim/%s/%s/%d.m4s" % (name, r.id, nr - k) for r in a.reps for k in (0, 1 + nr % a.L)
                    if nr - k >= 0]

        for n, op in enumerate(scn["ops"]):
            if op["k"] == "replace":
                cur = len(assets) - 1
                install(cur)
                log.append("replace")
                continue
            vfs.perm_seed = op["perm"]
            vfs.read_lat_us = scn.get("lat", 0)
            vfs.faults = [Fault(f) for f in op.get("faults", [])]
            media0 = {p: x.data for p, x in vfs.files.items() if p.startswith(CONTENT)}
            before = read_state(vfs, name)
            stable = matches(*before, truths[cur]) and not drifts(cur)      # nothing changes for viewers meanwhile
            out = {}

            def job(op=op):
                an = mod.DashAnalyzer(mpd, op["verbose"])
                an.analyze()
                return "ok"
            t = w.call(job, worker=None, cwd=CONF, name="an%d" % n)
            t.budget = 1 << 40
            t.done_cb = lambda task: vfs.faults.clear()
            for d in scn.get("during", []):
                if d["op"] == n and stable:
                    u = (urls + seg_urls(cur))[d["u"] % 4]
                    w.spawn_request(u, at_us=w.sim.now_us + d["at"], worker=0,
                                    cb=lambda r, u=u: out.setdefault("during", []).append((u, r)))
            w.sim.run()
            vfs.faults = []
            vfs.read_lat_us = 0
            hit = sorted({f[0] for f in t.faults} | ({"kill"} if t.killed else set()))
            if isinstance(t.exc, core.HarnessError):
                raise t.exc
            if t.killed and op.get("power"):
                import random
                prng = random.Random("power/%d" % op["power"])
                vfs.crash(lambda p, node: node.data[:prng.randrange(len(node.data) + 1)])
                w.count("power_loss")
            ok = t.result == "ok"
            log.append(("ok" if ok else "fail") + ":" + ",".join(hit))
            what = "analyzer run %d (%s; faults hit: %s)" % (
                n, "finished" if ok else "killed" if t.killed else "raised %s: %s" % (type(t.exc).__name__, t.exc), hit or "none")
            media1 = {p: x.data for p, x in vfs.files.items() if p.startswith(CONTENT)}
            if media1 != media0:
                p = sorted(set(media1.items()) ^ set(media0.items()))[0][0]
                res.bad("media-modified", "%s: changed %s" % (what, p))
                return
            if vfs.stray:
                res.bad("stray", "%s: touched %s" % (what, vfs.stray[:3]))
                return
            # requests that ran meanwhile
            for u, r in out.get("during", []):
                if r.status == 404 and r.body.strip() or r.faults:
                    continue
                q = ref(cur)(u, clock_us(r.readings[0]))
                if not same(r, q):
                    res.bad("served-meanwhile", "%s: meanwhile %s gave status %s, %d bytes; the asset's true answer is %s, %d "
                            "bytes" % (what, u, r.status, len(r.body), q.status, len(q.body)))
                    return
                res.count("requests_meanwhile")
            cfg, index = read_state(vfs, name)
            if ok and drifts(cur):
                res.bad("drift-accepted", "%s: the media of %s is %d ms off from segment %d on, and the asset was accepted" % (
                    what, more[cur]["drift"], more[cur]["d"], assets[cur].first + more[cur]["k"]))
                return
            if ok:
                if not hit or set(hit) <= {"slow", "short_read", "short_write"}:
                    nontrivial = nontrivial or failed
                if not matches(cfg, index, truths[cur]):
                    res.bad("wrong-config", "%s: configuration %s, index files %s; true loop %s" % (
                        what, cfg, {k: v and v[:4] for k, v in (index or {}).items()}, brief(truths[cur])))
                    return
                res.count("analysed")
            elif not hit and good(cur) and not drifts(cur):
                res.bad("refused", "%s: a well-formed asset was not analysed" % what)
                return
            if not ok:
                failed = failed or bool(hit)
                # whatever is there must be a whole configuration of some version, or be refused
                known = [i for i, x in enumerate(truths) if matches(cfg, index, x)]
                if cfg is not None and not known and not (cfg, index) == before:
                    r = w.get(urls[0])
                    if r.status == 200:
                        res.bad("torn-config", "%s: left a configuration that looks complete (%s) with index files %s; the "
                                "server answers 200" % (what, cfg, {k: v and v[:4] for k, v in (index or {}).items()}))
                        return
                    if isinstance(cfg, dict) and not any(matches(cfg, {m: x["media"][m][3] for m in x["media"]}, x)
                                                         for x in truths):
                        r = w.get(urls[2])
                        if r.status == 200:
                            res.bad("partial-config", "%s: left a configuration that says %s; true loops: %s" % (
                                what, cfg, [brief(x) for x in truths]))
                            return
                    res.count("torn_refused")
                elif cfg is None:
                    r = w.get(urls[0])
                    if r.status == 200:
                        res.bad("ghost", "%s: no configuration, but %s is served" % (what, r.url))
                        return
                res.count("failed_runs")
                continue
            # a server with these files behaves as with the true configuration
            for u in urls + seg_urls(cur):
                r = w.get(u)
                q = ref(cur)(u, clock_us(r.readings[0]))
                if not same(r, q):
                    res.bad("served", "%s: %s gives status %s, %d bytes; the asset's true answer is %s, %d bytes: %r / %r" % (
                        what, u, r.status, len(r.body), q.status, len(q.body), r.body[:100], q.body[:100]))
                    return
                res.count("responses_compared")
            w.sim.now_us += 1_500_000
        res.absorb(w)
        res.states.add((init, tuple(log)))
        res.nontrivial = nontrivial


def brief(t):
    return {k: v for k, v in t.items() if k != "media"} | {m: (x[1], x[2], x[3][:4]) for m, x in t["media"].items()}


PROP = C17()
