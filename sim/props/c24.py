"""C24: the closed-caption inserter."""
import importlib
import struct
from fractions import Fraction

from .. import content, core, mp4ref, world
from ..common import BaseProp, make_world
from ..vfs import Fault
from ..world import CONF, CONTENT

SCC = CONF + "/captions.scc"
OUTDIR = CONF + "/cc"


def caption_nal(words, field):
    n = len(words)
    body = bytes([0x66, 4, 8 + 2 + 3 * n + 1, 0xb5, 0, 0x31]) + b"GA94" + bytes([3, 0xc0 + n, 0xff])
    for x in words:
        body += bytes([0xfb + field, x >> 8, x & 255])
    body += b"\xff\x80"
    return struct.pack(">I", len(body)) + body


def scc_text(caps, eol):
    out = ["Scenarist_SCC V1.0", ""]
    for c in caps:
        ms = c["fn"]
        t = c["s"]
        out.append("%02d:%02d:%02d:%02d %s" % (t // 3600, t // 60 % 60, t % 60, ms, " ".join("%04x" % x for x in c["w"])))
        out.append("")
    return eol.join(out).encode()


def at(c):
    "Time of a caption in exact seconds (whole milliseconds)."
    return Fraction(c["s"] * 1000 + min(int(c["fn"] * 1000 / 29.97), 999), 1000)


def expected(seg, ts, caps, field):
    "Samples of the segment with the captions, or None when there is none for it."
    out = []
    t = seg.t
    any_ = False
    used = 0
    for s in seg.samples:
        a, b = Fraction(t, ts), Fraction(t + s.dur, ts)
        ins = b""
        for c in caps:
            if a <= at(c) < b:
                for i in range(0, len(c["w"]), 31):
                    ins += caption_nal(c["w"][i:i + 31], field)
                    any_ = True
                used += 1
        data = s.data
        if ins:
            p = 0
            while p < len(data) and data[p + 4] & 31 >= 6:
                p += 4 + struct.unpack_from(">I", data, p)[0]
            data = data[:p] + ins + data[p:]
        out.append((data, s.dur, s.flags, s.cto))
        t += s.dur
    return (out if any_ else None), used


class C24(BaseProp):
    id = "C24"
    RUNS = {"quick": 7000, "thorough": 100000}
    SHRINK = ("caps", "ops")
    OPTIONAL = ("power", "faults")
    REAL = ["dashlivesim closed-caption inserter from /repo's sources", "Python standard library (xml, io)"]
    RULE = ("one run = one VoD asset with NAL-structured video, one SCC file and several runs of the inserter with permuted "
            "directory listings, of which all but the last may meet read, write, stat and listing errors, full disks, short "
            "reads and writes, be killed at an I/O call or lose power; afterwards every written segment is compared, sample by "
            "sample, with a model; non-trivial = captions were inserted and a fault was hit or a segment got more than one")
    STATE_MEASURE = "(segment flavour, captions per segment pattern, outcomes of the runs)"

    def gen(self, rng, tier):
        D, L = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 5, 8])
        spec = content.gen_spec(rng, name="clip", D=D, L=L, plain=rng.random() < 0.3, subs=False, image=False, nvid=1,
                                audio=rng.random() < 0.5)
        spec.pop("vod_baseurl", None)
        if rng.random() < 0.3:  # times like those of NTSC video
            v = spec["reps"][0]
            v.update(ts=30000, frame=1000 if D * 30 % 1 else 1000, cut="exact")
            v["frame"] = rng.choice([f for f in (1000, 2000, 5000, 7500, 10000) if D * 30000 % f == 0])
        for r in spec["reps"]:
            for k in ("saio", "saio_first", "fixsize", "tfhd_size", "trex_size", "vod_lmsg"):
                r.pop(k, None)
            if r["type"] == "video":
                r["nal"] = 1
                if rng.random() < 0.1:
                    r["bulk"] = rng.choice([200, 65400, 65536, 70000])
        v = spec["reps"][0]
        ms = [k * v["frame"] * 1000 // v["ts"] for k in range(0, max(1, D * L * v["ts"] // v["frame"]) + 3)]
        caps = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30])):
            r = rng.random()
            if r < 0.4:
                s, fn = rng.randrange(0, D * L + 2), rng.choice([0, 0, 0, 1, 29])
            elif r < 0.8:
                m = rng.choice(ms)
                s, fn = m // 1000, min(29, max(0, round(m % 1000 * 0.02997) + rng.choice([0, 0, 1, -1])))
            elif caps and r < 0.9:
                s, fn = caps[-1]["s"], caps[-1]["fn"]
            else:
                s, fn = rng.randrange(0, D * L + 1), rng.randrange(30)
            if rng.random() < 0.08:     # long after the end of the clip
                s += rng.choice([60, 600, 3600, 36000, 43200, 86400 - 3600])
            n = rng.choice([0, 1, 2, 13, 30, 31, 32, 62, 63, 70]) if rng.random() < 0.5 else rng.randrange(1, 20)
            caps.append({"s": s, "fn": fn, "w": [rng.choice([0x9420, 0x942c, 0x8080, rng.randrange(65536)]) for _ in range(n)]})
        if rng.random() < 0.8:
            caps.sort(key=lambda c: (c["s"], c["fn"]))
        ops = []
        nf = 2 * len(spec["reps"]) * (L + 1)
        for i in range(rng.choice([0, 0, 1, 2])):
            f = self._fault(rng, nf)
            op = {"perm": rng.randrange(1000), "verbose": rng.choice([0, 0, 1]), "faults": [f]}
            if rng.random() < 0.4:
                op["power"] = rng.randrange(1, 1 << 20)
            ops.append(op)
        return {"asset": spec, "caps": caps, "ops": ops, "perm": rng.randrange(1000), "field": rng.choice([1, 1, 2]),
                "verbose": rng.choice([0, 0, 1]), "eol": rng.choice(["\n", "\n", "\r\n"]), "sched": rng.randrange(1 << 30)}

    def _fault(self, rng, nf):
        r = rng.random()
        if r < 0.3:
            return {"kind": "kill", "match": rng.choice(["", "/cc/", "/cc/", ".m4s", ".scc"]), "skip": rng.randrange(0, nf), "count": 1}
        if r < 0.6:
            return {"kind": rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "read_eio", "short_read"]),
                    "match": rng.choice([".m4s", ".mpd", "init.mp4", ".scc", ""]), "skip": rng.randrange(0, nf),
                    "count": rng.choice([1, 1, -1])}
        if r < 0.7:
            return {"kind": "EIO", "op": rng.choice(["stat", "listdir"]), "match": "", "skip": rng.randrange(0, nf), "count": rng.choice([1, -1])}
        return {"kind": rng.choice(["enospc", "write_eio", "short_write"]), "match": "", "arg": rng.choice([0, 1, 11, 60, 300]),
                "skip": rng.choice([0, 0, 1, 2]), "count": rng.choice([1, -1])}

    def run(self, scn, res):
        w, _ = make_world(dict(scn, t0=1_400_000_000_000_000))
        a = content.build(scn["asset"])
        vfs = w.vfs
        vfs.put(SCC, scc_text(scn["caps"], scn["eol"]))
        vfs.dirs |= {OUTDIR}
        given = {p: n.data for p, n in vfs.files.items()}
        world.purge()
        with core.outside():
            mod = importlib.import_module("dashlivesim.cc_inserter.cc_inserter")
        rep = a.of_type("video")[0]
        trex = mp4ref.Trex(rep.init)
        want = {}
        used = 0
        for s in rep.segs:
            e, n = expected(s, rep.ts, scn["caps"], scn["field"])
            used += n
            if e:
                want[s.nr] = e
        mpd = "%s/%s/Manifest.mpd" % (CONTENT, a.name)
        log = []
        for n, op in enumerate(scn["ops"] + [{"perm": scn["perm"], "verbose": scn["verbose"]}]):
            vfs.perm_seed = op["perm"]
            vfs.faults = [Fault(f) for f in op.get("faults", [])]

            def job(op=op):
                ins = mod.CCInserter(mpd, SCC, OUTDIR, -1, scn["field"], op["verbose"])
                ins.analyze()
                return "ok"
            t = w.call(job, worker=None, cwd=CONF, name="cc%d" % n)
            t.budget = 1 << 40
            w.sim.run()
            vfs.faults = []
            if isinstance(t.exc, core.HarnessError):
                raise t.exc
            hit = sorted({f[0] for f in t.faults} | ({"kill"} if t.killed else set()))
            if t.killed and op.get("power"):
                import random
                prng = random.Random("power/%d" % op["power"])
                vfs.crash(lambda p, node: node.data[:prng.randrange(len(node.data) + 1)])
                w.count("power_loss")
            ok = t.result == "ok"
            log.append(("ok" if ok else "fail") + ":" + ",".join(hit))
            what = "run %d of the inserter (%s; faults hit: %s)" % (
                n, "finished" if ok else "killed" if t.killed else "raised %s: %s" % (type(t.exc).__name__, t.exc), hit or "none")
            if vfs.stray:
                res.bad("stray", "%s: touched %s" % (what, vfs.stray[:3]))
                return
            now = {p: x.data for p, x in vfs.files.items() if not p.startswith(OUTDIR + "/")}
            if now != given:
                res.bad("input-modified", "%s: changed %s" % (what, sorted(set(now.items()) ^ set(given.items()))[0][0]))
                return
            if not ok and not hit:
                res.bad("refused", "%s: valid input was refused" % what)
                return
            if not ok:
                res.count("failed_runs")
                continue
            done = {p[len(OUTDIR) + 1:]: x.data for p, x in vfs.files.items() if p.startswith(OUTDIR + "/")}
            if set(done) != {"%d.m4s" % nr for nr in want}:
                res.bad("which", "%s: wrote %s; captions fall into segments %s" % (what, sorted(done), sorted(want)))
                return
            for nr, e in want.items():
                if not self._judge(res, what, a, rep, trex, nr, e, done["%d.m4s" % nr]):
                    return
                res.count("segments_compared")
        res.count("captions", used)
        res.absorb(w)
        import hashlib
        res.digest = hashlib.sha256(repr((res.digest, log, sorted(done.items()))).encode()).hexdigest()
        sp = rep.spec
        res.states.add((tuple(sorted((k, sp[k]) for k in ("tfdt", "sidx", "tr_first", "cto", "tfhd_dur", "trex_dur") if sp.get(k))),
                        len(want), used > len(want), tuple(log)))
        res.nontrivial = bool(want) and (used > len(want) or any("fail" in x for x in log))

    @staticmethod
    def _judge(res, what, a, rep, trex, nr, e, data):
        seg = rep.segs[nr - a.first]
        who = "%s: segment %d" % (what, nr)
        try:
            boxes = mp4ref.parse(data)
            frags, spare = mp4ref.fragments(boxes, data, trex)
            old = mp4ref.parse(seg.raw)
            of = mp4ref.fragments(old, seg.raw, trex)[0]
        except mp4ref.Bad as exc:
            res.bad("malformed", "%s: %s" % (who, exc))
            return False
        if [b.type for b in boxes] != [b.type for b in old]:
            res.bad("boxes", "%s has boxes %s instead of %s" % (who, [b.type for b in boxes], [b.type for b in old]))
            return False
        if len(frags) != 1 or (frags[0].tfdt, frags[0].track, frags[0].seqno) != (of[0].tfdt, of[0].track, of[0].seqno):
            res.bad("fragment", "%s: decode time, track or sequence number changed" % who)
            return False
        got = [(x[0], x[2], x[3], x[4]) for x in frags[0].samples]
        if len(got) != len(e):
            res.bad("samples", "%s has %d samples, %d expected" % (who, len(got), len(e)))
            return False
        for i, (g, x) in enumerate(zip(got, e)):
            if g != x:
                d = [n for n, p, q in zip(("data", "duration", "flags", "composition offset"), g, x) if p != q]
                res.bad("sample", "%s: %s of sample %d differ: %d bytes %s..., %d bytes %s... expected, rest %s / %s" % (
                    who, d, i, len(g[0]), g[0][:60].hex(), len(x[0]), x[0][:60].hex(), g[1:], x[1:]))
                return False
        mdat = [b for b in boxes if b.type == b"mdat"][0]
        if spare:
            res.bad("mdat", "%s: %d bytes in mdat belong to no sample" % (who, spare))
            return False
        moof = [b for b in boxes if b.type == b"moof"][0]
        for b, o in zip(boxes, old):
            if b.type in (b"moof", b"mdat"):
                continue
            raw = b.raw()
            if b.type == b"sidx":
                pos = 40 if raw[8] else 32
                if struct.unpack_from(">I", raw, pos)[0] != moof.size + mdat.size:
                    res.bad("sidx", "%s: the index says %d bytes, the fragment has %d" % (
                        who, struct.unpack_from(">I", raw, pos)[0], moof.size + mdat.size))
                    return False
                raw = raw[:pos] + o.raw()[pos:pos + 4] + raw[pos + 4:]
            if raw != o.raw():
                res.bad("box", "%s: %s changed" % (who, b.type))
                return False
        return True


PROP = C24()
