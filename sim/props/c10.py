"""C10: disk faults are contained and healed at once."""
import xml.etree.ElementTree as ET

from .. import content
from ..common import FRACS, BaseProp, ctype, gen_skews, make_world, pick_time, us, wellformed
from ..urls import gen_request
from ..vfs import OPEN_ERRNO, Fault

HARD = sorted(OPEN_ERRNO)


def make_ref(scn):
    "A fresh, fault-free deployment of the same asset; ref(url, clock) serves one request there."
    w, _ = make_world({"asset": scn["asset"], "t0": 0})

    def ref(url, clock_us, headers=None, https=False):
        w.sim.now_us = clock_us
        return w.get(url, headers=headers, https=https)
    return ref


def same(r, q):
    return (r.status, r.reason, sorted(r.hlist), r.body) == (q.status, q.reason, sorted(q.hlist), q.body)


def clock_us(reading):
    return int(round(reading * 1e6))


class C10(BaseProp):
    id = "C10"
    RUNS = {"quick": 6500, "thorough": 150000}
    SHRINK = ("ops", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "lat": 0}
    OPTIONAL = ("switch",)
    RULE = ("one run = one asset, 1-2 workers, requests of every kind (concurrently, with line-level preemption) while 1-4 disk "
            "faults (missing/forbidden/unreadable files, descriptor exhaustion, read errors, short reads, truncated and "
            "zero-filled files, stalls) are active on chosen files in chosen windows, and the same requests again after the "
            "faults; every response is compared with a fault-free fresh deployment at the same clock reading; non-trivial = "
            "a fault hit a request and a later request of that URL was judged")
    STATE_MEASURE = "(request kind, fault kinds that hit it, file type hit, status)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.6, subs=rng.random() < 0.4, image=rng.random() < 0.4)
        a = content.build(spec)
        t0 = pick_time(rng)
        nw = rng.choice([1, 1, 2])
        at = us(t0, rng.choice(FRACS))
        ops = []
        for _ in range(rng.randrange(3, 8)):
            op = gen_request(rng, spec, a, at, bad=0.05)
            op["at"] = at
            op["w"] = rng.randrange(nw)
            if rng.random() < 0.4:
                op["switch"] = sorted(rng.randrange(1, 2000) for _ in range(rng.choice([2, 5])))
            ops.append(op)
            at += rng.choice([0, 0, 0, 1, 1000, 400_000])
        end = at + 1
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            op = rng.choice(ops)
            parts = op["url"].split("?")[0].split("/")
            match = rng.choice(["", ".cfg", ".cfg", "_video.dat", "_audio.dat", ".dat", ".mpd", "init.mp4", ".m4s", ".jpg",
                                "/" + parts[-2] + "/" if len(parts) > 2 else ".m4s"])
            kind = rng.choice(HARD + ["read_eio", "read_eio", "short_read", "trunc", "trunc", "zero", "zero", "slow"])
            f = {"kind": kind, "match": match}
            if kind in ("trunc", "zero"):
                f["arg"] = rng.choice([0, 1, 3, 4, 7, 8, 9, rng.randrange(0, 600), rng.randrange(0, 1 << 20)])
                if rng.random() < 0.3:
                    f["arg"] = -rng.randrange(1, 40)
            if kind == "slow":
                f["arg"] = rng.choice([1, 1000, 300_000, 5_000_000])
                f["op"] = rng.choice(["open", "read"])
            if rng.random() < 0.5:
                f["t1"] = rng.choice([at, ops[len(ops) // 2]["at"] + 1, end])
            else:
                f["t1"] = end
                f["count"] = rng.choice([1, 1, 2, 5])
                f["skip"] = rng.choice([0, 0, 0, 1, 2, 3])
            faults.append(f)
        again = []
        heal = end + rng.choice([0, 1, 1000, 500_000]) + (10_000_000 if any(f["kind"] == "slow" for f in faults) else 0)
        for op in ops:
            if rng.random() < 0.8:
                n = dict(op, at=heal, w=op["w"] if rng.random() < 0.8 else rng.randrange(nw))
                if n.get("switch") and rng.random() < 0.5:
                    n.pop("switch")
                again.append(n)
        return {"asset": spec, "t0": ops[0]["at"], "workers": nw, "ops": ops + again, "faults": faults,
                "skews": gen_skews(rng, nw) if rng.random() < 0.3 else [], "sched": rng.randrange(1 << 30),
                "lat": rng.choice([0, 0, 0, 100])}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        ref = make_ref(scn)
        w.vfs.read_lat_us = scn.get("lat", 0)
        for f in scn["faults"]:
            w.vfs.faults.append(Fault(f))
        got = []
        for op in scn["ops"]:
            w.spawn_request(op["url"], at_us=max(op["at"], w.sim.start_us), worker=op["w"] % len(w.workers),
                            https=bool(op.get("https")), switch=tuple(op.get("switch", ())),
                            cb=lambda r, op=op: got.append((op, r)))
        w.sim.run()
        res.absorb(w)
        if w.vfs.open_handles:
            res.bad("handle-leak", "%d file handles are still open after all requests" % w.vfs.open_handles)
            return
        if w.vfs.stray:
            res.bad("stray", "file access outside content and configuration: %s" % w.vfs.stray[:3])
            return
        if len(got) != len(scn["ops"]):
            res.bad("no-response", "%d of %d requests were answered" % (len(got), len(scn["ops"])))
            return
        hit = set()
        for op, r in got:
            if not wellformed(r, res):
                return
            kinds = sorted({f[0] for f in r.faults})
            if not r.readings:
                res.bad("no-clock", "%s: no clock reading" % r.url)
                return
            c = clock_us(r.readings[0])
            moved = any(clock_us(x) != c for x in r.readings)
            q = ref(op["url"], c, https=bool(op.get("https")))
            if q.hung or q.exc is not None:
                res.bad("exception", "%s without any fault: %s %s" % (op["url"], q.exc, q.hung))
                return
            soft = [k for k in kinds if k not in ("slow", "short_read")]
            files = sorted({f[1].rsplit(".", 1)[-1] for f in r.faults})
            res.states.add((op["kind"], tuple(kinds), tuple(files), r.status))
            what = "%s (clock %.6f, faults %s)" % (r.url, r.readings[0], sorted(set(r.faults)) or "none")
            if not soft:
                if not same(r, q) and not (moved and (kinds or "xml" in ctype(q) or op["kind"] in ("mpd", "period"))):
                    res.bad("differs" if not kinds else "differs-" + kinds[0],
                            "%s: status %s, %d bytes; without faults elsewhere and in a fresh process: %s, %d bytes; %r / %r" % (
                                what, r.status, len(r.body), q.status, len(q.body), r.body[:80], q.body[:80]))
                    return
                if not kinds and (op["url"], op.get("https")) in hit:
                    res.nontrivial = True
                    res.count("healed")
                res.count("compared")
                continue
            hit.add((op["url"], op.get("https")))
            res.count("fault_hit")
            if r.status == 404:
                if not r.body.strip() or not ctype(r).startswith("text/plain"):
                    res.bad("unexplained", "%s: 404 with type %s, body %r" % (what, ctype(r), r.body[:60]))
                    return
                continue
            if same(r, q):
                res.count("coped")
                continue
            if r.status != 200:
                res.bad("status", "%s: status %s" % (what, r.status))
                return
            if not any(k in ("trunc", "zero") for k in soft):
                res.bad("not-contained", "%s: 200 with %d bytes although the content could not be read (expected %d)" % (
                    what, len(r.body), len(q.body)))
                return
            if not self.partial(r, q, files) or files == ["dat"] and soft == ["trunc"]:
                res.bad("wrong-content", "%s: 200 with %d bytes that are neither the resource nor a part of it: %r.." % (
                    what, len(r.body), r.body[:80]))
                return
            res.count("partial")

    @staticmethod
    def partial(r, q, files):
        "A response made from a truncated or zero-filled file: only what the disk held."
        if "cfg" in files or "dat" in files:
            return True     # a shorter configuration can be a valid one
        if ctype(r) == "application/dash+xml":
            try:
                ET.fromstring(r.body)
            except ET.ParseError:
                return False
            return True
        if q.status != 200:
            return False
        if ctype(r) == "image/jpeg":
            return len(r.body) <= len(q.body) and all(x in (y, 0) for x, y in zip(r.body, q.body))
        i, j = r.body.find(b"mdat"), q.body.find(b"mdat")
        if i < 0 or j < 0 or len(files) > 1 or files != ["m4s"]:
            return len(r.body) <= len(q.body)
        if q.body.count(b"moof") > 1:
            return len(r.body) <= len(q.body)
        if r.body[:i] == q.body[:j]:
            return len(r.body) <= len(q.body) and all(x in (y, 0) for x, y in zip(r.body[i:], q.body[j:]))
        return True


PROP = C10()
