"""C12: HTTP framing and byte ranges."""
import re

from .. import content
from ..common import FRACS, BaseProp, ctype, gen_skews, make_world, pick_time, us, wellformed
from ..urls import gen_request
from ..vfs import Fault
from .c10 import clock_us

TYPES = {"mpd": {"application/dash+xml"}, "init": {"video/mp4", "audio/mp4", "application/mp4"},
         "muxinit": {"video/mp4"}, "thumb": {"image/jpeg"}, "period": {"text/plain", "application/xml", "text/xml",
                                                                     "application/dash+xml"}}
SEG = {"video/iso.segment", "video/mp4", "audio/mp4", "application/mp4"}
REASON = {200: "OK", 206: "Partial Content", 302: "Found", 404: "Not Found", 410: "Gone"}


def spec_range(line, n):
    """What a Range header asks of a resource of n bytes: ('part', a, b), ('ignore',) or ('free',) when both the part and
    the full resource are acceptable answers."""
    m = re.match(r"bytes=([0-9]*)-([0-9]*)\Z", line)
    if not m:
        if re.match(r"[ \t]*bytes[ \t]*=[ \t]*([0-9]*)[ \t]*-[ \t]*([0-9]*)[ \t]*,?\Z", line, re.I):
            return ("free",)
        return ("ignore",)
    a, b = m.groups()
    if not a and not b:
        return ("ignore",)
    if not a:
        k = int(b)
        return ("part", max(0, n - k), n - 1) if k else ("ignore",)
    a = int(a)
    if b and int(b) < a:
        return ("ignore",)
    if a >= n:
        return ("ignore",)
    return ("part", a, min(int(b), n - 1) if b else n - 1)


def gen_range(rng, n):
    "A Range header, for a resource that probably has about n bytes."
    r = rng.random()
    a = rng.choice([0, 0, 1, rng.randrange(0, n + 1), n - 1, n, n + 1, 10 * n])
    b = rng.choice([a, a + 1, a + rng.randrange(0, n), n - 1, n, n + 5, 10 ** 12, 10 ** 30])
    if r < 0.3:
        return "bytes=%d-%d" % (a, b)
    if r < 0.45:
        return "bytes=%d-" % a
    if r < 0.6:
        return "bytes=-%d" % rng.choice([0, 1, 2, n - 1, n, n + 1, rng.randrange(1, n + 1), 10 ** 20])
    return rng.choice(["", "bytes", "bytes=", "bytes=-", "bytes=--5", "bytes=0-1,5-9", "bytes=5-9,0-1", "bytes=0-0,-1",
                       "bytes=%d-%d" % (max(1, a), max(1, a) - 1), "items=0-5", "bytes 0-5", "0-5", "bytes=a-b", "bytes=1.0-2",
                       "bytes=0x1-0x5", "bytes=+1-5", "bytes=-+5", "bytes=1-5-7", "bytes=1--7", "bytes=\u00b2-\u00b3",
                       "bytes=0-\u00b9", "bytes=-\u00b9", "bytes=1_0-2_0", "bytes=0-5;q=1", "bytes=0-5, ", "BYTES=0-5",
                       "bytes=0-5 ", "bytes= 0-5", "kilobytes=0-5", "xbytes=0-5", "bytes=0-5\t", "bytes==0-5", "bytes=0-5-",
                       "bytes=,", "bytes=0-,", "bytes=-5,", "bytes=*", "bytes=0", "-5", "=", "none"])


class C12(BaseProp):
    id = "C12"
    RUNS = {"quick": 6000, "thorough": 120000}
    SHRINK = ("ops", "faults")
    SIMPLIFY = {"workers": 1, "skews": []}
    OPTIONAL = ("switch", "restart", "delay")
    RULE = ("one run = one asset, 1-3 workers, optionally a session limit; per request the framing of the reply, then the same "
            "resource with a Range header, and a download whose connection is cut at arbitrary bytes and that resumes with "
            "ranges on any worker after any delay, under disk stalls, short reads, restarts and preemption; oracle: the full "
            "resource served at the same clock reading and an independent parser of Range; non-trivial = a 206 was judged")
    STATE_MEASURE = "(kind, status, class of the range, resumptions)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.7, subs=rng.random() < 0.4, image=rng.random() < 0.5)
        a = content.build(spec)
        t0 = pick_time(rng)
        at = us(t0, rng.choice(FRACS))
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        lim = rng.choice([0, 0, 0, 0, 3600])
        for _ in range(rng.randrange(2, 6)):
            op = gen_request(rng, spec, a, at, bad=0.1)
            if lim and rng.random() < 0.7:
                op["url"] = op["url"].replace("/livesim/", "/livesim/sts_%d/sid_ab12/" % (
                    at // 1_000_000 - rng.choice([0, 10, 3599, 3600, 3601, -4, -7])), 1)
            op.update(at=at, w=rng.randrange(nw))
            n = rng.choice([200, 600, 1500])
            op["ranges"] = [gen_range(rng, n) for _ in range(rng.choice([0, 1, 2, 3]))]
            if rng.random() < 0.5:
                op["cuts"] = [[rng.choice([0.0, 0.01, 0.5, 0.99, 1.0, rng.random()]), rng.choice(["open", "open", "fix", "over"]),
                               rng.randrange(nw), rng.choice([0, 0, 1, 300_000, 900_000])] for _ in range(rng.choice([1, 2, 4]))]
            if rng.random() < 0.25:
                op["switch"] = sorted(rng.randrange(1, 1500) for _ in range(3))
            if rng.random() < 0.1:
                op["restart"] = 1
            ops.append(op)
            at += rng.choice([0, 0, 1000, 400_000, 1_000_000])
        faults = []
        if rng.random() < 0.3:
            faults.append({"kind": rng.choice(["short_read", "short_read", "slow"]), "match": rng.choice(["", ".m4s", ".cfg"]),
                           "arg": rng.choice([1, 7, 64, 1000]), "count": rng.choice([-1, 1, 3])})
        return {"asset": spec, "t0": ops[0]["at"], "workers": nw, "ops": ops, "faults": faults, "max_session": lim,
                "skews": gen_skews(rng, nw) if rng.random() < 0.3 else [], "sched": rng.randrange(1 << 30)}

    def run(self, scn, res):
        w, _ = make_world(scn)
        rw, _ = make_world({"asset": scn["asset"], "t0": 0, "max_session": scn.get("max_session", 0)})
        for f in scn["faults"]:
            w.vfs.faults.append(Fault(f))
        nw = len(w.workers)
        res.nontrivial = False
        got = []
        joined = []

        def client(op):
            wk = w.workers[op["w"] % nw]

            def fn():
                if op.get("restart"):
                    wk.restart()
                https = bool(op.get("https"))
                r = w.serve(wk, op["url"], None, https)
                w.nreq += 1
                got.append((op, r, None))
                for line in op.get("ranges", []):
                    w.nreq += 1
                    got.append((op, w.serve(wk, op["url"], {"Range": line}, https), line))
                if not op.get("cuts") or r.status != 200 or op["kind"] in ("mpd", "period", "bad") or "chunkdur" in op["url"]:
                    return
                # a download with a connection that breaks again and again
                total = len(r.body)
                have = b""
                first = int(total * op["cuts"][0][0])
                have = r.body[:first]
                for frac, mode, wi, delay in op["cuts"]:
                    if len(have) >= total:
                        break
                    if delay:
                        w.sim.sleep_us(delay)
                    line = "bytes=%d-" % len(have)
                    want = total - len(have)
                    if mode == "fix":
                        want = max(1, int(want * frac))
                        line += "%d" % (len(have) + want - 1)
                    elif mode == "over":
                        line += "%d" % (total + 1000)
                    w.nreq += 1
                    w.count("connection_cut")
                    q = w.serve(w.workers[wi % nw], op["url"], {"Range": line}, https)
                    got.append((op, q, line))
                    if q.status != 206:
                        return
                    keep = len(q.body) if mode == "fix" else int(len(q.body) * frac)
                    have += q.body[:keep]
                if len(have) < total:
                    w.nreq += 1
                    line = "bytes=-%d" % (total - len(have))
                    q = w.serve(wk, op["url"], {"Range": line}, https)
                    got.append((op, q, line))
                    if q.status != 206:
                        return
                    have += q.body
                joined.append((op, have, r.body))
            t = w.sim.spawn("c%s" % op["at"], fn, wk, max(op["at"], w.sim.start_us), tuple(op.get("switch", ())))
            return t

        tasks = [client(op) for op in scn["ops"]]
        w.sim.run()
        res.absorb(w)
        for t in tasks:
            if t.exc is not None:
                res.bad("exception", "%s" % t.exc)
                return
        if w.vfs.open_handles:
            res.bad("handle-leak", "%d file handles are still open after all requests" % w.vfs.open_handles)
            return
        full = {}
        versions = {}
        for op, r, line in got:
            if not self.framing(op, r, res):
                return
            c = clock_us(r.readings[0])
            if any(clock_us(x) != c for x in r.readings) and (r.status not in (200, 206) or op["kind"] in ("mpd", "period", "bad")):
                res.count("clock_moved")
                continue
            key = (op["url"], c, op.get("https"))
            q = full.get(key)
            if q is None:
                rw.sim.now_us = c
                q = full[key] = rw.get(op["url"], https=bool(op.get("https")))
            versions.setdefault(id(op), set()).add(q.body)
            res.states.add((op["kind"], r.status, line and spec_range(line, len(q.body))[0], len(op.get("cuts", []))))
            what = "%s at %.6f, Range %r" % (r.url, r.readings[0], line)
            if q.status != 200 or line is None:
                if r.status != q.status or (r.body != q.body and r.status != 302):
                    res.bad("status", "%s: status %s with %d bytes instead of %s with %d" % (
                        what, r.status, len(r.body), q.status, len(q.body)))
                    return
                res.count("full")
                continue
            n = len(q.body)
            want = spec_range(line, n)
            if "chunkdur" in op["url"]:
                want = ("free",)
            if r.status == 206:
                m = re.match(r"bytes (\d+)-(\d+)/(\d+)\Z", (r.headers.get("content-range") or [""])[0])
                if want[0] == "ignore":
                    res.bad("range-not-ignored", "%s (%d bytes): answered 206 %s" % (what, n, r.headers.get("content-range")))
                    return
                if not m:
                    res.bad("content-range", "%s: Content-Range %s" % (what, r.headers.get("content-range")))
                    return
                x, y, z = (int(g) for g in m.groups())
                if want[0] == "part" and (x, y) != want[1:] or z != n or not x <= y < n:
                    res.bad("content-range", "%s (%d bytes): Content-Range %s" % (what, n, m.group(0)))
                    return
                if r.body != q.body[x:y + 1]:
                    res.bad("range-bytes", "%s: %d bytes that are not bytes %d-%d of the resource" % (what, len(r.body), x, y))
                    return
                if ctype(r) != ctype(q):
                    res.bad("mime", "%s: type %s of the part, %s of the whole" % (what, ctype(r), ctype(q)))
                    return
                res.count("partial")
                res.nontrivial = True
            elif r.status == 200:
                if want[0] == "part":
                    res.bad("range-ignored", "%s: satisfiable in %d bytes but answered 200" % (what, n))
                    return
                if r.body != q.body:
                    res.bad("full-bytes", "%s: 200 with %d of %d bytes" % (what, len(r.body), n))
                    return
                if "content-range" in r.headers:
                    res.bad("content-range", "%s: 200 with a Content-Range" % what)
                    return
                res.count("range_ignored")
            else:
                res.bad("status", "%s: status %s, the full resource gives 200" % (what, r.status))
                return
        for op, have, want in joined:
            if len(versions.get(id(op), ())) > 1:  # An outage begins or a session ends meanwhile
                res.count("changed")
                continue
            if have != want:
                res.bad("resume", "%s: reassembled download has %d bytes, the resource %d, or they differ" % (
                    op["url"], len(have), len(want)))
                return
            res.count("resumed")

    @staticmethod
    def framing(op, r, res):
        if not wellformed(r, res):
            return False
        if not r.readings:
            res.bad("no-clock", "%s: no clock reading" % r.url)
            return False
        what = "%s: %s" % (r.url, r.status)
        if r.status not in REASON or not r.reason.strip() or r.nstart != 1:
            res.bad("status-line", "%s %r, started %d times" % (what, r.reason, r.nstart))
            return False
        dup = [k for k, v in r.headers.items() if len(v) > 1]
        if dup:
            res.bad("duplicate-header", "%s: headers %s occur more than once" % (what, dup))
            return False

        def h(name):
            return (r.headers.get(name) or [""])[0].lower()
        cl = h("content-length")
        chunked = "chunkdur" in r.url and r.status == 200 and op["kind"] in ("seg", "tseg", "mux", "bad")
        if not cl and not chunked or cl and (not cl.isdigit() or int(cl) != len(r.body)):
            res.bad("content-length", "%s: Content-Length %r, body of %d bytes" % (what, cl, len(r.body)))
            return False
        miss = [k for k, v in (("access-control-allow-origin", "*"), ("cache-control", "no-cache"), ("pragma", "no-cache"),
                               ("access-control-allow-methods", "get"), ("access-control-allow-headers", "range"),
                               ("access-control-expose-headers", "content-range"), ("expires", "-1"),
                               ("accept-ranges", "bytes")) if v not in h(k)]
        if miss:
            res.bad("headers", "%s: missing or wrong headers %s" % (what, miss))
            return False
        ct = h("content-type").split(";")[0].strip()
        if r.status in (200, 206):
            ok = TYPES.get(op["kind"])
            if op["kind"] in ("seg", "tseg", "mux"):
                ok = SEG
            if ok and ct not in ok:
                res.bad("mime", "%s: %s resource has type %r" % (what, op["kind"], ct))
                return False
        elif r.status == 404 and (ct != "text/plain" or not r.body.strip()):
            res.bad("mime", "%s: type %r, body %r" % (what, ct, r.body[:40]))
            return False
        if r.status == 302 and not h("location"):
            res.bad("headers", "%s without Location" % what)
            return False
        res.count("framing")
        return True


PROP = C12()
