"""C18: every request, however odd, is answered once and stays inside the content."""
from .. import content
from ..common import FRACS, BaseProp, gen_skews, make_world, pick_time, us, wellformed
from ..urls import gen_request
from ..vfs import Fault
from ..world import CONF, CONTENT
from .c10 import clock_us
from .c11 import switches

SECRET = b"TOP-SECRET-OUTSIDE-OF-THE-CONTENT"
ROOTS = ["/sim/secret", "/sim", "/sim/content-old", "/sim/conf-old", "/etc"]
VALS = ["", "-1", "-0", "0", "00", "007", "1", "2", "1.5", "1e1", "nan", "inf", "-inf", "x", "\u00d9\u00a1", "\u00b2", "1_0", " 5", "+5", "%31",
        "0x10", "5;", "u1_d1", "u0_d0", "u_d", "u", "u20d10", "_", "d-5_u5", "u5_u5", "u10", "direct", "direct-", "-", "keep",
        "3600", "86400", "4294967296", "-4294967296", "1e400", "0.0000001", "99999999999999999999", "9" * 5000]
SAFE_VALS = [v for v in VALS if len(v) < 9]
TOKENS = ["..", "..", ".", "", "", "%2e%2e", "..%2f..", "%2fetc", "~", "A1", "V100", "init.mp4", "1.m4s", "x_y", "_", "__", "___",
          "A1__", "__V100", "A1__A1", "A1__V100__V200", "start", "start_", "etc", "sim", "secret", "content", "*", "a%00b", "C:\\x",
          "\u00e5", "\u00e2\u0098\u0083", "x" * 3000, "+p1.period", "Manifest.mpd", "Manifest.mpd+p0.period", "..mpd", ".mpd", ".m4s", ".cfg",
          "livesim", "sts_5", "sid_7", ";a=b", "a:b", "[x", "&", "=", "\u00e9"]
STS = VALS + ["--5", "-+5", "5-", "1-2", "\u00b25", "5\u00b2", "\u00bd", "5 ", "5_", "_5", "5__5", "0b1", "5L", "5\t"]
EXTS = ["", ".", ".mpd", ".m4s", ".mp4", ".jpg", ".period", ".cfg", ".dat", ".M4S", ".m4s.", ".m4s/", ".mpd+p1.period", ".xml"]
QUERIES = ["?", "?x", "?=", "?a=b&a=c", "?" + "a=1&" * 200, "?../..", "?%ff", "?a=%00", "#frag", "?x?y", ";p=1?x=2"]
HEADS = ["", "bytes=", "bytes=-", "bytes=--", "bytes=5", "bytes=1-0", "bytes=0-0", "bytes=9" + "9" * 30 + "-", "bytes=-9" + "9" * 30,
         "bytes=0-0,5-6", "items=0-5", "bytes=\u00b2-5", "bytes 0-5", "b" * 5000, "bytes=0-18446744073709551616", "bytes=-0"]
HOSTS = [None, None, None, "", "a b", "x:y:z", "x:99999", "<&>", "\"q\"", "\u00e9.example", "[::", "h" * 3000, "//", "a/b", "h_s", "baseurl_u1_d1"]


def twist(rng, url, asset):
    "An odd request, made from a good one."
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        path, q, query = url.partition("?")
        parts = path.split("/")
        k = rng.random()
        i = rng.randrange(1, len(parts))
        if k < 0.2:
            parts.insert(i, rng.choice(TOKENS))
        elif k < 0.3:
            parts[i] = rng.choice(TOKENS)
        elif k < 0.36:
            del parts[i]
        elif k < 0.42:
            parts.insert(i, parts[rng.randrange(1, len(parts))])
        elif k < 0.6:
            os = [j for j, p in enumerate(parts) if "_" in p and j < len(parts) - 1]
            if os:
                j = rng.choice(os)
                key = parts[j].split("_")[0]
                big = key in ("tsbd", "dur", "stop", "start", "ast", "startrel", "stoprel", "timeoffset", "periods", "modulo")
                parts[j] = key + "_" + rng.choice(SAFE_VALS if big else VALS)
            else:
                parts.insert(2, rng.choice(KEYS) + "_" + rng.choice(SAFE_VALS))
        elif k < 0.66:
            stem = parts[-1].rsplit(".", 1)[0]
            parts[-1] = stem + rng.choice(EXTS)
        elif k < 0.72:
            ext = parts[-1].rsplit(".", 1)[-1]
            parts[-1] = rng.choice(VALS + ["t" + v for v in VALS]) + "." + ext
        elif k < 0.88:
            # Out of the content, towards files of the same names
            if asset.name in parts:
                j = parts.index(asset.name) + rng.choice([0, 1, 1, 1])
                r = rng.choice(ROOTS)
                up = rng.choice([[".."] * rng.randrange(1, 7), [""], ["", ""], ["."], [".", "..", ".."], ["A1", "..", "..", ".."],
                                 [asset.name, "..", "..", ".."]])
                parts[j:j] = up + [x for x in r.split("/")[rng.choice([1, 2]):] if x]
            else:
                parts.insert(1, "..")
        elif k < 0.93:
            query, q = rng.choice(QUERIES), ""
        elif k < 0.97:
            s = "/".join(parts)
            parts = s[:rng.randrange(1, max(2, len(s)))].split("/")
        else:
            parts = [p.upper() if rng.random() < 0.5 else p for p in parts]
        url = "/" + "/".join(parts).lstrip("/" if rng.random() < 0.8 else "") + q + query
    return url


KEYS = ("start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "tfdt", "cont",
        "periods", "xlink", "etp", "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr",
        "baseurl", "peroff", "scte35", "utc", "snr", "ato", "spd", "sidx", "segtimelineloss", "sts", "sid", "chunkdur")


class C18(BaseProp):
    id = "C18"
    RUNS = {"quick": 6000, "thorough": 160000}
    SHRINK = ("ops", "faults")
    SIMPLIFY = {"workers": 1, "skews": [], "policy": "fifo", "max_session": 0}
    OPTIONAL = ("switch", "hdr", "restart", "host", "method")
    RULE = ("one run = 5-20 requests to 1-2 workers, most of them odd (parts of the path inserted, dropped, repeated or replaced, "
            "path traversal towards planted files outside of the content, impossible option values, wrong extensions, numbers "
            "and encodings, odd queries and Range headers), interleaved statement by statement, with the session limit on or "
            "off and disk faults in some; good requests in between are compared with the answer of a fresh process; "
            "non-trivial = an odd and a good request were judged")
    STATE_MEASURE = "(kind the odd request was made from, status, what was touched on the disk, kind of oddity by content)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.7, subs=rng.random() < 0.4, image=rng.random() < 0.4)
        asset = content.build(spec)
        t0 = pick_time(rng)
        at = us(t0, rng.choice(FRACS))
        nw = rng.choice([1, 1, 2])
        ops = []
        limit = rng.choice([0, 0, 0, 3600])
        for _ in range(rng.randrange(4, 16)):
            op = gen_request(rng, spec, asset, at, bad=0)
            op["good"] = 1
            if rng.random() < 0.75:
                op["url"] = twist(rng, op["url"], asset)
                op["good"] = 0
            if limit and rng.random() < 0.7:
                sts = at // 1_000_000 - rng.choice([0, 0, 100, 3599, 3600, 3601, -5, -6])
                odd = op["url"].count("/") < 2 or rng.random() < 0.4
                for value in [rng.choice(STS) if odd else sts] + ([rng.choice(STS)] if rng.random() < 0.1 else []):
                    op["url"] = op["url"].replace("/livesim/", "/livesim/sts_%s/" % value, 1)
                if odd:
                    op["good"] = 0
            op["at"] = at
            op["w"] = rng.randrange(nw)
            if rng.random() < 0.15:
                op["hdr"] = rng.choice(HEADS)
            if rng.random() < 0.1:
                op["host"] = rng.choice(HOSTS)
                op["good"] = op["good"] if op["host"] is None else 0
            if rng.random() < 0.1:
                op["method"] = rng.choice(["HEAD", "OPTIONS", "POST", "get", "PROPFIND", ""])
                op["good"] = op["good"] if op["method"] == "HEAD" else 0
            if rng.random() < 0.5:
                op["switch"] = switches(rng)
            if rng.random() < 0.04:
                op["restart"] = 1
            ops.append(op)
            at += rng.choice([0, 0, 0, 1, 1000, 999_999, 3_000_000])
        op = gen_request(rng, spec, asset, at, bad=0)
        op.update({"good": 1, "at": at + 100_000_000, "w": rng.randrange(nw)})
        ops.append(op)
        faults = []
        if rng.random() < 0.15:
            faults.append({"kind": rng.choice(["ENOENT", "EACCES", "EIO", "EMFILE", "EISDIR", "read_eio"]), "match": "/",
                           "skip": rng.randrange(0, 8), "count": rng.choice([1, 2, 5])})
        return {"asset": spec, "t0": ops[0]["at"], "workers": nw, "ops": ops, "faults": faults,
                "skews": gen_skews(rng, nw) if rng.random() < 0.2 else [], "sched": rng.randrange(1 << 30),
                "max_session": limit}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"t0": 0, "sched": 1, "max_session": scn.get("max_session", 0)}, asset_specs=[scn["asset"]])
        for f in scn.get("faults", []):
            w.vfs.faults.append(Fault(f))
        # Files that could be served if a request got out of the content
        for root in ROOTS:
            for path, data in a.files.items():
                if path.startswith(CONTENT + "/" + a.name + "/"):
                    w.vfs.put(root + path[len(CONTENT + "/" + a.name):], leak(path, data))
        before = {p: n.data for p, n in w.vfs.files.items()}
        w.vfs.oplog = []
        got = []
        tasks = []

        def launch(op, idx):
            wk = w.workers[op["w"] % len(w.workers)]

            def start():
                if op.get("restart"):
                    wk.restart()
                hdr = {"Range": op["hdr"]} if op.get("hdr") is not None else {}
                if "host" in op:
                    hdr["Host"] = op["host"]

                def fn():
                    r = w.serve(wk, op["url"], hdr, bool(op.get("https")), method=op.get("method", "GET"))
                    got.append((op, r))
                    return r
                w.nreq += 1
                tasks.append(w.sim.spawn("r%d" % idx, fn, wk, None, tuple(op.get("switch", ()))))
            w.sim.at(max(op["at"], w.sim.start_us), start)

        for i, op in enumerate(scn["ops"]):
            launch(op, i)
        w.sim.run()
        res.absorb(w)
        # -- the disk
        for op, path in w.vfs.oplog:
            if not path.startswith((CONF + "/", CONTENT + "/")):
                urls = [o["url"] for o in scn["ops"] if not o["good"]]
                res.bad("escaped", "%s of %s, outside of the content, by one of %s" % (op, path, shorten(urls)))
                return
            if op not in ("open", "read", "stat", "listdir"):
                res.bad("modified", "%s of %s" % (op, path))
                return
        for path in w.vfs.stray:
            if path.startswith("r:"):
                path = path[2:]
            res.bad("escaped", "access to %s by one of %s" % (path, shorten([o["url"] for o in scn["ops"]])))
            return
        if {p: n.data for p, n in w.vfs.files.items()} != before:
            res.bad("modified", "files of the server were changed")
            return
        if w.vfs.open_handles:
            res.bad("handle-leak", "%d file handles are still open after all requests" % w.vfs.open_handles)
            return
        lost = [t for t in tasks if t.result is None]
        if lost:
            res.bad("no-response", "%s: request was not answered: %s" % (lost[0].name, lost[0].exc))
            return
        n = [0, 0]
        for op, r in got:
            if r.hung and not op["good"] and ("timeline" in r.url or "periods" in r.url):
                res.count("long_list")      # A list of entries for a window of years: slow, but not judged
                continue
            if not wellformed(r, res):
                return
            what = "%s at clock %.6f" % (shorten([r.url]), r.readings[0])
            if r.status not in (200, 206, 302, 404, 410):
                res.bad("status", "%s: status %d" % (what, r.status))
                return
            if r.nstart != 1:
                res.bad("starts", "%s: %d responses were started" % (what, r.nstart))
                return
            cl = r.headers.get("content-length")
            if cl is not None and cl != [str(len(r.body))]:
                res.bad("length", "%s: Content-Length %s with %d bytes" % (what, cl, len(r.body)))
                return
            if cl is None and "chunkdur" not in r.url:
                res.bad("length", "%s: no Content-Length" % what)
                return
            if SECRET in r.body:
                res.bad("leaked", "%s: bytes from outside of the content" % what)
                return
            if r.status == 404 and (not r.body or r.headers.get("content-type") != ["text/plain"]):
                res.bad("unexplained", "%s: %r as %s" % (what, r.body[:80], r.headers.get("content-type")))
                return
            n[op["good"]] += 1
            res.count("odd_%d" % r.status if not op["good"] else "good")
            res.states.add((op["kind"], op["good"], r.status, r.body.split(b"URL=")[0][:40] if r.status == 404 else b""))
            if op["good"] and not r.faults and not scn.get("max_session"):
                rw.workers[0].restart()
                rw.sim.now_us = clock_us(r.readings[0])
                hdr = {"Range": op["hdr"]} if op.get("hdr") is not None else None
                q = rw.get(op["url"], headers=hdr, https=bool(op.get("https")))
                if q.hung or q.exc is not None:
                    res.bad("exception", "%s alone: %s %s" % (op["url"], q.exc, q.hung))
                    return
                if any(clock_us(x) != clock_us(r.readings[0]) for x in r.readings) and op["kind"] in ("mpd", "period"):
                    continue
                if (r.status, sorted(r.hlist), r.body) != (q.status, sorted(q.hlist), q.body):
                    res.bad("poisoned", "%s: status %d with %d bytes after odd requests, %d with %d bytes without" % (
                        what, r.status, len(r.body), q.status, len(q.body)))
                    return
        res.nontrivial = bool(n[0] and n[1])


def leak(path, data):
    "A file that is valid, but recognisable."
    if path.endswith(".mpd"):
        return data.replace(b"</MPD>", b"<!--" + SECRET + b"--><ProgramInformation><Title>" + SECRET + b"</Title></ProgramInformation></MPD>")
    if path.endswith((".mp4", ".m4s")):
        return data + (8 + len(SECRET)).to_bytes(4, "big") + b"free" + SECRET
    return data + SECRET


def shorten(urls):
    return [u if len(u) < 200 else u[:150] + "..." + u[-40:] for u in urls]


PROP = C18()
