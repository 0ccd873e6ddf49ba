"""C26: the stand-alone server serves over HTTP what the application answers."""
import re
import sys

from .. import content, net
from ..common import FRACS, BaseProp, make_world, pick_time, us
from ..urls import gen_request
from ..vfs import Fault
from ..world import CONF, CONTENT
from .c10 import clock_us

ARGV = [["-d", "{d}", "-c", "{c}"], ["-c", "{c}", "-d", "{d}"], ["--config_dir", "{d}", "--content_dir", "{c}"]]
GARBAGE = [b"", b"\r\n", b"GET\r\n\r\n", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\xff\xfe", b"GET / HTTP/x.y\r\n\r\n",
           b"FOO BAR BAZ QUX\r\n\r\n", b"GET /" + b"x" * 70000 + b" HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n" + b"A: b\r\n" * 150 + b"\r\n",
           b"GET / HTTP/1.1\r\n:::\r\n\r\n", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"\0\0\0\n\n", b"GET / HTTP/9.9\r\n\r\n"]
OWN = {"date", "server"}
SID = re.compile(r"sid_[0-9a-zA-Z]+")


def raw(op):
    "The bytes of a request."
    lines = ["%s %s HTTP/1.%d" % (op.get("method", "GET"), op["url"], op.get("v", 1))]
    if op.get("host") is not None:
        lines.append("%s: %s" % (["Host", "host", "HOST"][op.get("case", 0)], op["host"]))
    if op.get("range") is not None:
        lines.append("Range: " + op["range"])
    lines += op.get("more", [])
    return ("\r\n".join(lines) + "\r\n\r\n").encode("latin-1")


def parse(data):
    "A complete HTTP answer: (version, status, reason, [(name, value)], body)."
    head, sep, body = data.partition(b"\r\n\r\n")
    if not sep:
        raise ValueError("no end of headers in %r" % data[:200])
    first, *rest = head.decode("latin-1").split("\r\n")
    m = re.match(r"HTTP/(1\.[01]) (\d\d\d) (.*)\Z", first)
    if not m:
        raise ValueError("status line %r" % first)
    hdrs = []
    for line in rest:
        k, s, v = line.partition(":")
        if not s or not re.match(r"[A-Za-z0-9-]+\Z", k):
            raise ValueError("header line %r" % line)
        hdrs.append((k, v.strip()))
    return m.group(1), int(m.group(2)), m.group(3), hdrs, body


class C26(BaseProp):
    id = "C26"
    RUNS = {"quick": 3500, "thorough": 80000}
    SHRINK = ("ops", "faults", "crashes")
    SIMPLIFY = {"argv": 0, "listen": [], "max_session": 0}
    OPTIONAL = ("range", "more", "method", "v", "case", "split", "drain", "gone")
    RULE = ("one run = one stand-alone server process (main() with the library's HTTP server on a simulated listener) and 3-15 "
            "connections with requests of all kinds, as bytes that arrive in pieces, with and without Host and Range headers, read "
            "slowly or left half way, between garbage and connections that break off, with slow or failing disk, session limits, "
            "and kills and restarts of the process; each answer is compared with the one of the WSGI application at the same clock "
            "reading, pieces of chunked segments also in time; non-trivial = at least two answers were compared")
    STATE_MEASURE = "(request kind, method, version, Host, Range, way the connection ended, status)"
    REAL = ["main() and the whole WSGI application of dashlivesim, executed from /repo's sources",
            "Python standard library (argparse, wsgiref, http.server, socketserver, xml, configparser, urllib)"]
    STUB = ["TCP sockets and select (simulated listener and connections)", "wall clock and sleep (virtual time)",
            "file system (in-memory, fault injecting)", "stdout/stderr of the server (dropped)", "entropy source (seeded)"]

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=rng.random() < 0.6)
        a = content.build(spec)
        t0 = pick_time(rng)
        base = at = us(t0, rng.choice(FRACS))
        lim = rng.choice([0] * 5 + [2, 60])
        listen = rng.choice([[], [], [], ["--host", "127.0.0.1"], ["--port", "8080"], ["--host", "192.0.2.9", "--port", "80"]])
        ops = []
        for _ in range(rng.randrange(3, 16)):
            if rng.random() < 0.12:
                op = {"kind": "garbage", "bytes": rng.randrange(len(GARBAGE))}
                if rng.random() < 0.3:
                    op["reset"] = 1
            else:
                op = gen_request(rng, spec, a, at, bad=0.08)
                op.pop("https", None)
                op["url"] = re.sub(r"[^!-~]", "x", op["url"])
                if rng.random() < 0.6:
                    op["v"] = 1
                    op["host"] = rng.choice(["server.example:8059", "127.0.0.1:8059", "cdn.example", "[::1]:8059"])
                else:
                    op["v"] = 0
                    op["host"] = rng.choice([None, "server.example:8059", "h"])
                if rng.random() < 0.1:
                    op["case"] = rng.randrange(3)
                if rng.random() < 0.1:
                    op["method"] = rng.choice(["HEAD", "OPTIONS", "GET"])
                if rng.random() < 0.25:
                    op["range"] = rng.choice(["bytes=0-", "bytes=0-99", "bytes=-50", "bytes=10-5", "bytes=700-100000000", "x"])
                if rng.random() < 0.15:
                    op["more"] = rng.choice([["User-Agent: vlc", "Accept: */*"], ["Connection: keep-alive", "X-A: 1", "X-A: 2"],
                                             ["Origin: http://x", "Content-Length: 0"], ["Referer: /livesim/start_1/x/y.mpd"]])
                if lim and rng.random() < 0.8:
                    t = at // 1_000_000
                    op["url"] = op["url"].replace("/livesim/", "/livesim/sts_%d/" % max(0, t - rng.choice([0, 0, 1, lim, lim + 3])), 1)
            if rng.random() < 0.25:
                op["split"] = [[rng.randrange(1, 200), rng.choice([0, 1, 50_000, 1_200_000])] for _ in range(rng.choice([1, 3]))]
            if rng.random() < 0.15:
                op["drain"] = rng.choice([1000, 400_000, 3_000_000])
            if rng.random() < 0.12:
                op["gone"] = rng.choice([0, 1, 100, 700, 1500, 20_000])
            op["at"] = at
            ops.append(op)
            at += rng.choice([0, 0, 1, 200_000, 1_000_000, 3_700_000])
        crashes = sorted(base + rng.randrange(0, max(1, at - base) + 500_000) for _ in range(rng.choice([0, 0, 0, 1, 2])))
        faults = []
        if rng.random() < 0.2:
            faults.append({"kind": rng.choice(["slow", "slow", "EIO", "ENOENT"]), "match": rng.choice([".m4s", ".cfg", ".mpd", "init"]),
                           "op": "open", "arg": 300_000, "count": rng.choice([1, 2]), "skip": rng.randrange(0, 6)})
        return {"asset": spec, "t0": base, "ops": ops, "crashes": crashes, "faults": faults, "max_session": lim,
                "argv": rng.randrange(len(ARGV)), "listen": listen, "sched": rng.randrange(1 << 30)}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"asset": scn["asset"], "t0": 0, "max_session": scn.get("max_session", 0)})
        for f in scn["faults"]:
            w.vfs.faults.append(Fault(f))
        n = net.Net(w)
        conns = []
        for op in sorted(scn["ops"], key=lambda o: o["at"]):
            data = GARBAGE[op["bytes"] % len(GARBAGE)] if op["kind"] == "garbage" else raw(op)
            pieces, pos = [], 0
            for size, delay in op.get("split", []):
                pieces.append((delay if pos else 0, data[pos:pos + size]))
                pos += size
            pieces.append((op["split"][-1][1] if op.get("split") else 0, data[pos:]))
            c = net.Conn(max(op["at"], w.sim.start_us), pieces, op.get("gone"), op.get("drain", 0), bool(op.get("reset")))
            n.todo.append(c)
            conns.append((op, c))
            w.nreq += 1
        argv = [x.format(d=CONF, c=CONTENT) for x in ARGV[scn.get("argv", 0)]] + list(scn.get("listen", []))
        tasks = []

        def start():
            wk = w.workers[0]
            if tasks:
                wk.restart()

            def main():
                old = sys.argv
                sys.argv = ["mod_dashlivesim.py"] + argv
                try:
                    wk.mod.main()
                finally:
                    sys.argv = old
            tasks.append(w.sim.spawn("server", main, wk))

        def crash():
            if tasks and tasks[-1].state != "done":
                w.count("kill")
                for _, c in conns:
                    if c.accepted is not None and c.closed is None:
                        c.cut = True
                w.sim.kill(tasks[-1])
                w.sim.at(w.sim.now_us + 300_000, start)
        start()
        for t in scn["crashes"]:
            w.sim.at(max(t, w.sim.start_us + 1), crash)
        w.sim.run()
        for op, c in conns:
            for t, x in c.out:
                w.hist.update(b"%d|" % t + x)
            if c.left:
                w.count("client_disconnect")
            if op.get("drain"):
                w.count("slow_client")
        res.absorb(w)
        last = tasks[-1]
        if last.hung:
            res.bad("hang", "the server never got done with %s" % last.hung)
            return
        if not isinstance(last.exc, KeyboardInterrupt):
            res.bad("stopped", "the server stopped by itself: %s: %s (arguments %s)" % (type(last.exc).__name__, last.exc, argv))
            return
        lo = dict(zip(scn["listen"][::2], scn["listen"][1::2]))
        want = (lo.get("--host", "0.0.0.0"), int(lo.get("--port", 8059)))
        if n.addr != want:
            res.bad("address", "arguments %s: listens at %s" % (argv, n.addr))
            return
        compared = 0
        for op, c in conns:
            if c.refused or op["kind"] == "garbage":
                res.count("refused" if c.refused else "garbage")
                continue
            what = "%s %s (Host %s, connected %.6f)" % (op.get("method", "GET"), op["url"], op.get("host"), c.at / 1e6)
            if c.cut:
                res.count("cut_by_kill")
                continue
            if c.closed is None or c.accepted is None:
                res.bad("no-answer", "%s: not served" % what)
                return
            if not c.readings:
                if not c.left:
                    res.bad("no-answer", "%s: not handled: %r" % (what, c.data[:100]))
                    return
                continue
            if c.faults:
                res.count("hit_by_fault")
                continue
            hdr = {"Host": op.get("host"), "Range": op.get("range")}
            rw.workers[0].restart()
            rw.sim.now_us = clock_us(c.readings[0])
            q = self.alone(rw, op, hdr, want)
            if q.hung or q.exc is not None:
                res.bad("exception", "%s alone: %s %s" % (op["url"], q.exc, q.hung))
                return
            try:
                ver, status, reason, hdrs, body = parse(c.data)
            except ValueError as exc:
                if c.left:
                    res.count("left_early")
                    continue
                res.bad("http", "%s: %s" % (what, exc))
                return
            own = OWN | {"content-length"} if status >= 400 else OWN        # error texts may quote the address
            exp = sorted((k.lower(), SID.sub("sid", v)) for k, v in q.hlist if k.lower() not in own)
            got = sorted((k.lower(), SID.sub("sid", v)) for k, v in hdrs if k.lower() not in own)
            if (status, reason) != (q.status, q.reason) or got != exp:
                res.bad("head", "%s: %d %s with %s, the application says %d %s with %s" % (
                    what, status, reason, [x for x in got if x not in exp], q.status, q.reason, [x for x in exp if x not in got]))
                return
            x, y = SID.sub("sid", body.decode("latin-1")), SID.sub("sid", q.body.decode("latin-1"))
            if status >= 400:
                if not c.left and [v for k, v in hdrs if k.lower() == "content-length"] != [str(len(body))]:
                    res.bad("length", "%s: status %d, %d bytes with %s" % (what, status, len(body), hdrs))
                    return
                ok = True
            elif c.left:
                ok = y.startswith(x) or SID.search(q.body.decode("latin-1"))
            else:
                ok = x == y or op.get("method") == "HEAD" and not x
            if not ok:
                res.bad("body", "%s: status %d with %d bytes, the application gives %d" % (what, status, len(body), len(q.body)))
                return
            if not op.get("drain") and not c.left and len(q.chunks) > 1 and x:
                sent, due, head = [], [], len(c.data) - len(body)
                total = -head
                for t, piece in c.out:
                    total += len(piece)
                    if total > 0:
                        sent.append((total, t))
                total = 0
                for t, piece in q.chunks:
                    total += len(piece)
                    due.append((total, t))
                for size, t in due:
                    done = next(tt for n2, tt in sent if n2 >= size)
                    if abs(done - t) > 2000:
                        res.bad("pace", "%s: %d bytes sent at %.6f, the application gives them at %.6f" % (
                            what, size, done / 1e6, t / 1e6))
                        return
                res.count("paced")
            compared += 1
            res.count("compared")
            res.states.add((op["kind"], op.get("method", "GET"), op.get("v"), op.get("host"), op.get("range"), c.left, status))
        res.nontrivial = compared > 1

    @staticmethod
    def alone(rw, op, hdr, addr):
        "The answer of the application itself."
        wk = rw.workers[0]
        env0 = rw.environ

        def environ(url, headers=None, https=False, method="GET"):
            env = env0(url, headers, https, method)
            env.update(SERVER_NAME=net.FQDN, SERVER_PORT=str(addr[1]))
            return env
        rw.environ = environ
        try:
            t = rw.sim.spawn("alone", lambda: rw.serve(wk, op["url"], hdr, False, None, op.get("method", "GET")), wk)
            rw.sim.run()
        finally:
            del rw.environ
        if t.exc is not None:
            raise t.exc
        return t.result


PROP = C26()
