"""C13: session limits."""
import re
from fractions import Fraction as Fr

from .. import client, content, mpdref
from ..common import FRACS, BaseProp, gen_skews, gen_steps, make_world, pick_time, us, wellformed
from ..urls import gen_request
from .c10 import clock_us

LIMITS = [1, 2, 10, 60, 3600, 7200]
STRIP = re.compile(r"sts_\d+/sid_[0-9a-f]+/")


def start_of(url):
    for part in url.split("?")[0].split("/"):
        m = re.match(r"sts_(\d+)\Z", part)
        if m:
            return int(m.group(1))
    return None


class C13(BaseProp):
    id = "C13"
    RUNS = {"quick": 5500, "thorough": 100000}
    SHRINK = ("ops", "clients", "steps")
    SIMPLIFY = {"workers": 1, "skews": []}
    OPTIONAL = ("switch", "restart")
    RULE = ("one run = one asset and session limit, 1-3 workers with skewed and stepping clocks; single requests of every kind "
            "with starts around both limits, and clients that start without a session, follow the redirect late, play through "
            "the returned MPD (init, media, remote Periods), refresh until they are cut off and begin again, with lost replies, "
            "restarts and preemption; oracle: the limit rules at the clock reading of the request and a deployment without limit; "
            "non-trivial = a redirect was followed and an expiry was seen")
    STATE_MEASURE = "(request kind, verdict of the rules, side and distance of the nearest limit)"

    def gen(self, rng, tier):
        spec = content.gen_spec(rng, plain=True, subs=rng.random() < 0.2, image=rng.random() < 0.2)
        a = content.build(spec)
        t0 = pick_time(rng)
        lim = rng.choice(LIMITS)
        at = us(t0, rng.choice(FRACS))
        base = at
        nw = rng.choice([1, 1, 2, 3])
        ops = []
        for _ in range(rng.randrange(2, 9)):
            op = gen_request(rng, spec, a, at, bad=0.05)
            t = at // 1_000_000
            st = rng.choice([None, t, t, t - lim, t - lim, t - lim, t - lim - 1, t - lim + 1, t + 5, t + 5, t + 6, t + 4,
                             t + 1000, t - 2 * lim, 0])
            if st is not None and st >= 0:
                where = rng.choice([1, 1, 1, 2])
                ins = "sts_%d/" % st + ("sid_%08x/" % rng.randrange(1 << 32) if rng.random() < 0.9 else "")
                if where == 1 or op["url"].count("/") < 4:
                    op["url"] = op["url"].replace("/livesim/", "/livesim/" + ins, 1)
                else:
                    head, _, tail = op["url"][len("/livesim/"):].partition("/")
                    if "_" in head and head.split("_")[0] not in ("testpic", "tears"):
                        op["url"] = "/livesim/" + head + "/" + ins + tail
                    else:
                        op["url"] = "/livesim/" + ins + head + "/" + tail
            elif rng.random() < 0.1:
                op["url"] = op["url"].replace("/livesim/", rng.choice(["/livesim/sts_x/", "/livesim/sid_12/", "/livesim/sts_/"]), 1)
            op.update(at=at, w=rng.randrange(nw))
            if rng.random() < 0.3:
                op["switch"] = sorted(rng.randrange(1, 1200) for _ in range(3))
            if rng.random() < 0.05:
                op["restart"] = 1
            ops.append(op)
            at += rng.choice([0, 0, 1, 999_999, 1_000_000, 5_000_000])
        if rng.random() < 0.3:   # many at once, some refused for different reasons, in one worker
            who = rng.randrange(nw)
            for _ in range(rng.choice([2, 3, 6])):
                op = gen_request(rng, spec, a, at, bad=0)
                t = at // 1_000_000
                st = rng.choice([None, t, t - lim - 1, t - lim - 2, t + 100])
                if st is not None and st >= 0:
                    op["url"] = op["url"].replace("/livesim/", "/livesim/sts_%d/" % st, 1)
                op.update(at=at, w=who, switch=sorted(rng.randrange(1, 50) for _ in range(rng.choice([1, 2, 8]))))
                ops.append(op)
        clients = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            op = gen_request(rng, spec, a, base, bad=0)
            url = op["url"].split("?")[0]
            url = url[:url.index("/" + spec["name"] + "/")] + "/" + spec["name"] + "/" + a.mpd_name
            if rng.random() < 0.3:
                url += rng.choice(["?x=1", "?a=b&c=d%20e", "?u=http://z/y"])
            clients.append({"url": url, "https": int(rng.random() < 0.3), "at": base + rng.randrange(0, 3_000_000),
                            "late": rng.choice([0, 0, 300_000, 2_000_000, lim * 1_000_000]),
                            "poll": rng.choice([max(1, lim // 3), lim, lim // 2 + 1]) * 1_000_000 + rng.choice([0, 0, 1, 370_000]),
                            "rounds": rng.choice([3, 5, 8]), "loss": [rng.randrange(0, 12) for _ in range(rng.choice([0, 0, 2]))],
                            "seed": rng.randrange(1 << 30)})
        return {"asset": spec, "t0": base, "workers": nw, "ops": ops, "clients": clients, "max_session": lim,
                "skews": gen_skews(rng, nw) if rng.random() < 0.4 else [],
                "steps": gen_steps(rng, base, 20_000_000, rng.choice([1, 2])) if rng.random() < 0.25 else [],
                "sched": rng.randrange(1 << 30)}

    def run(self, scn, res):
        w, (a,) = make_world(scn)
        rw, _ = make_world({"asset": scn["asset"], "t0": 0})
        nw = len(w.workers)
        lim = scn["max_session"]
        got = []
        for op in scn["ops"]:
            def start(op=op):
                if op.get("restart"):
                    w.workers[op["w"] % nw].restart()
                w.spawn_request(op["url"], worker=op["w"] % nw, https=bool(op.get("https")), switch=tuple(op.get("switch", ())),
                                cb=lambda r: got.append((op["kind"], r, bool(op.get("https")))))
            w.sim.at(max(op["at"], w.sim.start_us), start)
        follows = []
        tasks = [w.sim.spawn("client%d" % i, lambda c=c: self.play(w, c, got, follows), None, max(c["at"], w.sim.start_us))
                 for i, c in enumerate(scn["clients"])]
        w.sim.run()
        res.absorb(w)
        for t in tasks:
            if t.exc is not None:
                res.bad("client", "client program: %s: %s" % (type(t.exc).__name__, t.exc))
                return
        if len([1 for k, _, _ in got if k != "client"]) < len(scn["ops"]):
            res.bad("no-response", "a request was not answered")
            return
        ids = []
        seen = set()
        for kind, r, https in got:
            if not wellformed(r, res):
                return
            if not r.readings:
                res.bad("no-clock", "%s: no clock reading" % r.url)
                return
            v = self.judge(kind, r, https, lim, rw, res, ids)
            if v is None:
                return
            seen.add(v)
        if len(ids) >= 3 and len(set(ids)) == 1:
            res.bad("session-id", "%d redirects, all with session id %s" % (len(ids), ids[0]))
            return
        for orig, url, r in follows:
            if r.status == 200:
                res.count("redirect_followed")
        res.nontrivial = bool("expired" in seen and "redirect" in seen)

    def judge(self, kind, r, https, lim, rw, res, ids):
        t = Fr(clock_us(r.readings[0]), 1_000_000)
        path = r.url.split("?")[0]
        st = start_of(r.url)
        is_mpd = path.endswith(".mpd")
        what = "%s at %.6f (limit %d s)" % (r.url, r.readings[0], lim)
        if st is None:
            verdict = "redirect" if is_mpd else "no-start"
        elif t > st + lim:
            verdict = "expired"
        elif st > t + 5:
            verdict = "future"
        else:
            verdict = "pass"
        near = min(abs(t - st - lim), abs(t + 5 - st)) if st is not None else None
        res.states.add((kind, verdict, near is not None and near < 2 and (t - st - lim > 0, near == 0)))
        res.count(verdict)
        if verdict == "redirect":
            if r.status != 302:
                res.bad("no-redirect", "%s: status %s instead of a redirect" % (what, r.status))
                return None
            loc = (r.headers.get("location") or [""])[0]
            m = re.match(r"(https?)://([^/]+)(/[^/]+)/sts_(\d+)/sid_([0-9a-zA-Z]+)(/.*)\Z", loc, re.S)
            if not m:
                res.bad("location", "%s: Location %r" % (what, loc))
                return None
            if m.group(1) != ("https" if https else "http") or m.group(2) != rw.HOST or \
                    m.group(3) + m.group(6) != r.url:
                res.bad("location", "%s: redirected to %s, which is another resource" % (what, loc))
                return None
            if int(m.group(4)) != int(t):
                res.bad("location-start", "%s: session start %s in %s" % (what, m.group(4), loc))
                return None
            if r.body:
                res.bad("location", "%s: redirect with a body" % what)
                return None
            ids.append(m.group(5))
            return verdict
        if verdict == "expired":
            if r.status != 410:
                res.bad("not-expired", "%s: status %s, %.6f s after the start" % (what, r.status, t - st))
                return None
            return verdict
        if verdict in ("no-start", "future"):
            if r.status != 404:
                res.bad(verdict, "%s: status %s" % (what, r.status))
                return None
            return verdict
        # must be served exactly as without a limit
        rw.sim.now_us = clock_us(r.readings[0])
        plain = re.sub(r"/(sts_\d+|sid_[0-9a-f]+)(?=/)", "", path) + r.url[len(path):]
        q = rw.get(plain, https=https)
        if q.hung or q.exc is not None:
            res.bad("exception", "%s without limit: %s %s" % (plain, q.exc, q.hung))
            return None
        if r.status != q.status:
            res.bad("refused" if r.status != 200 else "served", "%s: status %s (%r), without limit %s" % (
                what, r.status, r.body[:60], q.status))
            return None
        x, y = r.body, q.body
        if is_mpd or path.endswith(".period"):
            x = re.sub(rb"(sts_\d+|sid_[0-9a-f]+)/", b"", x)
        if r.status == 200 and x != y:
            i = next((k for k, (p, q2) in enumerate(zip(x, y)) if p != q2), min(len(x), len(y)))
            res.bad("changed", "%s: differs from the answer without limit at byte %d: %r / %r" % (
                what, i, x[max(0, i - 30):i + 40], y[max(0, i - 30):i + 40]))
            return None
        return verdict

    def play(self, w, c, got, follows):
        "A client that starts without a session."
        from ..common import rng_of
        rng = rng_of("c13", c["seed"])
        nw = len(w.workers)
        https = bool(c["https"])
        n = 0

        def fetch(url):
            nonlocal n
            wk = w.workers[rng.randrange(nw)]
            task = w.sim.spawn("x", lambda: w.serve(wk, url, None, https), wk)
            me = {}
            task.done_cb = lambda t: w.sim.wake(me["t"])
            me["t"] = w.sim.cur
            w.sim.wait()
            w.nreq += 1
            n += 1
            if task.exc is not None:
                raise task.exc
            got.append(("client", task.result, https))
            if n in c["loss"]:
                w.count("reply_lost")
                return None
            return task.result

        url = None
        for _ in range(c["rounds"]):
            if url is None:
                r = fetch(c["url"])
                if r is None or r.status != 302:
                    w.sim.sleep_us(500_000)
                    continue
                url = client.path_of(r.headers["location"][0])
                w.sim.sleep_us(c["late"])
            r = fetch(url)
            if r is None:
                continue
            follows.append((c["url"], url, r))
            if r.status == 410:
                url = None
                continue
            if r.status != 200:
                w.sim.sleep_us(1_000_000)
                continue
            m = mpdref.MPD(r.body)
            for p in m.periods:
                for s in p.sets[:2]:
                    if s.t is None:
                        continue
                    for b, _ in client.bases(m, url)[:1]:
                        if s.t.init and s.reps:
                            fetch(b + client.fill(s.t.init, s.reps[0]))
            for ref in re.findall(rb'xlink:href="([^"]+)"', r.body)[:2]:
                ref = ref.decode().replace("&amp;", "&")
                if w.HOST in ref:
                    fetch(client.path_of(ref))
            w.sim.sleep_us(c["poll"])


PROP = C13()
