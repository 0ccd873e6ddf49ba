"""Pieces shared by the property checks."""
import random

from . import content, mp4ref
from .world import World

REAL_SERVER = ["dashlivesim WSGI application and everything it calls, executed from /repo's sources",
               "Python standard library (xml, configparser, urllib)"]
STUB_SERVER = ["wall clock and sleep (virtual time)", "file system (in-memory, fault injecting)",
               "HTTP server and network (WSGI gateway driven by simulated clients)",
               "stdout/stderr of the server (dropped)", "entropy source (seeded)"]
ASSUME = ["assets are synthetic single-fragment segments with integer segment durations",
          "time.time/sleep, open/os file calls and random/urandom are the only sources of nondeterminism of the server "
          "(each is behind a seam)"]


class BaseProp:
    SHRINK = ("ops",)
    SIMPLIFY = {}
    OPTIONAL = ()
    REAL = REAL_SERVER
    STUB = STUB_SERVER
    ASSUMPTIONS = ASSUME
    RULE = ""


EPOCHS = [1_700_000_000, 1_784_000_000, 1_600_000_003, 4_200_000_000, 86_400 * 3, 1_767_225_590, 5_000]


def pick_time(rng):
    "A base instant: mostly now-like, sometimes near interesting values."
    if rng.random() < 0.6:
        return rng.randrange(1_650_000_000, 1_900_000_000)
    b = rng.choice(EPOCHS)
    return b + rng.randrange(0, 4000)


FRACS = [0, 0, 0, 1, 500_000, 999_999, 250_000, 999_000, 1_000, 125_000]


def us(t, frac=0):
    return int(t) * 1_000_000 + int(frac)


def make_world(scn, asset_specs=None, **kw):
    "World from the generic scenario fields: asset(s), workers, skews, clock steps."
    w = World(sched_seed=scn.get("sched", 0), policy=scn.get("policy", "random"),
              start=scn.get("t0", 1_700_000_000_000_000) / 1e6, nworkers=scn.get("workers", 1),
              skews=scn.get("skews", []), max_session=scn.get("max_session", 0), **kw)
    w.sim.now_us = w.sim.start_us = scn.get("t0", w.sim.now_us)
    assets = [content.build(s) for s in (asset_specs or [scn["asset"]])]
    for a in assets:
        w.install_asset(a)
    for st in scn.get("steps", []):
        wk = w.workers[st["w"] % len(w.workers)]
        prev = wk.skew[-1][1]
        wk.skew.append((st["at"], prev + st["by"]))
        w.count("clock_step")
    if any(scn.get("skews", [])):
        w.count("clock_skew", sum(1 for s in scn["skews"] if s))
    return w, assets


def gen_skews(rng, n):
    "Clock offsets (us) of the workers."
    out = []
    for _ in range(n):
        out.append(rng.choice([0, 0, 0, rng.randrange(-3_000_000, 3_000_000), rng.choice([-1, 1]) * 7_250_000]))
    return out


def gen_steps(rng, t0, span, n):
    "Clock steps (NTP corrections) during the run."
    return [{"w": rng.randrange(4), "at": t0 + rng.randrange(0, max(1, span)),
             "by": rng.choice([-1, 1]) * rng.choice([1_000, 250_000, 1_000_000, 2_500_000, 30_000_000])}
            for _ in range(n)]


def ctype(r):
    return (r.headers.get("content-type") or [""])[0]


def wellformed(r, res, tag=""):
    "Framing every complete non-chunked response must satisfy; returns True when usable."
    if r.hung:
        res.bad("hang", "%s never finished (step budget exhausted in %s)" % (r.url, r.hung))
        return False
    if r.exc is not None:
        res.bad("exception", "%s: exception left the application: %s: %s" % (r.url, type(r.exc).__name__, r.exc))
        return False
    if r.errors:
        res.bad("wsgi", "%s: %s" % (r.url, r.errors[0]))
        return False
    if r.status is None:
        res.bad("no-response", "%s: no response was started" % r.url)
        return False
    if r.complete and not r.killed:
        n = r.headers.get("content-length")
        if n is None:
            if not (r.status == 200 and "chunkdur" in r.url):
                res.bad("no-length", "%s: status %s without Content-Length" % (r.url, r.status))
                return False
        elif n != [str(len(r.body))]:
            res.bad("length", "%s: status %s with Content-Length %s and a body of %d bytes" % (r.url, r.status, n, len(r.body)))
            return False
    return True


def decode(asset_rep, body, expect_frags=None):
    "Parse a media segment body; returns (boxes, frags, spare mdat bytes)."
    trex = mp4ref.Trex(asset_rep.init)
    boxes = mp4ref.parse(body)
    frags, spare = mp4ref.fragments(boxes, body, trex)
    return boxes, frags, spare


def rng_of(*parts):
    return random.Random("/".join(str(p) for p in parts))
