"""Executable reference model of a live session, written from the documentation, exact arithmetic."""
from fractions import Fraction as Fr

SAFE = Fr(3, 1_000_000)   # sub-microsecond float noise at window edges is not judged


class Session:
    """What a URL means.  opts: list of [key, value] in URL order."""

    def __init__(self, asset, opts, now_for_rel=None):
        self.a = asset
        self.opts = opts
        o = {}
        for k, v in opts:
            o[k] = v
        self.o = o
        D = asset.D
        self.D = D
        self.ast = 0
        start = o.get("start", o.get("ast"))
        self.raw_start = int(start) if start is not None else None
        if start is not None:
            self.ast = int(start) // D * D
        self.durs = [int(v) for k, v in opts if k == "dur"] if start is not None else []
        self.stop = None
        if "stop" in o and start is not None:
            self.stop = -(-int(o["stop"]) // D) * D
        self.ato = Fr(0)
        self.ato_inf = False
        if "ato" in o:
            v = str(o["ato"])
            if v == "inf":
                self.ato_inf = True
            else:
                try:
                    self.ato = max(Fr(0), Fr(float(v)))
                except ValueError:
                    pass
        self.tsbd = int(o["tsbd"]) if "tsbd" in o else asset.tsbd
        if self.stop is not None:
            self.tsbd = self.stop - self.ast
        self.init_off = int(o.get("init", 0))
        self.toff = int(o["timeoffset"]) if "timeoffset" in o else None
        self.pto = self.ast - self.toff if self.toff is not None else 0
        snr = int(o.get("snr", 0))
        self.snr_default = snr == -1
        base = 1 if snr == -1 else snr
        self.start_nr = base + (self.pto // D if self.toff is not None else 0)

    # -- URLs
    @property
    def prefix(self):
        return "/livesim/" + "".join("%s_%s/" % (k, v) for k, v in self.opts) + self.a.name + "/"

    def mpd_url(self):
        return self.prefix + self.a.mpd_name

    def seg_url(self, rep, nr):
        return self.prefix + "%s/%d.%s" % (rep.path, nr, "jpg" if rep.type == "image" else "m4s")

    def init_url(self, rep):
        return self.prefix + "%s/init.mp4" % rep.path

    # -- media timeline
    def index(self, nr):
        "Index into the endless media timeline (0 = first VoD segment of loop 0)."
        return nr - self.start_nr + self.pto // self.D

    def seg_ast(self, nr):
        return self.ast + (nr - self.start_nr + 1) * self.D

    def end_nr(self):
        "First number after the session, or None."
        ends = []
        if self.durs:
            end = (self.raw_start + sum(self.durs)) // self.D * self.D
            ends.append(self.start_nr + (end - self.ast) // self.D)
        if self.stop is not None:
            ends.append(self.start_nr + (self.stop - self.ast) // self.D)
        return min(ends) if ends else None

    def aet(self, now):
        "Announced availability end time at integer second now (durations only)."
        if not self.durs:
            return None, None
        mup = Fr(int(self.o["mup"])) if "mup" in self.o else 10
        tot, aets = 0, []
        for d in self.durs:
            tot += d
            aets.append(((self.raw_start + tot) // self.D * self.D, tot))
        for aet, dur in aets:
            if now <= aet - 2 * mup:
                return aet, dur
        return aets[-1]

    def announced(self, now):
        "End of the announced presentation relative to AST, or None."
        e = None
        if self.durs:
            e = self.aet(now)[0] - self.ast
        if self.stop is not None:
            e = self.stop - self.ast
        return e

    def window(self, nr, t):
        """State of segment nr for exact clock reading t: one of
        'ok', 'before-start', 'before-first', 'beyond', 'early', 'late', 'after-end', or None if too close to call."""
        t = Fr(t)
        edge = []
        first = Fr(self.ast) if self.ato_inf else self.ast + self.D - self.ato
        edge.append(first)
        if nr >= self.start_nr and self.end_nr() is not None and nr >= self.end_nr() and False:
            return "beyond"
        lo = hi = None
        if not self.ato_inf:
            lo = self.seg_ast(nr) - self.ato
            edge.append(lo)
            if self.stop is None:
                hi = self.seg_ast(nr) + self.D + self.tsbd
                edge.append(hi)
        for e in edge:
            if abs(t - e) < SAFE and not (exact(e) and exact(t)):
                return None
        if t < first:
            return "before-start"
        if self.durs:
            aet, _ = self.aet(int(t))
            if int(t) > aet + 60:
                return "after-end"
        if nr < self.start_nr:
            return "before-first"
        if self.end_nr() is not None and nr >= self.end_nr():
            return "beyond"
        if lo is not None and t < lo:
            return "early"
        if hi is not None and t > hi:
            return "late"
        return "ok"

    def init_window(self, t):
        return int(Fr(t)) >= self.ast - self.init_off


class Modulo(Session):
    "The session that modulo_N describes at clock reading t."

    def __init__(self, asset, opts, t):
        super().__init__(asset, [o for o in opts if o[0] != "modulo"])
        self.opts = opts
        n = int(dict(opts)["modulo"])
        self.T = T = 60 * n
        now = int(Fr(t))
        base, rel = divmod(now, T)
        tenths = Fr(rel * 10, T)
        self.phase = 0 if tenths < 1 else 1 if tenths < 3 else 2 if tenths < 5 else 3 if tenths < 9 else 4
        self.ast = base * T + (T if self.phase == 4 else 0)
        self.dur = (12 * n, 24 * n, 36 * n, 48 * n, 12 * n)[self.phase]
        self.mup = 3 * n
        self.end = self.ast + self.dur + self.mup
        self.pto = self.ast - self.toff if self.toff is not None else 0
        base_nr = 1 if self.snr_default else int(self.o.get("snr", 0))
        self.start_nr = base_nr + (self.pto // self.D if self.toff is not None else 0)

    def end_nr(self):
        return self.start_nr + self.dur // self.D

    def announced(self, now):
        return self.dur

    def aet(self, now):
        return self.end, self.dur

    def window(self, nr, t):
        t = Fr(t)
        first = Fr(self.ast) if self.ato_inf else self.ast + self.D - self.ato
        lo = self.seg_ast(nr) - self.ato
        hi = self.seg_ast(nr) + self.D + self.tsbd
        for e in (first, lo, hi):
            if abs(t - e) < SAFE and not (exact(e) and exact(t)):
                return None
        if t < first:
            return "before-start"
        if int(t) > self.end + 60:
            return "after-end"
        if nr < self.start_nr:
            return "before-first"
        if nr >= self.end_nr():
            return "beyond"
        if not self.ato_inf and t < lo:
            return "early"
        if not self.ato_inf and t > hi:
            return "late"
        return "ok"


def exact(x):
    x = Fr(x)
    return (x * 64).denominator == 1


WORDS = {"before-start": ("early", "before"), "before-first": ("before first",), "early": ("early",),
         "late": ("late",), "beyond": ("beyond", "last"), "after-end": ("late",)}
