"""What a DASH client derives from an MPD (written from the DASH rules, independent of the server)."""
import re
from fractions import Fraction as Fr

from . import mpdref


def path_of(url):
    "URL without scheme and host."
    return re.sub(r"^[a-z]+://[^/]*", "", url)


def bases(mpd, doc_url):
    "Absolute paths of the BaseURLs an MPD offers (the directory of the document when there is none)."
    if not mpd.base:
        return [(path_of(doc_url).rsplit("/", 1)[0] + "/", Fr(0))]
    return [(path_of(b), mpdref.baseurl_ato(a)) for b, a, _ in mpd.base]


def fill(tmpl, rep_id, number=None, time=None):
    out = tmpl.replace("$RepresentationID$", rep_id)
    if "$Number$" in out:
        if number is None:
            raise mpdref.Bad("number address without number: %s" % tmpl)
        out = out.replace("$Number$", "%d" % number)
    if "$Time$" in out:
        if time is None:
            raise mpdref.Bad("time address without time: %s" % tmpl)
        out = out.replace("$Time$", "%d" % time)
    if "$" in out:
        raise mpdref.Bad("template %r cannot be expanded" % tmpl)
    return out


class Item:
    "One addressable segment of one AdaptationSet: media time and duration in ticks."
    __slots__ = ("period", "set", "number", "time", "dur", "start", "end", "lead")

    def key(self):
        return (self.period, self.number, self.time)


def ato_of(base_ato, t):
    "Total availabilityTimeOffset; None = infinite."
    if base_ato is None:
        return None
    a = mpdref.baseurl_ato(t.ato)
    return None if a is None else base_ato + a


def items(mpd, pi, aset, now, base_ato=Fr(0), tail=None):
    """Segments of aset in period pi that the MPD declares available at client time now.
    tail: at most so many of the newest ones (number templates can be unbounded backwards)."""
    p = mpd.periods[pi]
    t = aset.t
    out = []
    ps = p.start if p.start is not None else Fr(0)
    pe = mpd.period_end(pi)
    pto = t.pto if t.pto else p.base_pto * t.timescale
    if t.timeline is not None:
        for k, (tt, d) in enumerate(t.timeline):
            it = Item()
            it.period, it.set, it.number, it.time, it.dur = pi, aset, t.start + k, tt, d
            it.start = ps + Fr(tt - pto, t.timescale)
            it.end = it.start + Fr(d, t.timescale)
            out.append(it)
        return out
    d = Fr(t.duration, t.timescale)
    ato = ato_of(base_ato, t)
    rel = Fr(now) - (mpd.ast or 0) - ps
    if mpd.type == "static":
        last = None
    elif ato is None:
        last = int(rel // d) + 3
    else:
        last = int((rel + ato) // d) - 1
    if pe is not None:
        lim = -(-(pe - ps) // d) - 1
        last = int(lim) if last is None else min(last, int(lim))
    if last is None:
        raise mpdref.Bad("static MPD without an end")
    first = 0
    if mpd.tsbd is not None and mpd.type == "dynamic":
        first = max(0, int(-((mpd.tsbd - rel) // d)) - 1 if rel > mpd.tsbd else 0)
        while first * d + d < rel - mpd.tsbd:
            first += 1
    if tail is not None:
        first = max(first, last - tail + 1)
    for k in range(first, last + 1):
        it = Item()
        it.period, it.set, it.number = pi, aset, t.start + k
        it.time = pto + k * t.duration
        it.dur = t.duration
        it.start, it.end = ps + k * d, ps + (k + 1) * d
        out.append(it)
    return out


def url_for(base, aset, rep_id, it):
    return base + fill(aset.t.media, rep_id, it.number, it.time)
