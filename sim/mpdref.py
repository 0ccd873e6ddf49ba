"""Independent, strict MPD reader used by the clients and oracles.  Anything malformed raises Bad."""
import calendar
import re
import time as _time  # only for strptime (pure)
import xml.etree.ElementTree as ET
from fractions import Fraction as Fr

NS = "{urn:mpeg:dash:schema:mpd:2011}"
XL = "{http://www.w3.org/1999/xlink}"


class Bad(Exception):
    pass


_DUR = re.compile(r"^P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?)S)?)?$")
_TS = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?Z$")


def duration(s):
    "xs:duration -> seconds (Fraction).  Strict: at least one component, a T needs a time component."
    m = _DUR.match(s)
    if not m or s in ("P", "PT") or (m.group(4) is not None and m.group(4) == "T"):
        raise Bad("invalid xs:duration %r" % s)
    y, mo, d, _, h, mi, sec = m.groups()
    if not any((y, mo, d, h, mi, sec)):
        raise Bad("invalid xs:duration %r" % s)
    return (int(y or 0) * 365 + int(mo or 0) * 30 + int(d or 0)) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 \
        + Fr(sec or 0)


def timestamp(s):
    "xs:dateTime in UTC -> epoch seconds."
    m = _TS.match(s)
    if not m:
        raise Bad("invalid xs:dateTime %r" % s)
    y, mo, d, h, mi, se = map(int, m.groups()[:6])
    if not (1 <= mo <= 12 and 1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and se < 60):
        raise Bad("invalid xs:dateTime %r" % s)
    return calendar.timegm((y, mo, d, h, mi, se)) + (Fr(m.group(7)) / 10 ** len(m.group(7)) if m.group(7) else 0)


def uint(s, what):
    if s is None:
        return None
    if not re.match(r"^\d+$", s):
        raise Bad("%s is %r, not an unsigned integer" % (what, s))
    return int(s)


class Template:
    pass


class ASet:
    pass


class Period:
    pass


ORDER = ["ProgramInformation", "BaseURL", "Location", "PatchLocation", "ServiceDescription",
         "InitializationSet", "InitializationGroup", "InitializationPresentation", "ContentProtection", "Period",
         "Metrics", "EssentialProperty", "SupplementalProperty", "UTCTiming", "LeapSecondInformation"]
PORDER = ["BaseURL", "SegmentBase", "SegmentList", "SegmentTemplate", "AssetIdentifier", "EventStream",
          "ServiceDescription", "ContentProtection", "AdaptationSet", "Subset", "SupplementalProperty"]


def local(tag):
    if not tag.startswith(NS):
        raise Bad("element %s outside the DASH namespace" % tag)
    return tag[len(NS):]


def parse_template(e):
    t = Template()
    t.init = e.get("initialization")
    t.media = e.get("media")
    if not t.media:
        raise Bad("SegmentTemplate without media")
    t.timescale = uint(e.get("timescale"), "timescale") or 1
    t.duration = uint(e.get("duration"), "duration")
    t.start_attr = uint(e.get("startNumber"), "startNumber")
    t.start = 1 if t.start_attr is None else t.start_attr
    t.pto = uint(e.get("presentationTimeOffset"), "presentationTimeOffset") or 0
    t.ato = e.get("availabilityTimeOffset")
    t.atc = e.get("availabilityTimeComplete")
    t.timeline = None
    tl = e.findall(NS + "SegmentTimeline")
    if len(tl) > 1:
        raise Bad("%d SegmentTimelines" % len(tl))
    if tl:
        t.timeline = []
        nxt = None
        for s in tl[0]:
            if local(s.tag) != "S":
                raise Bad("%s in SegmentTimeline" % s.tag)
            tt = uint(s.get("t"), "S@t")
            d = uint(s.get("d"), "S@d")
            r = s.get("r", "0")
            if not re.match(r"^-?\d+$", r) or int(r) < 0:
                raise Bad("S@r is %r" % r)
            if not d:
                raise Bad("S@d is %r" % s.get("d"))
            if tt is None:
                tt = nxt
            if tt is None:
                raise Bad("first S without t")
            if nxt is not None and tt != nxt:
                raise Bad("S@t %d does not continue at %d" % (tt, nxt))
            for _ in range(int(r) + 1):
                t.timeline.append((tt, d))
                tt += d
            nxt = tt
    if (t.timeline is None) == (t.duration is None):
        raise Bad("SegmentTemplate needs exactly one of duration and SegmentTimeline")
    return t


def parse_period(pe):
    p = Period()
    p.elem = pe
    p.id = pe.get("id")
    p.href = pe.get(XL + "href")
    p.start = duration(pe.get("start")) if pe.get("start") is not None else None
    p.duration = duration(pe.get("duration")) if pe.get("duration") is not None else None
    p.base_pto = 0
    p.asset_ids = len(pe.findall(NS + "AssetIdentifier"))
    sb = pe.findall(NS + "SegmentBase")
    if len(sb) > 1:
        raise Bad("%d SegmentBase" % len(sb))
    if sb:
        p.base_pto = uint(sb[0].get("presentationTimeOffset"), "SegmentBase@presentationTimeOffset") or 0
    p.segbase = len(sb)
    p.events = []
    for ev in pe.findall(NS + "EventStream"):
        p.events.append((ev.get("schemeIdUri"), ev.get("value"),
                         [e.get("messageData") for e in ev.findall(NS + "Event")]))
    p.sets = []
    for ae in pe.findall(NS + "AdaptationSet"):
        a = ASet()
        a.elem = ae
        a.type = ae.get("contentType")
        a.mime = ae.get("mimeType")
        ts = ae.findall(NS + "SegmentTemplate")
        if len(ts) != 1:
            raise Bad("%d SegmentTemplates in AdaptationSet" % len(ts))
        a.t = parse_template(ts[0])
        a.inband = [(x.get("schemeIdUri"), x.get("value")) for x in ae.findall(NS + "InbandEventStream")]
        a.suppl = [(x.get("schemeIdUri"), x.get("value")) for x in ae.findall(NS + "SupplementalProperty")]
        a.prt = len(ae.findall(NS + "ProducerReferenceTime"))
        a.reps = [r.get("id") for r in ae.findall(NS + "Representation")]
        if not a.reps or len(set(a.reps)) != len(a.reps):
            raise Bad("representation ids %s" % a.reps)
        p.sets.append(a)
    return p


class MPD:
    def __init__(self, data, strict_order=True):
        if isinstance(data, bytes):
            data = data.decode("utf-8")
        if not data.startswith("<?xml"):
            raise Bad("no XML declaration: %r" % data[:60])
        try:
            root = ET.fromstring(data.encode("utf-8"))
        except ET.ParseError as exc:
            raise Bad("not well-formed XML: %s" % exc)
        if root.tag != NS + "MPD":
            raise Bad("root is %s" % root.tag)
        self.root = root
        g = root.get
        self.type = g("type", "static")
        if self.type not in ("static", "dynamic"):
            raise Bad("MPD@type %r" % self.type)
        self.profiles = (g("profiles") or "").split(",")

        def ts(k):
            return timestamp(g(k)) if g(k) is not None else None

        def du(k):
            return duration(g(k)) if g(k) is not None else None
        self.ast = ts("availabilityStartTime")
        self.aet = ts("availabilityEndTime")
        self.publish = ts("publishTime")
        self.mup = du("minimumUpdatePeriod")
        self.mup_raw = g("minimumUpdatePeriod")
        self.tsbd = du("timeShiftBufferDepth")
        self.dur = du("mediaPresentationDuration")
        self.maxseg = du("maxSegmentDuration")
        self.spd = du("suggestedPresentationDelay")
        self.minbuf = du("minBufferTime")
        if self.type == "dynamic" and (self.ast is None or self.publish is None):
            raise Bad("dynamic MPD without availabilityStartTime/publishTime")
        order = []
        self.base = []
        self.location = []
        self.periods = []
        self.utc = []
        self.names = []
        self.sd = 0
        for ch in root:
            nm = local(ch.tag)
            self.names.append(nm)
            if nm not in ORDER:
                raise Bad("unexpected element %s" % nm)
            order.append(ORDER.index(nm))
            if nm == "BaseURL":
                self.base.append(((ch.text or "").strip(), ch.get("availabilityTimeOffset"),
                                  ch.get("availabilityTimeComplete")))
            elif nm == "Location":
                self.location.append((ch.text or "").strip())
            elif nm == "Period":
                self.periods.append(parse_period(ch))
            elif nm == "UTCTiming":
                self.utc.append((ch.get("schemeIdUri"), ch.get("value")))
            elif nm == "ServiceDescription":
                self.sd += 1
        if strict_order and order != sorted(order):
            raise Bad("children of MPD out of order: %s" % self.names)
        if not self.periods:
            raise Bad("no Period")

    def period_end(self, i):
        "Media end of period i relative to AST, or None when open."
        p = self.periods[i]
        if p.duration is not None:
            e = p.start + p.duration
            return min(e, self.dur) if self.dur is not None else e
        if i + 1 < len(self.periods) and self.periods[i + 1].start is not None:
            return self.periods[i + 1].start
        if self.dur is not None:
            return self.dur
        return None


def baseurl_ato(text):
    if text is None:
        return Fr(0)
    if text == "INF":
        return None
    return Fr(text)


assert _time
