"""Synthetic VoD assets with attributable samples, and the files a server needs to serve them."""
import datetime
from fractions import Fraction
import functools
import json
import random
import re
import struct

from .world import CONF, CONTENT


def u32(v):
    return struct.pack(">I", v)


def u64(v):
    return struct.pack(">Q", v)


def box(typ, *parts):
    body = b"".join(parts)
    return u32(8 + len(body)) + typ + body


def full(typ, ver, flags, *parts):
    return box(typ, bytes([ver]) + flags.to_bytes(3, "big"), *parts)


class Sample:
    __slots__ = ("data", "dur", "flags", "cto")

    def __init__(self, data, dur, flags, cto):
        self.data, self.dur, self.flags, self.cto = data, dur, flags, cto


class Seg:
    __slots__ = ("nr", "t", "dur", "samples", "raw", "ttml")


class Rep:
    def __init__(self, spec, asset):
        self.spec = spec
        self.asset = asset
        self.id = spec["id"]
        self.type = spec["type"]
        self.ts = spec["ts"]
        self.dir = spec.get("dir", "")
        self.path = self.dir + self.id
        self.segs = []
        if self.type == "image":
            for k in range(asset.L):
                s = Seg()
                s.nr = asset.first + k
                s.raw = b"\xff\xd8\xff\xe0" + ("jpg|%s|%s|%d|" % (asset.name, self.id, s.nr)).encode() \
                    + _fill("%s/%s/%d" % (asset.name, self.id, s.nr), 40) + b"\xff\xd9"
                s.t, s.dur, s.samples, s.ttml = k * asset.D * self.ts, asset.D * self.ts, [], None
                self.segs.append(s)
            self.init = b""
            return
        self.bounds = self._bounds()
        for k in range(asset.L):
            self.segs.append(self._seg(k))
        self.init = self._init()

    def _bounds(self):
        a, sp = self.asset, self.spec
        per = a.D * self.ts
        if self.type == "subtitles":
            return [k * per for k in range(a.L + 1)]
        f = sp["frame"]
        total = a.L * per
        assert total % f == 0, (total, f)
        if sp.get("cut") == "exact":
            assert per % f == 0
        out = []
        for k in range(a.L + 1):
            x = k * per
            if sp.get("cut") == "ceil":
                q = -(-x // f)
            elif sp.get("cut") == "round":
                q = (2 * x + f) // (2 * f)
            else:
                q = x // f
            out.append(q * f)
        out[-1] = total
        if sp.get("wob"):  # Segments that do not end on the grid of the frames
            rnd = random.Random("wob/%s/%s/%d" % (sp["wob"], a.name, a.L))
            lim = min(f, per, self.ts // 11) // 3
            for k in range(1, a.L):
                out[k] += rnd.choice([0, 1, 1, -1, rnd.randint(-lim, lim)])
        return out

    @property
    def slack(self):
        "How far (s) segments may start from the nominal grid."
        per = self.asset.D * self.ts
        return max((Fraction(abs(s.t - k * per), self.ts) for k, s in enumerate(self.segs)), default=0)

    def _seg(self, k):
        a, sp = self.asset, self.spec
        s = Seg()
        s.nr = a.first + k
        s.t = self.bounds[k]
        s.dur = self.bounds[k + 1] - s.t
        s.ttml = None
        rnd = random.Random("seg/%s/%s/%d" % (a.name, self.id, s.nr))
        samples = []
        if self.type == "subtitles":
            s.ttml = self._ttml(k)
            samples.append(Sample(s.ttml, s.dur, 0, 0))
        else:
            f = sp["frame"]
            n = s.dur // f
            durs = [f] * n
            if sp.get("vardur") and n >= 2:
                for j in range(0, n - 1, 2):
                    d = rnd.randrange(0, max(1, f // 4))
                    durs[j] += d
                    durs[j + 1] -= d
            if sp.get("wob"):
                durs[-1] += s.dur - sum(durs)
            for i in range(n):
                tag = ("%s|%s|%d|%d|" % (a.name, self.id, s.nr, i)).encode()
                size = sp.get("fixsize") or len(tag) + rnd.randrange(0, 24)
                data = (tag + _fill("%s/%d/%d" % (self.id, s.nr, i), 64))[:size]
                if sp.get("nal"):
                    data = nal_units(rnd, tag, i == 0, sp.get("bulk", 0) if (s.nr + i) % 5 == 0 else 0)
                elif sp.get("bulk") and not sp.get("fixsize") and (s.nr + i) % 5 == 0:
                    data += random.Random("%s/%d" % (self.id, i)).randbytes(sp["bulk"])
                if self.type == "video":
                    flags = 0x02000000 if i == 0 else 0x01010000
                    cto = rnd.randrange(0, 3) * f if sp.get("cto") else 0
                else:
                    flags, cto = 0x02000000, 0
                samples.append(Sample(data, durs[i], flags, cto))
        s.samples = samples
        s.raw = self._mux(s)
        return s

    def _ttml(self, k, off=None, nr=None):
        """The document of VoD segment k; with off (s) and nr: what a live segment must hold instead."""
        a = self.asset
        t0 = k * a.D
        add = off or 0
        lang = self.spec.get("lang", "eng")

        def hms(t):
            t += add
            return "%02d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60)

        def clock(t, frac, lang=lang):
            if off is None:
                return "%s : %02d:%02d:%02d%s" % (lang, t // 3600, t // 60 % 60, t % 60, frac)
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + off)
            return "%s : UTC = %s" % (lang, d.strftime("%Y-%m-%dT%H:%M:%SZ"))
        seg = "Segment # %d" % (k + a.first if nr is None else nr)
        lines = []
        if not self.spec.get("rich"):
            for j in range(a.D):
                lines.append('<p xml:id="s%d" begin="%s.%03d" end="%s.%03d"><span>%s</span></p>'
                             % (j, hms(t0 + j), 100, hms(t0 + j), 900, clock(t0 + j, ".000")))
            return ('<?xml version="1.0" encoding="UTF-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml"><body><div>\n%s\n'
                    '<p>%s</p></div></body></tt>' % ("\n".join(lines), seg)).encode()
        rnd = random.Random("ttml/%s/%s/%d" % (self.spec["rich"], self.id, k))
        n = rnd.choice([0, 1, 1, 2, 3, 8])
        for j in range(n):
            b = t0 + rnd.randrange(0, a.D)
            e = rnd.choice([b, b, t0 + a.D, b + rnd.randrange(0, t0 + a.D - b + 1)])
            fb = rnd.choice(["", ".000", ".1", ".999", ":12"])
            fe = rnd.choice(["", ".000", ".5", ".999", ":24"]) if e < t0 + a.D else ""
            at = ['begin="%s%s"' % (hms(b), fb), 'end="%s%s"' % (hms(e), fe), 'xml:id="c%d_%d"' % (k, j), 'region="r0"']
            rnd.shuffle(at)
            txt = rnd.choice(["%(c)s", "%(c)s<br/>%(s)s", "%(s)s", "plain text", "caf\u00e9 \u2603 &amp; 12:34:56 %(c)s",
                              "<span style=\"s1\">%(c)s</span> 100%%", "%(c)s, %(c2)s", "", "begin=never 00:00:07 end"])
            txt = txt % {"c": clock(b, rnd.choice(["", ".000", ".123456"])), "s": seg, "c2": clock(e, "", "x9_y")}
            lines.append("<p %s>%s</p>" % (rnd.choice([" ", "\n  ", "\t"]).join(at), txt))
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<tt xmlns="http://www.w3.org/ns/ttml" xml:lang="%s"><head><metadata>'
                '<title>12:00:00 a:b</title></metadata></head><body><div>%s%s</div></body></tt>%s' % (
                    lang, "\n".join(lines), rnd.choice(["", "<p>%s</p>" % seg]), rnd.choice(["", "\n"]))).encode()

    def _mux(self, s):
        sp = self.spec
        out = b""
        if sp.get("styp", 1):
            brands = [b"msdh", b"msix"] if sp.get("sidx") else [b"msdh"]
            if sp.get("vod_lmsg") and s.nr == self.asset.first + self.asset.L - 1:
                brands.append(b"lmsg")
            out += box(b"styp", b"msdh", u32(0), *brands) if sp.get("styp", 1) == 1 else \
                box(b"styp", b"msdh", u32(0))
        if sp.get("tfdt") == 0:
            tfdt = full(b"tfdt", 0, 0, u32(s.t))
        else:
            tfdt = full(b"tfdt", 1, 0, u64(s.t))
        tfhd_flags = 0x020000
        tf = b""
        if sp.get("tfhd_sdi"):
            tfhd_flags |= 0x02
            tf += u32(1)
        if sp.get("tfhd_dur") or s.ttml is not None:
            tfhd_flags |= 0x08
            tf += u32(s.dur if s.ttml is not None else sp["frame"])
        if sp.get("tfhd_size") or s.ttml is not None:
            tfhd_flags |= 0x10
            tf += u32(len(s.samples[0].data))
        if sp.get("tfhd_flags"):
            tfhd_flags |= 0x20
            tf += u32(0x01010000 if self.type == "video" else 0x02000000)
        tfhd = full(b"tfhd", 0, tfhd_flags, u32(self.tid), tf)
        n = len(s.samples)
        tr_flags = 0x1
        if s.ttml is None:
            if sp.get("tr_first"):
                tr_flags |= 0x4
            if not (sp.get("tfhd_dur") or sp.get("trex_dur")):
                tr_flags |= 0x100
            if not sp.get("fixsize"):
                tr_flags |= 0x200
            if not (sp.get("tfhd_flags") or sp.get("trex_flags")):
                tr_flags |= 0x400
            if sp.get("cto"):
                tr_flags |= 0x800

        def trun(off):
            b = [u32(n), struct.pack(">i", off)]
            if tr_flags & 0x4:
                b.append(u32(s.samples[0].flags))
            for x in s.samples:
                if tr_flags & 0x100:
                    b.append(u32(x.dur))
                if tr_flags & 0x200:
                    b.append(u32(len(x.data)))
                if tr_flags & 0x400:
                    b.append(u32(x.flags))
                if tr_flags & 0x800:
                    b.append(u32(x.cto))
            return full(b"trun", 0, tr_flags, *b)
        senc = b""
        saiz = b""
        if sp.get("saio") is not None and s.ttml is None:
            ivs = b"".join(struct.pack(">Q", (s.nr << 16) + i) for i in range(n))
            senc = full(b"senc", 0, 0, u32(n), ivs)
            saiz = full(b"saiz", 0, 0, b"\x08", u32(n))

        def saio(off):
            if not senc:
                return b""
            kind = sp["saio"]
            if kind == 0:
                return full(b"saio", 0, 0, u32(1), u32(off))
            if kind == 1:
                return full(b"saio", 1, 0, u32(1), u64(off))
            if kind == 3:
                return full(b"saio", 1, 1, b"cenc", u32(0), u32(1), u64(off))
            return full(b"saio", 0, 1, b"cenc", u32(0), u32(1), u32(off))
        mfhd = full(b"mfhd", 0, 0, u32(s.nr))
        pre = len(mfhd) + 8

        def traf(data_off, saio_off):
            if sp.get("saio_first"):
                return box(b"traf", tfhd, tfdt, saiz, saio(saio_off), senc, trun(data_off))
            return box(b"traf", tfhd, tfdt, trun(data_off), saiz, saio(saio_off), senc)
        size = 8 + len(mfhd) + len(traf(0, 0))
        tr = traf(0, 0)
        so = tr.find(b"senc")
        saio_off = pre + so - 4 + 16 if so >= 0 else 0  # first IV in senc, relative to moof
        moof = box(b"moof", mfhd, traf(size + 8, saio_off))
        mdat = box(b"mdat", *[x.data for x in s.samples])
        if sp.get("sidx"):
            v = sp["sidx"] - 1
            ept = u32(s.t) + u32(0) if v == 0 else u64(s.t) + u64(0)
            out += full(b"sidx", v, 0, u32(1), u32(self.ts), ept, struct.pack(">HH", 0, 1),
                        u32(len(moof) + len(mdat)), u32(s.dur), u32(0x90000000))
        if sp.get("extra"):
            out += box(b"free", b"extra-%d" % s.nr)
        return out + moof + mdat

    @property
    def tid(self):
        return self.spec.get("tid", 1)

    def _init(self):
        sp = self.spec
        v = sp.get("init_ver", 0)
        dur = self.asset.L * self.asset.D * 1000

        def tm(x):
            return u64(x) if v else u32(x)
        mvhd = full(b"mvhd", v, 0, tm(0), tm(0), u32(1000), tm(dur), u32(0x10000), b"\x01\0\0\0", b"\0" * 8,
                    struct.pack(">9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000), b"\0" * 24,
                    u32(self.tid + 1))
        tkhd = full(b"tkhd", v, 7, tm(0), tm(0), u32(self.tid), u32(0), tm(dur), b"\0" * 8, b"\0" * 8,
                    struct.pack(">9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000), u32(320 << 16), u32(180 << 16))
        mdhd = full(b"mdhd", v, 0, tm(0), tm(0), u32(self.ts), tm(self.asset.L * self.asset.D * self.ts),
                    struct.pack(">HH", 0x55c4, 0))
        hd = {"video": b"vide", "audio": b"soun", "subtitles": b"subt"}[self.type]
        hdlr = full(b"hdlr", 0, 0, u32(0), hd, b"\0" * 12, b"h\0")
        stbl = box(b"stbl", full(b"stsd", 0, 0, u32(0)), full(b"stts", 0, 0, u32(0)), full(b"stsc", 0, 0, u32(0)),
                   full(b"stsz", 0, 0, u32(0), u32(0)), full(b"stco", 0, 0, u32(0)))
        minf = box(b"minf", box(b"dinf", full(b"dref", 0, 0, u32(1), full(b"url ", 0, 1))), stbl)
        trex = full(b"trex", 0, 0, u32(self.tid), u32(1), u32(sp.get("frame", 0) if sp.get("trex_dur") else 0),
                    u32(sp.get("fixsize") or 0 if sp.get("trex_size", 1) else 0),
                    u32((0x01010000 if self.type == "video" else 0x02000000) if sp.get("trex_flags") else 0))
        more = sp.get("init_more", "")      # what packagers add: m mehd, l mvex last, e edts, u udta, p pssh, f free
        mvex = box(b"mvex", full(b"mehd", v, 0, tm(dur)), trex) if "m" in more else box(b"mvex", trex)
        edts = box(b"edts", full(b"elst", v, 0, u32(1), tm(0), tm(1024), struct.pack(">HH", 1, 0))) if "e" in more else b""
        trak = box(b"trak", tkhd, edts, box(b"mdia", mdhd, hdlr, minf), box(b"udta", box(b"name", b"trak moov")) if "u" in more else b"")
        pssh = full(b"pssh", 0, 0, bytes(range(16)), u32(5), b"trak\0") * 2 if "p" in more else b""
        moov = box(b"moov", mvhd, trak, mvex, pssh) if "l" in more else box(b"moov", mvhd, pssh, mvex, trak)
        return box(b"ftyp", b"iso6", u32(0), b"iso6dash") + (box(b"free", b"moov") if "f" in more else b"") + moov


def _fill(key, n):
    return random.Random("fill/" + key).randbytes(n)


def nal_units(rnd, tag, key, bulk=0):
    "An access unit of length-prefixed NAL units."
    kinds = [9] * rnd.choice([0, 1]) + ([7, 8] * rnd.choice([0, 1]) if key else []) + [6] * rnd.choice([0, 0, 1, 2])
    kinds += [5 if key else 1] * rnd.choice([1, 1, 2]) + [12] * rnd.choice([0, 0, 0, 1])
    out = b""
    for i, k in enumerate(kinds):
        body = bytes([rnd.choice([0x20, 0x40, 0x60, 0x00]) | k]) + tag + rnd.randbytes(rnd.choice([0, 3, 9, 40]))
        if bulk and (k == 6 or k in (1, 5) and i == len(kinds) - 1):
            body += rnd.randbytes(bulk)
        out += u32(len(body)) + body
    return out


class Deco:
    """What else packagers write into an MPD: further attributes, descriptors, labels and elements of other namespaces
    (none without a seed)."""
    NSP = {"v": "urn:vendor:x", "ns1": "http://vendor.example/ns?a=1&amp;b=2", "dolby": "http://www.dolby.com/ns/online/DASH",
           "scte214": "urn:scte:dash:scte214-extensions"}
    TEXT = ["plain", "caf\u00e9 \u2603 \U0001f600", "a &amp; b &lt;c&gt; &quot;d&quot;", "  two  spaces ", "tab&#9;line&#10;end", "$Number$ $Time$",
            "&lt;Period id=&quot;p0&quot;&gt;", "http://x.example/a?b=1&amp;c=2", "id=\"x\"", "", "0", "PT1S", "ns0:x of columns0:7",
            "&lt;/Period&gt;", "xmlns:q=\"urn:q\""]
    ATTRS = {"Period": ["bitstreamSwitching=\"true\"", "v:note=%s", "v:id=\"p0\"", "asset=%s"],
             "AdaptationSet": ["lang=\"sv\"", "group=\"1\"", "par=\"16:9\"", "maxWidth=\"1920\"", "startWithSAP=\"1\"", "v:id=\"p0\"",
                               "subsegmentStartsWithSAP=\"1\"", "bitstreamSwitching=\"true\"", "selectionPriority=\"3\"", "ns1:k=%s"],
             "Representation": ["codecs=\"avc1.64001e, ec-3\"", "width=\"640\"", "height=\"360\"", "frameRate=\"30000/1001\"",
                                "sar=\"1:1\"", "audioSamplingRate=\"48000\"", "scanType=\"progressive\"", "dependencyId=\"x\"",
                                "scte214:supplementalCodecs=%s", "qualityRanking=\"2\"", "maxPlayoutRate=\"8\"", "duration=\"7\""],
             "SegmentTemplate": ["eptDelta=\"-3\"", "pdDelta=\"4\"", "v:note=%s", "bitstreamSwitching=\"bs/$RepresentationID$\""]}

    def __init__(self, seed):
        self.rnd = random.Random("deco/%s" % seed) if seed is not None else None

    def text(self):
        return self.rnd.choice(self.TEXT)

    def root(self):
        if self.rnd is None:
            return ""
        self.rnd.random()
        out = "".join('xmlns:%s="%s" ' % kv for kv in sorted(self.NSP.items()))
        for x in ['v:ver="3"', 'id="vod-7"', 'availabilityStartTime="2001-01-01T00:00:00Z"', 'availabilityEndTime="2002-01-01T00:00:00Z"',
                  'publishTime="2001-01-01T00:00:00Z"']:
            if self.rnd.random() < 0.25:
                out += x + " "
        return out

    def attrs(self, where):
        if self.rnd is None:
            return ""
        xs = [x for x in self.ATTRS[where] if self.rnd.random() < 0.35]
        return "".join(" " + (x % ("'%s'" % self.text()) if "%s" in x else x) for x in xs)

    def info(self):
        if self.rnd is None:
            return []
        return ['<ProgramInformation lang="%s" moreInformationURL="http://x.example/?a=1&amp;b=2"><Title>%s</Title><Source>%s</Source>'
                '<Copyright>%s</Copyright></ProgramInformation>' % (x, self.text(), self.text(), self.text())
                for x in ("en", "sv") if self.rnd.random() < 0.4]

    def descriptors(self, where):
        if self.rnd is None:
            return []
        rnd = self.rnd
        out = []
        for name in {"Period": ["EventStream", "v:Ext"],
                     "AdaptationSet": ["FramePacking", "EssentialProperty", "SupplementalProperty", "InbandEventStream", "Label", "Accessibility",
                                       "Rating", "Viewpoint", "v:Ext"],
                     "Representation": ["EssentialProperty", "SupplementalProperty", "InbandEventStream", "BaseURL", "SubRepresentation",
                                        "v:Ext"]}[where]:
            for _ in range(rnd.choice([0, 0, 0, 1, 2])):
                if name == "Label":
                    out.append('<Label id="%d" xml:lang="en">%s</Label>' % (rnd.randrange(9), self.text()))
                elif name == "BaseURL":
                    out.append("<BaseURL serviceLocation='%s'>./</BaseURL>" % self.text())
                elif name == "SubRepresentation":
                    out.append('<SubRepresentation level="%d" bandwidth="5"/>' % rnd.randrange(3))
                elif name == "EventStream":
                    out.append("<EventStream schemeIdUri='urn:vendor:events' timescale='1000'><Event presentationTime='5' id='%d' "
                               "messageData='%s'>%s</Event></EventStream>" % (rnd.randrange(9), self.text(), self.text()))
                elif name == "v:Ext":
                    out.append("<v:Ext a='%s' ns1:b='2'>%s<ns1:In/><w:In xmlns:w='urn:w'>%s</w:In></v:Ext>" % (
                        self.text(), self.text(), self.text()))
                else:
                    val = rnd.choice(["value='%s'" % self.text(), "", "value='1' id='p1'", "dolby:x='1'"])
                    out.append("<%s schemeIdUri='urn:%s:%s' %s/>" % (name, rnd.choice(["vendor", "mpeg:dash"]), rnd.choice("abc"), val))
        return out

    def children(self):
        "Inside of a SegmentTemplate."
        if self.rnd is None or self.rnd.random() < 0.7:
            return ""
        return "".join(x for x in ("<Initialization sourceURL='i.mp4' range='0-99'/>", "<BitstreamSwitching sourceURL='b.mp4'/>",
                                   "<v:Ext a='%s'>%s</v:Ext>" % (self.text(), self.text())) if self.rnd.random() < 0.5)

    def tail(self, where):
        if self.rnd is None or self.rnd.random() < 0.6:
            return []
        if where == "Period":
            return ["<Subset contains='1 2' id='s'/>", "<SupplementalProperty schemeIdUri='urn:vendor:p' value='%s'/>" % self.text()]
        return ["<EssentialProperty schemeIdUri='urn:vendor:m' value='%s'/>" % self.text(),
                "<SupplementalProperty schemeIdUri='urn:vendor:m'/>", "<v:Ext>%s</v:Ext>" % self.text()]


class Asset:
    def __init__(self, spec):
        self.spec = spec
        self.name = spec["name"]
        self.D = spec["D"]
        self.L = spec["L"]
        self.first = spec.get("first", 1)
        self.tsbd = spec.get("tsbd", 300)
        self.reps = [Rep(r, self) for r in spec["reps"]]
        self.by_id = {r.id: r for r in self.reps}
        self.mpd_name = spec.get("mpd", "Manifest.mpd")
        self.files = {}
        base = "%s/%s" % (CONTENT, self.name)
        for r in self.reps:
            ext = ".jpg" if r.type == "image" else ".m4s"
            for s in r.segs:
                self.files["%s/%s/%d%s" % (base, r.path, s.nr, ext)] = s.raw
            if r.init:
                self.files["%s/%s/init.mp4" % (base, r.path)] = r.init
        self.files["%s/%s" % (base, self.mpd_name)] = self.mpd_bytes()
        self.files["%s/%s.cfg" % (CONF, self.name)] = self.cfg().encode()
        for t in ("video", "audio"):
            reps = self.of_type(t)
            if reps:
                self.files["%s/%s_%s.dat" % (CONF, self.name, t)] = self.dat(reps[0])

    def of_type(self, t):
        return [r for r in self.reps if r.type == t]

    @property
    def loop(self):
        return self.D * self.L

    def cfg(self):
        ver = self.spec.get("cfgver", "1.1")
        out = ["[General]", "version = %s" % ver, "", "[Setup]", "first_segment_in_loop = %d" % self.first,
               "nr_segments_in_loop = %d" % self.L, "segment_duration_s = %d" % self.D,
               "default_tsbd_secs = %d" % self.tsbd, ""]
        for t in ("video", "audio", "subtitles", "image"):
            reps = self.of_type(t)
            if not reps:
                continue
            out += ["[%s]" % t, "representations = %s" % ", ".join(r.id for r in reps),
                    "timescale = %d" % reps[0].ts]
            if ver == "1.1" and t in ("video", "audio"):
                out += ["total_duration = %d" % (self.loop * reps[0].ts), "dat_file = %s_%s.dat" % (self.name, t)]
            out.append("")
        return "\n".join(out)

    def dat(self, rep):
        ents = []
        for s in rep.segs:
            if ents and ents[-1][3] == s.dur:
                ents[-1][1] += 1
            else:
                ents.append([s.nr, 0, s.t, s.dur])
        return b"".join(struct.pack("HHII", *e) for e in ents)

    def mpd_bytes(self):
        enc = self.spec.get("shape", {}).get("enc", "utf-8")
        text = self.mpd()
        if enc == "none":       # no XML declaration: UTF-8
            return text.split("?>", 1)[1].lstrip().encode()
        text = text.replace('encoding="utf-8"', 'encoding="%s"' % enc.replace("-sig", ""))
        return text.encode(enc, "xmlcharrefreplace")

    def mpd(self):
        sh = self.spec.get("shape", {})
        deco = Deco(sh.get("deco"))
        total = "PT%dS" % self.loop
        if sh.get("frac"):
            total = "PT%dH%dM%d.480S" % (self.loop // 3600, self.loop // 60 % 60, self.loop % 60)
        o = ['<?xml version="1.0" encoding="utf-8"?>',
             '<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" %s%s'
             'profiles="urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple" '
             'minBufferTime="PT2S" type="static" mediaPresentationDuration="%s" maxSegmentDuration="PT%dS"%s>'
             % (deco.root(), 'xmlns:cenc="urn:mpeg:cenc:2013" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" '
                'xsi:schemaLocation="urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd" ' if sh.get("drm") else "",
                total, self.D, ' maxSubsegmentDuration="PT%dS"' % self.D if sh.get("frac") else "")]
        if sh.get("comment"):
            o.append("<!-- made by a packager, <Period> below -->")
        if self.spec.get("proginfo", 1):
            o.append("<ProgramInformation><Title>%s</Title></ProgramInformation>" %
                     ("\u00c5sa &amp; Zo\u00eb \u2603 &lt;1&gt;" if sh.get("title") else "sim"))
        o += deco.info()
        if self.spec.get("vod_baseurl"):
            o += ["<BaseURL>vod%s/</BaseURL>" % ("" if i == 0 else i) for i in range(self.spec["vod_baseurl"])]
        if sh.get("servdesc"):
            o.append('<ServiceDescription id="7"><Latency target="3500"/></ServiceDescription>')
        o.append('<Period id="precambrian"%s%s>' % (
            deco.attrs("Period"), {1: ' duration="%s"' % total, 2: ' start="PT0S" duration="%s"' % total, 3: ' start="PT0S"'}
            .get(sh.get("period"), "")))
        o += deco.descriptors("Period")
        mime = {"video": "video/mp4", "audio": "audio/mp4", "subtitles": "application/mp4", "image": "image/jpeg"}
        for t in ("audio", "video", "subtitles", "image"):
            reps = self.of_type(t)
            if not reps:
                continue
            ext = "jpg" if t == "image" else "m4s"
            sub = reps[0].dir
            init = '' if t == "image" else 'initialization="%s$RepresentationID$/init.mp4" ' % sub
            ts = {"media": reps[0].ts, "ms": 1000, "one": 1}.get(sh.get("tmpl_ts"))
            tmpl = '<SegmentTemplate%s %smedia="%s$RepresentationID$/$Number$.%s" duration="%d" startNumber="%d"%s/>' % (
                deco.attrs("SegmentTemplate"), init, sub, ext, self.D * (ts or 1), self.first, ' timescale="%d"' % ts if ts else "")
            inner = deco.children()
            if inner:
                tmpl = tmpl[:-2] + ">%s</SegmentTemplate>" % inner
            groups = [reps[:1], reps[1:]] if sh.get("split") and len(reps) > 1 else [reps]
            for g, group in enumerate(groups):
                o.append('<AdaptationSet %scontentType="%s" mimeType="%s" segmentAlignment="true"%s>' % (
                    'id="%d" ' % (10 * len(o) + g) if sh.get("roles") else "", t, mime[t], deco.attrs("AdaptationSet")))
                o += deco.descriptors("AdaptationSet")
                if sh.get("drm") and t != "image":
                    o.append('<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" '
                             'cenc:default_KID="34e5db32-8625-47cd-ba06-68fca0655a72"/><ContentProtection '
                             'schemeIdUri="urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed"><cenc:pssh>AAAANA==</cenc:pssh>'
                             '</ContentProtection>')
                if sh.get("roles"):
                    o.append('<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>')
                o.append(tmpl)
                for r in group:
                    inner = '<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" ' \
                            'value="2"/>' if sh.get("roles") and t == "audio" else ""
                    inner += "".join(deco.descriptors("Representation"))
                    o.append('<Representation id="%s" bandwidth="%d"%s%s' % (
                        r.id, 100000 + reps.index(r), deco.attrs("Representation"), ">%s</Representation>" % inner if inner else "/>"))
                o.append('</AdaptationSet>')
        o += deco.tail("Period")
        o.append('</Period>%s%s</MPD>' % (
            '<Metrics metrics="DVBErrors"><Reporting schemeIdUri="urn:dvb:dash:reporting:2014" value="1"/></Metrics>'
            if sh.get("metrics") else "", "".join(deco.tail("MPD"))))
        text = ("\r\n" if sh.get("crlf") else "\n").join(o)
        if sh.get("prefix"):
            text = text.replace('xmlns="urn', 'xmlns:mpd="urn')
            for name in ("MPD", "ProgramInformation", "Title", "BaseURL", "ServiceDescription", "Latency", "Period",
                         "AdaptationSet", "ContentProtection", "Role", "SegmentTemplate", "Representation",
                         "AudioChannelConfiguration", "Metrics", "Reporting"):
                text = re.sub("<(/?)%s(?=[ >/])" % name, r"<\1mpd:" + name, text)
        return text

    # -- facts the oracles use
    def vod(self, rep, index):
        "Segment for the index-th segment of the endless media timeline."
        wraps, k = divmod(index, self.L)
        return rep.segs[k], wraps

    def seg_time(self, rep, index):
        "Start in the media timeline (ticks) of the index-th segment."
        s, wraps = self.vod(rep, index)
        return s.t + wraps * self.loop * rep.ts


@functools.lru_cache(maxsize=64)
def _cached(text):
    return Asset(json.loads(text))


def build(spec):
    return _cached(json.dumps(spec, sort_keys=True))


def _divisor_frame(rnd, total, lo, hi, not_div=None, must_div=None):
    "A frame length that divides total, gives lo..hi frames per per_seg, and (does not) divide the segment."
    c = []
    for f in range(max(1, lo), hi + 1):
        if total % f == 0 and (not_div is None or not_div % f) and (must_div is None or must_div % f == 0):
            c.append(f)
    return rnd.choice(c) if c else None


def video_rep(rnd, D, L, rid, plain=False):
    fps = rnd.choice([2, 3, 4, 5])
    ts = rnd.choice([90000, 12800, 10240, 15360, 16384, 600, 1000 * fps, 10_000_000])
    while ts % fps:
        fps += 1
    r = {"id": rid, "type": "video", "ts": ts, "frame": ts // fps, "cut": "exact", "tfdt": rnd.choice([0, 1]),
         "styp": 1}
    if not plain:
        _flavour(rnd, r)
        r["cto"] = rnd.choice([0, 0, 1])
        if not (r.get("tfhd_dur") or r.get("trex_dur")):
            r["vardur"] = rnd.choice([0, 0, 1])
    return r


def audio_rep(rnd, D, L, rid, plain=False):
    for _ in range(50):
        ts = rnd.choice([48000, 44100, 32000, 90000, 22050])
        per = D * ts
        f = _divisor_frame(rnd, L * per, per // 9, min(per // 4, ts - 1), not_div=per)
        if f:
            break
    cut = rnd.choice(["floor", "round", "ceil"])
    if f is None:
        ts = 48000
        f, cut = D * ts // 6, "exact"
        while D * ts % f:
            f -= 1
    r = {"id": rid, "type": "audio", "ts": ts, "frame": f, "cut": cut, "tfdt": rnd.choice([0, 1]), "styp": 1}
    if not plain:
        _flavour(rnd, r)
    return r


def _flavour(rnd, r):
    r["sidx"] = rnd.choice([0, 0, 1, 2])
    r["tfhd_sdi"] = rnd.choice([0, 1])
    how = rnd.choice(["trun", "tfhd", "trex"])
    if how != "trun":
        r[how + "_dur"] = 1
    if rnd.random() < 0.25:
        r["fixsize"] = 24
        r[rnd.choice(["tfhd_size", "trex_size"])] = 1
    how = rnd.choice(["trun", "tfhd", "trex"])
    if how != "trun":
        r[how + "_flags"] = 1
        if r["type"] == "video":
            r["tr_first"] = 1
    if rnd.random() < 0.3:
        r["saio"] = rnd.choice([0, 1, 2, 3])
        r["saio_first"] = rnd.choice([0, 1])
    r["init_ver"] = rnd.choice([0, 1])
    if rnd.random() < 0.3:
        r["init_more"] = "".join(c for c in "mleupf" if rnd.random() < 0.4)
    r["styp"] = rnd.choice([1, 1, 1, 2])
    if rnd.random() < 0.15:
        r["vod_lmsg"] = 1
    if not r["sidx"] and rnd.random() < 0.1:
        r["extra"] = 1
    if rnd.random() < 0.25 and not (r.get("tfhd_dur") or r.get("trex_dur")):
        r["wob"] = rnd.randrange(1, 1000)
    if rnd.random() < 0.1:
        r["bulk"] = rnd.choice([200, 65400, 70000])


def gen_spec(rnd, name=None, D=None, L=None, plain=False, audio=True, video=True, subs=None, image=None, nvid=None,
             first=None):
    "Draw an asset specification."
    D = D if D is not None else rnd.choice([1, 2, 2, 3, 4, 5, 6, 8, 10])
    L = L if L is not None else rnd.choice([1, 2, 3, 4, 5, 7, 8, 10, 13])
    spec = {"name": name or rnd.choice(["testpic", "testpic_2s", "tears_of_steel", "a"]), "D": D, "L": L,
            "first": first if first is not None else rnd.choice([1, 1, 1, 0, 2, 17, rnd.choice([9, 98, 999, 65000])]),
            "tsbd": rnd.choice([300, 60, 30, 7, 10]), "reps": []}
    if video:
        for i in range(nvid or rnd.choice([1, 1, 2])):
            r = video_rep(rnd, D, L, "V%d00" % (i + 1), plain)
            if i:
                r = dict(spec["reps"][0], id=r["id"])
            spec["reps"].append(r)
    if audio:
        r = audio_rep(rnd, D, L, "A48", plain)
        r["tid"] = 2
        spec["reps"].append(r)
    if subs if subs is not None else rnd.random() < 0.2:
        spec["reps"].append({"id": "S1", "type": "subtitles", "ts": rnd.choice([1000, 90000, 1]),
                             "lang": rnd.choice(["eng", "swe"]), "tfdt": rnd.choice([0, 1]), "tid": 3})
    if image if image is not None else rnd.random() < 0.2:
        spec["reps"].append({"id": "thumbs", "type": "image", "ts": 1})
    if rnd.random() < 0.12:  # Names that contain each other
        names = rnd.choice([{"V100": "A48-V", "V200": "A48x", "S1": "A4", "thumbs": "A"},
                            {"V100": "1", "V200": "11", "A48": "111", "S1": "1.", "thumbs": "01"},
                            {"V100": "v_1", "V200": "v_1_2", "A48": "_1", "S1": "v", "thumbs": "v_"}])
        for r in spec["reps"]:
            r["id"] = names.get(r["id"], r["id"])
    if rnd.random() < 0.2:
        spec["proginfo"] = 0
    if rnd.random() < 0.12:
        spec["vod_baseurl"] = 1 + (spec["L"] + spec["D"]) % 2
    if rnd.random() < 0.3:  # What packagers write in an MPD
        spec["shape"] = gen_shape(rnd)
    if rnd.random() < 0.12:  # Representations of some or all kinds in a sub-directory
        sub = rnd.choice(["en/", "en/", "x/y/"])
        kinds = rnd.choice([("audio",), ("video", "audio", "subtitles", "image"), ("video", "image")])
        for r in spec["reps"]:
            if r["type"] in kinds:
                r["dir"] = sub
    return spec


def gen_shape(rnd):
    "A flavour of the VoD MPD."
    full_ = {"tmpl_ts": rnd.choice(["media", "media", "ms", "one"]), "period": rnd.choice([1, 2, 3]), "drm": 1, "roles": 1,
             "title": 1, "servdesc": 1, "split": 1, "frac": 1, "comment": 1, "crlf": 1, "prefix": 1}
    keys = rnd.sample(sorted(full_), rnd.choice([1, 1, 2, 3, 6]))
    return {k: full_[k] for k in sorted(keys)}


def spec_for_seed(seed, **kw):
    return gen_spec(random.Random("asset/%s" % (seed,)), **kw)
