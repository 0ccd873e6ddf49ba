"""Oracles over served media segments."""
from . import mp4ref
from .mp4ref import Bad


def decode(rep, body):
    boxes = mp4ref.parse(body)
    frags, spare = mp4ref.fragments(boxes, body, mp4ref.Trex(rep.init))
    return boxes, frags, spare


def check_time(res, s, rep, nr, frags, what):
    "C03: the decode time and sequence number of segment nr."
    i = s.index(nr)
    want = s.a.seg_time(rep, i)
    if not frags:
        res.bad("no-fragment", "%s: no movie fragment" % what)
        return False
    if frags[0].tfdt != want:
        res.bad("decode-time", "%s: decode time %d, the endless loop has %d there (off by %d of %d)" %
                (what, frags[0].tfdt, want, frags[0].tfdt - want, s.a.D * rep.ts))
        return False
    if any(f.seqno != nr for f in frags):
        res.bad("sequence-number", "%s: sequence number %s" % (what, [f.seqno for f in frags]))
        return False
    return True


def check_samples(res, s, rep, nr, frags, spare, what):
    "C04: exactly the VoD samples."
    seg, _ = s.a.vod(rep, s.index(nr))
    got = [x for f in frags for x in f.samples]
    if len(got) != len(seg.samples):
        res.bad("sample-count", "%s: %d samples, VoD segment has %d" % (what, len(got), len(seg.samples)))
        return False
    if spare:
        res.bad("mdat-size", "%s: %d bytes of mdat belong to no sample" % (what, spare))
        return False
    for i, (g, v) in enumerate(zip(got, seg.samples)):
        if g[0] != v.data and rep.type != "subtitles":
            res.bad("sample-data", "%s: sample %d is %r.., expected %r.." % (what, i, g[0][:30], v.data[:30]))
            return False
        if g[2] != v.dur:
            res.bad("sample-duration", "%s: sample %d lasts %d, expected %d" % (what, i, g[2], v.dur))
            return False
        if rep.type != "subtitles" and (g[3], g[4]) != (v.flags, v.cto):
            res.bad("sample-meta", "%s: sample %d flags/cto %x/%d, expected %x/%d" % (what, i, g[3], g[4], v.flags, v.cto))
            return False
    return True


def check_aux(res, rep, seg, frags, what):
    if rep.spec.get("saio") is None:
        return True
    for f in frags:
        if f.aux is None:
            res.bad("aux-lost", "%s: auxiliary information boxes are gone" % what)
            return False
        off, have, ivs = f.aux
        if off != have:
            res.bad("aux-offset", "%s: saio points to %d, the data is at %d" % (what, off, have))
            return False
    want = b"".join((((seg.nr << 16) + i).to_bytes(8, "big")) for i in range(len(seg.samples)))
    got = b"".join(f.aux[2] for f in frags)
    if got != want:
        res.bad("aux-data", "%s: auxiliary data changed" % what)
        return False
    return True


def check_sidx(res, rep, boxes, frags, inserted, what):
    xs = [b for b in boxes if b.type == b"sidx"]
    moof = [b for b in boxes if b.type == b"moof"][0]
    mdat = [b for b in boxes if b.type == b"mdat"][-1]
    if not inserted:
        if xs:
            x = mp4ref.sidx(xs[0])
            total = sum(r[1] for r in x["refs"])
            if len(xs) > 1 or total != mdat.start + mdat.size - moof.start or x["ept"] != frags[0].tfdt:
                res.bad("sidx-stale", "%s: a segment index that does not describe the segment was left in" % what)
                return False
        return True
    if len(xs) != 1:
        res.bad("sidx-count", "%s: %d sidx boxes" % (what, len(xs)))
        return False
    x = mp4ref.sidx(xs[0])
    size = mdat.start + mdat.size - moof.start
    dur = sum(f.dur for f in frags)
    want = {"timescale": rep.ts, "ept": frags[0].tfdt, "first": 0}
    for k, v in want.items():
        if x[k] != v:
            res.bad("sidx-" + k, "%s: sidx %s is %s, expected %s" % (what, k, x[k], v))
            return False
    if len(x["refs"]) != 1 or x["refs"][0][0] != 0:
        res.bad("sidx-refs", "%s: sidx references %s" % (what, x["refs"]))
        return False
    if x["end"] != moof.start:
        res.bad("sidx-place", "%s: sidx ends at %d, the fragment starts at %d" % (what, x["end"], moof.start))
        return False
    if x["refs"][0][1] != size:
        res.bad("sidx-size", "%s: sidx says %d bytes, the fragment has %d" % (what, x["refs"][0][1], size))
        return False
    if x["refs"][0][2] != dur:
        res.bad("sidx-duration", "%s: sidx says duration %d, the fragment lasts %d" % (what, x["refs"][0][2], dur))
        return False
    return True


def layout(res, boxes, what, events=True):
    "styp? (emsg|sidx|other)* moof mdat, in an order a client can use."
    kinds = [b.type for b in boxes]
    if kinds.count(b"moof") != 1 or kinds.count(b"mdat") != 1:
        res.bad("layout", "%s: top-level boxes %s" % (what, kinds))
        return False
    if kinds.index(b"mdat") != kinds.index(b"moof") + 1:
        res.bad("layout", "%s: mdat does not follow moof: %s" % (what, kinds))
        return False
    if b"styp" in kinds and (kinds.index(b"styp") != 0 or kinds.count(b"styp") != 1):
        res.bad("layout", "%s: styp not first: %s" % (what, kinds))
        return False
    if b"emsg" in kinds and max(i for i, k in enumerate(kinds) if k == b"emsg") > kinds.index(b"moof"):
        res.bad("layout", "%s: emsg after moof" % what)
        return False
    if not events and b"emsg" in kinds:
        res.bad("unexpected-event", "%s: carries an event message" % what)
        return False
    return True


def check_brands(res, seg_has_styp, seg_brands, boxes, lmsg, what):
    b = mp4ref.brands(boxes)
    if not seg_has_styp:
        if b is not None and not lmsg:
            res.bad("styp-new", "%s: a styp appeared" % what)
            return False
        return True
    if b is None:
        res.bad("styp-lost", "%s: styp is gone" % what)
        return False
    major, compat = b
    rest = [x for x in compat if x != b"lmsg"]
    want = [x for x in seg_brands if x != b"lmsg"]
    if major != b"msdh" or rest != want:
        res.bad("brands", "%s: brands %s %s, VoD has %s" % (what, major, compat, seg_brands))
        return False
    if (b"lmsg" in compat) != lmsg:
        res.bad("lmsg", "%s: last-segment mark %s, expected %s" % (what, b"lmsg" in compat, lmsg))
        return False
    return True


def vod_brands(seg):
    b = mp4ref.brands(mp4ref.parse(seg.raw))
    return (b is not None, b[1] if b else [])


def check_init(res, rep, body, what):
    "An init segment is the VoD one with the durations zeroed."
    v = bytearray(rep.init)
    for b in mp4ref.parse(rep.init):
        if b.type != b"moov":
            continue
        mv = b.one(b"mvhd")
        o = mv.start + 8
        spans = [(o + 16, 4) if v[o] == 0 else (o + 24, 8)]
        tk = b.one(b"trak").one(b"tkhd")
        o = tk.start + 8
        spans.append((o + 20, 4) if v[o] == 0 else (o + 28, 8))
        md = b.one(b"trak").one(b"mdia").one(b"mdhd")
        o = md.start + 8
        spans.append((o + 16, 4) if v[o] == 0 else (o + 24, 8))
        for mh in b.one(b"mvex").all(b"mehd"):
            o = mh.start + 8
            spans.append((o + 4, 4) if v[o] == 0 else (o + 4, 8))
        for p, n in spans:
            v[p:p + n] = b"\0" * n
    if bytes(v) != body:
        i = next((k for k in range(min(len(v), len(body))) if v[k] != body[k]), min(len(v), len(body)))
        res.bad("init", "%s: differs from the VoD init segment at byte %d (length %d, expected %d)" %
                (what, i, len(body), len(v)))
        return False
    return True


__all__ = ["Bad"]
