"""Independent ISO BMFF reader used by the oracles.  Strict: anything malformed raises Bad."""
import struct


class Bad(Exception):
    pass


CONTAINERS = {b"moof", b"traf", b"moov", b"trak", b"mdia", b"minf", b"stbl", b"mvex", b"dinf", b"edts"}


class Box:
    __slots__ = ("type", "start", "size", "hdr", "data", "kids", "parent")

    def body(self):
        return self.data[self.start + self.hdr:self.start + self.size]

    def raw(self):
        return self.data[self.start:self.start + self.size]

    def all(self, typ):
        return [k for k in self.kids if k.type == typ]

    def one(self, typ):
        k = self.all(typ)
        if len(k) != 1:
            raise Bad("%d %s boxes in %s" % (len(k), typ.decode(), self.type.decode("latin1")))
        return k[0]

    def opt(self, typ):
        k = self.all(typ)
        if len(k) > 1:
            raise Bad("%d %s boxes" % (len(k), typ.decode()))
        return k[0] if k else None


def parse(data, start=0, end=None):
    end = len(data) if end is None else end
    out = []
    pos = start
    while pos < end:
        if end - pos < 8:
            raise Bad("trailing %d bytes at %d" % (end - pos, pos))
        size, typ = struct.unpack_from(">I4s", data, pos)
        hdr = 8
        if size == 1:
            if end - pos < 16:
                raise Bad("short largesize box")
            size = struct.unpack_from(">Q", data, pos + 8)[0]
            hdr = 16
        if size < hdr or pos + size > end:
            raise Bad("box %r at %d has size %d, only %d left" % (typ, pos, size, end - pos))
        b = Box()
        b.type, b.start, b.size, b.hdr, b.data = typ, pos, size, hdr, data
        b.kids = parse(data, pos + hdr, pos + size) if typ in CONTAINERS else []
        out.append(b)
        pos += size
    return out


def u32(b, o):
    return struct.unpack_from(">I", b, o)[0]


def u64(b, o):
    return struct.unpack_from(">Q", b, o)[0]


def vf(b):
    return b[0], int.from_bytes(b[1:4], "big")


class Trex:
    def __init__(self, init):
        moov = [b for b in parse(init) if b.type == b"moov"]
        if len(moov) != 1:
            raise Bad("moov missing")
        self.by_track = {}
        for t in moov[0].one(b"mvex").all(b"trex"):
            b = t.body()
            self.by_track[u32(b, 4)] = (u32(b, 8), u32(b, 12), u32(b, 16), u32(b, 20))
        self.timescale = {}
        for tr in moov[0].all(b"trak"):
            tk = tr.one(b"tkhd").body()
            tid = u32(tk, 12) if tk[0] == 0 else u32(tk, 20)
            md = tr.one(b"mdia").one(b"mdhd").body()
            self.timescale[tid] = u32(md, 12) if md[0] == 0 else u32(md, 20)


class Frag:
    __slots__ = ("track", "tfdt", "tfdt_ver", "samples", "dur", "aux", "seqno", "moof_start", "moof_end")


def fragments(boxes, data, trex):
    "Decode every (moof, traf) into a Frag.  Samples are (bytes, dts, dur, flags, cto, abs_offset)."
    frags = []
    spans = []
    mdats = [(b.start + b.hdr, b.start + b.size) for b in boxes if b.type == b"mdat"]
    for m in boxes:
        if m.type != b"moof":
            continue
        seq = u32(m.one(b"mfhd").body(), 4)
        trafs = m.all(b"traf")
        if not trafs:
            raise Bad("moof without traf")
        prev_end = m.start
        for ti, tf in enumerate(trafs):
            h = tf.one(b"tfhd").body()
            _, fl = vf(h)
            f = Frag()
            f.track = u32(h, 4)
            f.seqno = seq
            f.moof_start = m.start
            f.moof_end = m.start + m.size
            if f.track not in trex.by_track:
                raise Bad("unknown track %d" % f.track)
            _, ddur, dsize, dflags = trex.by_track[f.track]
            p = 8
            base = m.start if (fl & 0x020000 or ti == 0) else prev_end
            if fl & 1:
                base = u64(h, p)
                p += 8
            if fl & 2:
                p += 4
            if fl & 8:
                ddur = u32(h, p)
                p += 4
            if fl & 0x10:
                dsize = u32(h, p)
                p += 4
            if fl & 0x20:
                dflags = u32(h, p)
                p += 4
            if p != len(h):
                raise Bad("tfhd has %d bytes, flags need %d" % (len(h), p))
            td = tf.one(b"tfdt").body()
            f.tfdt_ver = td[0]
            if td[0] == 0:
                if len(td) != 8:
                    raise Bad("tfdt v0 length %d" % len(td))
                f.tfdt = u32(td, 4)
            else:
                if len(td) != 12:
                    raise Bad("tfdt v1 length %d" % len(td))
                f.tfdt = u64(td, 4)
            f.samples = []
            t = f.tfdt
            nxt = None
            for tr in tf.all(b"trun"):
                b = tr.body()
                ver, tfl = vf(b)
                n = u32(b, 4)
                p = 8
                if tfl & 1:
                    nxt = base + struct.unpack_from(">i", b, p)[0]
                    p += 4
                elif nxt is None:
                    nxt = base
                first = None
                if tfl & 4:
                    first = u32(b, p)
                    p += 4
                for i in range(n):
                    dur, size, flags, cto = ddur, dsize, dflags, 0
                    if i == 0 and first is not None:
                        flags = first
                    if tfl & 0x100:
                        dur = u32(b, p)
                        p += 4
                    if tfl & 0x200:
                        size = u32(b, p)
                        p += 4
                    if tfl & 0x400:
                        flags = u32(b, p)
                        p += 4
                    if tfl & 0x800:
                        cto = u32(b, p) if ver == 0 else struct.unpack_from(">i", b, p)[0]
                        p += 4
                    end = nxt + size
                    if not any(lo <= nxt and end <= hi for lo, hi in mdats):
                        raise Bad("sample %d of track %d at %d..%d lies outside mdat %s" % (i, f.track, nxt, end, mdats))
                    f.samples.append((data[nxt:end], t, dur, flags, cto, nxt))
                    spans.append((nxt, end))
                    nxt = end
                    t += dur
                if p != len(b):
                    raise Bad("trun has %d bytes, flags need %d" % (len(b), p))
            if nxt is None:
                raise Bad("traf without trun")
            prev_end = nxt
            f.dur = t - f.tfdt
            f.aux = None
            so, sz, se = tf.opt(b"saio"), tf.opt(b"saiz"), tf.opt(b"senc")
            if so is not None:
                b = so.body()
                ver, ofl = vf(b)
                p = 4 + (8 if ofl & 1 else 0)
                cnt = u32(b, p)
                p += 4
                offs = [u32(b, p + 4 * i) if ver == 0 else u64(b, p + 8 * i) for i in range(cnt)]
                if se is None or not offs:
                    raise Bad("saio without senc")
                f.aux = (base + offs[0], se.start + se.hdr + 8, se.body()[8:])
            frags.append(f)
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        if b[0] < a[1]:
            raise Bad("samples overlap in mdat")
    cover = sum(e - s for s, e in spans)
    total = sum(h - l for l, h in mdats)
    return frags, total - cover


def emsgs(boxes):
    out = []
    for b in boxes:
        if b.type != b"emsg":
            continue
        d = b.body()
        ver = d[0]
        if ver == 0:
            z = d.index(b"\0", 4)
            scheme = d[4:z].decode()
            z2 = d.index(b"\0", z + 1)
            value = d[z + 1:z2].decode()
            ts, delta, dur, eid = struct.unpack_from(">IIII", d, z2 + 1)
            out.append({"scheme": scheme, "value": value, "timescale": ts, "delta": delta, "dur": dur, "id": eid,
                        "data": d[z2 + 17:], "pos": b.start, "v": 0})
        else:
            ts, pt, dur, eid = struct.unpack_from(">IQII", d, 4)
            z = d.index(b"\0", 24)
            z2 = d.index(b"\0", z + 1)
            out.append({"scheme": d[24:z].decode(), "value": d[z + 1:z2].decode(), "timescale": ts, "time": pt,
                        "dur": dur, "id": eid, "data": d[z2 + 1:], "pos": b.start, "v": 1})
    return out


def sidx(b):
    d = b.body()
    ver = d[0]
    r = {"ref": u32(d, 4), "timescale": u32(d, 8)}
    if ver == 0:
        r["ept"], r["first"] = u32(d, 12), u32(d, 16)
        p = 20
    else:
        r["ept"], r["first"] = u64(d, 12), u64(d, 20)
        p = 28
    n = struct.unpack_from(">H", d, p + 2)[0]
    p += 4
    r["refs"] = []
    for _ in range(n):
        x = u32(d, p)
        r["refs"].append((x >> 31, x & 0x7fffffff, u32(d, p + 4), u32(d, p + 8)))
        p += 12
    if p != len(d):
        raise Bad("sidx has %d bytes, needs %d" % (len(d), p))
    r["end"] = b.start + b.size
    return r


def brands(boxes):
    s = [b for b in boxes if b.type == b"styp"]
    if not s:
        return None
    if len(s) > 1:
        raise Bad("%d styp boxes" % len(s))
    d = s[0].body()
    if len(d) % 4 or len(d) < 8:
        raise Bad("styp length %d" % len(d))
    return d[:4], [d[i:i + 4] for i in range(8, len(d), 4)]
