"""A tiny VoD asset in a scratch directory and a client for the WSGI application in the current directory (/repo)."""
import atexit
import contextlib
import io
import os
import shutil
import struct
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from dashlivesim.mod_wsgi import mod_dashlivesim as srv  # noqa: E402


def box(name, *parts):
    data = b"".join(parts)
    return struct.pack(">I", len(data) + 8) + name + data


def full(name, version, flags, *parts):
    return box(name, struct.pack(">I", version << 24 | flags), *parts)


def u32(*values):
    return struct.pack(">%dI" % len(values), *values)


def make_init(track_id, timescale, handler, sample_dur):
    mvhd = full(b"mvhd", 0, 0, u32(0, 0, 1000, 99000), b"\0" * 80)
    tkhd = full(b"tkhd", 0, 7, u32(0, 0, track_id, 0, 99000), b"\0" * 60)
    mdhd = full(b"mdhd", 0, 0, u32(0, 0, timescale, 99 * timescale), b"\0" * 4)
    hdlr = full(b"hdlr", 0, 0, u32(0), handler, b"\0" * 13)
    trex = full(b"trex", 0, 0, u32(track_id, 1, sample_dur, 0, 0))
    return (box(b"ftyp", b"iso6", u32(0), b"dash") +
            box(b"moov", mvhd, box(b"mvex", trex),
                box(b"trak", tkhd, box(b"mdia", mdhd, hdlr, box(b"minf", b"")))))


def make_segment(track_id, nr, decode_time, sample_dur, samples):
    def moof(offset):
        tfhd = full(b"tfhd", 0, 0x020008, u32(track_id, sample_dur))
        tfdt = full(b"tfdt", 0, 0, u32(decode_time))
        trun = full(b"trun", 0, 0x000201, u32(len(samples), offset), *[u32(len(s)) for s in samples])
        return box(b"moof", full(b"mfhd", 0, 0, u32(nr)), box(b"traf", tfhd, tfdt, trun))
    head = moof(len(moof(0)) + 8)
    return box(b"styp", b"msdh", u32(0), b"msdh", b"msix") + head + box(b"mdat", *samples)


MPD = """<?xml version="1.0" encoding="utf-8"?>
<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="urn:mpeg:dash:profile:isoff-live:2011" type="static" \
mediaPresentationDuration="PT%(total)dS" minBufferTime="PT2S">
<Period id="p0" start="PT0S">
<AdaptationSet contentType="audio" mimeType="audio/mp4" segmentAlignment="true" startWithSAP="1">
<SegmentTemplate startNumber="%(first)d" initialization="$RepresentationID$/init.mp4" duration="%(dur)d" \
media="$RepresentationID$/$Number$.m4s"/>
<Representation id="A1" codecs="mp4a.40.2" bandwidth="48000"/>
</AdaptationSet>
<AdaptationSet contentType="video" mimeType="video/mp4" segmentAlignment="true" startWithSAP="1">
<SegmentTemplate startNumber="%(first)d" initialization="$RepresentationID$/init.mp4" duration="%(dur)d" \
media="$RepresentationID$/$Number$.m4s"/>
<Representation id="V1" codecs="avc1.64001e" bandwidth="300000" width="640" height="360"/>
</AdaptationSet>
</Period>
</MPD>
"""


class Asset:
    "Video V1 and audio A1 (and thumbnails T1) of equally long segments."

    def __init__(self, seg_dur=2, count=5, first=1, tsbd=30, video_durs=None, name="tiny"):
        self.top = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, self.top, True)
        self.name, self.seg_dur, self.count, self.first = name, seg_dur, count, first
        self.cfg_dir = os.path.join(self.top, "cfg")
        self.content = os.path.join(self.top, "content")
        self.files = {}
        os.makedirs(self.cfg_dir)
        cfg = ["[General]", "version = 1.1", "", "[Setup]", "first_segment_in_loop = %d" % first,
               "nr_segments_in_loop = %d" % count, "segment_duration_s = %d" % seg_dur,
               "default_tsbd_secs = %d" % tsbd, ""]
        for kind, rep, timescale, tid, hdlr, step in (("video", "V1", 90000, 1, b"vide", 4500),
                                                      ("audio", "A1", 48000, 2, b"soun", 2400)):
            self.write(rep + "/init.mp4", make_init(tid, timescale, hdlr, step))
            durs = [seg_dur * timescale] * count
            if kind == "video" and video_durs:
                durs = [int(d * timescale) for d in video_durs]
            time = 0
            dat = b""
            for k, dur in enumerate(durs):
                samples = [("%s-%d-%d" % (rep, first + k, i)).encode() for i in range(dur // step)]
                self.write("%s/%d.m4s" % (rep, first + k), make_segment(tid, first + k, time, step, samples))
                dat += self.entry(first + k, time, dur)
                time += dur
            with open(os.path.join(self.cfg_dir, "%s_%s.dat" % (name, kind)), "wb") as ofh:
                ofh.write(dat)
            cfg += ["[%s]" % kind, "representations = %s" % rep, "timescale = %d" % timescale,
                    "total_duration = %d" % time, "dat_file = %s_%s.dat" % (name, kind), ""]
        for k in range(count):
            self.write("T1/%d.jpg" % (first + k), b"\xff\xd8thumb %d" % (first + k))
        cfg += ["[image]", "representations = T1", "timescale = 1", ""]
        with open(os.path.join(self.cfg_dir, name + ".cfg"), "w") as ofh:
            ofh.write("\n".join(cfg))
        self.write("Manifest.mpd", (MPD % {"total": seg_dur * count, "first": first, "dur": seg_dur}).encode())

    @staticmethod
    def entry(nr, start, dur):
        from dashlivesim.dashlib.configprocessor import SEGTIMEFORMAT
        return struct.pack(SEGTIMEFORMAT, nr, 0, start, dur)

    def write(self, rel, data):
        path = os.path.join(self.content, self.name, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as ofh:
            ofh.write(data)
        self.files[rel] = data

    def get(self, path, now, headers=None, https=False, query="", reader=None):
        """Answer (status, headers, body) of a request at the clock reading now.

        reader(time, data) is called for each part of the body and returns the seconds it takes."""
        clock = [float(now)]

        def sleep(secs):
            clock[0] += secs
        srv.time, srv.sleep = (lambda: clock[0]), sleep
        env = {"HTTP_HOST": "host", "REQUEST_URI": path + ("?" + query if query else ""), "PATH_INFO": path,
               "QUERY_STRING": query, "VOD_CONF_DIR": self.cfg_dir, "CONTENT_ROOT": self.content,
               "wsgi.url_scheme": "https" if https else "http", "REQUEST_METHOD": "GET"}
        for key, value in (headers or {}).items():
            env["HTTP_" + key.upper().replace("-", "_")] = value
        out = []
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            body = b""
            for part in srv.application(env, lambda status, hdrs: out.append((status, dict(hdrs)))):
                body += part
                clock[0] += reader(clock[0], part) if reader else 0
        return int(out[0][0].split()[0]), out[0][1], body


def find(data, *path):
    "Content of the first box at path."
    for name in path:
        pos = 0
        while pos + 8 <= len(data):
            size = struct.unpack(">I", data[pos:pos + 4])[0]
            if data[pos + 4:pos + 8] == name:
                data = data[pos + 8:pos + size]
                break
            pos += max(size, 8)
        else:
            return None
    return data


def decode_time(segment):
    tfdt = find(segment, b"moof", b"traf", b"tfdt")
    return struct.unpack(">Q" if tfdt[0] else ">I", tfdt[4:])[0]
