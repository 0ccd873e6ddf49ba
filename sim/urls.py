"""Requests of every kind a deployment sees, drawn around an instant.  Shared by the checks on faults, isolation and framing."""
from . import model
from .common import us

PPH = [1, 2, 3, 4, 6, 12, 20, 30, 60]


def gen_request(rng, spec, asset, t_us, bad=0.1):
    "One request as {'url', 'kind', 'https', 'exact'}; mostly answerable at the instant t_us."
    t = t_us // 1_000_000
    D, L = spec["D"], spec["L"]
    opts = []
    r = rng.random()
    if r < 0.25:
        st = max(0, t - rng.choice([0, D, 10, 100, 5000]))
        opts.append([rng.choice(["start", "ast"]), st])
        q = rng.random()
        if q < 0.3:
            opts.append(["dur", t - st + rng.choice([-D, 0, D, 2 * D, 60])])
        elif q < 0.5:
            opts.append(["stop", t + rng.choice([-D, 0, D, 60])])
        if rng.random() < 0.3:
            opts.append(["timeoffset", st // D // 3 * D])
    elif r < 0.32:
        opts.append(["modulo", rng.choice([1, 2, 10])])
    if rng.random() < 0.3:
        n = rng.choice(PPH)
        opts.append(["periods", n])
        if rng.random() < 0.4:
            opts.append(["xlink", rng.choice([x for x in PPH if n % x == 0])])
            if rng.random() < 0.4:
                opts.append(["insertad", rng.choice([1, 2, 3, 4, 5])])
        elif rng.random() < 0.3:
            opts.append(["etp", rng.choice([x for x in PPH if n % x == 0])])
        if rng.random() < 0.3:
            opts.append(["mpdcallback", rng.choice([x for x in PPH if n % x == 0])])
        if rng.random() < 0.4:
            opts.append(["continuous", 1])
        if rng.random() < 0.3:
            opts.append(["peroff", 1])
    if rng.random() < 0.3:
        opts.append([rng.choice(["segtimeline", "segtimelinenr"]), 1])
    if rng.random() < 0.2:
        opts.append(["snr", rng.choice([-1, 0, 1, 5])])
    if rng.random() < 0.3:
        opts.append(["tsbd", rng.choice([5, 30, 600])])
    if rng.random() < 0.2:
        opts.append(["ato", rng.choice(["inf", 1, D])])
    if rng.random() < 0.2:
        opts.append(["scte35", rng.choice([1, 2, 3])])
    if rng.random() < 0.2:
        opts.append(["utc", "-".join(rng.sample(["direct", "head", "ntp", "sntp", "httpxsdate", "httpiso", "keep"],
                                                rng.choice([1, 2])))])
    if rng.random() < 0.15:
        for _ in range(rng.choice([1, 1, 2])):
            opts.append(["baseurl", rng.choice(["u20_d10", "d10_u20", "u30_d30", "d5_u55"])])
        if rng.random() < 0.4 and "segtimeline" in dict(opts):
            opts.append(["segtimelineloss", 1])
    if rng.random() < 0.2:
        opts.append(["sidx", 1])
    if rng.random() < 0.1:
        opts.append(["mup", rng.choice([1, 10])])
    if rng.random() < 0.1:
        opts.append(["spd", rng.choice([1, 10])])
    if rng.random() < 0.12:
        opts.append(["chunkdur", rng.choice([0.5, 1, D])])
    if rng.random() < 0.06 and not {"start", "ast", "modulo"} & set(dict(opts)):
        opts.append(["tfdt", 32])
    rng.shuffle(opts)
    s = model.Modulo(asset, opts, t) if "modulo" in dict(opts) else model.Session(asset, opts)
    kind = rng.choice(["mpd", "mpd", "init", "seg", "seg", "seg", "tseg", "mux", "muxinit", "thumb", "period"])
    vs = [x for x in asset.reps if x.type != "image"]
    av = [x for x in vs if x.type in ("video", "audio")]
    im = [x for x in asset.reps if x.type == "image"]
    nr = s.start_nr + max(0, (t - s.ast) // D - 1) + rng.choice([0, 0, 0, 0, -1, -2, 1])
    nr = max(0, nr)
    e = s.end_nr()
    if e is not None and rng.random() < 0.5:
        nr = max(0, min(nr, e - 1))
    if kind == "thumb" and not im:
        kind = "seg"
    if kind in ("mux", "muxinit") and len(av) < 2:
        kind = "seg"
    if kind == "mpd":
        url = s.mpd_url()
    elif kind == "period":
        n = int(dict(opts).get("periods", 0))
        k = max(0, t - s.ast) * n // 3600 if n else 0
        url = s.mpd_url() + "+p%d.period" % max(0, k + rng.choice([0, 0, -1, 1]))
    elif kind == "init":
        url = s.init_url(rng.choice(vs))
    elif kind == "seg":
        url = s.seg_url(rng.choice(vs), nr)
    elif kind == "tseg":
        rep = rng.choice(av)
        url = s.prefix + "%s/t%d.m4s" % (rep.path, asset.seg_time(rep, max(0, s.index(nr))))
    elif kind == "thumb":
        url = s.seg_url(im[0], nr)
    else:
        a, b = rng.sample(av, 2)
        url = s.prefix + "%s%s__%s/" % (a.dir, a.id, b.id) + ("init.mp4" if kind == "muxinit" else "%d.m4s" % nr)
    if rng.random() < bad:
        kind = "bad"
        url = spoil(rng, url, asset)
    elif rng.random() < 0.1:
        url += rng.choice(["?x=1", "?a=b&c=d", "?session=77"])
    return {"url": url, "kind": kind, "https": int(rng.random() < 0.15)}


def spoil(rng, url, asset):
    "A request that cannot be answered."
    return rng.choice([
        url.replace(asset.name, asset.name + "x"), url.rsplit("/", 1)[0] + "/none.m4s", url.rsplit(".", 1)[0] + ".xyz",
        url.replace("/livesim/", "/livesim/bogus_1/"), url.replace("/livesim/", "/livesim/start_x/"),
        url.replace("/livesim/", "/"), "/livesim/", "/", url.rsplit("/", 1)[0] + "/", "/livesim/" + asset.name,
        url.replace("/livesim/", "/livesim/periods_7/"), url.replace("/livesim/", "/livesim/tsbd_/"),
        url.replace("/livesim/", "/livesim//"), url.replace("V100", "V999"), url.rsplit("/", 1)[0] + "/-1.m4s",
        url.rsplit("/", 1)[0] + "/1.5.m4s", url.rsplit("/", 1)[0] + "/t.m4s", url.rsplit("/", 1)[0] + "/99999999999.m4s",
        url.replace("/livesim/", "/livesim/insertad_1/"), url.replace("/livesim/", "/livesim/xlink_3/"),
        url.replace("/livesim/", "/livesim/chunkdur_x/"), url.replace("/livesim/", "/livesim/baseurl_u1/")])


__all__ = ["gen_request", "spoil", "us"]
