"""M04: grain time ranges and presentation times are exact for every rate."""
from fractions import Fraction

from .. import gen, tsref

ID = "M04"
LEVEL = "exploration"
RULE = ("Grains of every type (also the numpy variants) with random timestamps, rates, sample counts and temporal offsets are asked for their last "
        "instant, time ranges and presentation times and to normalise times, offsets and ranges, compared with exact rational arithmetic; runs of "
        "consecutive audio grains must tile time. Distinct = (class, rate, sign, offset class, question).")
FLOORS = dict(grains_judged=15000, final_times=15000, presentation_shifts=800, normalised=20000, tiles=8000, no_rate=1000)


def plan(ctx):
    n = ctx.n(120, 2500)
    c = [("grain-%d" % j, dict(kind="grain")) for j in range(n)]
    c += [("tile-%d" % j, dict(kind="tile")) for j in range(n // 2)]
    return c


def tsval(t):
    return gen.ts_ns(t)


def r_time(rng):
    return rng.choice([0, 1, -1, rng.randint(-10 ** 12, 10 ** 12), rng.randint(0, 1 << 61), rng.randint(-(1 << 61), 0), gen.r_ts(rng) // 4])


def make(rng):
    t = rng.choice(gen.TYPES)
    d = gen.r_desc(rng, t)
    d["origin"] = r_time(rng)
    d["rate"] = rng.choice([Fraction(0), gen.r_media_rate(rng), gen.r_media_rate(rng)])
    if "sample_rate" in d:
        d["sample_rate"] = rng.choice([0, 48000, 44100, 96000, 22050, 8000, 1, rng.randint(1, 1000000)])
        d["samples"] = rng.choice([1, 1, 2, 1920, 1601, 1602, 1024, 48000, rng.randint(1, 100000)])
    if t == "coded_video":
        d["temporal_offset"] = rng.choice([None, 0, 1, -1, 2, -7, rng.randint(-100000, 100000)])
    if t in ("audio",) and rng.random() < 0.3 and d["fmt"] in [gen.AUDIO[x] for x in gen.PCM]:
        d["samples"], d["channels"] = rng.randint(1, 50), rng.randint(1, 2)
        d["data"] = bytes(gen.audio_size(gen.AUDIO_NAME[d["fmt"]], d["channels"], d["samples"]))
        from mediagrains import numpy as mnp
        g = mnp.AudioGrain(gen.meta_of(d), d["data"])
    elif t == "video" and rng.random() < 0.3:
        name = rng.choice(gen.PLANAR)
        d.update(fmt=gen.FRAME[name], width=4, height=2, components=gen.video_layout(name, 4, 2), data=bytes(gen.video_size(name, 4, 2)))
        from mediagrains import numpy as mnp
        g = mnp.VideoGrain(gen.meta_of(d), d["data"])
    else:
        g = gen.build(d, rng.choice(["class", "meta"]))
    return d, g


def tr(r):
    return (None if r.start is None else tsval(r.start), None if r.end is None else tsval(r.end), int(r.inclusivity))


def case(ctx, rng, key, p):
    if p["kind"] == "tile":
        return tile(ctx, rng)
    from mediatimestamp.immutable import TimeRange, Timestamp, TimeOffset
    for _ in range(150):
        d, g = make(rng)
        t, o = d["type"], d["origin"]
        where = "%s at %s, rate %s" % (type(g).__name__, gen.ts_str(o), d["rate"])
        media = None
        if t in ("video", "coded_video"):
            media = d["rate"] or None
        elif "sample_rate" in d:
            media = Fraction(d["sample_rate"]) or None
            where += ", %d samples at %d" % (d["samples"], d["sample_rate"])
        ctx.equal(g.media_rate, media, where + ": media rate")
        ctx.require(media is None or isinstance(g.media_rate, Fraction), where + ": type of media rate", got=g.media_rate)
        ctx.count("no_rate", 1 if media is None else 0)
        last = o
        if "sample_rate" in d and media:
            last = o + tsref.at(d["samples"] - 1, media)
        ctx.equal(tsval(g.final_origin_timestamp()), last, where + ": final origin timestamp")
        ctx.equal(tr(g.origin_timerange()), (o, last, 3), where + ": origin time range")
        shift = tsref.at(d["temporal_offset"], media) if t == "coded_video" and media and d["temporal_offset"] is not None else 0
        ctx.equal(tsval(g.presentation_origin_timestamp), o + shift, where + ": presentation time", offset=d.get("temporal_offset"))
        ctx.equal(tsval(g.final_presentation_origin_timestamp()), last + shift, where + ": final presentation time")
        ctx.equal(tr(g.presentation_origin_timerange()), (o + shift, last + shift, 3), where + ": presentation time range")
        ctx.count("final_times")
        ctx.count("presentation_shifts", 1 if shift else 0)
        for _ in range(2):
            v = r_time(rng)
            if media and rng.random() < 0.5:
                v = tsref.at(rng.randint(-1000000, 10000000), media) + rng.choice([0, 0, 1, -1])
            kind = rng.choice(["ts", "off", "range", "range"])
            if kind != "range":
                x = gen.mts(v) if kind == "ts" else TimeOffset(abs(v) // gen.NS, abs(v) % gen.NS, -1 if v < 0 else 1)
                n = g.normalise_time(x)
                want = [v] if media is None else [tsref.at(c, media) for c in tsref.nearest(v, media)]
                ctx.require(tsval(n) in want, where + ": normalised %s %d" % (kind, v), got=n, want=want)
                ctx.require(isinstance(n, type(x)), where + ": type of normalised time", got=type(n))
                ctx.require(media is None or g.normalise_time(n) == n, where + ": normalising twice")
            else:
                w = v + rng.choice([0, 1, rng.randint(0, 10 ** 10)])
                inc = rng.randrange(4)
                x = TimeRange(None if rng.random() < 0.1 else gen.mts(v), None if rng.random() < 0.1 else gen.mts(w), inc)
                n = g.normalise_time(x)
                if media is None:
                    ctx.require(n == x and tr(n) == tr(x), where + ": normalised range without a rate", got=n, want=x)
                elif x.is_empty():
                    continue
                else:
                    a = {tsref.at(c + (0 if inc & 1 else 1), media) for c in tsref.nearest(v, media)} if x.start is not None else {None}
                    b = {tsref.at(c + (1 if inc & 2 else 0), media) for c in tsref.nearest(w, media)} if x.end is not None else {None}
                    if n.is_empty():
                        ctx.require(None not in a | b and min(b) <= max(a), where + ": normalised range empty", range=x)
                    else:
                        # a bound that is open to infinity has no inclusivity to speak of
                        got = tr(n)
                        ctx.require(got[0] in a and got[1] in b and (got[0] is None or got[2] & 1) and (got[1] is None or not got[2] & 2),
                                    where + ": normalised range", range=x, got=n)
            ctx.count("normalised")
        ctx.equal(gen.ts_ns(g.origin_timestamp), o, where + ": origin timestamp changed by asking")
        ctx.count("grains_judged")
        ctx.saw(type(g).__name__, str(media), o > 0, shift > 0, shift < 0)
    ctx.sample(dict(grain=where), 1)


def tile(ctx, rng):
    """a stream of audio grains of n samples each leaves no gap and no overlap"""
    from mediagrains.grains import AudioGrain, CodedAudioGrain
    sr = rng.choice([48000, 44100, 96000, 22050, 11025, 1, 7, rng.randint(1, 200000)])
    first = rng.choice([0, rng.randint(-10 ** 9, 10 ** 9), rng.randint(0, sr * (1 << 31))])
    sizes = rng.choice([[1920], [1601, 1602, 1602], [1], [1024], [rng.randint(1, 5000) for _ in range(3)]])
    cls = rng.choice([AudioGrain, CodedAudioGrain])
    prev, k = None, first
    for i in range(200):
        n = sizes[i % len(sizes)]
        g = cls(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(tsref.at(k, Fraction(sr))), samples=n, channels=1, sample_rate=sr)
        r = g.origin_timerange()
        nr = g.normalise_time(r)
        where = "%s %d of a run, %d samples at %d from sample %d" % (cls.__name__, i, n, sr, k)
        ctx.equal(tr(nr)[:2], (tsref.at(k, Fraction(sr)), tsref.at(k + n, Fraction(sr))), where + ": samples covered")
        ctx.require(abs(gen.ts_ns(r.end) - tsref.at(k + n - 1, Fraction(sr))) <= 1, where + ": last sample", got=r.end)
        if prev is not None:
            ctx.require(nr.start == prev.end and nr.starts_earlier_than_timerange(prev) is False, where + ": gap or overlap", got=nr, want=prev)
        prev = nr
        k += n
        ctx.count("tiles")
    ctx.saw("tile", sr, tuple(sizes), first > 0)
