"""C04: PSNR values equal their mathematical definition."""
import math
import struct
import warnings

from .. import gen, psnrref
from . import c01, m03, n01

ID = "C04"
LEVEL = "exploration"
RULE = ("compute_psnr is executed on pairs of grains of every raw video format (all but v210) and every PCM audio format - byte and numpy grains, standard and differently padded "
        "layouts, random, extreme, constant, single-sample and tiny differences, identical data, explicit peak values - and compared per component or channel with a "
        "reference that sums exact integers or fractions decoded from the bytes by an independent position map; arguments are exchanged, grains snapshotted, and "
        "pairs that cannot be compared (types, sizes, channels, formats, depths, subsampling, colour order, v210, compressed, no data) must raise. "
        "Distinct = (format, kind of difference, kinds of grain).")
FLOORS = dict(video=2500, audio=2200, infinite=4000, refused=1800, mixed_layouts=900, peaks=1000, same_arrangement=600)
ASSUMPTIONS = ["floating point samples of magnitude below 2^20 (squares of larger errors lose precision or overflow)"]
VIDEO = gen.PLANAR + [f for f in gen.PACKED if f != "v210"] + ["AYUV"]
# formats whose components correspond sample by sample
ALIKE = [("U8_422", "YUYV", "UYVY"), ("S16_422", "v216"), ("U8_444_RGB", "RGB", "RGBx", "xRGB", "RGBA", "ARGB"), ("BGRx", "xBGR", "BGRA", "ABGR"), ("U8_444", "AYUV")]
KINDS = ["random", "random", "extremes", "single", "single", "tiny", "same", "constant"]


def plan(ctx):
    n = ctx.n(30, 800)
    return [("%s-%d" % (f, j), dict(video=f)) for f in VIDEO for j in range(n)] + [("%s-%d" % (f, j), dict(audio=f)) for f in gen.PCM for j in range(2 * n)] \
        + [("refused-%d" % j, dict(refused=True)) for j in range(ctx.n(40, 1000))]


def r_video(rng, f, w, h):
    """metadata, components and layout kind"""
    comps, total, kind = n01.r_layout(rng, f, w, h)
    d = gen.r_desc(rng, "video")
    d.update(fmt=gen.FRAME[f], width=w, height=h, components=[tuple(c) for c in comps], data=b"")
    return d, comps, total, kind


def mask(f, data):
    """leave only valid samples"""
    bits = psnrref.video_bits(f)
    if f in gen.PLANAR and bits in (10, 12):
        for i in range(1, len(data), 2):
            data[i] &= (1 << (bits - 8)) - 1
    return data


def grain(rng, d, data):
    from mediagrains import grains as mg
    from mediagrains import numpy as mnp
    form = rng.choice([bytes, bytearray, memoryview, c01.wraps()["array"], c01.wraps()["lazy"]])
    lib = mnp if rng.random() < 0.4 else mg
    meta = gen.meta_of(d)
    return (lib.VideoGrain if d["type"] == "video" else lib.AudioGrain)(meta, form(bytes(data))), lib is mnp


def judge(ctx, a, b, want, where, **kw):
    from mediagrains.comparison import compute_psnr
    sa, sb = m03.snap(a), m03.snap(b)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        got, back = compute_psnr(a, b, **kw), compute_psnr(b, a, **kw)
    ctx.require(m03.snap(a) == sa and m03.snap(b) == sb, where + ": grains changed")
    ctx.require(len(got) == len(want) and all(psnrref.close(x, y) for x, y in zip(got, want)), where + ": PSNR", got=got, want=want)
    ctx.require(len(back) == len(want) and all(psnrref.close(x, y) for x, y in zip(back, want)), where + ": PSNR of the grains exchanged", got=back, want=want)
    ctx.count("infinite", sum(math.isinf(x) for x in want))


def case(ctx, rng, key, p):
    if p.get("video"):
        for _ in range(5):
            video(ctx, rng, p["video"])
    elif p.get("audio"):
        for _ in range(5):
            audio(ctx, rng, p["audio"])
    else:
        refused(ctx, rng)


def video(ctx, rng, f):
    w, h = 2 * rng.randint(1, 8), 2 * rng.randint(1, 5)
    d, comps, total, lay = r_video(rng, f, w, h)
    e, comps2, total2, lay2 = (d, comps, total, lay) if rng.random() < 0.5 else r_video(rng, f, w, h)
    kind = rng.choice(KINDS)
    bits = psnrref.video_bits(f)
    x = mask(f, bytearray(rng.randbytes(total)))
    y = mask(f, bytearray(rng.randbytes(total2)))
    if kind != "random":
        # the same picture in the other layout, then the difference
        b = n01.sample_bytes(f)
        for n in n01.names(f):
            cw, ch = n01.size(f, comps, n)
            for j in range(ch):
                for i in range(cw):
                    s, t = n01.position(f, comps, n, i, j), n01.position(f, comps2, n, i, j)
                    if kind == "extremes":
                        for z, q in ((x, s), (y, t)):
                            z[q:q + b] = (rng.choice([0, (1 << bits) - 1])).to_bytes(b, "little")
                    elif kind == "constant":
                        x[s:s + b], y[t:t + b] = bytes(b), ((1 << bits) - 1).to_bytes(b, "little")
                    else:
                        y[t:t + b] = x[s:s + b]
        if kind in ("single", "tiny"):
            for _ in range(1 if kind == "single" else 5):
                n = rng.choice(n01.names(f))
                cw, ch = n01.size(f, comps, n)
                i, j = rng.choice([(rng.randrange(cw), rng.randrange(ch)), (0, 0), (cw - 1, ch - 1)])
                t = n01.position(f, comps2, n, i, j)
                v = int.from_bytes(y[t:t + b], "little")
                v = v ^ 1 if kind == "tiny" else rng.choice([0, (1 << bits) - 1, rng.randrange(1 << bits)])
                y[t:t + b] = v.to_bytes(b, "little")
    (a, na), (c, nc) = grain(rng, d, x), grain(rng, e, y)
    where = "%s %dx%d %s (%s/%s layout)" % (f, w, h, kind, lay, lay2)
    kw = {}
    if rng.random() < 0.25:
        kw["max_val"] = rng.choice([1, 235, 940, 219.5, (1 << bits)])
        ctx.count("peaks")
    judge(ctx, a, c, psnrref.video(f, comps, x, comps2, y, kw.get("max_val")), where, **kw)
    ctx.count("video")
    ctx.count("mixed_layouts", int(comps != comps2))
    ctx.saw(f, kind, lay, lay2, na, nc, bool(kw))
    # another format of the same arrangement
    for group in ALIKE:
        if f in group and rng.random() < 0.5:
            g = rng.choice([k for k in group if k != f])
            e, comps2, total2, lay2 = r_video(rng, g, w, h)
            y = bytearray(rng.randbytes(total2))
            c, _ = grain(rng, e, y)
            want = [psnrref.psnr(sum(int(v) ** 2 for v in (s - t).ravel()), s.size, (1 << bits) - 1)
                    for s, t in zip(psnrref.video_samples(f, comps, x), psnrref.video_samples(g, comps2, y))]
            judge(ctx, a, c, want, "%s against %s" % (f, g))
            ctx.count("same_arrangement")


def audio(ctx, rng, f):
    channels, samples = rng.randint(1, 6), rng.choice([1, 2, 3, 7, 16, rng.randint(1, 40)])
    d = gen.r_desc(rng, "audio")
    d.update(fmt=gen.AUDIO[f], channels=channels, samples=samples)
    n, b, k = gen.audio_size(f, channels, samples), gen.audio_sample_bytes(f), f.split("_")[0]
    kind = rng.choice(KINDS)

    def sample():
        if k in ("FLOAT", "DOUBLE"):
            return struct.pack("<f" if k == "FLOAT" else "<d", rng.choice([0.0, -0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1e-6, 1e-6),
                                                                           rng.uniform(-(1 << 20), 1 << 20)]))
        return rng.choice([rng.randbytes(b), rng.randbytes(b), bytes(b), b"\xff" * b, b"\xff" * (b - 1) + b"\x7f", bytes(b - 1) + b"\x80"])
    x = bytearray(b"".join(sample() for _ in range(n // b)))
    y = bytearray(x)
    if kind in ("random", "extremes"):
        y = bytearray(b"".join(sample() for _ in range(n // b)))
    elif kind in ("single", "tiny"):
        i = b * rng.randrange(n // b)
        y[i:i + b] = sample()
    elif kind == "constant":
        s, t = sample(), sample()
        x, y = bytearray(s * (n // b)), bytearray(t * (n // b))
    if rng.random() < 0.2:
        x += rng.randbytes(b)
    e = gen.r_desc(rng, "audio")
    e.update({q: d[q] for q in ("fmt", "channels", "samples")})
    (a, na), (c, nc) = grain(rng, d, x), grain(rng, e, y)
    kw = {}
    if rng.random() < 0.25:
        kw["max_val"] = rng.choice([1, 2.5, 1 << 15, 1 << 31])
        ctx.count("peaks")
    peak = kw.get("max_val")
    if peak is not None and k == "S24":
        peak = peak / 256      # channel data is widened to 32 bits
    judge(ctx, a, c, psnrref.audio(f, channels, samples, x, y, peak), "%s %dx%d %s" % (f, channels, samples, kind), **kw)
    ctx.count("audio")
    ctx.saw(f, kind, channels, na, nc, bool(kw))


def refused(ctx, rng):
    from mediagrains import grains as mg
    from mediagrains.comparison import compute_psnr
    group = {f: i for i, g in enumerate(ALIKE) for f in g}

    def vid(f, w=8, h=4):
        d, comps, total, _ = r_video(rng, f, w, h)
        return grain(rng, d, mask(f, bytearray(rng.randbytes(total))))[0]

    def aud(f, ch=2, n=4):
        d = gen.r_desc(rng, "audio")
        d.update(fmt=gen.AUDIO[f], channels=ch, samples=n)
        return grain(rng, d, bytes(gen.audio_size(f, ch, n)))[0]

    def bad(a, b, what):
        sa, sb = m03.snap(a), m03.snap(b)
        for x, y in ((a, b), (b, a)):
            ctx.raises((AttributeError, NotImplementedError), lambda: compute_psnr(x, y), "PSNR of " + what)
        ctx.require(m03.snap(a) == sa and m03.snap(b) == sb, "grains changed by a refused PSNR")
        ctx.count("refused", 2)
        ctx.saw("refused", what)

    for _ in range(6):
        f, g = rng.choice(VIDEO), rng.choice(VIDEO)
        if f != g and (f not in group or group.get(f) != group.get(g)):
            bad(vid(f), vid(g), "%s and %s" % (f, g))
        bad(vid(f), vid(f, 10), "frames of different widths (%s)" % f)
        bad(vid(f), vid(f, 8, 6), "frames of different heights (%s)" % f)
        s, t = rng.choice(gen.PCM), rng.choice(gen.PCM)
        if s != t:
            bad(aud(s), aud(t), "%s and %s" % (s, t))
        bad(aud(s), aud(s, 3), "different channel counts (%s)" % s)
        bad(aud(s), aud(s, 2, 5), "different sample counts (%s)" % s)
        bad(vid(f), aud(s), "video and audio")
    for t in ("event", "coded_video", "coded_audio", "empty"):
        d = gen.r_desc(rng, t)
        bad(gen.build(d), gen.build(d), t + " grains")
    f = rng.choice(gen.CODED_FRAME)
    d = dict(gen.r_desc(rng, "video"), fmt=gen.FRAME[f], data=b"abcd")
    bad(gen.build(d), gen.build(dict(d, data=b"abce")), "compressed frames (%s)" % f)
    f = rng.choice(gen.CODED_AUDIO)
    d = dict(gen.r_desc(rng, "audio"), fmt=gen.AUDIO[f], data=b"abcd")
    bad(gen.build(d), gen.build(dict(d, data=b"abce")), "compressed audio (%s)" % f)
    # v210 has no component access
    w, h = 2 * rng.randint(1, 40), rng.randint(1, 3)
    d = dict(gen.r_desc(rng, "video"), fmt=gen.FRAME["v210"], width=w, height=h, components=gen.video_layout("v210", w, h))
    bad(grain(rng, d, rng.randbytes(gen.video_size("v210", w, h)))[0], grain(rng, d, rng.randbytes(gen.video_size("v210", w, h)))[0], "v210 frames")
    f, s = rng.choice(VIDEO), rng.choice(gen.PCM)
    for a in (vid(f), aud(s)):
        b = type(a)(meta=a.meta, data=bytes(gen.data_bytes(a.data)))
        b.data = None
        bad(a, b, "grains without data")
