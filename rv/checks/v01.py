"""V01: component layouts of new video grains and the sizes of raw video and audio grains."""
from fractions import Fraction

from .. import gen

ID = "V01"
LEVEL = "exploration"
RULE = ("New grains of every raw YUV and RGB frame format (plain and numpy class) over small, ragged and full-size frames, and of every raw audio format over "
        "channel and sample counts, are compared with an independent table of the formats' layouts: dimensions, stride, offset and length of every component, "
        "contiguity from the start of the buffer, allocated, reported and expected lengths; also after a GSF round trip, copies and with data given by the "
        "caller. Frame widths that chroma subsampling does not divide are held to contiguity, bounds and agreement of the lengths. The format helpers of cogenums are asked about every format. "
        "Distinct = (format, size, class).")
FLOORS = dict(video_grains=8000, audio_grains=3000, components=20000, ragged=1000, round_trips=500, numpy_grains=2000, helpers=60, spread=2200)
FORMATS = gen.PLANAR + gen.PACKED + ["AYUV"]
SIZES = [(0, 0), (2, 0), (0, 2), (2, 2), (4, 2), (2, 4), (6, 4), (46, 2), (48, 2), (50, 4), (96, 2), (98, 2), (16, 9 * 2), (1920, 2), (720, 576), (1280, 720)]


def plan(ctx):
    c = [("sizes-" + f, dict(kind="sizes", fmt=f)) for f in FORMATS]
    c += [("random-%s-%d" % (f, j), dict(kind="random", fmt=f)) for f in FORMATS for j in range(ctx.n(2, 40))]
    c += [("audio-%s-%d" % (f, j), dict(kind="audio", fmt=f)) for f in gen.PCM for j in range(ctx.n(2, 40))]
    c += [("coded", dict(kind="coded")), ("helpers", dict(kind="helpers"))]
    return c


def subsampling(f):
    if f in ("YUYV", "UYVY", "v216", "v210"):
        return 2, 1
    pi = gen.planar_info(f)
    return (1 << pi[2], 1 << pi[3]) if pi else (1, 1)


def judge(ctx, g, f, w, h, where, data_len=None):
    got = [(c.width, c.height, c.stride, c.offset, c.length) for c in g.components]
    total = max([c[3] + c[4] for c in got], default=0)
    hs, vs = subsampling(f)
    if w % hs == 0 and h % vs == 0:
        want = gen.video_layout(f, w, h)
        ctx.equal(got, want, where + ": components")
        ctx.equal(total, gen.video_size(f, w, h), where + ": end of the last component")
    else:
        ctx.equal(len(got), len(gen.video_layout(f, 4, 4)), where + ": number of components")
        ctx.equal(got[0][:2], (w, h), where + ": size of the first component")
        for cw, ch, stride, off, ln in got:
            ctx.require(stride * ch <= ln and cw <= stride and (abs(cw - w / hs) < 1 or cw == w) and (abs(ch - h / vs) < 1 or ch == h), where + ": component", got=got)
        ctx.count("ragged")
    at = 0
    for cw, ch, stride, off, ln in got:
        ctx.require(off == at and min(cw, ch, stride, ln) >= 0 and all(type(x) is int for x in (cw, ch, stride, off, ln)), where + ": components are not contiguous",
                    got=got)
        at += ln
        ctx.count("components")
    ctx.equal([dict(c) for c in g.components], g.meta["grain"]["cog_frame"]["components"], where + ": components in the metadata")
    ctx.equal((g.width, g.height, int(g.cog_frame_format)), (w, h, gen.FRAME[f]), where + ": size and format")
    ctx.equal(g.expected_length, total, where + ": expected length")
    n = total if data_len is None else data_len
    ctx.equal(len(gen.data_bytes(g.data)), n, where + ": length of the data")
    ctx.equal(g.length, n, where + ": length")
    ctx.count("video_grains")


def new_video(rng, f, w, h, **kw):
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout
    cls = kw.pop("cls", mg.VideoGrain)
    fmt = CogFrameFormat(gen.FRAME[f])
    a = dict(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), cog_frame_format=fmt, width=w, height=h)
    if rng.random() < 0.5:
        a.update(cog_frame_layout=CogFrameLayout(rng.choice(list(gen.LAYOUT.values()))), rate=gen.r_rate(rng), duration=gen.r_rate(rng),
                 origin_timestamp=gen.mts(gen.r_ts(rng)))
    a.update(kw)
    return cls(**a)


def case(ctx, rng, key, p):
    return globals()["case_" + p["kind"]](ctx, rng, p)


def video(ctx, rng, f, w, h):
    from mediagrains import numpy as mnp
    where = "new %s %dx%d" % (f, w, h)
    judge(ctx, new_video(rng, f, w, h), f, w, h, where)
    hs, vs = subsampling(f)
    if w and h and w % hs == 0 and h % vs == 0:
        g = new_video(rng, f, w, h, cls=mnp.VideoGrain)
        judge(ctx, g, f, w, h, "numpy " + where)
        ctx.count("numpy_grains")
        if w * h < 100000:
            import copy
            b = rng.randbytes(gen.video_size(f, w, h))
            judge(ctx, new_video(rng, f, w, h, data=b), f, w, h, where + " with data")
            judge(ctx, copy.copy(g), f, w, h, where + " copied")
            judge(ctx, copy.deepcopy(g), f, w, h, where + " deep copied")
    if w * h < 10000:
        spread(ctx, rng, new_video(rng, f, w, h), where)
        n = rng.randint(0, 50)
        judge(ctx, new_video(rng, f, w, h, data=bytes(n)), f, w, h, where + " with %d bytes" % n, n)
        if rng.random() < 0.3:
            import io
            from mediagrains.gsf import GSFEncoder, loads
            out = io.BytesIO()
            with GSFEncoder(out) as enc:
                enc.add_grain(new_video(rng, f, w, h))
            (r,) = list(loads(out.getvalue())[1].values())[0]
            judge(ctx, r, f, w, h, where + " read from a file")
            ctx.count("round_trips")
    ctx.saw(f, w, h)


def case_sizes(ctx, rng, p):
    f = p["fmt"]
    for w, h in SIZES:
        video(ctx, rng, f, w, h)
    for w in range(0, ctx.n(20, 100)):
        for h in range(0, ctx.n(5, 12)):
            video(ctx, rng, f, w, h)
    if ctx.thorough or f in ("S16_422_10BIT", "v210", "U8_444"):
        video(ctx, rng, f, 3840, 2160)


def case_random(ctx, rng, p):
    for _ in range(20):
        w = rng.choice([rng.randint(0, 200), 2 * rng.randint(0, 200), 48 * rng.randint(0, 40), 6 * rng.randint(0, 100), rng.randint(0, 5000)])
        h = rng.choice([rng.randint(0, 20), 2 * rng.randint(0, 100)])
        if w > 2000:
            h = min(h, 12)
        video(ctx, rng, p["fmt"], w, h)


def case_audio(ctx, rng, p):
    from mediagrains import grains as mg
    from mediagrains import numpy as mnp
    from mediagrains.cogenums import CogAudioFormat
    f = p["fmt"]
    for _ in range(60):
        ch = rng.choice([0, 1, 2, 3, 5, 6, 8, 16, rng.randint(0, 64)])
        n = rng.choice([0, 1, 2, 3, 160, 1024, 1920, 1601, rng.randint(0, 5000)])
        want = gen.audio_size(f, ch, n)
        for cls in (mg.AudioGrain, mnp.AudioGrain):
            where = "new %s.%s %s, %d channels, %d samples" % (cls.__module__.split(".")[1], cls.__name__, f, ch, n)
            kw = dict(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), cog_audio_format=CogAudioFormat(gen.AUDIO[f]), channels=ch, samples=n,
                      sample_rate=rng.choice([48000, 44100, 1, 0]))
            if rng.random() < 0.3:
                kw["data"] = bytes(want)
            g = cls(**kw)
            ctx.equal(g.expected_length, want, where + ": expected length")
            ctx.equal(g.length, want, where + ": length")
            ctx.equal(len(gen.data_bytes(g.data)), want, where + ": length of the data")
            ctx.equal((g.channels, g.samples, int(g.cog_audio_format)), (ch, n, gen.AUDIO[f]), where + ": format")
            # the expected length follows the attributes
            if cls is mg.AudioGrain:
                f2, ch2, n2 = rng.choice(gen.PCM), rng.randint(0, 20), rng.randint(0, 100)
                g.channels, g.samples, g.cog_audio_format = ch2, n2, CogAudioFormat(gen.AUDIO[f2])
                ctx.equal(g.expected_length, gen.audio_size(f2, ch2, n2), where + ": expected length after changing to %s, %d channels, %d samples" % (f2, ch2, n2))
                ctx.equal(g.length, want, where + ": length after changing the attributes")
            ctx.count("audio_grains")
        ctx.saw(f, ch % 2, n == 0, ch == 0)


def spread(ctx, rng, g, where):
    """however the components lie in the buffer, the expected length is where the last one ends"""
    at = 0
    spans = []
    for c in g.components:
        c.offset = rng.choice([at, at + rng.randint(0, 64), rng.randint(0, 500)])
        c.length = rng.randint(0, 300)
        at = c.offset + c.length
        spans.append(at)
    ctx.equal(g.expected_length, max(spans, default=0), where + ": expected length of components lying elsewhere")
    ctx.count("spread")


def case_helpers(ctx, rng, p):
    """what the format helpers of cogenums say about every format"""
    from mediagrains import cogenums as ce
    for name, code in gen.FRAME.items():
        if name in ("UNKNOWN", "INVALID"):
            continue
        f = ce.CogFrameFormat(code)
        pi, coded, alpha = gen.planar_info(name), name in gen.CODED_FRAME, name in gen.ALPHA
        packed = name in gen.PACKED or name == "AYUV"
        want = dict(PACKED=packed, COMPRESSED=coded, PLANAR=bool(pi) or alpha, ALPHA=alpha, PLANAR_RGB=bool(pi and pi[4]))
        for k, v in want.items():
            ctx.equal(bool(getattr(ce, "COG_FRAME_IS_" + k)(f)), v, "COG_FRAME_IS_%s(%s)" % (k, name))
        if pi:
            bits, bps, hs, vs, rgb = pi
            ctx.equal((ce.COG_FRAME_FORMAT_ACTIVE_BITS(f), ce.COG_FRAME_FORMAT_BYTES_PER_VALUE(f), int(ce.COG_FRAME_FORMAT_H_SHIFT(f)), int(ce.COG_FRAME_FORMAT_V_SHIFT(f))),
                      (bits, bps, hs, vs), "active bits, bytes per value and subsampling shifts of %s" % name)
            chroma = ce.PlanarChromaFormat.RGB if rgb else getattr(ce.PlanarChromaFormat, "YUV_4" + ("44" if not hs else "20" if vs else "22"))
            g = ce.COG_PLANAR_FORMAT(chroma, bits)
            ctx.require(g is f, "COG_PLANAR_FORMAT(%s, %d)" % (chroma.name, bits), got=repr(g), want=name)
        elif not coded and not alpha:
            ctx.equal(ce.COG_FRAME_FORMAT_ACTIVE_BITS(f), {"v210": 10, "v216": 16}.get(name, 8), "active bits of " + name)
        ctx.count("helpers")
    for name, code in gen.AUDIO.items():
        if name in ("UNKNOWN", "INVALID", "S64_INVALID"):
            continue
        f = ce.CogAudioFormat(code)
        raw = name in gen.PCM
        ctx.equal(bool(ce.COG_AUDIO_IS_COMPRESSED(f)), not raw, "COG_AUDIO_IS_COMPRESSED(%s)" % name)
        if raw:
            want = dict(PLANES=ce.COG_AUDIO_IS_PLANES, PAIRS=ce.COG_AUDIO_IS_PAIRS, INTERLEAVED=ce.COG_AUDIO_IS_INTERLEAVED)
            for k, fn in want.items():
                ctx.equal(bool(fn(f)), name.endswith(k), "COG_AUDIO_IS_%s(%s)" % (k, name))
            kind = name.split("_")[0]
            for k, is_it in (("INT", kind[0] == "S"), ("FLOAT", kind == "FLOAT"), ("DOUBLE", kind == "DOUBLE")):
                ctx.equal(bool(getattr(ce, "COG_AUDIO_IS_" + k)(f)), is_it, "COG_AUDIO_IS_%s(%s)" % (k, name))
            bits = {"S16": 16, "S24": 24, "S32": 32, "FLOAT": 32, "DOUBLE": 64}[kind]
            ctx.equal(ce.COG_AUDIO_FORMAT_DEPTH(f), getattr(ce, "COG_AUDIO_FORMAT_DEPTH_S%d" % bits), "COG_AUDIO_FORMAT_DEPTH(%s)" % name)
            # a sample of 24 bits takes four bytes in planes
            ctx.equal(ce.COG_AUDIO_FORMAT_SAMPLEBYTES(f), 4 if name == "S24_PLANES" else bits // 8, "COG_AUDIO_FORMAT_SAMPLEBYTES(%s)" % name)
        ctx.count("helpers")


def case_coded(ctx, rng, p):
    """coded grains: no format defines a size; they hold what they are given"""
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogFrameFormat, CogAudioFormat
    for _ in range(200):
        b = rng.randbytes(rng.randint(0, 60))
        g = mg.CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), data=b, cog_frame_format=CogFrameFormat(gen.FRAME[rng.choice(gen.CODED_FRAME)]))
        ctx.equal((g.length, bytes(g.data)), (len(b), b), "length of a coded video grain")
        n = rng.randint(0, 100)
        g = mg.CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), length=n)
        ctx.equal((g.length, len(g.data)), (n, n), "length of a coded video grain made with a length")
        g = mg.CodedAudioGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), data=b, cog_audio_format=CogAudioFormat(gen.AUDIO[rng.choice(gen.CODED_AUDIO)]),
                               rate=Fraction(48000, 1024))
        ctx.equal((g.length, bytes(g.data)), (len(b), b), "length of a coded audio grain")
