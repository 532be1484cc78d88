"""N03: every available conversion between video formats gives the samples the conversion is defined to give."""
import copy

from .. import gen, convref
from . import n01

ID = "N03"
LEVEL = "exploration"
RULE = ("All 812 ordered pairs of the 29 convertible formats are executed on hostile pictures (noise, extremes only, saturated corners of the colour cube, values next to the "
        "rounding and clipping limits, gradients) at many sizes with standard and custom source layouts; every output sample is decoded from the bytes of the result by an "
        "independent position map and must lie in the interval an independent reference computes (exact for rearrangement, chroma averaging/duplication and depth "
        "reduction; the upper bits exact for depth increase; the truncated, clipped Rec.709 value for RGB/YUV), for one order of the elementary steps. Pairs "
        "outside the set must raise NotImplementedError. Distinct = (pair, picture kind, layout kind).")
FLOORS = dict(conversions=11000, pairs=2400, samples=1200000, saturated=1300, rounding_at_max=1000, refused=600, identities=58, custom_layouts=1200, chained=500)
PIC = ["noise", "extremes", "corners", "limits", "gradient", "constant"]


def plan(ctx):
    fs = convref.available()
    n = ctx.n(3, 80)
    out = [("%s>%s-%d" % (a, b, j), dict(a=a, b=b)) for j in range(n) for a in fs for b in fs if a != b]
    return out + [("refused-%d" % j, dict(refused=j)) for j in range(ctx.n(6, 60))] + [("same-%s" % f, dict(same=f)) for f in fs]


def picture(rng, f, w, h, how):
    import numpy as np
    bits = convref.kind(f)[0]
    top = (1 << bits) - 1
    r = np.random.default_rng(rng.getrandbits(64))
    out = {}
    near = [0, 1, 2, 3, top, top - 1, top - 2, top - 3, 1 << (bits - 1), (1 << (bits - 1)) - 1]
    for k in range(2, bits):
        near += [(1 << k) - 1, 1 << k, top - (1 << k) + 1, top - (1 << k), top - (1 << (k - 1)), top - (1 << (k - 1)) + 1]
    near = np.array([v for v in near if 0 <= v <= top], dtype=np.int64)
    for n in convref.comp_names(f):
        cw, ch = convref.size(f, w, h, n)
        if how == "noise":
            a = r.integers(0, top + 1, (ch, cw))
        elif how == "extremes":
            a = r.integers(0, 2, (ch, cw)) * top
        elif how == "corners":
            a = np.where(r.random((ch, cw)) < 0.5, r.integers(0, 2, (ch, cw)) * top, r.integers(0, top + 1, (ch, cw)))
        elif how == "limits":
            a = near[r.integers(0, len(near), (ch, cw))]
        elif how == "gradient":
            a = (np.arange(ch)[:, None] * rng.randint(1, 7) + np.arange(cw)[None, :] * max(1, top // max(1, cw))) % (top + 1)
        else:
            a = np.full((ch, cw), rng.choice([0, top, rng.randint(0, top), int(near[rng.randrange(len(near))])]))
        out[n] = a.astype(np.int64)
    return out


def source(rng, f, w, h, samples):
    """(grain, components, kind)"""
    from mediagrains import numpy as mnp
    if f == "v210" or rng.random() < 0.6:
        comps, kind = [list(c) for c in gen.video_layout(f, w, h)], "standard"
        total = gen.video_size(f, w, h)
    else:
        comps, total, kind = n01.r_layout(rng, f, w, h)
    d = gen.r_desc(rng, "video")
    data = bytearray(rng.randbytes(total))
    if f == "v210":
        data = bytearray(total)
    d.update(fmt=gen.FRAME[f], width=w, height=h, components=[tuple(c) for c in comps], data=b"")
    convref.encode(f, w, h, comps, samples, data)
    g = mnp.VideoGrain(meta=gen.meta_of(d), data=bytes(data) if rng.random() < 0.3 else data)
    return g, comps, kind


def r_size(rng, a, b):
    ss = {convref.kind(f)[1] for f in (a, b)}
    w = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 16, 24, 46, 48, 50, 96, 98, rng.randint(1, 40)])
    h = rng.choice([1, 2, 2, 3, 4, 6, rng.randint(1, 8)])
    if ss & {"422", "420"}:
        w += w % 2
    if "420" in ss:
        h += h % 2
    return w, h


def judge(ctx, f1, f2, w, h, samples, out, where):
    """out: the grain converted"""
    import numpy as np
    from mediagrains.cogenums import CogFrameFormat
    ctx.require(out.cog_frame_format is CogFrameFormat(gen.FRAME[f2]), where + ": format of the result", got=out.cog_frame_format)
    ctx.equal((out.width, out.height), (w, h), where + ": dimensions")
    comps = [(c.width, c.height, c.stride, c.offset, c.length) for c in out.components]
    data = gen.data_bytes(out.data)
    want_len = gen.video_size(f2, w, h)
    ctx.equal(comps, [tuple(c) for c in gen.video_layout(f2, w, h)], where + ": components of the result")
    ctx.equal(len(data), want_len, where + ": amount of data")
    got = convref.decode(f2, w, h, comps, data)
    bits = convref.kind(f2)[0]
    best = None
    for order, ref in convref.references(f1, f2, samples):
        bad = []
        for n, (lo, hi) in ref.items():
            m = (got[n] < lo) | (got[n] > hi)
            if m.any():
                y, x = (int(v) for v in np.argwhere(m)[0])
                bad.append(dict(component=n, x=x, y=y, got=int(got[n][y, x]), low=int(lo[y, x]), high=int(hi[y, x]), wrong=int(m.sum()), of=int(m.size), steps=order))
        if not bad:
            best = []
            break
        if best is None or len(bad) < len(best):
            best = bad
    if best:
        b = best[0]
        src = {n: int(v[min(b["y"] * v.shape[0] // got[b["component"]].shape[0], v.shape[0] - 1),
                        min(b["x"] * v.shape[1] // got[b["component"]].shape[1], v.shape[1] - 1)]) for n, v in samples.items()}
        ctx.fail("%s: %s(%d,%d) is %d, defined to be in [%d, %d]" % (where, b["component"], b["x"], b["y"], b["got"], b["low"], b["high"]), source=src, all=best)
    for n, v in got.items():
        ctx.require(int(v.max()) >> bits == 0, where + ": sample of %s outside the range of the format" % n, got=int(v.max()))
        ctx.count("samples", v.size)
    return got


def case(ctx, rng, key, p):
    import numpy as np
    from mediagrains.cogenums import CogFrameFormat
    np.random.seed(rng.getrandbits(32))
    if "refused" in p:
        return refused(ctx, rng)
    if "same" in p:
        return same(ctx, rng, p["same"])
    a, b = p["a"], p["b"]
    ctx.count("pairs")
    for i in range(5):
        w, h = r_size(rng, a, b)
        how = PIC[i] if i < 4 else rng.choice(PIC)
        samples = picture(rng, a, w, h, how)
        g, comps, lay = source(rng, a, w, h, samples)
        before = gen.data_bytes(g.data)
        back = convref.decode(a, w, h, comps, before)
        assert all((back[n] == samples[n]).all() for n in samples)
        where = "%s>%s %dx%d (%s, %s layout)" % (a, b, w, h, how, lay)
        if a == "v210" and rng.random() < 0.5:
            # padding words and the two top bits are not samples
            words = np.frombuffer(bytearray(before), dtype="<u4")
            g.data = (words | (rng.randint(0, 3) << 30)).astype("<u4")
        out = (g.asformat if rng.random() < 0.3 else g.convert)(CogFrameFormat(gen.FRAME[b]))
        got = judge(ctx, a, b, w, h, samples, out, where)
        ctx.count("conversions")
        ctx.count("custom_layouts", int(lay == "custom"))
        if (convref.kind(a)[1] == "RGB") != (convref.kind(b)[1] == "RGB") and how in ("extremes", "corners"):
            ctx.count("saturated")
        if convref.kind(b)[0] < convref.kind(a)[0] and how in ("extremes", "limits"):
            ctx.count("rounding_at_max")
        ctx.saw(a, b, how, lay)
        if rng.random() < 0.1:
            c = rng.choice([f for f in convref.available() if f != b])
            if r_ok(b, c, w, h):
                judge(ctx, b, c, w, h, got, out.convert(CogFrameFormat(gen.FRAME[c])), where + " then " + c)
                ctx.count("chained")


def r_ok(a, b, w, h):
    ss = {convref.kind(f)[1] for f in (a, b)}
    return not (ss & {"422", "420"} and w % 2 or "420" in ss and h % 2)


def refused(ctx, rng):
    from mediagrains import numpy as mnp
    from mediagrains.cogenums import CogFrameFormat
    ok = set(convref.available())
    raw = ok | {"RGBA", "ARGB", "BGRA", "ABGR", "AYUV"}
    values = list(CogFrameFormat)
    for a in sorted(raw):
        g = mnp.VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), cog_frame_format=CogFrameFormat(gen.FRAME[a]), width=16, height=4)
        for v in rng.sample(values, 12):
            if v.name in ok and a in ok or v == g.cog_frame_format:
                continue
            before = copy.deepcopy(g.meta), gen.data_bytes(g.data)
            ctx.raises(NotImplementedError, lambda: rng.choice([g.convert, g.asformat])(v), "%s to %s, which is not available" % (a, v.name))
            ctx.require((g.meta, gen.data_bytes(g.data)) == before, "grain changed by a refused conversion")
            ctx.count("refused")


def same(ctx, rng, f):
    from mediagrains.cogenums import CogFrameFormat
    fmt = CogFrameFormat(gen.FRAME[f])
    for _ in range(4):
        w, h = r_size(rng, f, f)
        samples = picture(rng, f, w, h, rng.choice(PIC))
        g, comps, lay = source(rng, f, w, h, samples)
        where = "%s to itself (%s layout)" % (f, lay)
        ctx.require(g.asformat(fmt) is g, where + ": asformat made another grain")
        c = g.convert(fmt)
        ctx.require(c is not g and c.meta is not g.meta and c == g, where + ": convert did not make an equal copy")
        ctx.equal(c.meta, g.meta, where + ": metadata")
        ctx.equal(gen.data_bytes(c.data), gen.data_bytes(g.data), where + ": data")
        ctx.require(not __import__("numpy").shares_memory(c.data, g.data), where + ": the copy shares the data")
        ctx.count("identities")
