"""N01: component arrays of numpy video grains alias exactly the samples of their component."""
import asyncio
import copy

from .. import convref, gen

ID = "N01"
LEVEL = "exploration"
RULE = ("Numpy video grains of every raw format, made every way (constructor, metadata, from a plain grain, data arriving later, copies, conversions, new data "
        "assigned, components edited), with standard and custom layouts (padded lines, gaps, trailing bytes, reordered planes), are judged sample by sample "
        "against an independent map from (component, x, y) to byte position: values read, single writes through the arrays (exactly those bytes change) and "
        "through the buffer (exactly that sample changes), dimensions, names, and memory bounds of every view; buffers shorter than the layout must never "
        "yield a view that reaches outside. Distinct = (format, way made, layout kind).")
FLOORS = dict(grains=2500, samples_read=200000, array_writes=10000, buffer_writes=5000, custom_layouts=600, short_buffers=300, later_views=400)
FORMATS = gen.PLANAR + [f for f in gen.PACKED if f != "v210"] + ["AYUV"]
ORDER = dict(YUYV="Y0U0Y1V0", UYVY="U0Y0V0Y1", v216="U0Y0V0Y1", RGB="RGB", RGBx="RGBx", RGBA="RGBx", xRGB="xRGB", ARGB="xRGB", BGRx="BGRx", BGRA="BGRx",
             xBGR="xBGR", ABGR="xBGR", AYUV="xYUV")


def plan(ctx):
    n = ctx.n(5, 120)
    return [("%s-%d" % (f, j), dict(fmt=f)) for f in FORMATS for j in range(n)] + [("v210-%d" % j, dict(fmt="v210")) for j in range(n)]


def names(f):
    """component names in the order of component_data"""
    if f in gen.PLANAR:
        return "RGB" if gen.planar_info(f)[4] else "YUV"
    if f in ("YUYV", "UYVY", "v216", "AYUV"):
        return "YUV"
    return "BGR" if "BGR" in ORDER[f] else "RGB"


def sample_bytes(f):
    return gen.planar_info(f)[1] if f in gen.PLANAR else 2 if f == "v216" else 1


def position(f, comps, name, x, y):
    """byte position of a sample"""
    if f in gen.PLANAR:
        c = comps[names(f).index(name)]
        return c[3] + y * c[2] + x * sample_bytes(f)
    c, b, o = comps[0], sample_bytes(f), ORDER[f]
    if f in ("YUYV", "UYVY", "v216"):
        units = [o[i:i + 2] for i in range(0, 8, 2)]     # one pair of pixels
        if name == "Y":
            k, pair = units.index("Y%d" % (x % 2)), x // 2
        else:
            k, pair = units.index(name + "0"), x
        return c[3] + y * c[2] + (pair * 4 + k) * b
    return c[3] + y * c[2] + (x * len(o) + o.index(name)) * b


def size(f, comps, name):
    if f in gen.PLANAR:
        return comps[names(f).index(name)][:2]
    w, h = comps[0][:2]
    return (w // 2, h) if f in ("YUYV", "UYVY", "v216") and name != "Y" else (w, h)


def r_layout(rng, f, w, h):
    """(components, total length, kind)"""
    comps = [list(c) for c in gen.video_layout(f, w, h)]
    if rng.random() < 0.45:
        return comps, sum(c[4] for c in comps), "standard"
    b = sample_bytes(f)
    order = list(range(len(comps)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    at = b * rng.choice([0, 0, 1, 4, rng.randint(0, 20)])
    for i in order:
        c = comps[i]
        c[2] += b * rng.choice([0, 0, 2, 4, rng.randint(0, 30)])
        c[3] = at
        c[4] = c[2] * c[1]
        at += c[4] + b * rng.choice([0, 0, 1, 8, rng.randint(0, 20)])
    return comps, at, "custom"


def judge(ctx, rng, g, f, comps, where, writes=True):
    import numpy as np
    b = sample_bytes(f)
    cd = g.component_data
    ctx.require(len(cd) == 3, where + ": number of component arrays", got=len(cd))
    ctx.require(g.data.dtype == np.dtype("<u%d" % b), where + ": type of the data", got=g.data.dtype)
    raw = np.frombuffer(g.data, dtype=np.uint8)
    base = raw.__array_interface__["data"][0]
    snap = raw.tobytes()
    ctx.require(g.length == len(snap) and bytes(g) == snap, where + ": length or bytes()")
    for i, n in enumerate(names(f)):
        a = cd[i]
        ctx.require(getattr(cd, n) is a, where + ": name of component %d" % i)
        w, h = size(f, comps, n)
        ctx.require(a.shape == (w, h) and a.dtype == np.dtype("<u%d" % b), where + ": shape or type of " + n, got=(a.shape, a.dtype.str), want=(w, h, b))
        if a.size:
            lo, hi = np.byte_bounds(a)
            ctx.require(base <= lo and hi <= base + len(snap), where + ": view %s reaches outside the data" % n, low=lo - base, high=hi - base, length=len(snap))
        want = [[int.from_bytes(snap[(p := position(f, comps, n, x, y)):p + b], "little") for y in range(h)] for x in range(w)]
        got = a.tolist()
        if got != want:
            bad = [(x, y) for x in range(w) for y in range(h) if got[x][y] != want[x][y]][0]
            ctx.fail(where + ": %s%r" % (n, bad), got=got[bad[0]][bad[1]], want=want[bad[0]][bad[1]], components=comps)
        ctx.count("samples_read", w * h)
        ctx.require(a.flags.writeable == raw.flags.writeable, where + ": %s writable" % n, got=a.flags.writeable)
    if not writes or not raw.flags.writeable:
        return
    for _ in range(4):
        n = rng.choice(names(f))
        w, h = size(f, comps, n)
        if not w * h:
            continue
        x, y = rng.choice([(rng.randrange(w), rng.randrange(h)), (0, 0), (w - 1, h - 1), (w - 1, 0), (0, h - 1)])
        p = position(f, comps, n, x, y)
        v = rng.choice([0, (1 << 8 * b) - 1, rng.getrandbits(8 * b)])
        a = getattr(cd, n)
        want = bytearray(raw.tobytes())
        want[p:p + b] = v.to_bytes(b, "little")
        if rng.random() < 0.7:
            a[x, y] = v
            how = "written through %s[%d,%d]" % (n, x, y)
            ctx.count("array_writes")
        else:
            q = p // b
            if rng.random() < 0.5 and p % b == 0:
                g.data[q] = v
            else:
                raw[p:p + b] = list(v.to_bytes(b, "little"))
            how = "written at byte %d" % p
            ctx.count("buffer_writes")
        ctx.require(raw.tobytes() == want, "%s: bytes after a sample was %s" % (where, how), position=p, changed=[i for i in range(len(want)) if raw[i] != want[i]][:8])
        ctx.equal(int(a[x, y]), v, "%s: sample after it was %s" % (where, how))
    if rng.random() < 0.2:
        n = rng.choice(names(f))
        w, h = size(f, comps, n)
        want = bytearray(raw.tobytes())
        getattr(cd, n)[:, :] = 3
        for x in range(w):
            for y in range(h):
                p = position(f, comps, n, x, y)
                want[p:p + b] = (3).to_bytes(b, "little")
        ctx.require(raw.tobytes() == want, where + ": bytes after filling component " + n)
        ctx.count("array_writes", w * h)


def set_components(g, comps):
    g.components = [dict(zip(("width", "height", "stride", "offset", "length"), c)) for c in comps]


def make(ctx, rng, f, w, h):
    """(grain, components, how)"""
    from mediagrains import numpy as mnp
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.utils.iobytes import IOBytes
    import io
    import numpy as np
    d = gen.r_desc(rng, "video")
    comps, total, kind = r_layout(rng, f, w, h)
    d.update(fmt=gen.FRAME[f], width=w, height=h, components=[tuple(c) for c in comps], data=rng.randbytes(total))
    how = rng.choice(["new", "keywords", "meta", "tuple", "grain", "later", "assigned", "edited", "copy", "deepcopy"])
    form = rng.choice([bytes, bytearray, bytearray, lambda b: memoryview(bytearray(b)), lambda b: np.frombuffer(bytearray(b), dtype=np.uint8),
                       lambda b: IOBytes(io.BytesIO(b), 0, len(b))])
    data = form(d["data"])
    meta = gen.meta_of(d)
    if how in ("new", "keywords"):
        comps, kind = [list(c) for c in gen.video_layout(f, w, h)], "standard"
        kw = dict(src_id=d["src"], flow_id=d["flow"], cog_frame_format=CogFrameFormat(d["fmt"]), width=w, height=h)
        if how == "keywords":
            kw["data"] = form(rng.randbytes(gen.video_size(f, w, h)))
        g = mnp.VideoGrain(**kw)
    elif how == "meta":
        g = mnp.VideoGrain(meta=meta, data=data)
    elif how == "tuple":
        g = mnp.VideoGrain(meta, data)
    elif how == "grain":
        g = mnp.VideoGrain(grain=mg.VideoGrain(meta, data))
    elif how == "later":
        async def fetch():
            return data

        async def run():
            if rng.random() < 0.4:
                r = mnp.VideoGrain(meta=meta, data=fetch())
            elif rng.random() < 0.5:
                r = mnp.VideoGrain(meta=meta, data=bytearray(total))
                r.data = fetch()
            else:
                b = mg.VideoGrain(meta, fetch())
                n = rng.choice([0, 1, total, 12345])
                b.length = n
                r = mnp.VideoGrain(grain=b)
                ctx.equal(r.length, n, "length of a grain made from one which awaits its data")
            ctx.require(list(r.component_data) == [] and r.data is None, "grain awaiting its data has component arrays")
            await r
            return r
        g = asyncio.run(run())
    elif how == "assigned":
        g = mnp.VideoGrain(meta=meta, data=bytearray(total))
        g.data = data
    elif how == "edited":
        # the new layout applies from the next assignment of data
        kw = dict(src_id=d["src"], flow_id=d["flow"], cog_frame_format=CogFrameFormat(d["fmt"]), width=w, height=h)
        g = mnp.VideoGrain(**kw)
        if rng.random() < 0.5:
            set_components(g, comps)
        else:
            for c, new in zip(g.components, comps):
                c.stride, c.offset, c.length = new[2:]
        g.data = data
        ctx.count("later_views")
    elif how == "copy":
        g = copy.copy(mnp.VideoGrain(meta=meta, data=data))
    else:
        g = copy.deepcopy(mnp.VideoGrain(meta=meta, data=data))
    if kind == "custom":
        ctx.count("custom_layouts")
    return g, comps, how, kind


def case(ctx, rng, key, p):
    f = p["fmt"]
    from mediagrains import numpy as mnp
    import numpy as np
    if f == "v210":
        from mediagrains.cogenums import CogFrameFormat
        for _ in range(4):
            w, h = rng.randint(1, 100), rng.randint(1, 4)
            g = mnp.VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), cog_frame_format=CogFrameFormat.v210, width=w, height=h)
            ctx.require(len(g.component_data) == 0 and g.data.dtype == np.uint32 and g.length == gen.video_size(f, w, h), "v210 grain", data=g.data)
        return
    for _ in range(16):
        hs = 2 if f in ("YUYV", "UYVY", "v216") or f in gen.PLANAR and gen.planar_info(f)[2] else 1
        vs = 2 if f in gen.PLANAR and gen.planar_info(f)[3] else 1
        w, h = hs * rng.randint(1, 10), vs * rng.randint(1, 6)
        if rng.random() < 0.05:
            w, h = hs * rng.randint(20, 60), vs * rng.randint(10, 30)
        g, comps, how, kind = make(ctx, rng, f, w, h)
        where = "%s %dx%d (%s, %s layout)" % (f, w, h, how, kind)
        if len(gen.data_bytes(g.data)):
            judge(ctx, rng, g, f, comps, where)
        # metadata edits that do not concern the layout leave the views alone; new data gives views of the new data
        g.rate = gen.r_rate(rng)
        g.add_timelabel("x", 1, gen.r_rate(rng, False))
        judge(ctx, rng, g, f, comps, where + ", metadata edited", writes=False)
        old = list(g.component_data)
        was = [a.tobytes() for a in old]
        new = bytearray(rng.randbytes(len(gen.data_bytes(g.data)) + sample_bytes(f) * rng.choice([0, 0, 3])))
        g.data = new
        judge(ctx, rng, g, f, comps, where + ", new data assigned")
        ctx.require(np.shares_memory(g.component_data[0], np.frombuffer(new, dtype=np.uint8)), where + ": views of assigned data do not alias it")
        ctx.require([a.tobytes() for a in old] == was, where + ": old views changed with new data")
        ctx.count("later_views")
        short(ctx, rng, f, comps, g, where)
        ctx.count("grains")
        ctx.saw(f, how, kind)
    conv(ctx, rng, f)


def short(ctx, rng, f, comps, g, where):
    """data shorter than the layout: an error, or views that stay inside"""
    from mediagrains import numpy as mnp
    import numpy as np
    n = rng.choice([0, rng.randrange(len(gen.data_bytes(g.data))), max(0, max(c[3] + c[2] * (c[1] - 1) for c in comps) - rng.choice([0, 1, 4]))])
    n -= n % sample_bytes(f)
    b = rng.randbytes(n)
    meta = copy.deepcopy(g.meta)
    for way in ("new", "assign"):
        try:
            if way == "new":
                h = mnp.VideoGrain(meta=copy.deepcopy(meta), data=b)
            else:
                h = mnp.VideoGrain(meta=copy.deepcopy(meta), data=bytearray(len(gen.data_bytes(g.data))))
                h.data = b
        except (ValueError, IndexError, TypeError):
            ctx.count("short_buffers")
            continue
        raw = np.frombuffer(h.data, dtype=np.uint8)
        base = raw.__array_interface__["data"][0]
        for i, a in enumerate(h.component_data):
            if a.size:
                lo, hi = np.byte_bounds(a)
                ctx.require(base <= lo and hi <= base + len(raw), "%s: view %d of too short data reaches outside it" % (where, i), low=lo - base, high=hi - base,
                            length=len(raw))
        ctx.count("short_buffers")


def conv(ctx, rng, f):
    """views of conversion results"""
    from mediagrains import numpy as mnp
    from mediagrains.cogenums import CogFrameFormat
    outs = sorted(gen.FRAME[o] for o in convref.available() if o not in (f, "v210")) if f in convref.available() else []
    w, h = 4 * rng.randint(1, 4), 2 * rng.randint(1, 3)
    for o in rng.sample(outs, min(3, len(outs))) + [gen.FRAME[f]]:
        g = mnp.VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), cog_frame_format=CogFrameFormat(gen.FRAME[f]), width=w, height=h,
                           data=bytes(gen.video_size(f, w, h)))
        r = g.convert(CogFrameFormat(o))
        n = gen.FRAME_NAME[o]
        judge(ctx, rng, r, n, gen.video_layout(n, w, h), "%s converted to %s" % (f, n))
        ctx.count("grains")
