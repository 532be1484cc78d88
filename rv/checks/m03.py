"""M03: copies of grains are equal, deep copies are independent, shallow copies share the data buffer."""
import copy
import io
import json

from .. import convref, gen, gsfio
from . import m01

ID = "M03"
LEVEL = "exploration"
RULE = ("Grains of every class - made by every constructor, read from GSF files (loaded at once, lazily, or deferred and awaited), numpy variants and "
        "converted numpy grains, with data in bytes, bytearray, memoryview, numpy and lazy form - are copied (copy, deepcopy, inside containers, copies of "
        "copies); class, equality and every attribute are compared; after a deep copy the two metadata trees may share no mutable object and random edits of "
        "either (every attribute, list views, raw metadata, data in place, component and channel arrays) must leave every observation of the other alone; "
        "after a shallow copy both must hold the same buffer. Distinct = (class, origin of the grain, data form, kind of edit).")
FLOORS = dict(deep_copies=1500, shallow_copies=600, edits=6000, numpy_copies=250, converted_copies=60, read_copies=150, in_place_edits=800, compared_with_arrays=400)


def plan(ctx):
    n = ctx.n(110, 2500)
    c = [("made-%d" % j, dict(kind="made")) for j in range(n)]
    c += [("numpy-%d" % j, dict(kind="numpy")) for j in range(n // 2)]
    c += [("read-%d" % j, dict(kind="read")) for j in range(n // 3)]
    return c


def r_made(ctx, rng):
    import numpy as np
    from mediagrains.utils.iobytes import IOBytes
    d = gen.r_desc(rng)
    form = rng.choice(["bytes", "bytearray", "view", "mutview", "array", "lazy", "object"])
    wrap = dict(bytes=bytes, bytearray=bytearray, view=memoryview, mutview=lambda b: memoryview(bytearray(b)),
                array=lambda b: np.frombuffer(b, dtype=np.uint8).copy(), lazy=lambda b: IOBytes(io.BytesIO(b"ab" + b + b"cd"), 2, len(b)),
                object=m01.Bytesish)[form]
    if d["type"] == "event" or d["data"] is None:
        form, wrap = "none", bytes
    g = gen.build(d, rng.choice(["class", "meta"]), wrap)
    return g, "made", form


def r_numpy(ctx, rng):
    from mediagrains import numpy as mnp
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogFrameFormat
    if rng.random() < 0.6:
        name = rng.choice(gen.PLANAR + gen.PACKED + ["AYUV"])
        d = gen.r_desc(rng, "video")
        w, h = 2 * rng.randint(1, 8), 2 * rng.randint(1, 6)
        d.update(fmt=gen.FRAME[name], width=w, height=h, components=gen.video_layout(name, w, h), data=rng.randbytes(gen.video_size(name, w, h)))
        cls, bcls = mnp.VideoGrain, mg.VideoGrain
    else:
        name = rng.choice(gen.PCM)
        d = gen.r_desc(rng, "audio")
        d.update(fmt=gen.AUDIO[name], channels=rng.randint(1, 4), samples=rng.randint(1, 9))
        d["data"] = rng.randbytes(gen.audio_size(name, d["channels"], d["samples"]))
        cls, bcls = mnp.AudioGrain, mg.AudioGrain
    form = rng.choice(["bytes", "bytearray"])
    data = bytearray(d["data"]) if form == "bytearray" else d["data"]
    how = rng.choice(["meta", "tuple", "grain"])
    if how == "meta":
        g = cls(meta=gen.meta_of(d), data=data)
    elif how == "tuple":
        g = cls(gen.meta_of(d), data)
    else:
        g = cls(grain=bcls(gen.meta_of(d), data))
    ctx.count("numpy_copies")
    if cls is mnp.VideoGrain and rng.random() < 0.5:
        from mediagrains.cogenums import CogFrameFormat
        outs = [gen.FRAME[f] for f in convref.available()]
        f = CogFrameFormat(rng.choice(sorted(outs) if int(g.cog_frame_format) in outs else [int(g.cog_frame_format)]))
        if gen.FRAME["v210"] in (int(f), d["fmt"]) and d["width"] % 6:
            f = g.cog_frame_format
        if rng.random() < 0.5:
            g = g.convert(f)
        else:
            g = g.asformat(f)
        ctx.count("converted_copies")
        return g, "converted", "array"
    return g, "numpy " + how, form


def r_read(ctx, rng):
    import asyncio
    from mediagrains.gsf import loads, GSFDecoder, GrainDataLoadingMode
    from mediagrains.gsf import GSFEncoder
    d = gen.r_desc(rng)
    g = gen.build(d)
    f = io.BytesIO()
    with GSFEncoder(f) as enc:
        enc.add_grain(g)
    raw = f.getvalue()
    mode = rng.choice(["loads", "lazy", "awaited"])
    ctx.count("read_copies")
    if mode == "loads":
        _, segs = loads(raw)
        return list(segs.values())[0][0], "read", "bytes"
    if mode == "lazy":
        with GSFDecoder(file_data=io.BytesIO(raw)) as dec:
            for (h, _) in dec.grains(loading_mode=GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE):
                return h, "read", "lazy"

    async def run():
        t = gsfio.TmpFile(raw)
        try:
            import aiofiles   # noqa: F401
        except ImportError:
            pass
        from mediagrains.utils.asyncbinaryio import AsyncBytesIO
        async with GSFDecoder(file_data=AsyncBytesIO(raw)) as dec:
            async for (h, _) in dec.grains(loading_mode=GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE):
                await h
                t.__exit__()
                return h
    return asyncio.run(run()), "read", "awaited"


def snap(g):
    """everything readable about a grain, as immutable values"""
    r = dict(obs=repr(gen.observe(g)), meta=json.dumps(g.meta, sort_keys=True, default=str), data=gen.data_bytes(g.data), none=g.data is None, length=g.length,
             range=repr(g.origin_timerange()) if g.grain_type != "audio" or g.samples < 1 << 20 else "")
    for n in ("component_data", "channel_data"):
        if hasattr(g, n):
            r[n] = [(a.dtype.str, a.shape, a.tobytes()) for a in getattr(g, n)]
    if hasattr(g, "expected_length"):
        r["expected"] = g.expected_length
    return r


def mutables(x, acc):
    if isinstance(x, dict):
        acc[id(x)] = x
        for v in x.values():
            mutables(v, acc)
    elif isinstance(x, list):
        acc[id(x)] = x
        for v in x:
            mutables(v, acc)
    return acc


def buf(data):
    """numpy view of a buffer, None for data without one"""
    import numpy as np
    try:
        return np.frombuffer(data, dtype=np.uint8)
    except (TypeError, ValueError, BufferError):
        return None


def edit(ctx, rng, g):
    """one random change to the grain; returns its name"""
    t = g.grain_type
    kinds = ["attr", "attr", "timelabels", "meta", "meta"]
    if g.data is not None and t != "event" and len(gen.data_bytes(g.data)):
        kinds += ["inplace", "inplace", "inplace", "data"]
    if getattr(g, "component_data", None) or getattr(g, "channel_data", None):
        kinds += ["arrays"] * 4
    if t == "video":
        kinds += ["components"]
    if t == "coded_video":
        kinds += ["unit_offsets"]
    if t == "event":
        kinds += ["event", "event"]
    k = rng.choice(kinds)
    if k == "attr":
        is_np = hasattr(g, "component_data") or hasattr(g, "channel_data")
        a = rng.choice([x for x in m01.COMMON + m01.SPECIFIC[t] if not (is_np and x in ("fmt", "data", "components", "width", "height", "samples", "channels"))])
        new = gen.r_desc(rng, t)
        v = gen.r_rate(rng, False) if a in ("sar", "par") else new.get(a)
        if a == "data" and v is not None:
            v = rng.randbytes(5)
        val, _ = m01.form(ctx, rng, t, a, v, new)
        setattr(g, rng.choice(m01.names(t, a)), val)
        return "attr " + a
    if k == "timelabels":
        r = rng.randrange(4)
        if r == 0 or not len(g.timelabels):
            g.add_timelabel(gen.r_str(rng, 16), gen.r_uint(rng, 32), gen.r_rate(rng), True)
        elif r == 1:
            del g.timelabels[rng.randrange(len(g.timelabels))]
        elif r == 2:
            g.timelabels[rng.randrange(len(g.timelabels))].count = 12345
        else:
            g.timelabels[rng.randrange(len(g.timelabels))].tag = "edited"
    elif k == "meta":
        ms = list(mutables(g.meta, {}).values())
        m = rng.choice(ms[1:])
        if isinstance(m, list):
            if hasattr(g, "component_data"):
                return "none"
            if m and rng.random() < 0.5:
                m.pop()
            elif m:
                m.append(copy.deepcopy(m[0]))
            else:
                return k
        else:
            no = ("format", "layout", "denominator")
            if hasattr(g, "component_data") or hasattr(g, "channel_data"):
                no += ("width", "height", "stride", "offset", "samples", "channels")     # the arrays must still fit the data
            ks = [x for x in sorted(m) if isinstance(m[x], int) and not isinstance(m[x], bool) and x not in no]
            if not ks:
                return k
            m[rng.choice(ks)] += 1
    elif k == "inplace":
        b = buf(g.data)
        if b is None or not len(b) or not b.flags.writeable:
            return "none"
        b[rng.randrange(len(b))] ^= rng.randint(1, 255)
        ctx.count("in_place_edits")
    elif k == "arrays":
        a = rng.choice(getattr(g, "component_data", None) or g.channel_data)
        if not a.flags.writeable or not a.size:
            return "none"
        i = tuple(rng.randrange(n) for n in a.shape)
        a[i] = a[i] + 1 if a.dtype.kind == "f" else a[i] ^ 1
        ctx.count("in_place_edits")
    elif k == "data":
        b = bytearray(gen.data_bytes(g.data))
        b[rng.randrange(len(b))] ^= 255
        g.data = rng.choice([bytes(b), b])
    elif k == "components":
        c = g.components
        if len(c) and not hasattr(g, "component_data"):
            r = rng.randrange(3)
            if r == 0:
                c[rng.randrange(len(c))].offset = 77
            elif r == 1:
                c.append({"width": 1, "height": 1, "stride": 1, "offset": 1, "length": 1})
            else:
                del c[0]
    elif k == "unit_offsets":
        g.unit_offsets.append(99)
    elif k == "event":
        r = rng.randrange(4)
        if r == 0 or not g.event_data:
            g.append("p", {"a": [1]}, None)
        elif r == 1:
            g.event_data[0].path = "edited"
        elif r == 2:
            g.event_data[0].post = "new"
        else:
            g.topic += "x"
    return k


def same(ctx, a, b, where):
    ctx.require(type(a) is type(b), where + ": class", got=type(b).__name__, want=type(a).__name__)
    ctx.require(a == b and b == a and not (a != b) and not (b != a), where + ": not equal", a=a.meta, b=b.meta)
    s, t = snap(a), snap(b)
    for k in s:
        ctx.require(s[k] == t[k], "%s: %s differs" % (where, k), got=t[k], want=s[k])


def against(ctx, rng, g, where):
    """comparison with a tuple whose data is an array: by content, and a plain yes or no"""
    import numpy as np
    if g.grain_type == "event" or isinstance(g.data, m01.Bytesish):
        return
    raw = gen.data_bytes(g.data)
    if g.data is None:
        cases = [(np.zeros(0, np.uint8), False), (np.zeros(3, np.uint8), False)]
    else:
        cases = [(np.frombuffer(raw, np.uint8), True), (np.frombuffer(raw + b"x", np.uint8), False)]
        if raw:
            i = rng.randrange(len(raw))
            cases += [(np.frombuffer(raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:], np.uint8), False), (np.frombuffer(raw[:-1], np.uint8), False)]
    for (a, want) in cases:
        for (meta, w) in ((g.meta, want), (dict(copy.deepcopy(g.meta), other=1), False)):
            r = g == (meta, a)
            ctx.require(bool(r) is w and bool(g != (meta, a)) is not w, where + ": compared with a tuple holding an array", got=r, want=w, length=len(raw), other=len(a))
    ctx.count("compared_with_arrays")


def deep(ctx, rng, g):
    how = rng.randrange(4)
    if how == 0:
        return copy.deepcopy(g)
    if how == 1:
        r = copy.deepcopy([g, {"x": g}, g])
        ctx.require(r[0] is r[2] and r[1]["x"] is r[0], "deep copy of a list holding a grain twice")
        return r[0]
    if how == 2:
        return copy.deepcopy(copy.deepcopy(g))
    return copy.deepcopy(copy.copy(g))


def case(ctx, rng, key, p):
    for _ in range(8):
        g, origin, form = globals()["r_" + p["kind"]](ctx, rng)
        cls = type(g).__module__.split(".")[1] + "." + type(g).__name__
        where = "%s (%s, %s data)" % (cls, origin, form)
        before = snap(g)
        # shallow copy
        c = copy.copy(g)
        same(ctx, g, c, where + ": copy")
        if g.grain_type != "event":
            a, b = buf(g.data), buf(c.data)
            ctx.require(a is None and g.data is c.data or a is not None and b is not None and
                        (len(a) == len(b) == 0 or a.__array_interface__["data"][0] == b.__array_interface__["data"][0]), where + ": copy does not share the data buffer")
            if a is not None and len(a) and a.flags.writeable and rng.random() < 0.5 and not (hasattr(g, "channel_data") and "S24" in g.format.name):
                x, y = rng.choice([(g, c), (c, g)])
                ba = buf(x.data)
                ba[rng.randrange(len(ba))] ^= 0x5a
                ctx.require(snap(x)["data"] == snap(y)["data"] != before["data"], where + ": write through a copy is not shared")
                for n in ("component_data", "channel_data"):
                    if n in before:
                        ctx.require(snap(x)[n] == snap(y)[n], where + ": arrays of a copy do not share the write")
                ctx.count("in_place_edits")
        c.meta["x-of-the-copy"] = 1
        g.meta["x-of-the-original"] = 1
        ctx.require("x-of-the-copy" not in g.meta and "x-of-the-original" not in c.meta, where + ": the copy's metadata is the original's own dictionary")
        del c.meta["x-of-the-copy"], g.meta["x-of-the-original"]
        ctx.count("shallow_copies")
        against(ctx, rng, g, where)
        # deep copies
        for _ in range(2):
            s = snap(g)
            h = deep(ctx, rng, g)
            same(ctx, g, h, where + ": deepcopy")
            ctx.require(snap(g) == s, where + ": deep copying changed the original")
            shared = set(mutables(g.meta, {})) & set(mutables(h.meta, {}))
            ctx.require(not shared, where + ": deep copy shares metadata objects", shared=[mutables(g.meta, {})[i] for i in list(shared)[:2]])
            ctx.require(not (buf(g.data) is not None and buf(g.data).flags.writeable and g.data is h.data and len(buf(g.data))),
                        where + ": deep copy shares a writable buffer")
            if g.grain_type != "event" and buf(g.data) is not None and len(buf(g.data)) and buf(g.data).flags.writeable:
                ctx.require(buf(h.data) is not None and buf(h.data).flags.writeable, where + ": deep copy of writable data cannot be written", got=type(h.data).__name__)
            hist = []
            sg, sh = snap(g), snap(h)
            for _ in range(rng.randint(2, 8)):
                side = rng.random() < 0.5
                k = edit(ctx, rng, g if side else h)
                hist.append("%s of %s" % (k, "original" if side else "deep copy"))
                try:
                    now = snap(h if side else g)
                except Exception as e:
                    ctx.fail("%s: after %s the other grain is unreadable" % (where, hist[-1]), error=repr(e))
                old = sh if side else sg
                for x in old:
                    ctx.require(now[x] == old[x], "%s: %s shows in the other grain (%s)" % (where, hist[-1], x), now=now[x], was=old[x], history=hist)
                try:
                    if side:
                        sg = snap(g)
                    else:
                        sh = snap(h)
                except (ValueError, IndexError, ZeroDivisionError, OverflowError):
                    break       # the edit made the grain itself senseless (e.g. raw metadata edits)
                ctx.count("edits")
                ctx.saw(cls, origin, form, k)
            ctx.count("deep_copies")
            g = (gen.build(gen.r_desc(rng)) if rng.random() < 0.1 else globals()["r_" + p["kind"]](ctx, rng)[0])
            cls = type(g).__module__.split(".")[1] + "." + type(g).__name__
            where = cls
