"""N02: channel arrays of numpy audio grains hold the samples of their channel."""
import asyncio
import copy
import struct

from .. import gen

ID = "N02"
LEVEL = "exploration"
RULE = ("Numpy audio grains of every raw format, channel and sample count (also odd numbers of channels in pairs, no samples, trailing bytes, read-only data), "
        "made every way, are judged sample by sample against an independent map from (channel, index) to byte position and value (24-bit samples are widened "
        "to the upper bits of 32); making and reading the arrays must leave the data as it was; where arrays share memory with the data, a write changes "
        "exactly the bytes of its sample; no view may reach outside the data, also when that is too short. Distinct = (format, channels, way made, data form).")
FLOORS = dict(grains=4000, samples_read=100000, writes=4000, special_values=3000, odd_pairs=400, read_only=500, short_buffers=500, many_channels=100)
WIDTH = {"S16": 2, "S24": 3, "S32": 4, "FLOAT": 4, "DOUBLE": 8}


def plan(ctx):
    n = ctx.n(12, 250)
    return [("%s-%d" % (f, j), dict(fmt=f)) for f in gen.PCM for j in range(n)]


def position(f, channels, samples, ch, i):
    kind, arr = f.split("_")
    b = gen.audio_sample_bytes(f)
    if arr == "PLANES":
        return (ch * samples + i) * b
    if arr == "INTERLEAVED":
        return (i * channels + ch) * b
    return ((ch // 2) * 2 * samples + 2 * i + ch % 2) * b


def value(f, octets):
    """what the array must hold for these octets"""
    kind = f.split("_")[0]
    if f == "S24_PLANES":
        return b"\0" + octets[:3]       # the lower three of four octets
    if kind == "S24":
        return b"\0" + octets
    return octets


def dtype(f):
    return {"S16": "<i2", "S24": "<i4", "S32": "<i4", "FLOAT": "<f4", "DOUBLE": "<f8"}[f.split("_")[0]]


def judge(ctx, rng, g, f, channels, samples, where):
    import numpy as np
    b = gen.audio_sample_bytes(f)
    data = gen.data_bytes(g.data)
    raw = np.frombuffer(g.data, dtype=np.uint8)
    base = raw.__array_interface__["data"][0]
    cd = g.channel_data
    ctx.require(gen.data_bytes(g.data) == data, where + ": reading the channels changed the data")
    ctx.equal(len(cd), channels, where + ": number of channels")
    ctx.require(g.length == len(data) and bytes(g) == data, where + ": length or bytes()")
    for ch in range(channels):
        a = cd[ch]
        ctx.require(a.shape == (samples,) and a.dtype == np.dtype(dtype(f)), where + ": shape or type of channel %d" % ch, got=(a.shape, a.dtype.str), want=samples)
        if samples and np.may_share_memory(a, raw):
            lo, hi = np.byte_bounds(a)
            ctx.require(base <= lo and hi <= base + len(raw), where + ": channel %d reaches outside the data" % ch, low=lo - base, high=hi - base, length=len(raw))
        want = b"".join(value(f, data[(p := position(f, channels, samples, ch, i)):p + b]) for i in range(samples))
        got = a.tobytes()
        if got != want:
            k = a.dtype.itemsize
            i = [i for i in range(samples) if got[k * i:k * i + k] != want[k * i:k * i + k]][0]
            ctx.fail("%s: sample %d of channel %d" % (where, i, ch), got=got[k * i:k * i + k].hex(), want=want[k * i:k * i + k].hex())
        ctx.count("samples_read", samples)
    # values, not only octets: a few as numbers
    if channels and samples:
        ch, i = rng.randrange(channels), rng.randrange(samples)
        o = data[(p := position(f, channels, samples, ch, i)):p + b]
        k = f.split("_")[0]
        want = struct.unpack("<f", o)[0] if k == "FLOAT" else struct.unpack("<d", o)[0] if k == "DOUBLE" else \
            int.from_bytes(o[:3], "little", signed=True) << 8 if k == "S24" else int.from_bytes(o, "little", signed=True)
        v = cd[ch][i].item()
        ctx.require(v == want or v != v and want != want, "%s: value of sample %d of channel %d" % (where, i, ch), got=v, want=want)
    ctx.require(gen.data_bytes(g.data) == data, where + ": reading the channels changed the data")


def write(ctx, rng, g, f, channels, samples, where):
    import numpy as np
    b = gen.audio_sample_bytes(f)
    raw = np.frombuffer(g.data, dtype=np.uint8)
    if not channels * samples:
        return
    for _ in range(3):
        ch, i = rng.randrange(channels), rng.choice([0, samples - 1, rng.randrange(samples)])
        a = g.channel_data[ch]
        if not np.may_share_memory(a, raw):
            # 24-bit samples are widened: the arrays are not views, and writes stay in them
            before = raw.tobytes()
            if a.flags.writeable:
                a[i] = 256 * rng.randint(-1000, 1000)
            ctx.require(raw.tobytes() == before, where + ": writing to a widened copy changed the data")
            ctx.count("writes")
            continue
        if not raw.flags.writeable:
            ctx.require(not a.flags.writeable, where + ": view of read-only data is writable")
            continue
        o = rng.randbytes(b)
        v = np.frombuffer(o, dtype=dtype(f))[0]
        if v != v:
            continue
        o = v.tobytes()
        p = position(f, channels, samples, ch, i)
        want = bytearray(raw.tobytes())
        want[p:p + b] = o
        if rng.random() < 0.6:
            a[i] = v
        else:
            raw[p:p + b] = list(o)
        ctx.require(raw.tobytes() == want, "%s: bytes after writing sample %d of channel %d" % (where, i, ch), position=p,
                    changed=[k for k in range(len(want)) if raw[k] != want[k]][:8])
        ctx.require(g.channel_data[ch][i].tobytes() == o, "%s: sample %d of channel %d after writing it" % (where, i, ch))
        ctx.count("writes")


def r_data(ctx, rng, f, n):
    k = rng.random()
    if k < 0.5:
        return rng.randbytes(n)
    ctx.count("special_values")
    b = gen.audio_sample_bytes(f)
    lo = bytes(b - 1) + b"\x80"
    hi = b"\xff" * (b - 1) + b"\x7f"
    if f == "S24_PLANES":
        lo, hi = b"\0\0\x80\xff", b"\xff\xff\x7f\0"
    unit = rng.choice([[lo], [hi], [lo, hi], [bytes(b)], [b"\xff" * b], [lo, hi, bytes(b), b"\xff" * b]])
    s = b"".join(rng.choice(unit) for _ in range(n // b + 1))
    return s[:n]


def case(ctx, rng, key, p):
    import numpy as np
    from mediagrains import numpy as mnp
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogAudioFormat
    f = p["fmt"]
    for _ in range(32):
        channels = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 16])
        samples = rng.choice([0, 1, 1, 2, 3, 5, 8, 17, 32])
        if rng.random() < 0.03:
            samples = 1920
        elif rng.random() < 0.06:
            channels = rng.choice([17, 24, 31, 63, 64, 65, 128, 255])
            ctx.count("many_channels")
        n = gen.audio_size(f, channels, samples)
        extra = rng.choice([0, 0, 0, gen.audio_sample_bytes(f) * rng.randint(1, 5)])
        if f.endswith("PAIRS") and channels % 2:
            ctx.count("odd_pairs")
        data = r_data(ctx, rng, f, n + extra)
        d = gen.r_desc(rng, "audio")
        d.update(fmt=gen.AUDIO[f], channels=channels, samples=samples, data=data)
        form, fn = rng.choice([(bytes, "bytes"), (bytearray, "bytearray"), (lambda b: memoryview(bytearray(b)), "memoryview"),
                               (lambda b: np.frombuffer(bytearray(b), dtype=np.uint8), "array"), (lambda b: np.frombuffer(b, dtype=np.uint8), "read-only array")])
        if fn in ("bytes", "read-only array"):
            ctx.count("read_only")
        how = rng.choice(["meta", "keywords", "tuple", "grain", "later", "assigned", "copy", "deepcopy"])
        x = form(data)
        meta = gen.meta_of(d)
        if how == "keywords":
            g = mnp.AudioGrain(src_id=d["src"], flow_id=d["flow"], cog_audio_format=CogAudioFormat(d["fmt"]), channels=channels, samples=samples, data=x)
        elif how == "tuple":
            g = mnp.AudioGrain(meta, x)
        elif how == "grain":
            g = mnp.AudioGrain(grain=mg.AudioGrain(meta, x))
        elif how == "later":
            async def fetch():
                return x

            async def run():
                if rng.random() < 0.4:
                    r = mnp.AudioGrain(meta=meta, data=fetch())
                elif rng.random() < 0.5:
                    r = mnp.AudioGrain(meta=meta, data=bytearray(n))
                    r.data = fetch()
                else:
                    b = mg.AudioGrain(meta, fetch())
                    k = rng.choice([0, 1, n, 12345])
                    b.length = k
                    r = mnp.AudioGrain(grain=b)
                    ctx.equal(r.length, k, "length of a grain made from one which awaits its data")
                ctx.require(list(r.channel_data) == [], "grain awaiting its data has channel arrays")
                await r
                return r
            g = asyncio.run(run())
        elif how == "assigned":
            g = mnp.AudioGrain(meta=meta, data=bytes(n))
            g.data = x
        else:
            g = mnp.AudioGrain(meta=meta, data=x)
            if how == "copy":
                g = copy.copy(g)
            elif how == "deepcopy":
                g = copy.deepcopy(g)
        where = "%s, %d channels, %d samples (%s, %s)" % (f, channels, samples, how, fn)
        ctx.require(gen.data_bytes(x) == data and bytes(g) == data, where + ": making the grain changed the data")
        judge(ctx, rng, g, f, channels, samples, where)
        write(ctx, rng, g, f, channels, samples, where)
        if f.startswith("S24") or fn in ("bytes", "read-only array"):
            ctx.require(gen.data_bytes(x) == data or fn not in ("bytes", "read-only array"), where + ": read-only data changed")
        new = r_data(ctx, rng, f, n)
        g.data = bytearray(new)
        judge(ctx, rng, g, f, channels, samples, where + ", new data")
        short(ctx, rng, f, channels, samples, n, meta, where)
        ctx.count("grains")
        ctx.saw(f, channels, how, fn)


def short(ctx, rng, f, channels, samples, n, meta, where):
    from mediagrains import numpy as mnp
    import numpy as np
    if not n:
        return
    b = gen.audio_sample_bytes(f)
    k = rng.choice([0, rng.randrange(n), n - b, n // 2])
    if rng.random() < 0.8:
        k -= k % b
    x = rng.randbytes(k)
    try:
        if rng.random() < 0.5:
            g = mnp.AudioGrain(meta=copy.deepcopy(meta), data=x)
        else:
            g = mnp.AudioGrain(meta=copy.deepcopy(meta), data=bytes(n))
            g.data = x
    except (ValueError, IndexError, TypeError):
        ctx.count("short_buffers")
        return
    raw = np.frombuffer(g.data, dtype=np.uint8)
    base = raw.__array_interface__["data"][0]
    for ch, a in enumerate(g.channel_data):
        # what a channel does hold are its own samples
        for i in range(a.size):
            p = position(f, channels, samples, ch, i)
            ctx.require(p + b <= k and a[i].tobytes() == value(f, x[p:p + b]), "%s: sample %d of channel %d of too short data" % (where, i, ch), got=a[i], length=k)
        if a.size and "S24" not in f:
            lo, hi = np.byte_bounds(a)
            ctx.require(base <= lo and hi <= base + len(raw), "%s: channel %d of too short data reaches outside it" % (where, ch), low=lo - base, high=hi - base,
                        length=len(raw))
        elif a.size:
            # a widened copy: the array underneath must be as long as the view needs
            m = a
            while isinstance(m.base, np.ndarray):
                m = m.base
            lo, hi = np.byte_bounds(a)
            mlo, mhi = np.byte_bounds(m)
            ctx.require(mlo <= lo and hi <= mhi, "%s: channel %d of too short data reaches outside its samples" % (where, ch))
    ctx.count("short_buffers")
