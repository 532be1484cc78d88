"""S01: what an operation gives depends on what it was given: not on what was done before, what else is going on, or the process it happens in."""
import asyncio
import decimal
import gc
import hashlib
import io
import json
import locale
import logging
import os
import pickle
import random
import re
import signal
import subprocess
import sys
import threading
import time
import uuid
import warnings
from fractions import Fraction

from .. import boot, convref, core, essence, gen, gsfcase, gsfio, h264ref, refgsf
from . import c01, m03, n03, p01, p02, w02

ID = "S01"
LEVEL = "exploration"
RULE = ("Operations of every part of the library (reading well-formed, damaged and truncated files, writing, making, editing and copying grains, comparing, PSNR, conversion, numpy views, "
        "patterns, wrapping, lazily read octets, asynchronous files) with inputs drawn from a seed are each run alone in a process of their own that has run nothing else; then the same ones twice "
        "over in one process in random order, the results of the first time overwritten by their user; step by step in turns; as tasks of one event loop; in several threads switching "
        "constantly (all this also with inputs that have much in common); under constant garbage collection; and in processes with another hash seed, time zone, locale, directory, memory filling and without assertions. Every result "
        "must be the same to the octet, and the process's own settings (random numbers, warnings, locale, environment, signals, numpy's error state...) as before. "
        "Distinct = (operation, how it was run).")
FLOORS = dict(references=3000, repeated=6000, in_turns=2500, as_tasks=400, in_threads=6000, other_processes=1500, collected=1500, overwritten=2500, settings_compared=3000)
CPU_LIMIT_S = 300.0
NOTE = "Operations under way at once work on objects of their own; sharing one object between threads is not part of this."


class Quiet(core.Ctx):
    """for helpers that want somewhere to count"""

    def __init__(self):
        super().__init__("S01", 0, "quick")


def seen(g, creation=False):
    d = gen.observe(g, creation=creation)
    m = json.loads(json.dumps(g.meta, default=str))
    if not creation:
        m["grain"].pop("creation_timestamp", None)
    return [sorted(d.items()), m, g.length, repr(g.origin_timerange()) if g.grain_type != "audio" or g.samples < 1 << 20 else ""]


def failing(e):
    return [type(e).__name__, re.sub(r"/(dev/shm|tmp)/\S*|0x[0-9a-f]{6,}", "*", str(e))]


# ---------------------------------------------------------------- operations, step by step: op(rng, keep) -> what was seen
def op_read(rng, keep):
    from mediagrains import gsf
    f = refgsf.random_file(rng, ngrains=rng.randint(0, 6))
    f["head"]["created"] = gsfcase.r_created(rng)
    raw = refgsf.file_bytes(f)
    out = []
    with gsf.GSFDecoder(file_data=io.BytesIO(raw)) as dec:
        out.append(repr(sorted(dec.file_headers.items(), key=str)))
        yield
        loading = gsfio.mode(rng.choice(gsfio.MODES))
        held = []
        for g, lid in dec.grains(loading_mode=loading):
            held.append(g)
            if rng.random() < 0.5:
                out.append([lid, seen(g)])
            yield
        out += [seen(g) for g in held]
        keep += held
    return out


def op_readany(rng, keep):
    f = refgsf.random_file(rng, ngrains=rng.randint(0, 4))
    f["head"]["created"] = gsfcase.r_created(rng)
    raw = refgsf.file_bytes(f)
    yield
    got = gsfio.read_any(rng.choice(gsfio.read_ways()), raw, rng)
    yield
    out = [repr(sorted((got.head or {}).items(), key=str)), failing(got.error)]
    out += [[lid, seen(g)] for lid, g in got.grains]
    out += [[k, [seen(g) for g in v]] for k, v in sorted(getattr(got, "segs", {}).items())]
    keep += [g for _, g in got.grains]
    return out


def op_broken(rng, keep):
    f = refgsf.random_file(rng, ngrains=rng.randint(1, 4))
    f["head"]["created"] = gsfcase.r_created(rng)
    raw = bytearray(refgsf.file_bytes(f))
    for _ in range(rng.randint(0, 3)):
        raw[rng.randrange(len(raw))] = rng.randrange(256)
    if rng.random() < 0.5:
        raw = raw[:rng.randrange(len(raw))]
    yield
    got = gsfio.read_session(bytes(raw), rng, rng.choice(["bytesio", "pipe"]), rng.choice(["LOAD_IMMEDIATELY", "LOAD_NEVER"]))
    out = [failing(got.error)]
    for lid, g in got.grains:
        yield
        try:
            out.append([lid, seen(g)])
        except Exception as e:
            out.append(failing(e))
    return out


def op_write(rng, keep):
    from mediagrains import gsf
    f = gsfcase.content(rng)
    grains = gsfcase.build_grains(rng, f)
    yield
    if rng.random() < 0.5:
        way = rng.choice([w for w in gsfio.WRITE_WAYS if w not in gsfio.ONE_SEGMENT])
        got = gsfio.write_any(way, grains, f["head"]["segments"], rng, **gsfcase.enc_kw(f, rng))
        yield
    else:
        out = io.BytesIO()
        enc = gsf.GSFEncoder(out, streaming=rng.random() < 0.5, **gsfcase.enc_kw(f, rng))
        hs = gsfio._setup_segments(enc, f["head"]["segments"])
        yield
        with enc as e:
            yield
            for lid, g in grains:
                e.add_grain(g, segment_local_id=lid)
                yield
        del hs
        got = out.getvalue()
    keep += [g for _, g in grains]
    return [got, [seen(g) for _, g in grains]]


def op_dumps(rng, keep):
    """as much left to defaults as can be without the result depending on the moment"""
    from mediagrains import gsf
    grains = [gen.build(gen.r_desc(rng)) for _ in range(rng.randint(0, 4))]
    yield
    kw = dict(id=uuid.UUID(int=rng.getrandbits(128)), created=gsfcase.dt(gsfcase.r_created(rng), rng))
    if rng.random() < 0.3:
        kw["tags"] = [("a", "b")]
    if rng.random() < 0.3:
        kw["segment_tags"] = [("c", "d")]
    out = gsf.dumps(grains, **kw)
    yield
    # (the segment is given a new id each time)
    for sg in gsf.loads(out)[0]["segments"]:
        out = out.replace(sg["id"].bytes_le, b"(id)").replace(sg["id"].bytes, b"(id)")
    return [out]


def unconverted(ctx, rng):
    """(a conversion may add noise)"""
    while True:
        g, how, _ = m03.r_numpy(ctx, rng)
        if how != "converted":
            return g


def op_grain(rng, keep):
    """a grain's life"""
    ctx = Quiet()
    g = unconverted(ctx, rng) if rng.random() < 0.4 else m03.r_made(ctx, rng)[0]
    yield
    out = []
    others = []
    for _ in range(rng.randint(1, 6)):
        out.append(m03.edit(ctx, rng, g))
        yield
        r = rng.random()
        if r < 0.3:
            others.append(m03.deep(ctx, rng, g))
        elif r < 0.4:
            g = m03.deep(ctx, rng, g)
        yield
    for x in [g] + others:
        s = m03.snap(x)
        out.append(re.sub(r"0x[0-9a-f]+", "*", repr(sorted(s.items(), key=lambda kv: kv[0]))))
        yield
    keep += [g] + others
    return out


def op_default(rng, keep):
    """grains with as little said as can be; their contents are then changed"""
    from mediagrains import grains as mg, numpy as mnp
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    kind = rng.choice(["Grain", "VideoGrain", "AudioGrain", "CodedVideoGrain", "CodedAudioGrain", "EventGrain", "npVideo", "npAudio"])
    kw = {}
    if rng.random() < 0.5:
        kw = dict(src_id=uuid.UUID(int=5), flow_id=uuid.UUID(int=6), origin_timestamp=gen.mts(gen.r_ts(rng)))
    else:
        kw = dict(src_id=uuid.UUID(int=5), flow_id=uuid.UUID(int=6), origin_timestamp=gen.mts(0), sync_timestamp=gen.mts(0))
    extra = {}
    if kind in ("VideoGrain", "npVideo") and rng.random() < 0.7:
        extra = dict(width=16, height=8, cog_frame_format=CogFrameFormat[rng.choice(["U8_444", "S16_422_10BIT", "v210", "U8_420", "YUYV"])])
    if kind in ("AudioGrain", "npAudio") and rng.random() < 0.7:
        extra = dict(channels=2, samples=10, cog_audio_format=CogAudioFormat[rng.choice(["S16_PLANES", "FLOAT_INTERLEAVED", "S32_PAIRS"])])
    if kind == "npVideo":
        extra = extra or dict(width=8, height=4, cog_frame_format=CogFrameFormat.U8_444)
    if kind == "npAudio":
        extra = extra or dict(channels=2, samples=10, cog_audio_format=CogAudioFormat.S16_PLANES)
    cls = dict(npVideo=mnp.VideoGrain, npAudio=mnp.AudioGrain).get(kind) or getattr(mg, kind)
    g = cls(**kw, **extra)
    yield
    out = [kind, seen(g)]
    if kind in ("VideoGrain", "AudioGrain") and g.data is not None:
        out.append(bytes(g.data))
    yield
    for n in ("component_data", "channel_data"):
        if hasattr(g, n):
            out.append([(a.shape, a.dtype.str, a.tobytes()) for a in getattr(g, n)])
            for a in getattr(g, n):
                a[...] = 1
    yield
    g.add_timelabel("t", rng.randint(0, 99), Fraction(25))
    if kind == "EventGrain":
        g.append("p", rng.choice([None, {}, [], "x"]), {"a": []})
        yield
        g.event_data[0].path = "q"
        g.event_data[0].post = 5
    if kind == "CodedVideoGrain":
        g.unit_offsets.append(rng.randint(0, 9))
    if kind == "VideoGrain":
        g.components.append({"width": 1, "height": 1, "stride": 1, "offset": 0, "length": 1})
    yield
    out.append(seen(g))
    g.meta["grain"]["extra"] = 5
    keep.append(g)
    return out


OPTION_FIELDS = ["origin_timestamp", "sync_timestamp", "source_id", "flow_id", "rate", "duration", "timelabels", "data", "length"]


def r_option(rng):
    from mediagrains.comparison import options as O
    from mediatimestamp.immutable import TimeOffset
    r = rng.random()
    if r < 0.4:
        return getattr(O.Exclude, rng.choice(OPTION_FIELDS))
    if r < 0.5:
        return O.CompareOnlyMetadata
    if r < 0.6:
        return O.Include.creation_timestamp
    e = getattr(O.ExpectedDifference, rng.choice(["origin_timestamp", "sync_timestamp"]))
    v = TimeOffset(rng.randint(0, 3), rng.randint(0, 5))
    e = rng.choice([lambda: e <= v, lambda: e == v, lambda: e != v, lambda: e > v])()
    if rng.random() < 0.4:
        e = (getattr(O.ExpectedDifference, "origin_timestamp") >= v) | e
    return e


def told(r):
    return [bool(r), re.sub(r"0x[0-9a-f]+", "*", str(r)), [bool(c) for c in r.children.values()] if isinstance(r.children, dict) else repr(len(r.children))]


def op_compare(rng, keep):
    from mediagrains.comparison import compare_grain
    ctx = Quiet()
    d = gen.r_desc(rng)
    e, _ = c01.mutate(ctx, rng, d)
    a, b = c01.make(ctx, rng, d)[0], c01.make(ctx, rng, e)[0]
    yield
    opts = [r_option(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    yield
    out = [told(compare_grain(a, b, *opts))]
    yield
    out.append(told(compare_grain(b, a, *opts)))
    yield
    return out + [a == b, b != a]


def op_pairwise(rng, keep):
    from mediagrains.comparison import compare_grains_pairwise
    ctx = Quiet()
    t = rng.choice(gen.TYPES)
    ds = [gen.r_desc(rng, t) for _ in range(rng.randint(0, 4))]
    es = [c01.mutate(ctx, rng, d)[0] if rng.random() < 0.4 else d for d in ds][:rng.choice([9, 9, 9, 1])]
    a, b = [gen.build(d) for d in ds], [gen.build(d) for d in es]
    yield
    opts = [r_option(rng) for _ in range(rng.choice([0, 0, 1]))]
    r = compare_grains_pairwise(iter(a), iter(b), *opts, **rng.choice([{}, dict(return_last_only=True), dict(return_last_only=False)]))
    yield
    return [bool(r), re.sub(r"0x[0-9a-f]+", "*", str(r))]


def op_psnr(rng, keep):
    from mediagrains.comparison import compute_psnr
    f = rng.choice([x for x in convref.available() if x != "v210"])
    w, h = n03.r_size(rng, f, f)
    gs = []
    for _ in range(2):
        samples = n03.picture(rng, f, w, h, rng.choice(["noise", "limits", "gradient"]))
        gs.append(n03.source(rng, f, w, h, samples)[0])
        yield
    return [repr(compute_psnr(gs[0], gs[1])), repr(compute_psnr(gs[1], gs[0]))]


def op_convert_v210(rng, keep):
    """(a conversion of its own kind)"""
    return (yield from converted(rng, keep, *rng.choice([("S16_422_10BIT", "v210"), ("S16_422_10BIT", "v210"), ("v210", "S16_422_10BIT")])))


def op_convert(rng, keep):
    """(of those that increase the depth, which add noise, only the metadata)"""
    fs = convref.available()
    a = rng.choice(fs)
    deeper = rng.random() < 0.2
    b = rng.choice([f for f in fs if convref.kind(f)[0] <= convref.kind(a)[0] or deeper])
    return (yield from converted(rng, keep, a, b))


def converted(rng, keep, a, b):
    from mediagrains.cogenums import CogFrameFormat
    w, h = n03.r_size(rng, a, b)
    g = n03.source(rng, a, w, h, n03.picture(rng, a, w, h, rng.choice(["noise", "extremes", "limits"])))[0]
    yield
    out = g.convert(CogFrameFormat(gen.FRAME[b]))
    yield
    if convref.kind(b)[0] > convref.kind(a)[0]:
        return [seen(g), out.length, out.cog_frame_format, out.component_data[0].shape]
    r = [seen(g), seen(out), [(c.shape, c.dtype.str, c.tobytes()) for c in out.component_data]]
    keep += [out, g]
    return r


def op_views(rng, keep):
    g = unconverted(Quiet(), rng)
    yield
    out = []
    for n in ("component_data", "channel_data"):
        if hasattr(g, n):
            views = getattr(g, n)
            yield
            out.append([(a.shape, a.strides, a.dtype.str, a.tobytes()) for a in views])
            for a in views:
                if a.flags.writeable and a.size:
                    a.flat[rng.randrange(a.size)] = 1
            yield
    keep.append(g)
    return out + [gen.data_bytes(g.data)]


def asked(rng, g, rate, out, keep):
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([0, 1, rng.randint(-30, 30), rng.randint(0, 10 ** 4)])
        try:
            x = p01.ask(rng, g, n, rate)
        except Exception as e:
            out.append(failing(e))
        else:
            out.append(seen(x))
            if x.data is not None and not isinstance(x.data, bytes):
                m = memoryview(x.data).cast("B")
                if len(m):
                    m[rng.randrange(len(m))] ^= 0xff
            keep.append(x)
        yield


def op_video_pattern(rng, keep):
    ctx = Quiet()
    s = p01.still(ctx, rng, supported=True) if rng.random() < 0.3 else p01.steps(ctx, rng, False, rng.choice(p01.RATES))
    yield
    if rng.random() < 0.5:
        s = p01.overlay(ctx, rng, s)
    g = s.make()
    out = [s.name]
    yield from asked(rng, g, s.rate, out, keep)
    return out


def op_audio_pattern(rng, keep):
    c, g = p02.make(Quiet(), rng, rng.choice(p02.FORMATS))
    yield
    out = [c.fmt, c.f]
    yield from asked(rng, g, Fraction(c.sr, c.samples), out, keep)
    return out


def wrapped(grains, rng, out, keep):
    for g in grains:
        out.append(seen(g))
        if rng.random() < 0.2:
            g.add_timelabel("changed", 5, Fraction(25))
            if isinstance(g.data, bytearray) and g.data:
                g.data[0] ^= 0xff
        keep.append(g)
        yield


def op_wrap_raw(rng, keep):
    from mediagrains.utils import GrainWrapper
    d = gen.r_desc(rng, "video")
    name = rng.choice(gen.PLANAR + gen.PACKED)
    w, h = 2 * rng.randint(1, 12), 2 * rng.randint(1, 6)
    rate = gen.r_media_rate(rng)
    d.update(fmt=gen.FRAME[name], width=w, height=h, rate=rate, duration=1 / rate, origin=rng.randint(0, 10 ** 15), components=gen.video_layout(name, w, h), data=None)
    t = gen.build(d, rng.choice(["class", "meta"]))
    data = rng.randbytes(gen.video_size(name, w, h) * rng.randint(0, 4) + rng.choice([0, 1]))
    out = []
    with essence.Open(rng.choice(["bytesio", "bytesio", "raw", "bytearray"]), data, rng) as src:
        yield
        yield from wrapped(GrainWrapper(t, src).grains(), rng, out, keep)
    keep.append(t)
    return out


def op_wrap_aac(rng, keep):
    from mediagrains.utils import ADTSAACGrainWrapper
    fi, cc = rng.randrange(13), rng.randrange(8)
    data = b"".join(w02.frame(rng, fi, cc, rng.randint(7, 300)) for _ in range(rng.randint(0, 6)))
    if rng.random() < 0.2:
        data += b"junk and more junk"
    t, _ = w02.template(rng, rng.randint(0, 10 ** 15))
    out = []
    with essence.Open(rng.choice(["bytesio", "bytesio", "raw", "bytearray"]), data, rng) as src:
        try:
            yield from wrapped(ADTSAACGrainWrapper(t, src).grains(), rng, out, keep)
        except ValueError as e:
            out.append(failing(e))
    return out


def op_wrap_h264(rng, keep):
    from mediagrains.utils import H264GrainWrapper
    from mediagrains.grains import CodedVideoGrain
    from mediagrains.cogenums import CogFrameFormat
    st = h264ref.stream(rng, rng.choice([1, 2, 3]), 0)
    t = CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(rng.randint(0, 10 ** 15)), rate=Fraction(25), duration=Fraction(1, 25),
                        cog_frame_format=CogFrameFormat.H264)
    out = []
    with essence.Open(rng.choice(["bytesio", "bytesio", "bytearray"]), st["data"], rng) as src:
        yield
        yield from wrapped(H264GrainWrapper(t, src).grains(), rng, out, keep)
    return out


def op_lazy(rng, keep):
    from mediagrains.utils import IOBytes
    data = rng.randbytes(rng.randint(1, 200))
    f = io.BytesIO(data)
    a = rng.randint(0, len(data))
    b = IOBytes(f, a, rng.randint(0, len(data) - a))
    yield
    out = []
    for _ in range(rng.randint(1, 6)):
        r = rng.randrange(6)
        if r == 0:
            out.append(bytes(b))
        elif r == 1:
            out.append(len(b))
        elif r == 2 and len(b):
            out.append(b[rng.randrange(len(b))])
        elif r == 3:
            i = rng.randint(0, len(b))
            out.append(bytes(b[i:rng.randint(i, len(b))]))
        elif r == 4:
            out.append([b == bytes(b), b == b"other", hash(b) == hash(bytes(b))])
        else:
            c = IOBytes(f, 0, len(data))
            out.append(bytes(c))
        yield
    return out


# ---------------------------------------------------------------- operations that are coroutines
async def aop_read(rng, keep):
    f = refgsf.random_file(rng, ngrains=rng.randint(0, 6))
    f["head"]["created"] = gsfcase.r_created(rng)
    raw = refgsf.file_bytes(f)
    out = []

    async def on_grain(g, lid):
        await asyncio.sleep(0)
        if rng.random() < 0.3:
            await asyncio.sleep(0)

    loading = rng.choice(gsfio.MODES)

    async def after(got):
        for lid, g in got.grains:
            if loading != "LOAD_NEVER":
                await g
            await asyncio.sleep(0)
    # (what the source does must not depend on how its operations happen to be ordered, so it has a source of chance of its own)
    got = await gsfio.aread_session(raw, random.Random(rng.getrandbits(64)), rng.choice(["abytesio", "afilewrap_bytesio", "abytesiowrap"]), loading, on_grain=on_grain, after=after)
    out.append([repr(sorted((got.head or {}).items(), key=str)), failing(got.error)])
    out += [[lid, seen(g)] for lid, g in got.grains]
    keep += [g for _, g in got.grains]
    return out


async def aop_write(rng, keep):
    from mediagrains import gsf
    from mediagrains.utils import asyncbinaryio as ab
    f = gsfcase.content(rng)
    grains = gsfcase.build_grains(rng, f)
    b = io.BytesIO()
    enc = gsf.GSFEncoder(ab.AsyncFileWrapper(b) if rng.random() < 0.5 else ab.AsyncBytesIOWrapper(b), streaming=True, **gsfcase.enc_kw(f, rng))
    gsfio._setup_segments(enc, f["head"]["segments"])
    async with enc as e:
        for lid, g in grains:
            await e.add_grain(g, segment_local_id=lid)
            await asyncio.sleep(0)
    keep += [g for _, g in grains]
    return [b.getvalue()]


async def aop_file(rng, keep):
    from mediagrains.utils import asyncbinaryio as ab
    data = rng.randbytes(rng.randint(0, 300))
    out = []
    b = rng.choice([lambda: ab.AsyncBytesIO(data), lambda: ab.AsyncBytesIOWrapper(io.BytesIO(data)), lambda: ab.AsyncFileWrapper(io.BytesIO(data))])()
    async with b as f:
        for _ in range(rng.randint(1, 8)):
            r = rng.randrange(5)
            if r == 0:
                out.append(await f.read(rng.randint(0, 100)))
            elif r == 1:
                out.append(f.seek(rng.randint(0, len(data))))
            elif r == 2:
                x = bytearray(rng.randint(0, 50))
                out.append([await f.readinto(x), bytes(x)])
            elif r == 3:
                out.append(f.tell())
            else:
                out.append(await f.write(rng.randbytes(rng.randint(0, 20))))
            await asyncio.sleep(0)
        f.seek(0)
        out.append(await f.read())
    return out


STEPPED = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith("op_")}
TASKS = {"a_" + k[4:]: v for k, v in sorted(globals().items()) if k.startswith("aop_")}
NAMES = sorted(STEPPED) + sorted(TASKS)


# ---------------------------------------------------------------- running them
def digest(out):
    return [(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=10).hexdigest(), repr(x)[:60000]) for x in out]


class Veering(random.Random):
    """makes the first so many choices as another source does and goes its own way from there: inputs that have much in common"""

    def __init__(self, common, many, own):
        self.left = None
        super().__init__(common)
        self.left, self.own = many, own

    def step(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.seed(self.own)

    def random(self):
        self.step()
        return super().random()

    def getrandbits(self, k):
        self.step()
        return super().getrandbits(k)


def chance(name, seed):
    if isinstance(seed, int):
        return random.Random("%s:%s" % (name, seed))
    return Veering("%s:%s" % (name, seed[0]), seed[1], "%s:%s:own" % (name, seed[2]))


def steps(name, seed, keep):
    """a generator whose result is the digest"""
    r = chance(name, seed)
    try:
        out = yield from STEPPED[name](r, keep)
    except Exception as e:
        out = [["raised"] + failing(e)]
    return digest(out)


async def task(name, seed, keep):
    try:
        out = await TASKS[name](chance(name, seed), keep)
    except Exception as e:
        out = [["raised"] + failing(e)]
    return digest(out)


def run(name, seed, keep):
    if name in TASKS:
        return asyncio.run(task(name, seed, keep))
    it = steps(name, seed, keep)
    while True:
        try:
            next(it)
        except StopIteration as e:
            return e.value


def overwrite(rng, keep):
    """what the user does with what was given"""
    n = 0
    for x in keep:
        try:
            m = memoryview(x.data).cast("B") if x.data is not None and x.grain_type != "event" else None
            if m is not None and not m.readonly:
                for i in range(len(m)):
                    m[i] = 0xA5
                n += 1
        except (TypeError, ValueError, AttributeError):
            pass
        try:
            for d in m03.mutables(x.meta, {}).values():
                d.clear()
            n += 1
        except Exception:
            pass
    keep.clear()
    return n


def settings():
    import numpy as np
    return dict(numpy_errors=np.geterr(), numpy_call=repr(np.geterrcall()), numpy_print=repr(sorted(np.get_printoptions().items(), key=str)),
                warnings=list(warnings.filters), showwarning=warnings.showwarning, recursion=sys.getrecursionlimit(), switching=sys.getswitchinterval(),
                environment=dict(os.environ), cwd=os.getcwd(), locale=locale.setlocale(locale.LC_ALL), tz=time.tzname, decimal=repr(decimal.getcontext()),
                collection=(gc.isenabled(), gc.get_threshold()), streams=(sys.stdin, sys.stdout, sys.stderr), hooks=(sys.excepthook, sys.unraisablehook, threading.excepthook),
                signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGCHLD)],
                logging=(logging.root.level, list(logging.root.handlers), logging.root.manager.disable), policy=asyncio.get_event_loop_policy(), path=list(sys.path),
                umask=[os.umask(0o22), os.umask(0o22)][1], digits=sys.get_int_max_str_digits(), tracing=(sys.gettrace(), sys.getprofile()))


def child(f):
    """f() in a process forked off, which has used nothing of the library yet"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(200)
            try:
                got = ("ok", f())
            except BaseException as e:
                got = ("error", core._tb() or repr(e))
            with os.fdopen(w, "wb") as out:
                pickle.dump(got, out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            got = f.read()
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if status and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        raise core.Inconclusive("a process took more than 200 s")
    if not got:
        raise core.Violation("a process running the operations died: status %d" % status)
    kind, value = pickle.loads(got)
    if kind == "error":
        raise RuntimeError("in a child: " + value)
    return value


def alone(job):
    import numpy as np
    # random numbers may be drawn from the process's generators, which must not be seeded
    seeded = []
    for m in (random, np.random):
        for n in ("seed", "setstate", "set_state"):
            if hasattr(m, n):
                setattr(m, n, lambda *a, n=n, m=m, f=getattr(m, n): (seeded.append("%s.%s" % (m.__name__, n)), f(*a))[1])
    before = settings()
    keep = []
    d = run(job[0], job[1], keep)
    after = settings()
    return d, seeded + [k for k in before if before[k] != after[k]]


def again(jobs, seed, collect=False):
    rng = random.Random(seed)
    if collect:
        gc.set_threshold(1, 1, 1)
    out, n, held = [], 0, []
    for _ in range(2):
        order = list(range(len(jobs)))
        rng.shuffle(order)
        for i in order:
            keep = []
            out.append((i, run(jobs[i][0], jobs[i][1], keep)))
            if rng.random() < 0.6:
                n += overwrite(rng, keep)
            elif rng.random() < 0.5:
                held.append(keep)
    return out, n


def in_turns(jobs, seed):
    rng = random.Random(seed)
    out, keeps = [], []
    live = []
    for i, (name, s) in enumerate(jobs):
        if name in STEPPED:
            keeps.append([])
            live.append((i, steps(name, s, keeps[-1])))
    while live:
        x = rng.choice(live)
        try:
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                next(x[1])
        except StopIteration as e:
            out.append((x[0], e.value))
            live.remove(x)
    return out, 0


def as_tasks(jobs, seed):
    rng = random.Random(seed)
    mine = [i for i, (name, _) in enumerate(jobs) if name in TASKS]
    mine += [rng.choice(mine) for _ in range(3 if mine else 0)]
    if not mine:
        return [], 0

    async def go():
        async def later(i):
            for _ in range(rng.randint(0, 5)):
                await asyncio.sleep(0)
            return i, await task(jobs[i][0], jobs[i][1], [])
        return await asyncio.gather(*[later(i) for i in mine])
    return asyncio.run(go()), 0


def in_threads(jobs, seed):
    rng = random.Random(seed)
    sys.setswitchinterval(1e-6)
    out = []
    n = 4
    gate = threading.Barrier(n)
    errors = []

    # half of the time threads are also made to give way between lines of the library
    often = rng.choice([0, 0, 0.3, 0.05])
    root = os.path.join(boot.REPO, "mediagrains")

    def work(order, chance):
        def line(frame, event, arg):
            if chance.random() < often:
                time.sleep(0 if chance.random() < 0.95 else 1e-5)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(root) else None
        try:
            gate.wait(60)
            if often:
                sys.settrace(call)
            for i in order:
                out.append((i, run(jobs[i][0], jobs[i][1], [])))
        except BaseException as e:
            errors.append(repr(e))
        finally:
            sys.settrace(None)
    ts = []
    for _ in range(n):
        order = list(range(len(jobs)))
        # half of the time all start with the same ones
        if rng.random() < 0.5:
            rng.shuffle(order)
        ts.append(threading.Thread(target=work, args=(order, random.Random(rng.getrandbits(40)))))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise RuntimeError(errors[0])
    return out, 0


WAYS = dict(repeated=again, collected=lambda j, s: again(j, s, True), in_turns=in_turns, as_tasks=as_tasks, in_threads=in_threads)


def same(ctx, job, got, want, how):
    if [x[0] for x in got] == [x[0] for x in want]:
        return
    for i, (a, b) in enumerate(zip(got, want)):
        if a[0] != b[0]:
            k = next((n for n, (p, q) in enumerate(zip(a[1], b[1])) if p != q), 0)
            ctx.fail("%s gives something else %s than alone (item %d)" % (job[0], how, i), got=a[1][max(0, k - 60):k + 300], want=b[1][max(0, k - 60):k + 300], seed=job[1])
    ctx.fail("%s gives something else %s than alone" % (job[0], how), got=len(got), want=len(want), seed=job[1])


def references(ctx, jobs):
    out = []
    for j in jobs:
        d, changed = child(lambda: alone(j))
        ctx.require(not changed, "%s leaves the process changed: %s" % (j[0], ", ".join(changed)), seed=j[1])
        ctx.count("references")
        ctx.count("settings_compared")
        out.append(d)
    return out


def plan(ctx):
    n = ctx.n(160, 4000)
    return [("together-%d" % j, dict(kind="together")) for j in range(n)] + [("kin-%d" % j, dict(kind="kin", name=NAMES[j % len(NAMES)])) for j in range(n)] + [
        ("process-%d" % j, dict(kind="process")) for j in range(ctx.n(40, 800))]


def case(ctx, rng, key, p):
    if p["kind"] == "process":
        return elsewhere(ctx, rng)
    n = 10
    # operations of every sort, or of one
    names = [rng.choice(NAMES) for _ in range(n)] if p["kind"] == "together" else [p["name"]] * n
    jobs = [(x, rng.getrandbits(40)) for x in names]
    if p["kind"] == "kin":
        common = [rng.getrandbits(40) for _ in range(rng.choice([1, 1, 2]))]
        jobs = [(x, rng.choice([s, [rng.choice(common), rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 100]), s]])) for x, s in jobs]
    want = references(ctx, jobs)
    for how, f in WAYS.items():
        s = rng.getrandbits(40)
        if how == "collected" and rng.random() < 0.6:
            continue
        got, n = child(lambda: f(jobs, s))
        for i, d in got:
            same(ctx, jobs[i], d, want[i], how.replace("_", " "))
            ctx.count(how)
            ctx.saw(jobs[i][0], how)
        ctx.count("overwritten", n)
    ctx.sample([j[0] for j in jobs], 1)


def main():
    """in a process of another kind: the operations named on the standard input"""
    boot.load()
    job = json.load(sys.stdin)
    if job.get("locale"):
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    out = [run(name, seed, []) for name, seed in job["jobs"]]
    sys.stdout.write("RESULT" + json.dumps(out))


def elsewhere(ctx, rng):
    jobs = [(rng.choice(NAMES), rng.getrandbits(40)) for _ in range(40)]
    want = references(ctx, jobs)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONHASHSEED", "TZ"))}
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    choice = dict(PYTHONHASHSEED=rng.choice(["0", "1", str(rng.randint(2, 1 << 31))]), TZ=rng.choice(["Asia/Tokyo", "XYZ-5:30", "America/New_York", "ABC+11DEF", "UTC"]),
                  LC_ALL=rng.choice(["C", "POSIX", "C.UTF-8", "nonesuch"]), MALLOC_PERTURB_=str(rng.randint(0, 255)), PYTHONUTF8=rng.choice(["0", "1"]), PYTHONPATH=here)
    if rng.random() < 0.3:
        choice["PYTHONMALLOC"] = rng.choice(["malloc", "debug"])
    if rng.random() < 0.4:
        choice["PYTHONOPTIMIZE"] = rng.choice(["1", "2"])
    env.update(choice)
    p = subprocess.Popen([sys.executable, "-c", "from rv.checks import s01; s01.main()"], env=env, cwd=rng.choice(["/", "/usr", "/dev/shm"]), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(json.dumps(dict(jobs=jobs, locale=rng.random() < 0.5)).encode(), timeout=200)
    except subprocess.TimeoutExpired:
        raise core.Inconclusive("a process took more than 200 s")
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    how = "in a process with " + " ".join("%s=%s" % kv for kv in sorted(choice.items()) if kv[0] != "PYTHONPATH")
    ctx.require(p.returncode == 0, "operations failed " + how, status=p.returncode, err=err.decode("utf-8", "replace")[-1500:])
    got = json.loads(out.decode().split("RESULT", 1)[1])
    for j, g, w in zip(jobs, got, want):
        same(ctx, j, g, w, how)
        ctx.count("other_processes")
        ctx.saw(j[0], choice["TZ"], choice["LC_ALL"], choice.get("PYTHONOPTIMIZE"))
