"""Grain descriptions: plain dictionaries that say what a grain is, independent of the library.

build() makes a library grain from a description, observe() reads one back through the public
attributes; an execution is judged by comparing descriptions.
"""
import json
from fractions import Fraction
from uuid import UUID
import struct

NS = 1000000000
MAX_SEC = (1 << 48) - 1

# independent tables (from the COG format documentation): name -> value
FRAME = dict(
    MJPEG=0x200, DNxHD=0x201, MPEG2=0x202, AVCI=0x203, H264=0x204, DV=0x205, D10=0x206, VC2=0x207, VP8=0x208,
    H265=0x209, ALPHA_U8_1BIT=0x1080, U8_444=0x2000, U8_422=0x2001, U8_420=0x2003, U8_444_RGB=0x2010,
    ALPHA_U8=0x2080, YUYV=0x2100, UYVY=0x2101, AYUV=0x2102, RGB=0x2104, RGBx=0x2110, xRGB=0x2111, BGRx=0x2112,
    xBGR=0x2113, RGBA=0x2114, ARGB=0x2115, BGRA=0x2116, ABGR=0x2117, S16_444_10BIT=0x2804,
    S16_444_10BIT_RGB=0x2814, S16_422_10BIT=0x2805, S16_420_10BIT=0x2807, ALPHA_S16_10BIT=0x2884, v210=0x2906,
    S16_444_12BIT=0x3004, S16_444_12BIT_RGB=0x3014, S16_422_12BIT=0x3005, S16_420_12BIT=0x3007,
    ALPHA_S16_12BIT=0x3084, S16_444=0x4004, S16_444_RGB=0x4014, S16_422=0x4005, S16_420=0x4007, ALPHA_S16=0x4084,
    v216=0x4105, S32_444=0x8008, S32_444_RGB=0x8018, S32_422=0x8009, S32_420=0x800b, ALPHA_S32=0x8088,
    UNKNOWN=0xfffffffe, INVALID=0xffffffff)
LAYOUT = dict(FULL_FRAME=0, SEPARATE_FIELDS=1, SINGLE_FIELD=2, MIXED_FIELDS=3, SEGMENTED_FRAME=4, UNKNOWN=0xfffffffe)
AUDIO = dict(
    S16_PLANES=0, S16_PAIRS=1, S16_INTERLEAVED=2, S24_PLANES=4, S24_PAIRS=5, S24_INTERLEAVED=6, S32_PLANES=8,
    S32_PAIRS=9, S32_INTERLEAVED=0xa, S64_INVALID=0xc, FLOAT_PLANES=0x18, FLOAT_PAIRS=0x19, FLOAT_INTERLEAVED=0x1a,
    DOUBLE_PLANES=0x2c, DOUBLE_PAIRS=0x2d, DOUBLE_INTERLEAVED=0x2e, MP1=0x200, AAC=0x201, OPUS=0x202,
    UNKNOWN=0xfffffffe, INVALID=0xffffffff)
FRAME_NAME = {v: k for k, v in FRAME.items()}
AUDIO_NAME = {v: k for k, v in AUDIO.items()}
CODED_FRAME = [k for k, v in FRAME.items() if 0x200 <= v < 0x300]
ALPHA = [k for k in FRAME if k.startswith("ALPHA")]
CODED_AUDIO = ["MP1", "AAC", "OPUS"]
PCM = [k for k in AUDIO if k.split("_")[-1] in ("PLANES", "PAIRS", "INTERLEAVED")]

TYPES = ["empty", "video", "audio", "coded_video", "coded_audio", "event"]
CLASSNAME = dict(empty="Grain", video="VideoGrain", audio="AudioGrain", coded_video="CodedVideoGrain",
                 coded_audio="CodedAudioGrain", event="EventGrain")


# ---------------------------------------------------------------- layouts (independent description)
def planar_info(name):
    """(bits per sample active, bytes per sample, h shift, v shift, is_rgb) or None when not planar."""
    parts = name.split("_")
    if name.startswith("ALPHA") or parts[0] not in ("U8", "S16", "S32"):
        return None
    bps = {"U8": 1, "S16": 2, "S32": 4}[parts[0]]
    bits = {"U8": 8, "S16": 16, "S32": 32}[parts[0]]
    for p in parts:
        if p.endswith("BIT"):
            bits = int(p[:-3])
    chroma = parts[1]
    hs, vs = {"444": (0, 0), "422": (1, 0), "420": (1, 1)}[chroma]
    return (bits, bps, hs, vs, parts[-1] == "RGB")


PLANAR = [k for k in FRAME if planar_info(k)]
PACKED_BPP = dict(YUYV=2, UYVY=2, RGB=3, RGBx=4, RGBA=4, xRGB=4, ARGB=4, BGRx=4, BGRA=4, xBGR=4, ABGR=4, v216=4)
PACKED = list(PACKED_BPP) + ["v210"]
AYUV_BPP = 4   # a packed 8-bit 4:4:4 format with alpha


def video_layout(name, w, h):
    """[(width, height, stride, offset, length)] for even sizes."""
    pi = planar_info(name)
    if pi:
        bits, bps, hs, vs, rgb = pi
        comps, off = [], 0
        for c in range(3):
            cw, ch = (w, h) if c == 0 else (w >> hs, h >> vs)
            ln = w * h * bps if c == 0 else ((w * h) >> (hs + vs)) * bps
            comps.append((cw, ch, cw * bps, off, ln))
            off += ln
        return comps
    if name == "v210":
        stride = ((w + 47) // 48) * 128
        return [(w, h, stride, 0, stride * h)]
    if name == "AYUV":
        return [(w, h, w * AYUV_BPP, 0, w * h * AYUV_BPP)]
    if name in PACKED_BPP:
        b = PACKED_BPP[name]
        return [(w, h, w * b, 0, w * h * b)]
    return []


def video_size(name, w, h):
    return sum(c[4] for c in video_layout(name, w, h))


def audio_sample_bytes(name):
    kind = name.split("_")[0]
    if name == "S24_PLANES":
        return 4
    return {"S16": 2, "S24": 3, "S32": 4, "FLOAT": 4, "DOUBLE": 8}[kind]


def audio_size(name, channels, samples):
    if name not in PCM:
        return 0
    if name.endswith("PAIRS"):
        channels = (channels + 1) // 2 * 2
    return channels * samples * audio_sample_bytes(name)


# ---------------------------------------------------------------- random values
def rbytes(rng, n):
    return rng.randbytes(n)


def r_uuid(rng):
    k = rng.random()
    if k < 0.05:
        return UUID(int=0)
    if k < 0.1:
        return UUID(int=(1 << 128) - 1)
    return UUID(int=rng.getrandbits(128))


def r_uint(rng, bits):
    k = rng.random()
    if k < 0.12:
        return 0
    if k < 0.24:
        return (1 << bits) - 1
    if k < 0.36:
        return 1 << rng.randrange(bits)
    if k < 0.5:
        return rng.randrange(min(300, 1 << bits))
    return rng.getrandbits(rng.randint(1, bits))


def r_ts(rng, neg=True):
    """a timestamp in ns that every format field can hold"""
    k = rng.random()
    sec = 0 if k < 0.1 else MAX_SEC if k < 0.15 else rng.randrange(1 << 31) if k < 0.6 else rng.getrandbits(rng.randint(1, 48))
    k = rng.random()
    ns = 0 if k < 0.2 else NS - 1 if k < 0.3 else rng.randrange(NS)
    if sec == MAX_SEC:
        ns = min(ns, NS - 1)
    v = sec * NS + ns
    return -v if neg and rng.random() < 0.25 else v


RATES = [Fraction(25), Fraction(50), Fraction(30000, 1001), Fraction(60000, 1001), Fraction(24000, 1001), Fraction(24),
         Fraction(30), Fraction(1, 2), Fraction(48000, 1024), Fraction(1), Fraction(120), Fraction(44100, 1024)]


def r_rate(rng, zero=True):
    k = rng.random()
    if zero and k < 0.1:
        return Fraction(0)
    if k < 0.7:
        return rng.choice(RATES)
    return Fraction(max(1, r_uint(rng, 32)), max(1, r_uint(rng, 32)))


STRS = ["", "a", "tag", "caf\u00e9", "\u20ac\u20ac", "\U0001f3a5 grain", "urn:x-test:thing", " spaced ", "x" * 15]


def r_str(rng, maxbytes=None, nul=False):
    k = rng.random()
    if k < 0.5:
        s = rng.choice(STRS)
    else:
        s = "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xa1, 0x2ff), rng.randint(0x3041, 0x30ff),
                                    rng.randint(0x1f300, 0x1f3ff)])) for _ in range(rng.randint(0, 12)))
    if maxbytes is not None:
        while len(s.encode()) > maxbytes:
            s = s[:-1]
    return s


def r_json(rng, depth=2):
    k = rng.random()
    if depth and k < 0.2:
        return [r_json(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if depth and k < 0.4:
        return {r_str(rng): r_json(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    return rng.choice([True, False, 0, -1, 1 << 60, -(1 << 200), 1.5, 1e-300, "", r_str(rng), "\u0000 nul", "quote\"\\", "half \ud83d a pair", rng.random()])


def r_timelabels(rng):
    n = rng.choice([0, 0, 0, 1, 1, 2, 5])
    return [(r_str(rng, 16), r_uint(rng, 32), r_rate(rng), rng.random() < 0.5) for _ in range(n)]


def r_desc(rng, type=None, small=True, neg=True, v7=False):
    """A grain every field of which the GSF format can hold."""
    t = type or rng.choice(TYPES)
    d = dict(type=t, src=r_uuid(rng), flow=r_uuid(rng), origin=r_ts(rng, neg), sync=r_ts(rng, neg),
             creation=r_ts(rng, neg), rate=r_rate(rng), duration=r_rate(rng), timelabels=r_timelabels(rng))
    if t == "empty":
        d["data"] = rng.choice([None, None, rbytes(rng, rng.randint(1, 64))])
    elif t == "video":
        name = rng.choice(PLANAR + PACKED + ["AYUV", "UNKNOWN", "INVALID"] + ALPHA)
        w, h = 2 * rng.randint(1, 8), 2 * rng.randint(1, 6)
        if small:
            comps = video_layout(name, w, h)
        d.update(fmt=FRAME[name], layout=rng.choice(list(LAYOUT.values())), width=w, height=h,
                 extension=rng.choice([0, 0, r_uint(rng, 32)]), sar=rng.choice([None, r_rate(rng, False)]),
                 par=rng.choice([None, r_rate(rng, False)]))
        if rng.random() < 0.3:
            comps, off = [], 0
            for _ in range(rng.randint(1, 5)):
                ln = rng.randint(0, 40)
                comps.append((r_uint(rng, 32), r_uint(rng, 32), r_uint(rng, 32), off, ln))
                off += ln
        d["components"] = comps
        d["data"] = rbytes(rng, sum(c[4] for c in comps))
        if rng.random() < 0.2:
            d["data"] = rbytes(rng, rng.randint(0, 50))
    elif t == "audio":
        name = rng.choice(PCM + ["UNKNOWN", "S64_INVALID", "INVALID"])
        ch, n = rng.randint(1, 6), rng.choice([0, 1, 2, 7, 16])
        d.update(fmt=AUDIO[name], samples=n, channels=ch, sample_rate=rng.choice([48000, 44100, 96000, 1, r_uint(rng, 32)]))
        d["data"] = rbytes(rng, audio_size(name, ch, n))
        if rng.random() < 0.2:
            d["samples"] = r_uint(rng, 32)
            d["channels"] = r_uint(rng, 16)
    elif t == "coded_video":
        d.update(fmt=FRAME[rng.choice(CODED_FRAME + ["UNKNOWN"])], layout=rng.choice(list(LAYOUT.values())),
                 origin_width=r_uint(rng, 32), origin_height=r_uint(rng, 32), coded_width=r_uint(rng, 32),
                 coded_height=r_uint(rng, 32), is_key_frame=rng.choice([True, False, None]),
                 temporal_offset=rng.choice([None, 0, 1, -1, -(1 << 31), (1 << 31) - 2, rng.randint(-1000, 1000)]),
                 unit_offsets=[r_uint(rng, 32) for _ in range(rng.choice([0, 0, 1, 3, 9]))],
                 data=rbytes(rng, rng.randint(0, 80)))
        if v7:
            d["is_key_frame"] = bool(d["is_key_frame"])
            d["temporal_offset"] = rng.choice([0, (1 << 31) - 1]) if d["temporal_offset"] is None else d["temporal_offset"]
    elif t == "coded_audio":
        d.update(fmt=AUDIO[rng.choice(CODED_AUDIO + ["UNKNOWN"])], samples=r_uint(rng, 32), channels=r_uint(rng, 16),
                 priming=r_uint(rng, 32), remainder=r_uint(rng, 32), sample_rate=r_uint(rng, 32),
                 data=rbytes(rng, rng.randint(0, 80)))
    elif t == "event":
        ev = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            e = {"path": r_str(rng)}
            if rng.random() < 0.6:
                e["pre"] = r_json(rng)
            if rng.random() < 0.6:
                e["post"] = r_json(rng)
            if rng.random() < 0.3:
                e = dict(reversed(list(e.items())))
            ev.append(e)
        d.update(event_type=r_str(rng), topic=r_str(rng), event_data=ev)
    return d


# ---------------------------------------------------------------- building and observing
def ts_str(ns):
    return "%s%d:%d" % ("-" if ns < 0 else "", abs(ns) // NS, abs(ns) % NS)


def mts(ns):
    from mediatimestamp.immutable import Timestamp
    return Timestamp(abs(ns) // NS, abs(ns) % NS, -1 if ns < 0 else 1)


def ts_ns(ts):
    return ts.sign * (ts.sec * NS + ts.ns)


def fd(fr):
    return {"numerator": fr.numerator, "denominator": fr.denominator}


def tl_meta(tl):
    return {"tag": tl[0], "timelabel": {"frames_since_midnight": tl[1], "frame_rate_numerator": tl[2].numerator,
                                        "frame_rate_denominator": tl[2].denominator, "drop_frame": tl[3]}}


def event_payload(d):
    return {"type": d["event_type"], "topic": d["topic"], "data": d["event_data"]}


def meta_of(d, ns_key=True):
    """The documented metadata dictionary of a description."""
    g = {"grain_type": d["type"], "source_id": str(d["src"]), "flow_id": str(d["flow"]),
         "origin_timestamp": ts_str(d["origin"]), "sync_timestamp": ts_str(d["sync"]),
         "creation_timestamp": ts_str(d["creation"]), "rate": fd(d["rate"]), "duration": fd(d["duration"])}
    if d["timelabels"]:
        g["timelabels"] = [tl_meta(t) for t in d["timelabels"]]
    t = d["type"]
    if t == "video":
        cf = {"format": d["fmt"], "layout": d["layout"], "width": d["width"], "height": d["height"],
              "extension": d["extension"],
              "components": [dict(zip(("width", "height", "stride", "offset", "length"), c)) for c in d["components"]]}
        if d["sar"] is not None:
            cf["source_aspect_ratio"] = fd(d["sar"])
        if d["par"] is not None:
            cf["pixel_aspect_ratio"] = fd(d["par"])
        g["cog_frame"] = cf
    elif t == "audio":
        g["cog_audio"] = {"format": d["fmt"], "samples": d["samples"], "channels": d["channels"],
                          "sample_rate": d["sample_rate"]}
    elif t == "coded_video":
        cf = {"format": d["fmt"], "layout": d["layout"]}
        for k in ("origin_width", "origin_height", "coded_width", "coded_height"):
            cf[k] = d[k]
        if d["is_key_frame"] is not None:
            cf["is_key_frame"] = d["is_key_frame"]
        if d["temporal_offset"] is not None:
            cf["temporal_offset"] = d["temporal_offset"]
        if d["unit_offsets"]:
            cf["unit_offsets"] = list(d["unit_offsets"])
        g["cog_coded_frame"] = cf
    elif t == "coded_audio":
        g["cog_coded_audio"] = {k: d[k] for k in ("samples", "channels", "priming", "remainder", "sample_rate")}
        g["cog_coded_audio"]["format"] = d["fmt"]
    elif t == "event":
        g["event_payload"] = json.loads(json.dumps(event_payload(d)))
    m = {"grain": g}
    if ns_key:
        m["@_ns"] = "urn:x-ipstudio:ns:0.1"
    return m


def build(d, how="class", wrap=None):
    """how: class (keyword constructor), meta (metadata dictionary through the factory)."""
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat
    data = d.get("data")
    if wrap is not None and data is not None:
        data = wrap(data)
    t = d["type"]
    if how == "meta" or t == "empty":
        if t == "event":
            return mg.GrainFactory(meta_of(d), None)
        return mg.GrainFactory(meta_of(d), data)
    kw = dict(src_id=d["src"], flow_id=d["flow"], origin_timestamp=mts(d["origin"]), sync_timestamp=mts(d["sync"]),
              creation_timestamp=mts(d["creation"]), rate=d["rate"], duration=d["duration"])
    if t == "video":
        g = mg.VideoGrain(data=data, cog_frame_format=CogFrameFormat(d["fmt"]), width=d["width"], height=d["height"],
                          cog_frame_layout=CogFrameLayout(d["layout"]), **kw)
        g.extension = d["extension"]
        if d["sar"] is not None:
            g.source_aspect_ratio = d["sar"]
        if d["par"] is not None:
            g.pixel_aspect_ratio = d["par"]
        g.meta["grain"]["cog_frame"]["components"] = [
            dict(zip(("width", "height", "stride", "offset", "length"), c)) for c in d["components"]]
    elif t == "audio":
        g = mg.AudioGrain(data=data, cog_audio_format=CogAudioFormat(d["fmt"]), samples=d["samples"],
                          channels=d["channels"], sample_rate=d["sample_rate"], **kw)
    elif t == "coded_video":
        g = mg.CodedVideoGrain(data=data, cog_frame_format=CogFrameFormat(d["fmt"]), origin_width=d["origin_width"],
                               origin_height=d["origin_height"], coded_width=d["coded_width"],
                               coded_height=d["coded_height"], is_key_frame=d["is_key_frame"],
                               temporal_offset=d["temporal_offset"], cog_frame_layout=CogFrameLayout(d["layout"]),
                               unit_offsets=list(d["unit_offsets"]) if d["unit_offsets"] else None, **kw)
    elif t == "coded_audio":
        g = mg.CodedAudioGrain(data=data, cog_audio_format=CogAudioFormat(d["fmt"]), samples=d["samples"],
                               channels=d["channels"], priming=d["priming"], remainder=d["remainder"],
                               sample_rate=d["sample_rate"], **kw)
    elif t == "event":
        g = mg.EventGrain(event_type=d["event_type"], topic=d["topic"], **kw)
        for e in d["event_data"]:
            g.append(e["path"], e.get("pre"), e.get("post"))
    for tl in d["timelabels"]:
        g.add_timelabel(tl[0], tl[1], tl[2], tl[3])
    return g


def data_bytes(x):
    if x is None:
        return b""
    return bytes(x)


def observe(g, data=True, creation=True):
    """Read everything about a grain back through its public attributes."""
    t = g.grain_type
    d = dict(type=t, cls=type(g).__name__, src=g.source_id, flow=g.flow_id, origin=ts_ns(g.origin_timestamp),
             sync=ts_ns(g.sync_timestamp), rate=g.rate, duration=g.duration,
             timelabels=[(x.tag, x.count, x.rate, x.drop_frame) for x in g.timelabels])
    if creation:
        d["creation"] = ts_ns(g.creation_timestamp)
    if t == "video":
        d.update(fmt=int(g.cog_frame_format), layout=int(g.cog_frame_layout), width=g.width, height=g.height,
                 extension=g.extension, sar=g.source_aspect_ratio, par=g.pixel_aspect_ratio,
                 components=[(c.width, c.height, c.stride, c.offset, c.length) for c in g.components])
    elif t == "audio":
        d.update(fmt=int(g.cog_audio_format), samples=g.samples, channels=g.channels, sample_rate=g.sample_rate)
    elif t == "coded_video":
        d.update(fmt=int(g.cog_frame_format), layout=int(g.cog_frame_layout), origin_width=g.origin_width,
                 origin_height=g.origin_height, coded_width=g.coded_width, coded_height=g.coded_height,
                 is_key_frame=g.is_key_frame, temporal_offset=g.temporal_offset, unit_offsets=list(g.unit_offsets))
    elif t == "coded_audio":
        d.update(fmt=int(g.cog_audio_format), samples=g.samples, channels=g.channels, priming=g.priming,
                 remainder=g.remainder, sample_rate=g.sample_rate)
    elif t == "event":
        d.update(event_type=g.event_type, topic=g.topic, event_data=[dict(e) for e in g.event_data])
    if data and t != "event":
        d["data"] = data_bytes(g.data)
    return d


def expected(d, data=True, creation=True):
    """What observe() must give for a description."""
    e = dict(d)
    e["cls"] = CLASSNAME[d["type"]]
    if not creation:
        e.pop("creation", None)
    e.pop("data", None)
    if data and d["type"] != "event":
        e["data"] = data_bytes(d.get("data"))
    if d["type"] == "event":
        e["event_data"] = json.loads(json.dumps(d["event_data"]))
    return e


def diff(a, b):
    """First differing key between two flat descriptions, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s: %r vs %r" % (k, a.get(k, "<absent>"), b.get(k, "<absent>"))
        x, y = a[k], b[k]
        if x != y or (isinstance(x, bool) != isinstance(y, bool)):
            return "%s: %.300r vs %.300r" % (k, x, y)
    return None


def r_media_rate(rng):
    """a rate whose instants are distinct nanoseconds, fast enough that counting stays in range"""
    if rng.random() < 0.7:
        return rng.choice(RATES)
    return Fraction(rng.randint(1, 1000000), rng.choice([1, 1, 1001, 7, rng.randint(1, 5000)]))
