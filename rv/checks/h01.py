"""H01: the strategies for grains only produce valid grains as constrained."""
import copy
import re
import struct
from fractions import Fraction
from uuid import UUID

from .. import gen

ID = "H01"
LEVEL = "exploration"
RULE = ("Strategies for every grain type are built with random combinations of constraints (each parameter left out, None, a value, a strategy, or marked to be left unset), grains are drawn from "
        "them, and everything readable about each grain is compared with its constraint: exactly the value given, or a member of the strategy given, or of the "
        "documented default range; data is zero and has the length that the independent layout table gives. Grains drawn with data, and from templates, "
        "have valid data of the right length and equal their template in all else; drawing changes neither templates nor values given. "
        "Distinct = (type, parameters constrained and how).")
FLOORS = dict(grains=7000, given=15000, from_strategy=13000, defaulted=40000, unset=12000, with_data=700, templates=1000, attribute_draws=1000, float_data=30)
TYPES = ("empty", "audio", "coded_audio", "video", "coded_video", "event")
EVENT = r"^urn:[a-z0-9][a-z0-9-]{0,31}:[a-z0-9()+,\-.:=@;$_!*'%/?#]+$"
TOPIC = r"^[a-zA-Z0-9_\-]+[a-zA-Z0-9_\-/]*$"
COMMON = ["src_id", "flow_id", "creation_timestamp", "origin_timestamp", "sync_timestamp", "rate", "duration"]
PARAMS = dict(empty=[], audio=["format", "samples", "channels", "sample_rate"], coded_audio=["format", "samples", "channels", "priming", "remainder", "sample_rate"],
              video=["format", "width", "height", "cog_frame_layout"],
              coded_video=["format", "coded_width", "coded_height", "cog_frame_layout", "origin_width", "origin_height", "is_key_frame", "temporal_offset", "unit_offsets"],
              event=["event_type", "topic", "event_data"])
# these are left unset when no constraint is given
UNSET = dict(rate=None, duration=None, priming=0, remainder=0)
OPTIONAL = ("creation_timestamp", "origin_timestamp", "sync_timestamp", "rate", "duration", "priming", "remainder")


def plan(ctx):
    c = [("grains-%s-%d" % (t, j), dict(kind="grains", type=t)) for t in TYPES for j in range(ctx.n(200, 3000))]
    c += [("data-%s-%d" % (t, j), dict(kind="data", type=t)) for t in TYPES for j in range(ctx.n(30 if t in ("audio", "video") else 6, 300))]
    c += [("template-%d" % j, dict(kind="template")) for j in range(ctx.n(600, 8000))]
    c += [("attributes-%d" % j, dict(kind="attributes")) for j in range(ctx.n(4, 60))]
    return c


def draw(rng, strategy, n):
    from hypothesis import HealthCheck, Phase, given, seed, settings
    out = []

    @seed(rng.getrandbits(32))
    @settings(database=None, max_examples=n, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(strategy)
    def collect(x):
        out.append(x)
    collect()
    return out


def attribute(t, p):
    """the attribute of the grain that parameter p is about"""
    return p


def value(rng, t, p):
    """a value that can be given for a parameter: (value, what the attribute then is)"""
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
    if p in ("src_id", "flow_id"):
        v = gen.r_uuid(rng)
        return (v, v) if isinstance(v, UUID) else (UUID(str(v)), UUID(str(v)))
    if p.endswith("timestamp"):
        v = gen.mts(gen.r_ts(rng))
        return v, v
    if p in ("rate", "duration"):
        v = Fraction(rng.choice([0, 1, 25, 30000, rng.randrange(1, 10 ** 6)]), rng.choice([1, 1, 2, 1001, 25, rng.randrange(1, 10 ** 6)]))
        f = rng.choice([v, v, str(v), v.numerator])
        return f, Fraction(f)
    if p == "format":
        if t == "audio":
            v = CogAudioFormat(gen.AUDIO[rng.choice(gen.PCM)])
        elif t == "video":
            v = CogFrameFormat(gen.FRAME[rng.choice(gen.PLANAR + gen.PACKED)])
        else:
            v = rng.choice([x for x in (CogAudioFormat if t == "coded_audio" else CogFrameFormat) if x & 0x200 and x < 0x400])
        return v, v
    if p == "cog_frame_layout":
        v = rng.choice(list(CogFrameLayout))
        return v, v
    if p == "event_type":
        v = "urn:x-test:" + str(rng.randrange(10 ** 6))
    elif p == "topic":
        v = gen.r_str(rng) or "/"
    elif p == "event_data":
        v = [dict(path=gen.r_str(rng) or "p", pre=gen.r_json(rng), post=gen.r_json(rng)) for _ in range(rng.choice([0, 1, 2, 3, rng.randrange(40)]))]
    elif p == "unit_offsets":
        v = sorted(rng.sample(range(10 ** 6), rng.choice([0, 1, 3, 5, rng.randrange(60)])))
    elif p == "is_key_frame":
        v = rng.random() < 0.5
    elif p == "temporal_offset":
        v = rng.randrange(-100, 100)
    elif p == "width":
        v = rng.choice([2, 4, 16, 48, 96, 240])
    elif p == "height":
        v = rng.choice([2, 4, 16, 64])
    elif p == "sample_rate":
        v = rng.choice([8000, 48000, 96000, 1])
    elif p == "channels":
        v = rng.choice([1, 2, 3, 5, 6, 16])
    elif p == "samples":
        v = rng.choice([1, 2, 3, 1920, rng.randrange(1, 2000)])
    else:
        v = rng.randrange(1, 10 ** 4)
    return v, v


def default_ok(t, p, v):
    """v is what the documented default strategy of parameter p can produce"""
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
    from mediatimestamp.immutable import Timestamp
    if p in ("src_id", "flow_id"):
        return isinstance(v, UUID)
    if p.endswith("timestamp"):
        return isinstance(v, Timestamp)
    if p in ("rate", "duration"):
        return isinstance(v, Fraction) and 0 <= v <= 200
    if p == "format":
        coded = t.startswith("coded")
        return isinstance(v, CogAudioFormat if "audio" in t else CogFrameFormat) and v.name not in ("UNKNOWN", "INVALID") and bool(v & 0x200) == coded
    if p == "cog_frame_layout":
        return isinstance(v, CogFrameLayout) and v.name != "UNKNOWN"
    if p == "sample_rate":
        return v in (48000, 44100)
    if p in ("width", "coded_width", "origin_width"):
        return v == 240
    if p in ("height", "coded_height", "origin_height"):
        return v == 135
    if p in ("samples", "channels"):
        return type(v) is int and v >= 1
    if p in ("priming", "remainder", "temporal_offset"):
        return type(v) is int and v >= 0
    if p == "is_key_frame":
        return type(v) is bool
    if p == "unit_offsets":
        return all(type(x) is int and x >= 0 for x in v) and all(a < b for a, b in zip(v, v[1:]))
    if p == "event_type":
        return re.match(EVENT, v) is not None
    if p == "topic":
        return re.match(TOPIC, v) is not None
    if p == "event_data":
        return all(set(d) == {"path", "pre", "post"} and re.match(TOPIC, d["path"]) for d in v)
    raise AssertionError(p)


def read(g, p):
    if p == "event_data":
        return copy.deepcopy(g.meta["grain"]["event_payload"]["data"])
    if p == "unit_offsets":
        return list(g.unit_offsets)
    return getattr(g, p)


def klass(t):
    from mediagrains import grains as G
    return dict(empty=G.Grain, audio=G.AudioGrain, coded_audio=G.CodedAudioGrain, video=G.VideoGrain, coded_video=G.CodedVideoGrain, event=G.EventGrain)[t]


def size(t, g):
    if t == "audio":
        return audio(g)
    if t == "video":
        n = g.cog_frame_format.name
        return video(n, g.width, g.height)
    return None


def audio(g):
    n = g.cog_audio_format.name
    return None if n not in gen.PCM else gen.audio_size(n, g.channels, g.samples)


def video(n, w, h):
    # odd sizes of subsampled formats are rounded by the library as it sees fit: V01
    if n not in gen.PLANAR + gen.PACKED or ((w % 2 or h % 2) and not ("444" in n or "RGB" in n or "BGR" in n)):
        return None
    return gen.video_size(n, w, h)


def judge(ctx, t, g, where):
    ctx.require(type(g) is klass(t), where + ": class", got=type(g).__name__)
    ctx.equal(g.grain_type, t, where + ": type")
    ctx.equal(g.meta["grain"]["grain_type"], t, where + ": type in the metadata")
    n = size(t, g)
    if n is not None:
        ctx.equal(len(gen.data_bytes(g.data)), n, where + ": length of the data")
        ctx.equal(g.length, n, where + ": length")
        ctx.equal(g.expected_length, n, where + ": expected length")


def case(ctx, rng, key, params):
    dict(grains=c_grains, data=c_data, template=c_template, attributes=c_attributes)[params["kind"]](ctx, rng, params)


def c_grains(ctx, rng, params):
    import hypothesis.strategies as st
    from mediagrains.hypothesis import strategies as S
    from mediatimestamp.immutable import Timestamp
    t = params["type"]
    kw, how = {}, {}
    density = rng.choice([0, 0.3, 0.6, 1])
    for p in COMMON + PARAMS[t]:
        r = rng.random()
        if r >= density:
            how[p] = ("unset", None) if p in UNSET else ("default", None)
            continue
        r = rng.random()
        if r < 0.15:
            kw[p], how[p] = None, ("default", None)
        elif r < 0.3 and p in OPTIONAL:
            kw[p], how[p] = S.DONOTSET, ("unset", None)
        elif r < 0.65:
            v, want = value(rng, t, p)
            kw[p], how[p] = v, ("given", want)
        else:
            vs = [value(rng, t, p) for _ in range(rng.choice([1, 2, 5]))]
            kw[p], how[p] = st.sampled_from([v for v, _ in vs]), ("strategy", [w for _, w in vs])
    before = copy.deepcopy({p: v[1] for p, v in how.items()})
    ctx.sample(dict(type=t, constrained={p: repr(v)[:80] for p, v in kw.items()}))
    t0 = Timestamp.get_time()
    strategy = S.grains(t, **kw) if rng.random() < 0.5 else getattr(S, t + "_grains")(**kw)
    drawn = draw(rng, strategy, 12)
    t1 = Timestamp.get_time()
    ids = set()
    for g in drawn:
        judge(ctx, t, g, "drawn grain")
        for p, (kind, want) in how.items():
            got = read(g, p)
            if kind == "given":
                ctx.require(same(p, got, want), "%s is not the value given" % p, got=repr(got)[:300], want=repr(want)[:300], type=t)
                ctx.count("given")
            elif kind == "strategy":
                ctx.require(any(same(p, got, w) for w in want), "%s is not drawn from the strategy given" % p, got=repr(got)[:300], want=repr(want)[:300], type=t)
                ctx.count("from_strategy")
            elif kind == "default":
                ctx.require(default_ok(t, p, got), "%s is outside its default range" % p, got=repr(got)[:300], type=t)
                ctx.count("defaulted")
            else:
                if p == "creation_timestamp":
                    ctx.require(t0 <= got <= t1, "creation timestamp that is not set is not the time of drawing", got=str(got), began=str(t0), ended=str(t1))
                elif p == "origin_timestamp":
                    ctx.equal(got, g.creation_timestamp, "origin timestamp that is not set")
                elif p == "sync_timestamp":
                    ctx.equal(got, g.origin_timestamp, "sync timestamp that is not set")
                elif p in ("priming", "remainder"):
                    ctx.equal(got, 0, p + " that is not set")
                else:
                    ctx.equal(got, Fraction(0) if t == "empty" else Fraction(25) if p == "rate" else Fraction(1, 25), p + " that is not set")
                ctx.count("unset")
        if t == "empty":
            ctx.require(g.data is None, "data of an empty grain")
        elif t != "event":
            ctx.require(not any(gen.data_bytes(g.data)), "data of a drawn grain is not zero")
        ids.add((id(g), id(g.meta)))
        ctx.count("grains")
    ctx.equal(len(ids), len(drawn), "drawn grains which are the same object")
    ctx.equal({p: v[1] for p, v in how.items()}, before, "values given after drawing")
    for p, v in how.items():
        ctx.saw(t, p, v[0], kw.get(p, "absent") is None)


def same(p, got, want):
    return got == want and (p not in ("is_key_frame",) or type(got) is bool) and (p not in ("rate", "duration") or isinstance(got, Fraction)) and (
        p not in ("format", "cog_frame_layout") or type(got) is type(want))


def floats_ok(ctx, name, data):
    if name.startswith(("FLOAT", "DOUBLE")):
        for (x,) in struct.iter_unpack("@f" if name.startswith("FLOAT") else "@d", data):
            ctx.require(x == x and 0 <= x < float("inf") and not (x == 0 and struct.pack("d", x) != struct.pack("d", 0.0)), "sample of drawn floating point audio", got=repr(x))
        ctx.count("float_data")


def c_data(ctx, rng, params):
    from mediagrains.hypothesis import strategies as S
    t = params["type"]
    nonzero = 0
    for g in draw(rng, S.grains_with_data(t), 12 if t in ("video", "audio") else 30):
        judge(ctx, t, g, "grain with data")
        for p in COMMON + PARAMS[t]:
            if t == "video" and p in ("width", "height"):
                ctx.equal(getattr(g, p), dict(width=16, height=9)[p], "size of a video grain with data")
            elif t == "coded_video" and p in ("origin_width", "origin_height"):
                ctx.equal(getattr(g, p), dict(origin_width=16, origin_height=9)[p], "size of a coded video grain with data")
            elif p in ("rate", "duration"):
                ctx.equal(getattr(g, p), Fraction(0) if t == "empty" else Fraction(25) if p == "rate" else Fraction(1, 25), p)
            elif p in UNSET:
                ctx.equal(getattr(g, p), UNSET[p], p)
            else:
                ctx.require(default_ok(t, p, read(g, p)), "%s is outside its default range" % p, got=repr(read(g, p))[:300], type=t)
        if t in ("audio", "video"):
            ctx.equal(g.length, g.expected_length, "length of drawn data")
            d = gen.data_bytes(g.data)
            nonzero += any(d)
            if t == "audio":
                floats_ok(ctx, g.cog_audio_format.name, d)
        ctx.count("with_data")
        ctx.saw("data", t, getattr(g, "format", None) and g.format.name)
    if t in ("audio", "video"):
        ctx.require(nonzero > 0, "no drawn data differs from zero")


def c_template(ctx, rng, params):
    import hypothesis.strategies as st
    from mediagrains.hypothesis import strategies as S
    d = gen.r_desc(rng)
    big = rng.random() < 0.15
    if big:                             # as many values as fit
        d = gen.r_desc(rng, "audio")
        name, d["channels"] = rng.choice(gen.PCM), rng.randint(1, 16)
        most = 300 if name.startswith(("FLOAT", "DOUBLE")) else 4000 // gen.audio_size(name, 1, 1)
        d["fmt"], d["samples"] = gen.AUDIO[name], rng.randint(most // 2, most) // d["channels"]
        d["data"] = gen.rbytes(rng, gen.audio_size(name, d["channels"], d["samples"]))
    g = gen.build(d)
    t = g.grain_type
    if big:
        how = "random"
    elif t == "event" or gen.data_bytes(g.data) is None and t == "empty":
        how = rng.choice(["value", "strategy"])
    else:
        how = rng.choice(["random", "value", "strategy"])
    if how == "random" and t == "audio" and g.cog_audio_format.name not in gen.PCM:
        how = "value"
    n = len(gen.data_bytes(g.data) or b"")
    if t == "event":
        datas = [bytes(gen.data_bytes(g.data))]
    else:
        datas = [gen.rbytes(rng, n) for _ in range(rng.choice([1, 3]))]
    if how == "random":
        want_len = audio(g) if t == "audio" else n
        if want_len > 4000:
            ctx.count("large")
            how = "value"
        s = S.grains_from_template_with_data(g)
    if how == "value":
        datas = datas[:1]
        s = S.grains_from_template_with_data(g, data=datas[0])
    elif how == "strategy":
        s = S.grains_from_template_with_data(g, data=st.sampled_from(datas))
    before = (repr(gen.observe(g)), repr(g.meta), bytes(gen.data_bytes(g.data) or b""))
    for x in draw(rng, s, 10):
        ctx.require(type(x) is type(g) and x is not g, "class of a grain drawn from a template", got=type(x).__name__)
        a, b = gen.observe(x, data=False), gen.observe(g, data=False)
        for k in ("length", "data"):
            a.pop(k, None), b.pop(k, None)
        ctx.equal(repr(a), repr(b), "grain drawn from a template")
        got = bytes(gen.data_bytes(x.data))
        if how == "random":
            ctx.equal(len(got), want_len, "length of data drawn for a template")
            if t == "audio":
                floats_ok(ctx, x.cog_audio_format.name, got)
        elif t == "event":
            ctx.equal(got, datas[0], "data of an event")
        else:
            ctx.require(got in datas, "data is not what was given", got=got[:50])
        ctx.equal(x.length, len(got), "length of a grain drawn from a template")
        ctx.count("templates")
    ctx.equal((repr(gen.observe(g)), repr(g.meta), bytes(gen.data_bytes(g.data) or b"")), before, "template after drawing")
    ctx.saw("template", t, how)


def c_attributes(ctx, rng, params):
    from hypothesis import find, settings
    from mediagrains.hypothesis import strategies as S
    for t in TYPES:
        for p in COMMON + PARAMS[t]:
            attr = {"format": "cog_audio_format" if "audio" in t else "cog_frame_format"}.get(p, p)
            for v in draw(rng, S.strategy_for_grain_attribute(attr, grain_type=t), 8):
                if p == "event_data":
                    v = [dict(x) for x in v]
                elif p == "unit_offsets" and v is None:
                    continue
                ctx.require(default_ok(t, p, v), "%s is outside its default range" % p, got=repr(v)[:300], type=t)
                ctx.count("attribute_draws")
        if t in ("empty", "event"):
            for a in ("cog_audio_format", "cog_frame_format"):
                ctx.raises(ValueError, lambda: S.strategy_for_grain_attribute(a, grain_type=t), "formats for a type without")
        ctx.raises(ValueError, lambda: S.strategy_for_grain_attribute(rng.choice(["colour", "", "data", "Rate"]), grain_type=t), "strategy for an unknown attribute")
    for t in ("Video", "", "grain", None, "coded"):
        ctx.raises(ValueError, lambda: S.grains(t), "grains of an unknown type")
    k = rng.getrandbits(rng.choice([8, 60, 120]))
    q = settings(database=None, max_examples=2000, derandomize=True)
    ctx.equal(find(S.shrinking_uuids(), lambda u: True, settings=q), UUID(int=0), "simplest identifier")
    for u in draw(rng, S.shrinking_uuids(), 10):
        ctx.require(isinstance(u, UUID), "identifier")
    lo = Fraction(rng.randrange(-1000, 1000), rng.randrange(1, 100))
    hi = lo + Fraction(rng.randrange(1, 1000), rng.randrange(1, 100))
    if rng.random() < 0.4:
        lo = Fraction(rng.randrange(-1000, 1000))
        hi = lo + rng.choice([0, 1, 3, 1000])
        for f in draw(rng, S.fraction_dicts(min_value=lo, max_value=hi, max_denominator=1), 10):
            ctx.require(f["denominator"] == 1 and lo <= f["numerator"] <= hi, "whole fraction", got=f, range=(str(lo), str(hi)))
    for f in draw(rng, S.fraction_dicts(min_value=lo, max_value=hi), 20):
        ctx.require(set(f) == {"numerator", "denominator"} and all(type(x) is int for x in f.values()) and lo <= Fraction(f["numerator"], f["denominator"]) <= hi and
                    Fraction(f["numerator"], f["denominator"]).denominator == f["denominator"], "fraction", got=f,
                    range=(str(lo), str(hi)))
