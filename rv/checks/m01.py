"""M01: attributes, metadata dictionary and tuple view of a grain always agree."""
import asyncio
import copy
import json
from fractions import Fraction
from uuid import UUID

import numpy

from .. import gen

ID = "M01"
LEVEL = "exploration"
RULE = ("Grains of every class (also numpy variants), built by keywords, from metadata dictionaries (with plain or native values) with omitted "
        "timestamps or lacking details, are driven by random assignment sequences through every settable attribute and alias; after each step every attribute, its type, the "
        "metadata dictionary and the tuple view are compared with a model, and a grain rebuilt from (JSON of) the metadata must be equal. "
        "Distinct = (class, attribute assigned, form of the value).")
FLOORS = dict(grains=900, assignments=4000, rebuilt=900, defaults=500, data_forms=500, awaited=150, numpy_grains=100, no_identifier=75, no_rate=80, awaited_events=25, sparse=150, shared_fractions=80)

COMMON = ["src", "flow", "origin", "sync", "creation", "rate", "duration", "timelabels"]
SPECIFIC = dict(empty=["data"],
                video=["fmt", "layout", "width", "height", "extension", "sar", "par", "components", "data"],
                audio=["fmt", "samples", "channels", "sample_rate", "data"],
                coded_video=["fmt", "layout", "origin_width", "origin_height", "coded_width", "coded_height", "is_key_frame", "temporal_offset",
                             "unit_offsets", "sar", "par", "data"],
                coded_audio=["fmt", "samples", "channels", "priming", "remainder", "sample_rate", "data"],
                event=["event_type", "topic", "event_data"])
NAMES = dict(src=["source_id", "src_id"], flow=["flow_id"], origin=["origin_timestamp"], sync=["sync_timestamp"], creation=["creation_timestamp"],
             sar=["source_aspect_ratio"], par=["pixel_aspect_ratio"])


# what the lists of attributes have to name besides the common attributes
NEW = dict(video={"cog_frame_format", "cog_frame_layout", "width", "height"}, audio={"cog_audio_format", "channels", "samples", "sample_rate"},
           coded_video={"cog_frame_format", "cog_frame_layout", "origin_width", "origin_height", "coded_width", "coded_height", "is_key_frame", "temporal_offset",
                        "unit_offsets"},
           coded_audio={"cog_audio_format", "channels", "samples", "sample_rate", "priming", "remainder"}, event={"event_type", "topic", "event_data"})


def plan(ctx):
    n = ctx.n(150, 3000)
    c = [("assign-%d" % j, dict(kind="assign")) for j in range(n)]
    c += [("default-%d" % j, dict(kind="default")) for j in range(n // 3)]
    c += [("data-%d" % j, dict(kind="data")) for j in range(n // 3)]
    c += [("await-%d" % j, dict(kind="await")) for j in range(n // 3)]
    c += [("sparse-%d" % j, dict(kind="sparse")) for j in range(n // 5)]
    return c


def names(t, k):
    if k == "fmt":
        return {"video": ["cog_frame_format", "format"], "coded_video": ["cog_frame_format", "format"]}.get(t, ["cog_audio_format", "format"])
    if k == "layout":
        return ["cog_frame_layout", "layout"]
    return NAMES.get(k, [k])


class Bytesish:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b

    def __eq__(self, other):
        return isinstance(other, Bytesish) and self.b == other.b


def form(ctx, rng, t, k, v, src):
    """the value v of description field k in one of the forms an attribute accepts"""
    from mediatimestamp.immutable import Timestamp
    from mediagrains import cogenums as ce
    from mediagrains import grains as mg
    if k in ("src", "flow"):
        return rng.choice([(v, "uuid"), (str(v), "str")])
    if k in ("origin", "sync", "creation"):
        return rng.choice([(gen.mts(v), "ts"), (gen.ts_str(v), "str"), (Holder(gen.mts(v)), "supports")])
    if k in ("rate", "duration", "sar", "par"):
        o = [(v, "fraction"), ("%d/%d" % (v.numerator, v.denominator), "str")]
        if v.denominator == 1:
            o.append((int(v), "int"))
        if v.denominator in (2, 4, 8) and v.numerator < 1 << 50:
            o.append((float(v), "float"))
        return rng.choice(o)
    if k == "fmt":
        cls = ce.CogFrameFormat if t in ("video", "coded_video") else ce.CogAudioFormat
        return rng.choice([(cls(v), "enum"), (v, "int")])
    if k == "layout":
        return rng.choice([(ce.CogFrameLayout(v), "enum"), (v, "int")])
    if k == "timelabels":
        f = rng.randrange(3)
        if f == 0:
            return [gen.tl_meta(x) for x in v], "dicts"
        if f == 1:
            return [mg.Grain.TIMELABEL(gen.tl_meta(x)) for x in v], "objects"
        other = mg.GrainFactory(src_id=v and gen.r_uuid(rng) or gen.r_uuid(rng), flow_id=gen.r_uuid(rng))
        for x in v:
            other.add_timelabel(*x)
        return other.timelabels, "view"
    if k == "components":
        x = [dict(zip(("width", "height", "stride", "offset", "length"), c)) for c in v]
        if rng.random() < 0.5:
            return [mg.VideoGrain.COMPONENT(c) for c in x], "objects"
        return x, "dicts"
    if k == "unit_offsets":
        if rng.random() < 0.3:
            return mg.CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), unit_offsets=list(v)).unit_offsets, "view"
        return rng.choice([(list(v), "list"), (tuple(v), "tuple"), (iter(list(v)) if v else [], "iterator"), (None if not v else list(v), "none")])
    if k == "event_data":
        x = json.loads(json.dumps(v))
        if rng.random() < 0.5:
            return [mg.EventGrain.DATA(e) for e in x], "objects"
        return x, "dicts"
    if k == "data":
        return rng.choice([(v, "bytes"), (bytearray(v), "bytearray"), (memoryview(v), "memoryview"), (Bytesish(v), "object")]) if v is not None else (None, "none")
    if t == "audio" and k in ("samples", "channels", "sample_rate") and v < 1 << 50 and rng.random() < 0.3:
        return rng.choice([(float(v), "float"), (str(v), "str"), (numpy.int64(v), "numpy")])
    if k == "is_key_frame" and v is not None:
        return rng.choice([(bool(v), "plain"), (int(v), "int"), (numpy.bool_(v), "numpy")])
    return v, "plain"


class Holder:
    """an object that can be converted to a timestamp"""
    def __init__(self, ts):
        self.ts = ts

    def __mediatimestamp__(self):
        return self.ts


def judge(ctx, g, d, where, numpy=False):
    """everything readable about the grain agrees with the model d"""
    from mediatimestamp.immutable import Timestamp
    from mediagrains import cogenums as ce
    t = d["type"]
    want = gen.expected(d)
    want.setdefault("extension", None)
    got = gen.observe(g)
    got.setdefault("extension", None)
    if t == "coded_video":
        got.update(sar=g.source_aspect_ratio, par=g.pixel_aspect_ratio)
    df = gen.diff(got, want)
    ctx.require(df is None, where + ": attributes", diff=df)
    for k in COMMON + SPECIFIC[t]:
        vals = [getattr(g, n) for n in names(t, k)]
        for v in vals:
            if k in ("src", "flow"):
                ok = isinstance(v, UUID) and v == d[k]
            elif k in ("origin", "sync", "creation"):
                ok = isinstance(v, Timestamp) and gen.ts_ns(v) == d[k]
            elif k in ("rate", "duration"):
                ok = isinstance(v, Fraction) and v == d[k]
            elif k in ("sar", "par"):
                ok = v is None and d[k] is None or isinstance(v, Fraction) and v == d[k]
            elif k == "fmt":
                ok = type(v) is (ce.CogFrameFormat if "video" in t else ce.CogAudioFormat) and int(v) == d[k]
            elif k == "layout":
                ok = type(v) is ce.CogFrameLayout and int(v) == d[k]
            elif k == "data":
                ok = (v is None) == (d[k] is None) and gen.data_bytes(v) == gen.data_bytes(d[k])
            elif k == "timelabels":
                ok = [dict(x) for x in v] == [gen.tl_meta(x) for x in d[k]] and all(type(x.count) is int and type(x.rate) is Fraction for x in v)
            else:
                continue
            ctx.require(ok, where + ": attribute %s" % k, got=v, want=d[k])
    # metadata
    m = copy.deepcopy(g.meta)
    try:
        m = json.loads(json.dumps(m))
    except TypeError as e:
        ctx.fail(where + ": metadata is not JSON-serialisable", error=str(e))
    wm = gen.meta_of(d)
    if t == "coded_video":
        m["grain"]["cog_coded_frame"].pop("length", None)
        for k, n in (("sar", "source_aspect_ratio"), ("par", "pixel_aspect_ratio")):
            if d[k] is not None:
                wm["grain"]["cog_coded_frame"][n] = gen.fd(d[k])
    for mm in (m, wm):
        for k in ("timelabels",):
            if not mm["grain"].get(k):
                mm["grain"].pop(k, None)
        if t == "coded_video" and not mm["grain"]["cog_coded_frame"].get("unit_offsets"):
            mm["grain"]["cog_coded_frame"].pop("unit_offsets", None)
    ctx.equal(m, json.loads(json.dumps(wm)), where + ": metadata dictionary")
    # tuple view
    tup = tuple(g)
    ctx.require(len(g) == 2 and len(tup) == 2 and tup[0] is g.meta and g[0] is g.meta and g[-2] is g.meta, where + ": tuple view")
    ctx.require(gen.data_bytes(tup[1]) == gen.data_bytes(g.data) == gen.data_bytes(g[1]) == gen.data_bytes(g[-1]), where + ": data in tuple view")
    meta, data = g
    ctx.require(meta is g.meta and gen.data_bytes(data) == gen.data_bytes(g.data), where + ": unpacking")
    ctx.raises(IndexError, lambda: g[2], where + ": third element")
    if t == "event":
        ctx.require(g.length == len(g.data), where + ": length")
    else:
        ctx.require(g.length == len(gen.data_bytes(d["data"])), where + ": length", got=g.length)
        ctx.require(g.has_data() is (d["data"] is not None), where + ": has_data()")
        if d["data"] is not None:
            ctx.require(bytes(g) == gen.data_bytes(d["data"]), where + ": bytes()")
    ctx.require(isinstance(repr(g), str) and type(g).__name__ in repr(g), where + ": repr()")
    ctx.require(g == g and not (g != g) and g == tuple(g), where + ": equality with itself")


def rebuild(ctx, rng, g, d, where):
    from mediagrains import grains as mg
    from mediagrains import numpy as mnp
    meta = copy.deepcopy(g.meta)
    how = rng.choice(["direct", "json"])
    if how == "json":
        meta = json.loads(json.dumps(meta))
    if d["type"] != "event" and d["data"] is None:
        data = None
        if d["type"] != "empty":
            return
    else:
        data = g.data
    if isinstance(g, (mnp.VideoGrain, mnp.AudioGrain)):
        h = type(g)(meta=meta, data=data)
    elif rng.random() < 0.5:
        h = type(g)(meta, data)
    else:
        h = mg.GrainFactory(meta, data)
    ctx.require(type(h) is type(g), where + ": class after rebuilding", got=type(h).__name__)
    ctx.require(h == g and g == h and not (g != h), where + ": rebuilt grain differs", how=how, got=h.meta, want=g.meta)
    judge(ctx, h, d, where + ", rebuilt")
    ctx.count("rebuilt")


def make(ctx, rng):
    """(description, grain): numpy grains too"""
    from mediagrains import numpy as mnp
    t = rng.choice(gen.TYPES)
    d = gen.r_desc(rng, t)
    if t == "coded_video":
        d.update(sar=None, par=None)
    if t in ("video", "audio") and rng.random() < 0.3:
        if t == "video":
            name = rng.choice(gen.PLANAR + gen.PACKED + ["AYUV"])
            d.update(fmt=gen.FRAME[name], components=gen.video_layout(name, d["width"], d["height"]),
                     data=rng.randbytes(gen.video_size(name, d["width"], d["height"])))
            g = mnp.VideoGrain(gen.meta_of(d), d["data"])
        else:
            name = rng.choice(gen.PCM)
            d.update(fmt=gen.AUDIO[name], channels=rng.randint(1, 4), samples=rng.randint(1, 9))
            d["data"] = rng.randbytes(gen.audio_size(name, d["channels"], d["samples"]))
            g = mnp.AudioGrain(gen.meta_of(d), d["data"])
        ctx.count("numpy_grains")
        return d, g, True
    how = rng.choice(["class", "meta", "native"])
    if how == "native":
        m = gen.meta_of(d)
        mg = m["grain"]
        if rng.random() < 0.7:
            mg["source_id"], mg["flow_id"] = d["src"], d["flow"]
        for k in ("origin", "sync", "creation"):
            if rng.random() < 0.6:
                mg[k + "_timestamp"] = gen.mts(d[k])
        for k in ("rate", "duration"):
            if rng.random() < 0.6:
                mg[k] = d[k]
        if rng.random() < 0.3:
            # one dictionary standing for several fractions
            one = rng.choice([mg["rate"], gen.fd(d["rate"])])
            d["duration"], mg["rate"], mg["duration"] = d["rate"], one, one
            for k, n in (("sar", "source_aspect_ratio"), ("par", "pixel_aspect_ratio")):
                if d.get(k) is not None and "cog_frame" in mg and isinstance(one, dict):
                    d[k], mg["cog_frame"][n] = d["rate"], one
            ctx.count("shared_fractions")
        from mediagrains import grains as G
        return d, G.GrainFactory(m, d.get("data")), False
    return d, gen.build(d, how), False


def case(ctx, rng, key, p):
    return globals()["case_" + p["kind"]](ctx, rng)


def case_assign(ctx, rng):
    for _ in range(12):
        d, g, is_np = make(ctx, rng)
        t = d["type"]
        if t != "event" and d["data"] is None and t != "empty":
            d["data"] = b""
        where = "%s %s" % ("numpy" if is_np else "new", type(g).__name__)
        if t == "video" and rng.random() < 0.3 and not is_np:
            pass
        judge(ctx, g, d, where)
        hist = []
        for _ in range(rng.randint(3, 9)):
            k = rng.choice(COMMON + SPECIFIC[t])
            if is_np and k in ("fmt", "data", "components", "width", "height", "samples", "channels"):
                continue
            new = gen.r_desc(rng, t)
            if k in ("sar", "par"):
                v = gen.r_rate(rng, False)
            elif k == "data":
                v = rng.choice([None, rng.randbytes(rng.randint(0, 40)), rng.randbytes(rng.randint(0, 40))])
            else:
                v = new[k]
            val, f = form(ctx, rng, t, k, v, new)
            n = rng.choice(names(t, k))
            setattr(g, n, val)
            d[k] = v
            hist.append("%s = %.60r" % (n, val))
            if k == "is_key_frame":
                d[k] = None if v is None else bool(v)
                ctx.require(g.is_key_frame is d[k], "key frame flag as assigned", got=g.is_key_frame)
            elif f in ("float", "str", "numpy") and k in ("samples", "channels", "sample_rate"):
                ctx.require(type(getattr(g, n)) is int, "type of an assigned count", got=getattr(g, n), where=n)
            if f == "iterator":
                pass
            judge(ctx, g, d, "%s after %s" % (where, "; ".join(hist[-4:])))
            ctx.count("assignments")
            ctx.saw(type(g).__name__, n, f)
        rebuild(ctx, rng, g, d, "%s after %s" % (where, "; ".join(hist[-4:])))
        ctx.count("grains")
    ctx.sample(dict(history=hist), 1)


SOUND = dict(cog_audio_format="INVALID", samples=0, channels=0, sample_rate=48000)
PICTURE = dict(cog_frame_format="UNKNOWN", cog_frame_layout="UNKNOWN")
OMITTED = dict(video=dict(PICTURE, width=1920, height=1080), audio=SOUND, coded_audio=dict(SOUND, priming=0, remainder=0), event=dict(event_type="", topic="", event_data=[]),
               coded_video=dict(PICTURE, coded_width=1920, coded_height=1080, origin_width=1920, origin_height=1080, is_key_frame=None, temporal_offset=None, unit_offsets=[]))


def case_default(ctx, rng):
    """omitted timestamps default creation <- now, origin <- creation, sync <- origin; other omitted attributes keep documented defaults"""
    from mediatimestamp.immutable import Timestamp
    from mediagrains import grains as mg
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    for _ in range(20):
        t = rng.choice(gen.TYPES)
        d = gen.r_desc(rng, t)
        if t == "coded_video":
            d.update(sar=None, par=None)
        keep = [k for k in ("origin", "sync", "creation") if rng.random() < 0.5]
        how = rng.choice(["class", "meta"])
        before = Timestamp.get_time()
        if how == "meta":
            m = gen.meta_of(d)
            for k in ("origin", "sync", "creation"):
                if k not in keep:
                    del m["grain"][k + "_timestamp"]
            if rng.random() < 0.2:
                del m["grain"]["source_id"]
                d["src"] = UUID(int=0)
            if rng.random() < 0.2:
                del m["grain"]["flow_id"]
                d["flow"] = UUID(int=0)
            for k in ("rate", "duration"):
                if rng.random() < 0.2:
                    del m["grain"][k]
                    d[k] = Fraction(0)
                    ctx.count("no_rate")
            g = mg.GrainFactory(m, d.get("data"))
        else:
            ids = dict(src_id=d["src"], flow_id=d["flow"])
            if t != "empty":
                # identifiers which are not given read as the nil identifier, as for metadata without them
                for (k, n) in (("src", "src_id"), ("flow", "flow_id")):
                    if rng.random() < 0.2:
                        d[k] = UUID(int=0)
                        if rng.random() < 0.5:
                            ids[n] = None
                        else:
                            del ids[n]
                        ctx.count("no_identifier")
            cls = dict(empty=mg.GrainFactory, video=mg.VideoGrain, audio=mg.AudioGrain, coded_video=mg.CodedVideoGrain, coded_audio=mg.CodedAudioGrain,
                       event=mg.EventGrain)[t]
            g = cls(**ids, **{k + "_timestamp": gen.mts(d[k]) for k in keep})
            ctx.equal(g.grain_type, t, "type of a new %s" % cls.__name__)
            ctx.equal((g.source_id, g.flow_id), (d["src"], d["flow"]), "identifiers of a new %s" % cls.__name__)
            if t != "empty":
                ctx.equal((g.rate, g.duration), (Fraction(25), Fraction(1, 25)), "default rate of a new %s" % cls.__name__)
            else:
                ctx.equal((g.rate, g.duration), (Fraction(0), Fraction(0)), "default rate of a new grain without a type")
            ctx.equal(list(g.timelabels), [], "time labels of a new %s" % cls.__name__)
            k, v = rng.choice(["src_id", "flow_id"]), rng.choice([str(d["src"]), d["src"].bytes, 7, (1, 2)])
            ctx.raises(AttributeError, lambda: cls(**dict(dict(src_id=d["src"], flow_id=d["flow"]), **{k: v})), "a new %s with the %s %r" % (cls.__name__, k, v))
            for k, v in OMITTED.get(t, {}).items():
                got = getattr(g, k)
                ctx.equal(getattr(got, "name", got), v, "%s of a new %s" % (k, cls.__name__))
            if t == "coded_video":
                # the coded size is the original one where it is not given
                size = {k: rng.randint(1, 4000) for k in ("origin_width", "origin_height", "coded_width", "coded_height") if rng.random() < 0.5}
                c = cls(**ids, **size)
                w, h = size.get("origin_width", 1920), size.get("origin_height", 1080)
                ctx.equal((c.origin_width, c.origin_height, c.coded_width, c.coded_height), (w, h, size.get("coded_width", w), size.get("coded_height", h)), "sizes of a coded grain given %s" % sorted(size))
            if t in ("video", "audio"):
                from mediagrains import numpy as nm
                times = {k + "_timestamp": gen.mts(d[k]) for k in ("origin", "sync", "creation")}
                if t == "video":
                    times["cog_frame_format"] = CogFrameFormat[rng.choice(["U8_422", "S16_420_10BIT", "v210"])]
                else:
                    times["cog_audio_format"] = CogAudioFormat[rng.choice(["S16_PLANES", "S24_INTERLEAVED", "FLOAT_PAIRS"])]
                a, b = cls(**ids, **times), getattr(nm, cls.__name__)(**ids, **times)
                ctx.equal({k: getattr(b, k) for k in mg.new_attributes_for_grain_type(t)}, {k: getattr(a, k) for k in mg.new_attributes_for_grain_type(t)},
                          "a numpy %s given only times and a format against one that is not" % cls.__name__)
            k, v = rng.choice(["origin", "sync", "creation"]), rng.choice([5, 1.5, b"1:0", [1, 0], {}, object()])
            was = getattr(g, k + "_timestamp")
            ctx.raises(ValueError, lambda: setattr(g, k + "_timestamp", v), "%s timestamp of a %s set to %r" % (k, t, v))
            ctx.equal(getattr(g, k + "_timestamp"), was, "%s timestamp of a %s after a refused assignment" % (k, t))
        after = Timestamp.get_time()
        where = "%s %s given only %s" % (how, t, keep)
        c = g.creation_timestamp
        if "creation" in keep:
            ctx.equal(gen.ts_ns(c), d["creation"], where + ": creation time")
        else:
            ctx.require(before <= c <= after, where + ": creation time is now", got=c)
        o = g.origin_timestamp
        ctx.equal(gen.ts_ns(o), d["origin"] if "origin" in keep else gen.ts_ns(c), where + ": origin time")
        ctx.equal(gen.ts_ns(g.sync_timestamp), d["sync"] if "sync" in keep else gen.ts_ns(o), where + ": sync time")
        if how == "meta":
            e = dict(d, origin=gen.ts_ns(o), creation=gen.ts_ns(c), sync=gen.ts_ns(g.sync_timestamp))
            if t == "empty" or t == "event" or e.get("data") is not None:
                judge(ctx, g, e, where)
        ctx.require(isinstance(json.dumps(g.meta), str), where + ": metadata")
        ctx.require(set(g.meta) <= {"@_ns", "grain"}, where + ": keys of the metadata", got=list(g.meta))
        kinds = [t if t != "empty" else "grain"]
        try:
            from mediagrains.grains.Grain import GrainType
            kinds.append(GrainType(["empty", "video", "audio", "coded_video", "coded_audio", "event"].index(t)))
        except ImportError:
            pass    # not exported by the package
        for kind in kinds:
            # the lists of attributes: all of them can be read, and those for new grains are keywords of the class
            for k in mg.attributes_for_grain_type(kind):
                getattr(g, k)
            kw = {k: getattr(g, k) for k in mg.new_attributes_for_grain_type(kind)}
            ctx.require(set(mg.attributes_for_grain_type(kind, new=True)) == set(kw), where + ": attributes_for_grain_type", got=sorted(kw))
            if t == "event":
                del kw["event_data"]
            if t not in ("event", "empty"):
                kw["data"] = b""
            h = type(g)(**kw) if t != "empty" else mg.GrainFactory(**kw)
            same = [k for k in kw if getattr(h, k) != kw[k]]
            ctx.require(not same, where + ": a grain given the values of new_attributes_for_grain_type differs", what=same)
            need = {"src_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"} | NEW.get(t, set())
            ctx.require(set(kw) >= need - {"event_data"}, where + ": attributes missing from new_attributes_for_grain_type", missing=sorted(need - set(kw)))
        ctx.count("defaults")
        ctx.saw(t, how, tuple(keep))


def case_data(ctx, rng):
    """the forms in which data may be given"""
    for _ in range(20):
        t = rng.choice([x for x in gen.TYPES if x != "event"])
        d = gen.r_desc(rng, t)
        if t == "coded_video":
            d.update(sar=None, par=None)
        if d["data"] is None:
            d["data"] = rng.randbytes(5)
        val, f = form(ctx, rng, t, "data", d["data"], d)
        g = gen.build(d, rng.choice(["class", "meta"]), wrap=lambda b: val)
        ctx.require(g.data is val, "data of a %s given as %s is another object" % (t, f))
        judge(ctx, g, d, "%s with data as %s" % (t, f))
        ctx.count("data_forms")
        ctx.saw("data", t, f)


# (key of the details, names of the optional entries, what they read as when the metadata lacks them)
SPARSE = dict(audio=("cog_audio", ["format", "samples", "channels", "sample_rate"], {}),
              coded_video=("cog_coded_frame", ["format", "layout", "origin_width", "origin_height", "coded_width", "coded_height", "is_key_frame",
                                               "temporal_offset", "unit_offsets"], dict(is_key_frame=None, temporal_offset=None, unit_offsets=[])),
              coded_audio=("cog_coded_audio", ["format", "samples", "channels", "priming", "remainder", "sample_rate"], dict(sample_rate=48000)),
              event=("event_payload", ["type", "topic", "data"], dict(event_type="", topic="", event_data=[])))


def case_sparse(ctx, rng):
    """metadata which lacks details: every attribute is readable, what is there is kept; things only grains without a class of their own can do"""
    from mediagrains import cogenums as ce
    from mediagrains import grains as mg
    for _ in range(12):
        t = rng.choice(gen.TYPES)
        d = gen.r_desc(rng, t)
        if t == "coded_video":
            d.update(sar=None, par=None)
        if t not in ("empty", "event") and d["data"] is None:
            d["data"] = rng.randbytes(3)
        m = gen.meta_of(d)
        where = "%s given metadata which lacks details" % t
        if t == "video":
            if rng.random() < 0.5:
                # components that are not given are laid out; here only that nothing else changes
                m["grain"]["cog_frame"].pop("components")
                g = mg.VideoGrain(m, d["data"])
                d["components"] = [(c.width, c.height, c.stride, c.offset, c.length) for c in g.components]
            else:
                del m["grain"]["cog_frame"]
                d.update(fmt=int(ce.CogFrameFormat.UNKNOWN), layout=int(ce.CogFrameLayout.UNKNOWN), width=0, height=0, extension=0, sar=None, par=None, components=[])
                g = mg.GrainFactory(m, d["data"])
        elif t == "empty":
            lost = [k for k in list(m["grain"]) if k == "grain_type" and rng.random() < 0.5]
            for k in lost:
                del m["grain"][k]
            g = mg.GrainFactory(m, d["data"])
        else:
            key, opt, odd = SPARSE[t]
            lost = opt if rng.random() < 0.2 else [k for k in opt if rng.random() < 0.4]
            for k in lost:
                m["grain"][key].pop(k, None)
                n = dict(format="fmt", type="event_type", data="event_data").get(k, k)
                if k in ("format", "layout"):
                    d[n] = int(ce.CogFrameLayout.UNKNOWN if k == "layout" else ce.CogFrameFormat.UNKNOWN if t == "coded_video" else ce.CogAudioFormat.INVALID)
                else:
                    d[n] = odd.get(n, 0)
            if len(lost) == len(opt) and rng.random() < 0.5:
                del m["grain"][key]
            if t == "event" and rng.random() < 0.3:
                m["grain"]["grain_type"] = "data"     # older files call events so
            g = mg.GrainFactory(m, d["data"] if t != "event" else None)
        want = dict(empty="Grain", video="VideoGrain", audio="AudioGrain", coded_video="CodedVideoGrain", coded_audio="CodedAudioGrain", event="EventGrain")[t]
        ctx.equal((type(g).__name__, g.grain_type), (want, t), where + ": class")
        judge(ctx, g, d, where)
        ctx.require(gen.diff(gen.observe(mg.GrainFactory(copy.deepcopy(g.meta), g.data)), gen.observe(g)) is None, where + ": rebuilt from the completed metadata")
        ctx.count("sparse")
        ctx.saw("sparse", t, g.meta["grain"].keys() == gen.meta_of(d)["grain"].keys())
    # a type of its own
    d = gen.r_desc(rng, "empty")
    g = gen.build(d)
    for name in ("urn:x-a-rather-long-name-for-a-type-of-grain", "", "empty", "x"):
        g.grain_type = name
        ctx.require(g.grain_type == name and g.meta["grain"]["grain_type"] == name, "grain_type assigned", got=g.grain_type, want=name)
        h = mg.GrainFactory(copy.deepcopy(g.meta), d["data"])
        ctx.require(type(h).__name__ == "Grain" and h.grain_type == name and h == g, "a grain of a type of its own, rebuilt", got=h.meta, want=g.meta)
    # nothing but the class
    g = mg.GrainFactory({}, None)
    ctx.equal((g.grain_type, g.source_id, g.flow_id, g.rate, g.duration, g.data, list(g.timelabels)),
              ("empty", UUID(int=0), UUID(int=0), Fraction(0), Fraction(0), None, []), "grain made from an empty dictionary")
    ctx.require(g.origin_timestamp == g.sync_timestamp == g.creation_timestamp, "grain made from an empty dictionary: times")
    # two grains given one list
    offs = [gen.r_uint(rng, 20) for _ in range(rng.randint(1, 4))]
    a, b = (mg.CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), data=b"abc", unit_offsets=offs) for _ in range(2))
    was = list(offs)
    a.unit_offsets.append(5)
    ctx.require(list(a.unit_offsets) == was + [5] and list(b.unit_offsets) == was == offs, "two coded grains given one list of unit offsets",
                got=[list(a.unit_offsets), list(b.unit_offsets), offs], want=was)
    # data made by the class is there to be filled in
    w, h = 2 * rng.randint(1, 8), 2 * rng.randint(1, 8)
    n = rng.randint(1, 50)
    for g, size in ((mg.VideoGrain(src_id=gen.r_uuid(rng), width=w, height=h, cog_frame_format=ce.CogFrameFormat.U8_422), 2 * w * h),
                    (mg.AudioGrain(src_id=gen.r_uuid(rng), channels=2, samples=n, cog_audio_format=ce.CogAudioFormat.S16_INTERLEAVED), 4 * n),
                    (mg.CodedVideoGrain(src_id=gen.r_uuid(rng), length=n), n), (mg.CodedAudioGrain(src_id=gen.r_uuid(rng), length=n), n)):
        ctx.require(gen.data_bytes(g.data) == bytes(size), "data made by %s" % type(g).__name__, got=g.data, size=size)
        i = rng.randrange(size)
        g.data[i] = 7
        ctx.require(gen.data_bytes(g.data)[i] == 7 and g.length == size, "data made by %s is filled in" % type(g).__name__)


def case_await(ctx, rng):
    """data that is still to come, or is replaced while being awaited"""
    async def run():
        for _ in range(10):
            d, g, is_np = make(ctx, rng)
            t = d["type"]
            if t == "event":
                await event(d)
                continue
            if is_np and not d["data"]:
                continue
            if d["data"] is None:
                d["data"] = b"" if t != "empty" else None
            data = d["data"]
            gate = asyncio.Event()

            async def fetch(x=data):
                await gate.wait()
                return x
            g.data = fetch()
            where = "pending %s%s" % ("numpy " if is_np else "", type(g).__name__)
            parts = lambda: len(g.component_data if t == "video" else g.channel_data) if is_np else 0  # noqa: E731
            ctx.require(parts() == 0, where + ": array views before its data arrives", got=parts())
            ctx.require(g.data is None and not g.has_data() and tuple(g)[1] is None, where + ": data before it arrives")
            g.length = 12345
            ctx.require(g.length == 12345, where + ": announced length", got=g.length)
            task = asyncio.ensure_future(_await(g))
            await asyncio.sleep(0)
            mode = rng.choice(["arrive", "arrive", "replace", "assign", "forget", "later"])
            if mode == "forget":
                g.data = None
            elif mode == "later":
                second = rng.randbytes(len(data or b"")) if is_np else rng.randbytes(7)
                g.data = fetch(second)
            elif mode == "replace":
                new = rng.randbytes(len(data or b"")) if is_np else rng.randbytes(7)
                g.data = new
                d["data"] = new
            elif mode == "assign":
                d["origin"] = gen.r_ts(rng)
                g.origin_timestamp = gen.mts(d["origin"])
            gate.set()
            r = await task
            if mode in ("forget", "later"):
                # what arrived was no longer wanted
                what = where + (" whose data was set to None" if mode == "forget" else " given another awaitable") + " while being awaited"
                ctx.require(r is None and g.data is None and not g.has_data() and parts() == 0, what + ": data", got=gen.data_bytes(r), parts=parts())
                if mode == "forget":
                    ctx.require(g.length == 0, what + ": length", got=g.length)
                    ctx.raises(AttributeError, lambda: setattr(g, "length", 3), what + ": assigning length")
                    ctx.require(await _await(g) is None and g.data is None, what + ": awaiting again")
                    ctx.count("awaited")
                    ctx.saw("await", type(g).__name__, is_np, mode)
                    continue
                g.length = 77
                ctx.require(g.length == 77, what + ": announced length", got=g.length)
                data = d["data"] = second
                r = await _await(g)
            ctx.require(gen.data_bytes(r) == gen.data_bytes(d["data"]), where + ": result of awaiting after " + mode, got=r)
            if d["data"] is None:
                ctx.require(g.data is None, where + ": data", got=g.data)
            else:
                judge(ctx, g, d, "%s after %s" % (where, mode))
            ctx.require(gen.data_bytes(await _await(g)) == gen.data_bytes(d["data"]), where + ": awaiting again")
            async with g as h:
                ctx.require(h is g, where + ": async with")
            if mode != "replace":
                ctx.raises(AttributeError, lambda: setattr(g, "length", 3), where + ": assigning length with data present") if d["data"] is not None else None
            ctx.count("awaited")
            ctx.saw("await", type(g).__name__, is_np, mode)

    async def event(d):
        """the payload is still to come: until then the grain has the event data of its metadata"""
        from mediagrains import grains as mg
        e = gen.r_desc(rng, "event")
        stored = json.dumps(gen.event_payload(d)).encode()
        gate = asyncio.Event()
        absent = rng.random() < 0.2

        async def fetch():
            await gate.wait()
            return None if absent else rng.choice([bytes, bytearray, Bytesish])(stored)
        g = mg.EventGrain(dict(gen.meta_of(dict(d, **{k: e[k] for k in ("event_type", "topic", "event_data")}))), data=fetch())
        where = "pending EventGrain"
        ctx.equal(g.length, len(g.data), where + ": length")
        ctx.equal(json.loads(g.data), gen.event_payload(e), where + ": data before it arrives")
        n = rng.choice([1, len(stored), 12345])
        g.length = n
        ctx.equal(g.length, n, where + ": announced length")
        task = asyncio.ensure_future(_await(g))
        await asyncio.sleep(0)
        replaced = rng.random() < 0.3
        if replaced:
            d["event_type"], d["topic"], d["event_data"] = "urn:new", "t", [{"path": "p", "post": 1}]
            g.data = json.dumps(gen.event_payload(d)).encode()
        gate.set()
        r = await task
        if absent and not replaced:
            d.update({k: e[k] for k in ("event_type", "topic", "event_data")})
        ctx.equal(json.loads(r), gen.event_payload(d), where + ": result of awaiting")
        judge(ctx, g, d, where + " after awaiting")
        ctx.equal(g.length, len(g.data), where + ": length after awaiting")
        ctx.raises(AttributeError, lambda: setattr(g, "length", 3), where + ": assigning length with data present")
        ctx.equal(json.loads(await _await(g)), gen.event_payload(d), where + ": awaiting again")
        ctx.count("awaited")
        ctx.count("awaited_events")
        ctx.saw("await", "EventGrain", absent, replaced)

    async def _await(g):
        if rng.random() < 0.3:
            async with g as h:
                return h.data
        return await g
    asyncio.run(run())
