"""N04: converting a video grain leaves the source alone and keeps everything else about it."""
import copy
import uuid

from .. import gen, convref
from . import n03, m03

ID = "N04"
LEVEL = "exploration"
RULE = ("Conversions over every available pair of formats from grains with every optional field present or absent: metadata, attributes and bytes of the source are compared "
        "before and after; every attribute of the result that is not format, components, data, flow or creation time must be the source's; the flow identifier "
        "must be the documented function of source flow and format alone (across processes, source formats and other metadata, distinct otherwise); result and source may share no "
        "mutable metadata object and no memory, and random edits of either must leave every observation of the other alone; a source changed and converted again gives what it then is and leaves the first result alone. Distinct = (pair, fields present).")
FLOORS = dict(conversions=6000, edits=12000, flow_ids=6000, labelled=1700, ratios=2000, chains=700, again=1500)


def plan(ctx):
    n = ctx.n(2, 40)
    fs = convref.available()
    return [("%s>%s-%d" % (a, b, j), dict(a=a, b=b)) for j in range(n) for a in fs for b in fs if a != b]


def view(g, drop=()):
    o = gen.observe(g)
    return {k: v for k, v in o.items() if k not in drop}


MAY_DIFFER = ("fmt", "components", "data", "flow", "creation", "extension")


def case(ctx, rng, key, p):
    import numpy as np
    from mediagrains.cogenums import CogFrameFormat
    a, b = p["a"], p["b"]
    fmt = CogFrameFormat(gen.FRAME[b])
    for _ in range(4):
        w, h = n03.r_size(rng, a, b)
        g, comps, lay = n03.source(rng, a, w, h, n03.picture(rng, a, w, h, rng.choice(n03.PIC)))
        if g.timelabels and rng.random() < 0.1:
            # a label of which not every field has been given
            g.meta["grain"]["timelabels"][0]["timelabel"].pop(rng.choice(["drop_frame", "frames_since_midnight"]))
        if rng.random() < 0.1:
            # a ratio of nothing is a ratio which is there
            setattr(g, rng.choice(["source_aspect_ratio", "pixel_aspect_ratio"]), 0)
        where = "%s>%s" % (a, b)
        meta, raw = copy.deepcopy(g.meta), gen.data_bytes(g.data)
        order = repr(g.meta)
        buffer = g.data
        cd = list(g.component_data)
        flow = g.flow_id_for_converted_flow(fmt)
        c = (g.asformat if rng.random() < 0.3 else g.convert)(fmt)
        ctx.count("conversions")
        ctx.equal(repr(g.meta), order, where + ": metadata of the source after conversion")
        ctx.require(g.meta == meta and gen.data_bytes(g.data) == raw, where + ": source changed by conversion")
        ctx.require(g.data is buffer and all(x is y for x, y in zip(g.component_data, cd)) and len(cd) == len(g.component_data), where + ": buffer or views of the source replaced")
        ctx.require(c is not g and type(c) is type(g), where + ": class of the result", got=type(c))
        want, got = view(g, MAY_DIFFER), view(c, MAY_DIFFER)
        for k in sorted(want):
            ctx.require(got.get(k) == want[k], "%s: %s of the result" % (where, k), got=got.get(k), want=want[k])
        ctx.count("labelled", int(bool(want["timelabels"])))
        ctx.count("ratios", int(want["sar"] is not None or want["par"] is not None))
        # flow identifier
        pinned = uuid.uuid5(g.flow_id, "FORMAT_CONVERSION: <CogFrameFormat.%s: %d>" % (fmt.name, int(fmt)))
        ctx.equal(c.flow_id, pinned, where + ": flow identifier of the result")
        ctx.equal(flow, pinned, where + ": flow_id_for_converted_flow")
        ctx.require(c.flow_id != g.flow_id, where + ": flow identifier kept although the format changed")
        ctx.count("flow_ids")
        if rng.random() < 0.5:
            again(ctx, rng, g, c, fmt, where)
        independent(ctx, rng, g, c, where)
        ctx.saw(a, b, bool(want["timelabels"]), want["sar"] is not None, want["par"] is not None, lay)
        if rng.random() < 0.15:
            chain(ctx, rng, c, b, w, h)


def again(ctx, rng, g, c, fmt, where):
    """the source, changed and converted again, gives what it is now and leaves the first result alone"""
    import numpy as np
    first = m03.snap(c)
    what = rng.sample(["flow", "src", "origin", "sync", "rate", "duration", "timelabels", "sar", "par", "data", "layout"], 4)
    if rng.random() < 0.5 and "flow" not in what:
        what[0] = "flow"
    d = gen.r_desc(rng, "video")
    for k in what:
        if k == "flow":
            g.flow_id = d["flow"]
        elif k == "src":
            g.source_id = d["src"]
        elif k in ("origin", "sync"):
            setattr(g, k + "_timestamp", gen.mts(d[k]))
        elif k in ("rate", "duration"):
            setattr(g, k, d[k])
        elif k == "timelabels":
            g.timelabels = [gen.tl_meta(x) for x in d["timelabels"]]
        elif k in ("sar", "par"):
            if d[k] is not None:
                setattr(g, "source_aspect_ratio" if k == "sar" else "pixel_aspect_ratio", d[k])
        elif k == "layout":
            g.cog_frame_layout = d["layout"]
        elif m03.buf(g.data).flags.writeable:
            m03.buf(g.data)[:] = 0
    h = g if rng.random() < 0.7 else copy.deepcopy(g)
    if rng.random() < 0.3:
        h.asformat(h.cog_frame_format).flow_id_for_converted_flow(fmt)
    r = h.convert(fmt)
    ctx.equal(view(r, MAY_DIFFER), view(h, MAY_DIFFER), where + ": result after changing %s of the source" % sorted(what))
    pinned = uuid.uuid5(uuid.UUID(g.meta["grain"]["flow_id"]), "FORMAT_CONVERSION: <CogFrameFormat.%s: %d>" % (fmt.name, int(fmt)))
    ctx.equal(r.flow_id, pinned, where + ": flow identifier after changing %s of the source" % sorted(what))
    ctx.require(r is not c and not np.shares_memory(r.data, c.data), where + ": two results share memory")
    after = m03.snap(c)
    for k in first:
        ctx.require(after.get(k) == first[k], "%s: a second conversion changed %s of the first result" % (where, k), before=first[k], after=after.get(k))
    ctx.count("again")


def independent(ctx, rng, g, c, where):
    import numpy as np
    shared = set(m03.mutables(g.meta, {})) & set(m03.mutables(c.meta, {}))
    ctx.require(not shared, where + ": result shares metadata objects with the source", shared=[m03.mutables(g.meta, {})[i] for i in list(shared)[:2]])
    ctx.require(not np.shares_memory(g.data, c.data), where + ": result shares memory with the source")
    for x, y, name in ((g, c, "source"), (c, g, "result")):
        before = m03.snap(y)
        if m03.buf(x.data).flags.writeable:
            m03.buf(x.data)[:] = rng.randrange(256)
        for _ in range(2):
            how = m03.edit(ctx, rng, x)
            ctx.count("edits")
            after = m03.snap(y)
            for k in before:
                ctx.require(after.get(k) == before[k], "%s: editing the %s (%s) changed %s of the other grain" % (where, name, how, k), before=before[k], after=after.get(k))


def chain(ctx, rng, c, b, w, h):
    """conversions of a result keep the same things again"""
    from mediagrains.cogenums import CogFrameFormat
    fs = [f for f in convref.available() if f != b and n03.r_ok(b, f, w, h)]
    for f in rng.sample(fs, 2):
        fmt = CogFrameFormat(gen.FRAME[f])
        g = copy.deepcopy(c)
        if g.data is None or len(gen.data_bytes(g.data)) != gen.video_size(b, w, h) or g.width != w or g.height != h or int(g.cog_frame_format) != gen.FRAME[b]:
            return
        if not all(k in g.meta["grain"] for k in ("rate", "duration")):
            return
        g = type(c)(meta=g.meta, data=bytearray(gen.video_size(b, w, h)))
        if [tuple(x[k] for k in ("width", "height", "stride", "offset", "length")) for x in g.components] != [tuple(x) for x in gen.video_layout(b, w, h)]:
            return
        r = g.convert(fmt)
        want, got = view(g, MAY_DIFFER), view(r, MAY_DIFFER)
        ctx.equal(got, want, "%s>%s after another conversion: attributes" % (b, f))
        ctx.equal(r.flow_id, g.flow_id_for_converted_flow(fmt), "flow identifier of a second conversion")
        ctx.count("chains")
