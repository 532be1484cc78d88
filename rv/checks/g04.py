"""G04: loading mode and input source never change what a GSF file decodes to."""
import io

from .. import gen, gsfcase, gsfio, refgsf
from . import g01, g03

ID = "G04"
LEVEL = "exploration"
RULE = ("'ways' cases decode one random file through every entry point, source and loading mode the library supports and compare all "
        "of them with the content and with each other (values as observed through the public attributes, headers as dictionaries). "
        "'defer' cases count what is read from the source: deferred data is not read before it is asked for, is read exactly once, "
        "leaves the position of the source alone and stays available after the source has changed. Distinct = (way, grain type).")
FLOORS = dict(grains_judged=15000, ways_compared=3000, deferred_loads=300, specials_compared=2000)


def plan(ctx):
    n = ctx.n(120, 2500)
    return ([("ways-%d" % i, dict(kind="ways")) for i in range(n)] + [("defer-%d" % i, dict(kind="defer")) for i in range(4 * n)] +
            [("kwargs-%d" % i, dict(kind="kwargs")) for i in range(n)] + [("special-%d" % i, dict(kind="special")) for i in range(n)])


def case(ctx, rng, key, p):
    globals()["case_" + p["kind"]](ctx, rng)


def case_ways(ctx, rng):
    level = rng.choice([0, 0.3, 0.7])
    f = refgsf.random_file(rng)
    if rng.random() < 0.3 and f["grains"]:
        for _, d in f["grains"]:
            if d["type"] in ("coded_video", "coded_audio"):
                d["data"] = gen.rbytes(rng, rng.choice([8191, 8192, 20000, 70000]))
    raw = refgsf.file_bytes(f, refgsf.Knobs(rng, level))
    nv, present = g03.never_view(f), {}
    for way in gsfio.read_ways():
        got = gsfio.read_any(way, raw, rng)
        never = way[2] == "LOAD_NEVER"
        where = "read by " + "/".join(str(x) for x in way)
        g01.judge(ctx, got, nv if never else f, where, True)
        ctx.count("ways_compared")
        if not never:
            allg = [g for _, g in got.grains] if not hasattr(got, "segs") else [g for gs in got.segs.values() for g in gs]
            for g in allg:
                if g.grain_type != "event":
                    ctx.equal(g.length, len(gen.data_bytes(g.data)), where + ": reported length")
            here = [(g.data is None, g.has_data(), tuple(g)[1] is None) for g in allg] if not hasattr(got, "segs") else {
                k: [(g.data is None, g.has_data(), tuple(g)[1] is None) for g in gs] for k, gs in got.segs.items()}
            ctx.equal(here, present.setdefault(hasattr(got, "segs"), here), where + ": which grains have data")
        for _, d in f["grains"]:
            ctx.saw(way, d["type"])
    ctx.sample(dict(bytes=len(raw), ways=len(gsfio.read_ways()), grains=len(f["grains"])))


def case_special(ctx, rng):
    """Blocks whose size is not one: whatever they are taken for, every way of reading must take them for the same."""
    f = refgsf.random_file(rng, ngrains=rng.randint(1, 4))
    raw = refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0, 0.3])))
    first = raw.find(b"head")
    spots = [first, len(raw) - 8]
    for _ in range(rng.randint(1, 2)):
        p = rng.choice(spots)
        raw = raw[:p] + rng.choice([b"grai", b"fill", b"zzzz", b"segm"]) + rng.choice([0, 0, 1, 3, 7]).to_bytes(4, "little") + raw[p:]
    seen = {}
    for way in gsfio.read_ways():
        got = gsfio.read_any(way, raw, rng)
        never = way[2] == "LOAD_NEVER"
        segs = got.segs if hasattr(got, "segs") else gsfcase.by_segment(got.grains)
        what = None if got.error is None else "error", got.head if got.error is None else None, {
            lid: [(g.grain_type, g.origin_timestamp, g.source_id, None if never else gen.data_bytes(g.data) if g.grain_type != "event" else bytes(g.data))
                  for g in gs] for lid, gs in segs.items()} if got.error is None else None
        ref = seen.setdefault(never, what)
        ctx.equal(what, ref, "a file with blocks of special size read by %s and by the first way" % "/".join(str(x) for x in way))
        ctx.count("specials_compared")
        ctx.saw("special", way, what[0])


def case_defer(ctx, rng):
    f = refgsf.random_file(rng, ngrains=rng.randint(1, 6), types=["coded_video", "coded_audio", "empty", "video", "audio"])
    size = rng.choice([1, 100, 3000, 30000])
    for _, d in f["grains"]:
        d["data"] = gen.rbytes(rng, size + rng.randint(0, 9))
    raw = refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0, 0.4])))
    loading = rng.choice(gsfio.MODES[1:3])
    total = sum(len(d["data"]) for _, d in f["grains"])
    overhead = len(raw) - total
    asynch = rng.random() < 0.5
    order = list(range(len(f["grains"])))
    rng.shuffle(order)
    early = {i for i in order if rng.random() < 0.4}
    if not asynch:
        src = gsfio.CountingBytesIO(raw)
        from mediagrains.gsf import GSFDecoder
        got = []
        loaded = 0
        with GSFDecoder(file_data=src) as dec:
            for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                i = len(got)
                got.append(g)
                d = f["grains"][i][1]
                ctx.equal(g.length, len(d["data"]), "reported length of deferred grain %d" % i)
                ctx.equal(g.data is not None, True, "deferred grain %d has a data element" % i)
                if i in early:
                    pos, before = src.tell(), src.taken
                    ctx.equal(bytes(g.data), d["data"], "deferred data of grain %d while iterating" % i)
                    ctx.equal(src.tell(), pos, "position of the source after loading deferred data")
                    ctx.require(src.taken - before <= len(d["data"]), "loading read more than the data")
                    loaded += len(d["data"])
                ctx.require(src.taken <= overhead + loaded, "deferred data was read before it was asked for",
                            taken=src.taken, allowed=overhead + loaded)
            for i in order:
                d = f["grains"][i][1]
                before = src.taken
                pos = src.tell()
                how = rng.randrange(4)
                if how == 0:
                    ctx.equal(bytes(got[i].data), d["data"], "deferred data of grain %d" % i)
                elif how == 1:
                    ctx.equal(got[i].data[:], d["data"], "deferred data of grain %d by slice" % i)
                elif how == 2:
                    ctx.equal(bytes(got[i]), d["data"], "deferred data of grain %d by bytes(grain)" % i)
                else:
                    k = rng.randrange(len(d["data"]))
                    ctx.equal(got[i].data[k], d["data"][k], "octet of deferred data")
                ctx.equal(src.tell(), pos, "position of the source after loading deferred data")
                ctx.equal(src.taken - before, 0 if i in early else len(d["data"]), "octets read to load deferred data once")
                ctx.count("deferred_loads")
            src.seek(0)
            src.write(bytes(len(raw)))          # what has been loaded stays loaded
            for i in order:
                ctx.equal(bytes(got[i].data), f["grains"][i][1]["data"], "loaded data after the source changed")
    else:
        log = []

        async def go():
            from mediagrains.gsf import GSFDecoder
            src = gsfio.lagging_source(raw, rng, lag=rng.choice([0, 2]), log=log)
            opened = await src.__aenter__()
            got = []
            loaded = 0
            async with GSFDecoder(file_data=opened) as dec:
                async for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                    i = len(got)
                    got.append(g)
                    d = f["grains"][i][1]
                    ctx.equal(g.length, len(d["data"]), "reported length of deferred grain %d" % i)
                    if i in early:
                        pos = opened.tell()
                        ctx.equal(bytes(await g), d["data"], "deferred data of grain %d while iterating" % i)
                        ctx.equal(opened.tell(), pos, "position of the source after loading deferred data")
                        loaded += len(d["data"])
                    ctx.require(sum(log) <= overhead + loaded, "deferred data was read before it was asked for")
                for i in order:
                    d = f["grains"][i][1]
                    before, pos = sum(log), opened.tell()
                    r = await got[i]
                    ctx.equal(bytes(r), d["data"], "deferred data of grain %d" % i)
                    ctx.equal(bytes(got[i].data), d["data"], "data attribute of awaited grain %d" % i)
                    ctx.equal(opened.tell(), pos, "position of the source after loading deferred data")
                    ctx.equal(sum(log) - before, 0 if i in early else len(d["data"]), "octets read to load deferred data once")
                    ctx.count("deferred_loads")
                opened.b = bytes(len(raw))
                for i in order:
                    ctx.equal(bytes(await got[i]), f["grains"][i][1]["data"], "loaded data after the source changed")
            for i in order:
                ctx.equal(bytes(got[i].data), f["grains"][i][1]["data"], "loaded data after leaving the context")
        gsfio.run(go())
    ctx.saw(asynch, loading, size, len(early), len(order))


def case_kwargs(ctx, rng):
    """Entry points hand their options on: a grain class of the caller's own, a decoder class of the caller's own."""
    from mediagrains import gsf
    from mediagrains.grains import GrainFactory
    f = refgsf.random_file(rng, ngrains=rng.randint(1, 4))
    raw = refgsf.file_bytes(f)
    seen = []

    def parse(meta, data):
        g = GrainFactory(meta, data)
        seen.append(g)
        return g
    how = rng.choice(["loads", "load", "aload", "decoder", "adecoder"])
    if how == "loads":
        head, segs = gsf.loads(raw, parse_grain=parse)
    elif how == "load":
        head, segs = gsf.load(io.BytesIO(raw), parse_grain=parse)
    elif how == "decoder":
        head, segs = gsf.GSFDecoder(parse_grain=parse).decode(raw)
    else:
        async def go():
            src, cl = gsfio.async_source(rng.choice(gsfio.ASYNC_SOURCES), raw, rng)
            try:
                if how == "aload":
                    return await gsf.load(src, parse_grain=parse)
                segs = {}
                async with gsf.GSFDecoder(parse_grain=parse, file_data=src) as dec:
                    async for g, lid in dec.grains(loading_mode=gsfio.mode("LOAD_IMMEDIATELY")):
                        segs.setdefault(lid, []).append(g)
                    return dec.file_headers, segs
            finally:
                cl()
        head, segs = gsfio.run(go())
    got = gsfio.Got()
    got.head, got.segs = head, segs
    g01.judge(ctx, got, f, "through " + how, True)
    ctx.equal(sorted(map(id, seen)), sorted(id(g) for gs in segs.values() for g in gs), "grains made by the caller's grain parser")
    ctx.saw("kwargs", how)
