"""G09: concatenated GSF files decode to the concatenation of their grains."""
from .. import gen, gsfcase, gsfio, refgsf
from . import g01, g03

ID = "G09"
LEVEL = "exploration"
RULE = ("A case joins one to five random files (of the independent writer and of the library, versions mixed, with and without "
        "terminator blocks, empty ones, repeated segment identifiers) and decodes the joined bytes through several ways, with and "
        "without concatenation support and with segment selections; every grain, its segment and the header in force when it was "
        "delivered are compared with the file it came from. Distinct = (way, number of files, versions mixed, support).")
FLOORS = dict(grains_judged=6000, headers_in_force=4000, unsupported_judged=400, whole_loads=300)
KINDS = ["ref", "lib", "mixed", "odd"]


def plan(ctx):
    n = ctx.n(100, 4000)
    return [("%s-%d" % (k, i), dict(kind=k)) for k in KINDS for i in range(n)]


def one(rng, kind, last):
    lib = kind == "lib" or (kind == "mixed" and rng.random() < 0.5)
    if lib:
        f = gsfcase.content(rng)
        way = rng.choice(["stream", "stream_seg", "stream_pipe", "astream"])
        raw = gsfio.write_any(way, gsfcase.build_grains(rng, f), f["head"]["segments"], rng, **gsfcase.enc_kw(f, rng))
        return g01.expect_file(f, way, rng), raw, True
    f = refgsf.random_file(rng)
    term = rng.random() < 0.7
    return f, refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0.3, 0.8]) if kind == "odd" else 0), terminator=term), term


def case(ctx, rng, key, p):
    files = [one(rng, p["kind"], False) for _ in range(rng.choice([1, 2, 2, 3, 3, 5]))]
    raw = b"".join(r for _, r, _ in files)
    for way in rng.sample(gsfio.read_ways(), 6):
        decode(ctx, rng, way, files, raw, rng.random() < 0.75)
    ctx.sample(dict(kind=p["kind"], files=len(files), bytes=len(raw), grains=[len(f["grains"]) for f, _, _ in files]))


def decode(ctx, rng, way, files, raw, support):
    used = files if support else files[:1]
    never = way[2] == "LOAD_NEVER"
    where = "%d files, %s, support_concatenation=%s" % (len(files), "/".join(map(str, way)), support)
    kw = {} if support and rng.random() < 0.5 else dict(support_concatenation=support)
    lids = sorted({s["local_id"] for f, _, _ in files for s in f["head"]["segments"]})
    sel = None
    if way[0] in ("ctx", "actx") and rng.random() < 0.4:
        sel = rng.sample(lids, rng.randint(0, len(lids)))
    if sel is None:
        got = gsfio.read_any(way, raw, rng, **kw)
    else:
        got = select(way, raw, rng, sel, never, kw)
    if got.error is not None:
        raise got.error
    flat = [(i, lid, d) for i, (f, _, _) in enumerate(used) for lid, d in (g03.never_view(f) if never else f)["grains"]
            if sel is None or lid in sel]
    if hasattr(got, "segs"):
        want = {}
        for i, lid, d in flat:
            want.setdefault(lid, []).append(d)
        ctx.equal(sorted(got.segs), sorted(want), where + ": segments with grains")
        for lid in want:
            ctx.equal(len(got.segs[lid]), len(want[lid]), where + ": grains of segment %d" % lid)
            for j, (g, d) in enumerate(zip(got.segs[lid], want[lid])):
                refgsf.check_grain(ctx, g, d, "%s: segment %d grain %d" % (where, lid, j), data=not never or d["type"] == "event")
        ctx.require(any(got.head["id"] == f["head"]["id"] for f, _, _ in used), where + ": header of none of the files")
        ctx.count("whole_loads")
    else:
        ctx.equal([lid for lid, _ in got.grains], [lid for _, lid, _ in flat], where + ": segments of the grains in order")
        for j, ((lid, g), (i, _, d)) in enumerate(zip(got.grains, flat)):
            refgsf.check_grain(ctx, g, d, "%s: grain %d (from file %d)" % (where, j, i), data=not never or d["type"] == "event")
        for j, (h, (i, _, _)) in enumerate(zip(got.heads, flat)):
            g01.judge_head(ctx, h, used[i][0], where + ": header in force for grain %d from file %d" % (j, i))
            ctx.count("headers_in_force")
        if way[0] in ("ctx", "actx"):
            g01.judge_head(ctx, got.head, used[0][0], where + ": header on opening")
    if not support:
        ctx.count("unsupported_judged")
    ctx.saw(way, len(files), len({f["major"] for f, _, _ in files}), support, sel is None)


def select(way, raw, rng, sel, never, kw):
    if way[0] == "ctx":
        def after(got):
            for _, g in got.grains:
                if not never and g.data is not None and g.grain_type != "event":
                    bytes(g.data)
        return gsfio.read_session(raw, rng, way[1], way[2], local_ids=sel, after=after, **kw)

    async def after(got):
        for _, g in got.grains:
            if not never:
                await g
    return gsfio.run(gsfio.aread_session(raw, rng, way[1], way[2], local_ids=sel, after=after, **kw))
