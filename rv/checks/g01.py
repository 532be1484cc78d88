"""G01: GSF files give back exactly the grains, segments and tags written."""
from .. import gen, gsfcase, gsfio, refgsf

ID = "G01"
LEVEL = "exploration"
RULE = ("A case draws a random file content (all grain types, versions 7/8/9, several segments, boundary-heavy field values), "
        "writes it through one supported writing way and reads the bytes through several reading ways; the observer compares every "
        "public attribute and the data bytes. Distinct = (write way, read way, grain type, version).")
FLOORS = dict(grains_judged=3000, headers_judged=800)
ASSUMPTIONS = ["domain: values the file format can hold (version 7: no negative timestamps; below 9: known key frame and temporal offset)"]


def plan(ctx):
    n = ctx.n(60, 2500)
    return [("%s-%d" % (w, i), dict(way=w)) for w in gsfio.WRITE_WAYS for i in range(n)]


def expect_file(f, way, rng):
    if way in gsfio.ONE_SEGMENT:
        f = gsfcase.one_segment(f, rng)
    f = dict(f, head=dict(f["head"], segments=[dict(s) for s in f["head"]["segments"]]))
    for s in f["head"]["segments"]:
        if way in ("stream_pipe", "astream_writer"):
            s["count"] = -1
    return f


def judge_head(ctx, head, f, where):
    if any(s["id"] is None for s in f["head"]["segments"]):
        want = dict(f["head"], segments=[dict(s, id=g["id"]) for s, g in zip(f["head"]["segments"], head["segments"])]
                    if len(head["segments"]) == len(f["head"]["segments"]) else f["head"]["segments"])
    else:
        want = f["head"]
    refgsf.check_head(ctx, head, want, where)


def judge(ctx, got, f, where, ordered, data=True):
    if got.error is not None:
        raise got.error
    judge_head(ctx, got.head, f, where)
    want = gsfcase.by_segment(f["grains"])
    if hasattr(got, "segs"):
        ctx.equal(sorted(got.segs), sorted(want), where + ": segments with grains")
        gotseg = got.segs
    else:
        if ordered:
            ctx.equal([lid for lid, _ in got.grains], [lid for lid, _ in f["grains"]], where + ": segment order of grains")
        gotseg = gsfcase.by_segment(got.grains)
        ctx.equal(sorted(gotseg), sorted(want), where + ": segments with grains")
    for lid in want:
        ctx.equal(len(gotseg[lid]), len(want[lid]), where + ": number of grains in segment %d" % lid)
        for i, (g, d) in enumerate(zip(gotseg[lid], want[lid])):
            refgsf.check_grain(ctx, g, d, "%s: segment %d grain %d" % (where, lid, i), data=data or d["type"] == "event")


def case(ctx, rng, key, p):
    way = p["way"]
    big = rng.random() < 0.3
    f = gsfcase.content(rng, big=big)
    grains = gsfcase.build_grains(rng, f)
    before = [gen.observe(g) for _, g in grains]
    raw = gsfio.write_any(way, grains, f["head"]["segments"], rng, junk_before=gen.rbytes(rng, rng.choice([0, 0, 40, 5000])),
                          **gsfcase.enc_kw(f, rng))
    for (lid, g), b in zip(grains, before):
        x = gen.diff(gen.observe(g), b)
        ctx.require(x is None, "writing changed a grain: %s" % x)
    want = expect_file(f, way, rng)
    ordered = way.startswith(("stream", "astream")) or way in gsfio.ONE_SEGMENT
    ways = [w for w in gsfio.read_ways() if w[2] != "LOAD_NEVER"]
    for rw in [("loads", None, None)] + rng.sample(ways, 3):
        got = gsfio.read_any(rw, raw, rng)
        judge(ctx, got, want, "written by %s, read by %s" % (way, "/".join(str(x) for x in rw)), ordered)
        for _, d in f["grains"]:
            ctx.saw(way, rw, d["type"], f["major"])
    ctx.count("bytes_written", len(raw))
    ctx.sample(dict(way=way, grains=[d["type"] for _, d in f["grains"]], bytes=len(raw), major=f["major"]))
