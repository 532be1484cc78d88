"""G03: any conformant GSF file is decoded to exactly the content it describes."""
import os

from .. import boot, gen, gsfcase, gsfio, refgsf
from . import g01

ID = "G03"
LEVEL = "exploration"
RULE = ("A case has an independent conformant writer (from gsf_docs) lay out a random file with unusual but legal choices: unknown and "
        "fill blocks at every level and position, extra trailing properties, optional blocks absent or empty, block order, null "
        "values, bytes after string terminators, interleaved segments, flow information; the library decodes it through several "
        "ways, whole and by segment selection, and everything observed is compared; the example files that come with the library are read, judged and written again too. Distinct = (read way, grain type, version, "
        "oddness, selection).")
FLOORS = dict(grains_judged=4000, headers_judged=1500, selections_judged=500)
SHIPPED = ["audio_7", "audio_8", "coded_audio_7", "coded_audio_8", "coded_video_7", "coded_video_8", "coded_video_9", "event_7", "event_8", "video_7", "video_8"]
KINDS = ["plain", "odd", "odder", "oddest", "oldest", "manyseg"]


def plan(ctx):
    n = ctx.n(150, 6000)
    return [("%s-%d" % (k, i), dict(kind=k)) for k in KINDS for i in range(n)] + \
        [("shipped-%s-%d" % (name, i), dict(kind="shipped", name=name)) for name in SHIPPED for i in range(ctx.n(2, 40))
         if os.path.exists(os.path.join(boot.REPO, "examples", name + ".gsf"))]


def case(ctx, rng, key, p):
    kind = p["kind"]
    if kind == "shipped":
        return shipped(ctx, rng, p["name"])
    level = dict(plain=0, odd=0.15, odder=0.5, oddest=0.9, oldest=0.3, manyseg=0.3)[kind]
    f = refgsf.random_file(rng, major=7 if kind == "oldest" else None, nsegs=rng.randint(3, 6) if kind == "manyseg" else None,
                           ngrains=rng.randint(6, 14) if kind == "manyseg" else None)
    if rng.random() < 0.1:
        f["head"]["created"] = None
    raw = refgsf.file_bytes(f, refgsf.Knobs(rng, level))
    ways = gsfio.read_ways()
    for rw in rng.sample(ways, 4):
        got = gsfio.read_any(rw, raw, rng)
        never = rw[2] == "LOAD_NEVER"
        g01.judge(ctx, got, never_view(f) if never else f, "%s file read by %s" % (kind, "/".join(str(x) for x in rw)), True)
        if never:
            for _, g in got.grains:
                ctx.require(g.grain_type == "event" or gen.data_bytes(g.data) == b"", "LOAD_NEVER loaded data", way=rw, grain=g.data, type=g.grain_type)
        for _, d in f["grains"]:
            ctx.saw(rw, d["type"], f["major"], kind)
    # segment selection
    lids = [s["local_id"] for s in f["head"]["segments"]]
    sel = rng.choice([[], lids[:1], lids, rng.sample(lids, rng.randint(0, len(lids))) + [4242]])
    sel = rng.choice([list, tuple, set, frozenset])(sel) if rng.random() < 0.5 else sel
    loading = rng.choice(gsfio.MODES[:3])
    if rng.random() < 0.5:
        src = rng.choice(gsfio.SYNC_SOURCES)

        def after(got):
            for _, g in got.grains:
                if g.data is not None and g.grain_type != "event":
                    bytes(g.data)
        got = gsfio.read_session(raw, rng, src, loading, local_ids=sel, after=after)
    else:
        src = rng.choice(gsfio.ASYNC_SOURCES)

        async def after(got):
            for _, g in got.grains:
                await g
        got = gsfio.run(gsfio.aread_session(raw, rng, src, loading, local_ids=sel, after=after))
    sub = dict(f, grains=[(lid, d) for lid, d in f["grains"] if lid in sel])
    g01.judge(ctx, got, sub, "%s file, segments %r selected, %s %s" % (kind, sel, src, loading), True)
    ctx.count("selections_judged")
    ctx.saw("selection", len(sub["grains"]) == len(f["grains"]), len(sel), src, loading, kind)
    ctx.sample(dict(kind=kind, bytes=len(raw), major=f["major"], grains=[(lid, d["type"]) for lid, d in f["grains"]], selected=sorted(sel)))


def shipped(ctx, rng, name):
    """A file that comes with the library, made by another implementation, read and written again"""
    from mediagrains import gsf
    with open(os.path.join(boot.REPO, "examples", name + ".gsf"), "rb") as h:
        raw = h.read()
    f = refgsf.parse(raw)[0]
    got = None
    for rw in rng.sample(gsfio.read_ways(), 2):
        got = gsfio.read_any(rw, raw, rng)
        never = rw[2] == "LOAD_NEVER"
        g01.judge(ctx, got, never_view(f) if never else f, "%s.gsf read by %s" % (name, "/".join(str(x) for x in rw)), True)
        ctx.saw("shipped", name, rw)
    (head, segs) = gsf.loads(raw)
    again = gsf.dumps([g for lid in sorted(segs) for g in segs[lid]], segment_tags=head["segments"][0]["tags"], tags=head["tags"], major=f["major"])
    r = refgsf.parse(again)[0]
    want = [d for lid in sorted(segs) for x, d in f["grains"] if x == lid]
    ctx.equal([gen.expected(d) for _, d in r["grains"]], [gen.expected(d) for d in want], name + ".gsf written again: grains")
    ctx.count("shipped_rewritten")


def never_view(f):
    """What remains of the content when data is never loaded."""
    out = []
    for lid, d in f["grains"]:
        d = dict(d)
        if d["type"] == "event":
            d.update(event_type="", topic="", event_data=[])
        else:
            d["data"] = None
        out.append((lid, d))
    return dict(f, grains=out)
