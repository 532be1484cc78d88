"""G02: every GSF file written conforms to the published GSF layout."""
import io
from fractions import Fraction

from .. import gen, gsfcase, gsfio, refgsf
from . import g01

ID = "G02"
LEVEL = "exploration"
RULE = ("A case writes random content through one writing way and a second, strict parser written from gsf_docs accounts for every "
        "byte of the output (block sizes, order, widths, signs, counts, terminator) and the field values it finds are compared with "
        "what was written. Distinct = (write way, version, grain type).")
FLOORS = dict(grains_judged=1800, files_parsed=800, unfit_refused=100, long_strings=150)

U4 = [1 << 32, (1 << 32) + 5, -1, 1 << 40]


def plan(ctx):
    n = ctx.n(80, 4000)
    return [("%s-%d" % (w, i), dict(way=w)) for w in gsfio.WRITE_WAYS for i in range(n)] + \
        [("unfit-%d" % i, dict(way="unfit")) for i in range(ctx.n(200, 6000))] + \
        [("long-%d" % i, dict(way="long")) for i in range(ctx.n(150, 4000))]


def long_str(rng, size):
    """-> (a string of more than size octets, as much of it as fits)"""
    n = size + rng.choice([1, 1, 2, 3, 7, 100])
    if size > 1000:
        c = rng.choice(["a", "\u00e9", "\u20ac", "\U0001f3a5"])
        s = "b" * rng.randint(0, 3) + c * (n // len(c.encode()) + 1) + "z"
    else:
        s = ""
        while len(s.encode()) < n:
            s += rng.choice(["a", " ", "\u00e9", "\u20ac", "\U0001f3a5", "\uffff"])
    fit = ""
    used = 0
    for c in s:
        used += len(c.encode())
        if used > size:
            break
        fit += c
    return s, fit


def long(ctx, rng):
    """Strings too long for their fields are cut after the last character that fits"""
    f = gsfcase.content(rng, ngrains=rng.choice([1, 2, 4]), nsegs=rng.choice([1, 2]))
    want = dict(f, head=dict(f["head"], segments=[dict(s) for s in f["head"]["segments"]], tags=list(f["head"]["tags"])), grains=[])
    written = dict(f, head=dict(f["head"], segments=[dict(s) for s in f["head"]["segments"]], tags=list(f["head"]["tags"])))
    grains = []
    for lid, d in f["grains"]:
        a, b = dict(d), dict(d)
        if rng.random() < 0.7:
            s, fit = long_str(rng, 16)
            lab = (gen.r_uint(rng, 32), gen.r_rate(rng), rng.random() < 0.5)
            k = rng.randint(0, len(d["timelabels"]))
            a["timelabels"] = d["timelabels"][:k] + [(s,) + lab] + d["timelabels"][k:]
            b["timelabels"] = d["timelabels"][:k] + [(fit,) + lab] + d["timelabels"][k:]
            ctx.count("long_strings")
        grains.append((lid, gen.build(a, rng.choice(["class", "meta"]), bytes)))
        want["grains"].append((lid, b))
    for a, b in zip(written["head"]["segments"], want["head"]["segments"]):
        if "flow" in a and rng.random() < 0.7:
            s, fit = long_str(rng, 64)
            a["flow"], b["flow"] = dict(a["flow"], format=s), dict(b["flow"], format=fit)
            ctx.count("long_strings")
    if rng.random() < 0.5:
        for a, b in rng.sample(list(zip([written["head"]] + written["head"]["segments"], [want["head"]] + want["head"]["segments"])), 1):
            s, fit = long_str(rng, 65535)
            t, fit2 = long_str(rng, 65535) if rng.random() < 0.3 else ("v", "v")
            if rng.random() < 0.5:
                s, fit, t, fit2 = t, fit2, s, fit
            a["tags"], b["tags"] = list(a["tags"]) + [(s, t)], list(b["tags"]) + [(fit, fit2)]
            ctx.count("long_strings")
    way = rng.choice([w for w in gsfio.WRITE_WAYS if w not in gsfio.ONE_SEGMENT])
    raw = gsfio.write_any(way, grains, written["head"]["segments"], rng, **gsfcase.enc_kw(written, rng))
    judge_file(ctx, raw, g01.expect_file(want, way, rng), "strings too long, written by " + way, way.startswith(("stream", "astream")))
    ctx.saw("long", way, f["major"])


def rational(rng):
    return rng.choice([Fraction(1 << 32, 1), Fraction(1, 1 << 32), Fraction((1 << 40) + 1, 3), Fraction(-25, 1), Fraction(2, (1 << 33) + 1)])


def misfit(rng, d, major):
    """Change one field of the description to a value its field in the file cannot hold -> its name"""
    t = d["type"]
    opts = ["rate", "duration", "label count", "label rate"]
    if major == 7:
        opts += ["origin", "sync"]
    if t == "video":
        opts += ["width", "height", "extension", "sar", "par", "component"]
    elif t == "audio":
        opts += ["channels", "samples", "sample_rate"]
    elif t == "coded_video":
        opts += ["origin_width", "origin_height", "coded_width", "coded_height", "temporal_offset", "unit_offset", "unit_offsets"]
    elif t == "coded_audio":
        opts += ["channels", "samples", "sample_rate", "priming", "remainder"]
    o = rng.choice(opts)
    if o in ("rate", "duration", "sar", "par"):
        d[o] = rational(rng)
    elif o in ("origin", "sync"):
        d[o] = -rng.choice([1, 10**9, 10**18 + 1])
    elif o == "label count":
        d["timelabels"] = list(d["timelabels"]) + [("x", rng.choice(U4), Fraction(25), False)]
    elif o == "label rate":
        d["timelabels"] = [("x", 0, rational(rng), True)] + list(d["timelabels"])
    elif o == "component":
        c = [4, 4, 4, 0, 16]
        c[rng.choice([0, 1, 2, 4])] = rng.choice(U4)
        d["components"] = [tuple(c)]
        d["data"] = gen.rbytes(rng, 16)
    elif o == "channels":
        d[o] = rng.choice([-1, 65536, 1 << 32])
    elif o == "temporal_offset":
        d[o] = rng.choice([1 << 31, -(1 << 31) - 1, 1 << 32])
    elif o == "unit_offset":
        d["unit_offsets"] = [1, rng.choice(U4), 2]
    elif o == "unit_offsets":
        d["unit_offsets"] = [7] * 65536
    else:
        d[o] = rng.choice(U4)
    return o


def unfit(ctx, rng):
    from mediagrains import gsf
    f = gsfcase.content(rng, ngrains=rng.choice([1, 2, 4]), nsegs=rng.choice([1, 2]))
    bad = gen.r_desc(rng, neg=(f["major"] != 7), v7=(f["major"] < 9))
    field = misfit(rng, bad, f["major"])
    at = rng.randint(0, len(f["grains"]))
    badlid = rng.choice(f["head"]["segments"])["local_id"]
    where = "%s grain with unfit %s, version %d" % (bad["type"], field, f["major"])
    kw = gsfcase.enc_kw(f, rng)
    mk = lambda: gen.build(bad, "meta", bytes)
    ctx.raises((gsf.GSFEncodeError,), lambda: gsf.dumps([mk()], **kw), where + ", dumps")
    want = dict(f, head=dict(f["head"], segments=[dict(s) for s in f["head"]["segments"]]))
    grains = gsfcase.build_grains(rng, f)
    grains.insert(at, (badlid, None))
    seekable = rng.random() < 0.7
    if not seekable:
        for s in want["head"]["segments"]:
            s["count"] = -1
    out = io.BytesIO() if seekable else gsfio.NonSeekableOut()
    if rng.random() < 0.5:
        where += ", streaming"
        enc = gsf.GSFEncoder(out, streaming=True, **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        with enc as e:
            for lid, g in grains:
                if g is None:
                    ctx.raises((gsf.GSFEncodeError,), lambda: e.add_grain(mk(), segment_local_id=lid), where)
                else:
                    e.add_grain(g, segment_local_id=lid)
        raw = out.getvalue()
    else:
        where += ", async streaming"
        seen = []

        async def run():
            enc = gsf.GSFEncoder(out, streaming=True, **kw)
            gsfio._setup_segments(enc, f["head"]["segments"])
            async with enc as e:
                for lid, g in grains:
                    if g is None:
                        try:
                            await e.add_grain(mk(), segment_local_id=lid)
                        except gsf.GSFEncodeError:
                            seen.append(1)
                    else:
                        await e.add_grain(g, segment_local_id=lid)
        gsfio.run(run())
        ctx.require(seen, where + ": the grain was not refused")
        raw = out.getvalue()
    judge_file(ctx, raw, want, where, True)
    ctx.count("unfit_refused")
    ctx.count("unfit " + field)
    ctx.saw("unfit", bad["type"], field)


def judge_file(ctx, raw, f, where, ordered):
    """raw must be exactly one conformant file holding f"""
    try:
        files = refgsf.parse(raw)
    except refgsf.SpecError as e:
        ctx.fail("%s: does not conform to the published layout: %s" % (where, e), file=raw[:300])
    ctx.equal(len(files), 1, where + ": number of files")
    r = files[0]
    ctx.count("files_parsed")
    ctx.equal((r["major"], r["minor"]), (f["major"], f["minor"]), where + ": version")
    ctx.require(r["terminator"], where + ": no terminating empty grain block")
    h = r["head"]
    for s in h["segments"]:
        s.pop("count_pos", None)
    ctx.equal(h["id"], f["head"]["id"], where + ": file id")
    ctx.equal(h["created"], f["head"]["created"], where + ": created")
    ctx.equal(h["tags"], f["head"]["tags"], where + ": tags")
    want = [dict(s) for s in f["head"]["segments"]]
    for a, b in zip(h["segments"], want):
        if b["id"] is None:
            b["id"] = a["id"]
    ctx.equal(h["segments"], want, where + ": segments")
    seq = r["grains"]
    if not ordered:
        seq = [(lid, d) for lid in sorted({x[0] for x in seq}) for l2, d in seq if l2 == lid]
        wantg = [(lid, d) for lid in sorted({x[0] for x in f["grains"]}) for l2, d in f["grains"] if l2 == lid]
    else:
        wantg = f["grains"]
    ctx.equal([x[0] for x in seq], [x[0] for x in wantg], where + ": segments of grains")
    for i, ((lid, a), (_, b)) in enumerate(zip(seq, wantg)):
        a = dict(a)
        if a["type"] == "event":
            a.pop("data", None)
        b = gen.expected(b, creation=False)
        b.pop("cls")
        x = gen.diff(a, b)
        if x:
            ctx.fail("%s: grain %d as found by the independent parser differs in %s" % (where, i, x), got=a, want=b)
        ctx.count("grains_judged")
    for s in f["head"]["segments"]:
        if s["count"] != -1:
            ctx.equal(s["count"], sum(1 for x in seq if x[0] == s["local_id"]), where + ": count of segment")
    return r


def case(ctx, rng, key, p):
    way = p["way"]
    if way == "unfit":
        return unfit(ctx, rng)
    if way == "long":
        return long(ctx, rng)
    f = gsfcase.content(rng, big=rng.random() < 0.3)
    grains = gsfcase.build_grains(rng, f)
    raw = gsfio.write_any(way, grains, f["head"]["segments"], rng, junk_before=gen.rbytes(rng, rng.choice([0, 0, 40, 5000])),
                          **gsfcase.enc_kw(f, rng))
    want = g01.expect_file(f, way, rng)
    judge_file(ctx, raw, want, "written by " + way, way.startswith(("stream", "astream")) or way in gsfio.ONE_SEGMENT)
    for _, d in f["grains"]:
        ctx.saw(way, f["major"], d["type"])
    ctx.sample(dict(way=way, major=f["major"], grains=[d["type"] for _, d in f["grains"]], bytes=len(raw)))
