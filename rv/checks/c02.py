"""C02: comparison options affect exactly the fields they name."""
import copy
import itertools
import math
import struct

from .. import gen, psnrref
from . import c01, c04, m03, n01

ID = "C02"
LEVEL = "exploration"
RULE = ("Pairs of grains of every class differing in 0-3 fields are compared under random sets of 0-4 options (exclusions by either name of a field, inclusions, expected differences on "
        "timestamps and integers with every operator and values at, below and above the difference present and their combinations by & and |, metadata only, PSNR bounds above and below the value "
        "present) in every order of the options; verdict, the verdict of every child and which children are excluded must be what a direct reading of the fields "
        "and of each option says; repeated use of an option object must not change it. Distinct = (type, options, fields differing).")
FLOORS = dict(comparisons=10000, matched_by_option=1500, excluded=6000, expected_difference=7000, combined=2500, on_integers=3500, included=1800, psnr=800, psnr_satisfied=120, incomparable=1300, orders=9000, metadata_only=400, far_apart=200, not_a_number=50)
OPS = dict(eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)
ALIAS = dict(src_id=["source_id"], cog_frame_format=["format"], cog_audio_format=["format"], cog_frame_layout=["layout"])
INTS = dict(empty=[], event=[], audio=["samples", "channels", "sample_rate"], coded_audio=["samples", "channels", "sample_rate", "priming", "remainder"], video=["width", "height"],
            coded_video=["coded_width", "coded_height", "origin_width", "origin_height", "temporal_offset"])
TIMES = ["origin_timestamp", "sync_timestamp", "creation_timestamp"]


def plan(ctx):
    n = ctx.n(900, 22000)
    return [("options-%d" % j, dict()) for j in range(n)]


def r_options(ctx, rng, a, b, same):
    """[(description, option)]"""
    from mediagrains.comparison import options as O
    from mediatimestamp.immutable import TimeOffset
    out = []
    fields = [k for k in same]
    differing = [k for k in same if not same[k]] or fields
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        r = rng.random()
        if r < 0.35:
            k = rng.choice(differing if rng.random() < 0.6 else fields)
            if k == "data" and rng.random() < 0.3:
                out.append((("exclude", "data"), O.CompareOnlyMetadata))
                ctx.count("metadata_only")
                continue
            name = rng.choice([k] + ALIAS.get(k, []))
            out.append((("exclude", "format" if name == "format" else k), getattr(O.Exclude, name)))
        elif r < 0.45:
            out.append((("include", "creation_timestamp"), O.Include.creation_timestamp))
        elif r < 0.5:
            # inclusion of what is compared anyway changes nothing
            out.append((("nothing", None), getattr(O.Include, rng.choice([k for k in fields if k != "creation_timestamp"]))))
        elif r < 0.9:
            ints = INTS[a.grain_type] + ["length"] if a.grain_type == b.grain_type else ["length"]
            ints = [k for k in ints if isinstance(getattr(a, k), int) and isinstance(getattr(b, k), int)]
            k = rng.choice(TIMES + ints)
            if rng.random() < 0.6:
                k = rng.choice([x for x in differing if x in TIMES + ints] or [k])
            op = rng.choice(sorted(OPS))
            if k in TIMES:
                d = clip(diff(a, b, k) + rng.choice([0, 0, 1, -1, 1000000000, -10 ** 18]))
                v = TimeOffset(abs(d) // gen.NS, abs(d) % gen.NS, -1 if d < 0 else 1)
            else:
                d = getattr(a, k) - getattr(b, k) + rng.choice([0, 0, 1, -1, 1000])
                v = d
            e = getattr(O.ExpectedDifference, k)
            opt = make(e, op, v)
            desc = (op, d)
            while rng.random() < 0.3:
                # further conditions on the same difference
                op2 = rng.choice(sorted(OPS))
                d2 = d + rng.choice([0, 1, -1, 5, -1000])
                if k in TIMES:
                    d2 = clip(d2)
                other = make(e, op2, TimeOffset(abs(d2) // gen.NS, abs(d2) % gen.NS, -1 if d2 < 0 else 1) if k in TIMES else d2)
                how = rng.choice(["and", "or"])
                if rng.random() < 0.5:
                    opt, desc = (opt & other if how == "and" else opt | other), (how, desc, (op2, d2))
                else:
                    opt, desc = (other & opt if how == "and" else other | opt), (how, (op2, d2), desc)
                ctx.count("combined")
                if rng.random() < 0.2:
                    mixed(ctx, rng, O, k, opt)
            out.append((("difference", k, desc), opt))
        elif rng.random() < 0.9 and a.grain_type == b.grain_type and a.grain_type in ("video", "audio") and getattr(a, "psnr", None):
            vals = a.psnr
            op = rng.choice(["lt", "le", "gt", "ge"])
            bound = [rng.choice([None, v if math.isinf(v) else v + rng.choice([-1, 1]), v - 1 if not math.isinf(v) else 1000.0, math.inf,
                                  0 if abs(v) > 1e-3 else -1]) for v in vals]
            p = O.PSNR.data
            opt = {"lt": lambda: p < bound, "le": lambda: p <= bound, "gt": lambda: p > bound, "ge": lambda: p >= bound}[op]()
            out.append((("psnr", op, bound), opt))
    return out


def make(e, op, v):
    return {"eq": lambda: e == v, "ne": lambda: e != v, "lt": lambda: e < v, "le": lambda: e <= v, "gt": lambda: e > v, "ge": lambda: e >= v}[op]()


def holds(desc, x):
    if desc[0] == "and":
        return holds(desc[1], x) and holds(desc[2], x)
    if desc[0] == "or":
        return holds(desc[1], x) or holds(desc[2], x)
    return OPS[desc[0]](x, desc[1])


def mixed(ctx, rng, O, k, opt):
    """only conditions on one attribute can be combined"""
    other = rng.choice([getattr(O.ExpectedDifference, "rate" if k != "rate" else "duration") == 1, getattr(O.Exclude, k), O.PSNR.data > [1], 5, None])
    for f in (lambda: opt & other, lambda: opt | other):
        ctx.raises((ValueError, TypeError), f, "combination of %r with %r" % (opt, other))


def clip(ns):
    """differences saturate at the range of timestamps"""
    top = 281474976710655999999999
    return max(-top, min(top, ns))


def diff(a, b, k):
    if k in TIMES:
        return clip(gen.ts_ns(getattr(a, k)) - gen.ts_ns(getattr(b, k)))
    return getattr(a, k) - getattr(b, k)


def reference(a, b, same, descs):
    """({attribute: verdict}, excluded set)"""
    v = dict(same)
    excluded = {d[1] for d in descs if d[0] == "exclude"}
    if "format" in excluded:   # (of grains of any type)
        excluded |= {"cog_frame_format", "cog_audio_format"}
    if not any(d[0] == "include" for d in descs) and not any(d[0] == "difference" and d[1] == "creation_timestamp" for d in descs):
        excluded.add("creation_timestamp")
    if a.grain_type != b.grain_type:
        excluded.add("data")
    for f in ("cog_frame_format", "cog_audio_format"):
        if same.get(f) is False:
            excluded.add("data")
    if a.grain_type == b.grain_type == "event" and excluded & {"event_type", "topic", "event_data"}:
        excluded.add("length")
    for k in v:
        ds = [d for d in descs if d[0] == "difference" and d[1] == k]
        if ds and (k in TIMES or isinstance(getattr(a, k), int) and isinstance(getattr(b, k), int)):
            v[k] = all(holds(d[2], diff(a, b, k)) for d in ds)
    ps = [d for d in descs if d[0] == "psnr"]
    if ps and "data" not in excluded:
        v["data"] = all(all(o is None or OPS[d[1]](x, o) for x, o in zip(a.psnr, d[2])) for d in ps)
    elif "data" in excluded:
        v["data"] = None
    return v, excluded


def pair(ctx, rng):
    """two grains; a.psnr is the PSNR between them where it is defined"""
    if rng.random() < 0.4:
        # the same format and size, so that PSNR is defined
        code = None
        if rng.random() < 0.5:
            f = rng.choice(c04.VIDEO)
            w, h = 2 * rng.randint(1, 5), 2 * rng.randint(1, 3)
            d = gen.r_desc(rng, "video")
            comps = gen.video_layout(f, w, h)
            x = c04.mask(f, bytearray(rng.randbytes(gen.video_size(f, w, h))))
            d.update(fmt=gen.FRAME[f], width=w, height=h, components=comps, data=bytes(x))
            size = n01.sample_bytes(f)
        else:
            f = rng.choice(gen.PCM)
            d = gen.r_desc(rng, "audio")
            d.update(fmt=gen.AUDIO[f], channels=rng.randint(1, 4), samples=rng.randint(1, 9))
            x = bytearray(rng.randbytes(gen.audio_size(f, d["channels"], d["samples"])))
            code = {"FLOAT": "f", "DOUBLE": "d"}.get(f.split("_")[0])
            if code:
                n = len(x) // struct.calcsize(code)
                x = bytearray(struct.pack("<%d%s" % (n, code), *[rng.uniform(-1, 1) for _ in range(n)]))
            d["data"] = bytes(x)
            size = gen.audio_sample_bytes(f)
        e = copy.deepcopy(d)
        y = bytearray(x)
        if rng.random() < 0.15 and not code:
            # as far apart as can be
            x = c04.mask(f, bytearray(len(x))) if d["type"] == "video" else bytearray(bytes(size - 1) + b"\x80") * (len(x) // size)
            y = c04.mask(f, bytearray(b"\xff" * len(x))) if d["type"] == "video" else bytearray(b"\xff" * (size - 1) + b"\x7f") * (len(x) // size)
            if d["type"] == "audio" and f == "S24_PLANES":
                x, y = bytearray(b"\0\0\x80\xff" * (len(x) // 4)), bytearray(b"\xff\xff\x7f\0" * (len(x) // 4))
            d["data"], e["data"] = bytes(x), bytes(y)
            ctx.count("far_apart")
        elif code:
            if rng.random() < 0.7:
                v = list(struct.unpack("<%d%s" % (n, code), y))
                for _ in range(rng.choice([1, 1, 3])):
                    v[rng.randrange(n)] = rng.choice([0.0, 1.0, -3.0, 1e6, rng.uniform(-1, 1), rng.uniform(-1, 1), math.nan])
                y = bytearray(struct.pack("<%d%s" % (n, code), *v))
                e["data"] = bytes(y)
                ctx.count("not_a_number", int(any(map(math.isnan, v))))
        elif rng.random() < 0.7:
            for _ in range(rng.choice([1, 1, 3])):
                i = rng.randrange(len(y) // size) * size
                y[i] ^= 1 << rng.randrange(8)
            e["data"] = bytes(y)
        if rng.random() < 0.4:
            k = rng.choice(["origin", "sync", "creation", "src", "layout" if d["type"] == "video" else "sample_rate"])
            e[k] = gen.r_desc(rng, d["type"])[k]
        a, b = c01.make(ctx, rng, d)[0], c01.make(ctx, rng, e)[0]
        if d["type"] == "video":
            a.psnr = psnrref.video(f, comps, x, comps, y)
        else:
            a.psnr = psnrref.audio(f, d["channels"], d["samples"], x, y)
        return a, b, ["psnr"]
    d = gen.r_desc(rng)
    e, what = c01.mutate(ctx, rng, d)
    if rng.random() < 0.4:
        e["creation"] = d["creation"]
    return c01.make(ctx, rng, d)[0], c01.make(ctx, rng, e)[0], what


def incomparable(ctx, rng):
    """a PSNR bound is not met where there is no PSNR"""
    from mediagrains.comparison import compare_grain, options as O
    f = rng.choice(c04.VIDEO + ["v210", "H264"] + gen.PCM)
    t = "audio" if f in gen.PCM else "video"
    d = gen.r_desc(rng, t)
    if t == "audio":
        d.update(fmt=gen.AUDIO[f], channels=2, samples=rng.randint(1, 9))
        e = dict(d, **{k: d[k] + 1 for k in rng.choice([["channels"], ["samples"]])})
        for x in (d, e):
            x["data"] = rng.randbytes(gen.audio_size(f, x["channels"], x["samples"]))
    else:
        d.update(fmt=gen.FRAME[f], width=8, height=4)
        e = dict(d, **{k: d[k] + 2 for k in (["width"], ["height"])[rng.randrange(2)]})
        if f in ("v210", "H264"):
            e = dict(d)
        for x in (d, e):
            x["components"] = gen.video_layout(f, x["width"], x["height"]) if f != "H264" else []
            x["data"] = rng.randbytes(gen.video_size(f, x["width"], x["height"]) if f != "H264" else 9)
    a, b = c01.make(ctx, rng, d)[0], c01.make(ctx, rng, e)[0]
    n = len(getattr(a, "components", [0, 0]))
    p = O.PSNR.data
    for opt in (p > [-1000.0] * n, p < [1000.0] * n, p >= [None] * n):
        r = compare_grain(a, b, opt)
        where = "%s: PSNR bound where no PSNR is defined" % f
        ctx.require(not r and not r.data and not r.data.excluded(), where + ": verdict", report=str(r)[-300:])
        ctx.require(bool(compare_grain(a, b, opt, O.Exclude.data, O.Exclude.length, O.Exclude.width, O.Exclude.height, O.Exclude.channels, O.Exclude.samples)), where + ": excluded")
        ctx.count("incomparable")


def case(ctx, rng, key, p):
    from mediagrains.comparison import compare_grain
    incomparable(ctx, rng)
    for _ in range(10):
        a, b, what = pair(ctx, rng)
        same = c01.expected(a, b)
        if None in same.values():
            continue
        plain = all(v for k, v in same.items() if k != "creation_timestamp")
        for _ in range(3 if what == ["psnr"] else 2):
            chosen = r_options(ctx, rng, a, b, same)
            descs, opts = [c[0] for c in chosen], [c[1] for c in chosen]
            where = "%s differing in %s, options %s" % (a.grain_type, [k for k in same if not same[k]], descs)
            v, excluded = reference(a, b, same, descs)
            want = all(x for k, x in v.items() if k not in excluded)
            reprs = [repr(o) for o in opts]
            from mediagrains.comparison import options as O
            for (kind, *k), o in (c[:2] for c in chosen):
                if kind == "include":
                    k = k[0]
                    ctx.equal((repr(o), o == getattr(O.Include, k), o == getattr(O.Exclude, k), o != getattr(O.Include, k), o != getattr(O.Exclude, k)), ("Include." + k, True, False, False, True), where + ": the option itself")
                elif kind == "exclude":
                    ctx.equal((o == getattr(O.Include, repr(o)[8:]), o == getattr(O.Exclude, repr(o)[8:]), repr(o)[:8]), (False, True, "Exclude."), where + ": the option itself")
            sa, sb = m03.snap(a), m03.snap(b)
            r = compare_grain(a, b, *opts)
            ctx.sample("%s -> %s" % (where, bool(r)))
            ctx.require(bool(r) is want, where + ": verdict", got=bool(r), want=want, report=str(r)[:1500])
            for k, x in v.items():
                child = getattr(r, k)
                ctx.require(child.excluded() is (k in excluded), "%s: whether %s is excluded" % (where, k), got=child.excluded())
                if x is not None:
                    ctx.require(bool(child) is x, "%s: result for %s" % (where, k), got=bool(child), want=x, message=child.msg)
            marks = [l.lstrip()[:1] for l in str(r).splitlines()]
            ctx.require(marks[0] == ("\u2705" if want else "\u274c") and isinstance(r.msg, str), where + ": report")
            for child in r.children:
                # the message tells the failures from what is ignored
                forms = ["(" + child.msg + ")", "<IGNORING: " + child.msg + ">"]
                ctx.equal([f in r.msg for f in forms], [not child and not child.excluded(), not child and child.excluded()], "%s: %s in the message" % (where, child.attr))
            ctx.require([repr(o) for o in opts] == reprs, where + ": options changed")
            ctx.require(m03.snap(a) == sa and m03.snap(b) == sb, where + ": grains changed")
            for order in itertools.islice(itertools.permutations(opts), 1, 4):
                ctx.require(bool(compare_grain(a, b, *order)) is want, where + ": verdict depends on the order of the options", order=order)
                ctx.count("orders")
            ctx.count("comparisons")
            ctx.count("matched_by_option", int(want and not plain))
            kinds = [d[0] for d in descs]
            ctx.count("excluded", kinds.count("exclude"))
            ctx.count("included", kinds.count("include"))
            ctx.count("expected_difference", kinds.count("difference"))
            ctx.count("on_integers", sum(d[0] == "difference" and d[1] not in TIMES for d in descs))
            ctx.count("psnr", kinds.count("psnr"))
            ctx.count("psnr_satisfied", int("psnr" in kinds and bool(v["data"]) and not same["data"]))
            ctx.saw(a.grain_type, tuple(sorted((d[0], str(d[1])) for d in descs)), tuple(sorted(set(what))), want)
