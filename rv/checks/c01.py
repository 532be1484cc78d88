"""C01: two grains compare equal exactly when the fields that take part are equal."""
import copy
import io
import re
import struct

from .. import gen
from . import m01, m03

ID = "C01"
LEVEL = "exploration"
RULE = ("Pairs of grains of every class and raw format (byte grains in every data form, numpy grains, grains read lazily) that are equal or differ in 0-3 chosen fields or in a "
        "single bit, sample, inserted or dropped octet of the data are compared without options in both directions; the verdict, the set of failing attributes, the "
        "verdict of every child, the failing entries of list fields and the first differing sample are judged against a direct comparison of the public attributes and bytes of the "
        "grains, which must come out unchanged; the report must show the differing values at their places; message and repr must be available for every result. Distinct = (types, formats, fields differing, forms).")
FLOORS = dict(pairs=5000, equal=1000, differing=3000, single_bit=420, list_entries=1000, types_differ=180, float_data=250, odd_length=90, first_sample=600, numpy_pairs=220, difference_lines=2000, large=60, huge=48, lookalikes=10)

COMMON = ["grain_type", "src_id", "flow_id", "rate", "duration", "length", "origin_timestamp", "sync_timestamp", "creation_timestamp", "timelabels"]
OWN = dict(empty=["data"], event=["event_type", "topic", "event_data"], audio=["cog_audio_format", "samples", "channels", "sample_rate", "data"],
           coded_audio=["cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder", "data"],
           video=["cog_frame_format", "width", "height", "cog_frame_layout", "data"],
           coded_video=["cog_frame_format", "coded_width", "coded_height", "origin_width", "origin_height", "is_key_frame", "temporal_offset", "cog_frame_layout",
                        "unit_offsets", "data"])
# description key -> attribute compared
ATTR = dict(src="src_id", flow="flow_id", origin="origin_timestamp", sync="sync_timestamp", creation="creation_timestamp", layout="cog_frame_layout")
SILENT = ["extension", "sar", "par", "components"]


def plan(ctx):
    n = ctx.n(700, 16000)
    return [("pairs-%d" % j, dict(kind="pairs")) for j in range(n)] + [("formats-%d" % j, dict(kind="formats")) for j in range(ctx.n(60, 1500))] + [
        ("huge-%d" % j, dict(kind="huge")) for j in range(ctx.n(24, 400))]


def wraps():
    import numpy as np
    from mediagrains.utils.iobytes import IOBytes
    return dict(bytes=bytes, bytearray=bytearray, view=memoryview, array=lambda b: np.frombuffer(b, dtype=np.uint8).copy(),
                lazy=lambda b: IOBytes(io.BytesIO(b"ab" + b + b"cd"), 2, len(b)), object=m01.Bytesish)


def make(ctx, rng, d):
    """(grain, form)"""
    form = rng.choice(["bytes", "bytes", "bytearray", "view", "array", "lazy", "object"])
    if d["type"] == "event" or d.get("data") is None:
        form = "none"
    g = gen.build(d, rng.choice(["class", "meta"]), wraps().get(form))
    if d["type"] in ("video", "audio") and d.get("numpy") and rng.random() < 0.5:
        from mediagrains import numpy as mnp
        g = (mnp.VideoGrain if d["type"] == "video" else mnp.AudioGrain)(grain=g)
        form = "numpy"
        ctx.count("numpy_pairs")
    return g, form


def mutate(ctx, rng, d):
    """a description that differs in at most a few fields; (description, what)"""
    e = copy.deepcopy(d)
    t = d["type"]
    what = []
    keys = [k for k in d if k not in ("type", "numpy", "name")]
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
        k = rng.choice(keys + (["data"] * 9 if d.get("data") else []) + [x for x in ("timelabels", "event_data", "unit_offsets") if d.get(x)] * 2)
        what.append(k)
        if k == "data":
            if not d["data"]:
                e["data"] = rng.choice([b"", b"x", b"abcd"])
                continue
            b = bytearray(d["data"])
            how = rng.choice(["bit", "bit", "bit", "sign", "byte", "drop", "insert", "tail", "shift", "random"])
            i = rng.choice([rng.randrange(len(b)), 0, len(b) - 1])
            if how == "bit":
                b[i] ^= 1 << rng.randrange(8)
                ctx.count("single_bit")
            elif how == "sign":
                # two samples that differ in the sign alone, one of them nothing else
                w = rng.choice([1, 2, 3, 4, 8])
                i -= i % w
                b[i:i + w] = bytes(len(b[i:i + w]))
                e["data"] = bytes(b)
                d["data"] = e["data"]
                b[min(i + w, len(b)) - 1] = 0x80
            elif how == "byte":
                b[i] = rng.randrange(256)
            elif how == "drop":
                del b[i]
            elif how == "insert":
                b.insert(i, b[i])
            elif how == "tail":
                b = b[:rng.randrange(len(b))] if rng.random() < 0.5 else b + rng.randbytes(rng.randint(1, 8))
            elif how == "shift":
                b = b[1:] + b[:1]
            else:
                b = bytearray(rng.randbytes(len(b)))
            e["data"] = bytes(b)
        elif k in ("origin", "sync", "creation") and rng.random() < 0.6:
            e[k] = max(-(1 << 47), d[k] + rng.choice([1, -1, 1000000000, -1000000000]))
        elif k in ("timelabels", "unit_offsets", "event_data") and e[k]:
            lst = list(e[k])
            how = rng.choice(["drop", "repeat", "edit", "edit", "edit", "swap"])
            i = rng.randrange(len(lst))
            if how == "drop":
                del lst[i]
            elif how == "repeat":
                lst.insert(i, copy.deepcopy(lst[i]))
            elif how == "swap":
                j = rng.randrange(len(lst))
                lst[i], lst[j] = lst[j], lst[i]
            elif k == "unit_offsets":
                lst[i] = (lst[i] + rng.choice([1, -1, 256])) % (1 << 32)
            elif k == "timelabels":
                x = list(lst[i])
                f = rng.randrange(4)
                x[f] = [x[0] + "x" if len(x[0].encode()) < 16 else "", x[1] ^ 1, x[2] + 1, not x[3]][f]
                lst[i] = tuple(x)
            else:
                f = rng.choice(["path", "pre", "post"])
                lst[i] = dict(lst[i])
                if f != "path" and f in lst[i] and rng.random() < 0.3:
                    del lst[i][f]
                else:
                    had, old = f in lst[i], lst[i].get(f)
                    lst[i][f] = gen.r_str(rng) if f == "path" else gen.r_json(rng)
                    if f != "path" and had and not isinstance(old, str) and rng.random() < 0.7:
                        lst[i][f] = str(old)        # not the same as the value it looks like
                        ctx.count("lookalikes")
            e[k] = lst
        elif isinstance(d[k], bool):
            e[k] = not d[k]
        elif isinstance(d[k], int) and k not in ("fmt", "layout") and rng.random() < 0.6:
            e[k] = max(0, d[k] + rng.choice([1, -1])) if k != "temporal_offset" else d[k] + rng.choice([1, -1])
        else:
            e[k] = gen.r_desc(rng, t)[k]
    return e, what


def floats(a):
    return a.cog_audio_format.name.split("_")[0] in ("FLOAT", "DOUBLE") and a.grain_type == "audio"


def word(g):
    """size of the samples that data is compared in"""
    t = g.grain_type
    if t == "audio":
        n = g.cog_audio_format.name.split("_")[0]
        return {"S16": 2, "S24": 3, "S32": 4, "FLOAT": 4, "DOUBLE": 8, "S64": 8}.get(n, 1)
    if t == "video":
        n = g.cog_frame_format.name
        if n in gen.PLANAR:
            return gen.planar_info(n)[1]
        if n in gen.ALPHA:
            return {"U8": 1, "S16": 2, "S32": 4}[n.split("_")[1]]
        return {"v210": 4, "v216": 2}.get(n, 1)
    return 1


def expected(a, b):
    """{attribute: equal?}, None for equal or not"""
    same = {k: getattr(a, k) == getattr(b, k) for k in COMMON if k != "timelabels"}
    same["timelabels"] = [(x.tag, x.count, x.rate, x.drop_frame) for x in a.timelabels] == [(x.tag, x.count, x.rate, x.drop_frame) for x in b.timelabels]
    if a.grain_type != b.grain_type:
        same["data"] = False
        return same
    for k in OWN[a.grain_type]:
        if k == "event_data":
            same[k] = [dict(e) for e in a.event_data] == [dict(e) for e in b.event_data]
        elif k == "unit_offsets":
            same[k] = list(a.unit_offsets) == list(b.unit_offsets)
        elif k == "data":
            x, y = gen.data_bytes(a.data), gen.data_bytes(b.data)
            same[k] = x == y and (a.data is None) == (b.data is None)
            fmt = "cog_frame_format" if hasattr(a, "cog_frame_format") else "cog_audio_format"
            if hasattr(a, fmt) and getattr(a, fmt) != getattr(b, fmt):
                same[k] = False
            elif not same[k] and a.grain_type == "audio" and floats(a) and len(x) == len(y) and len(x) % word(a) == 0:
                code = "<%d%s" % (len(x) // word(a), "f" if word(a) == 4 else "d")
                if struct.unpack(code, x) == struct.unpack(code, y):
                    same[k] = None      # 0.0 and -0.0
        else:
            same[k] = getattr(a, k) == getattr(b, k)
    return same


def judge(ctx, a, b, where, compare=None, creation=False):
    from mediagrains.comparison import compare_grain
    same = expected(a, b)
    sa, sb = m03.snap(a), m03.snap(b)
    r = compare_grain(a, b)
    back = compare_grain(b, a)
    if None in same.values():
        return r
    verdict = all(v for k, v in same.items() if k != "creation_timestamp")
    ctx.require(bool(r) is verdict, "%s: verdict" % where, got=bool(r), differing=[k for k in same if not same[k]], report=str(r)[:800])
    ctx.require(bool(back) is verdict, "%s: verdict depends on the order" % where, differing=[k for k in same if not same[k]])
    for k in sa:
        ctx.require(m03.snap(a).get(k) == sa[k] and m03.snap(b).get(k) == sb.get(k), "%s: comparison changed the grains" % where, what=k)
    for x in (r, back):
        ctx.equal(sorted(set(x.failing_attributes())), sorted(k for k in same if not same[k]), where + ": failing attributes")
        for k, v in same.items():
            child = getattr(x, k)
            ctx.require(bool(child) is v and child.attr == k, "%s: result for %s" % (where, k), got=bool(child), want=v)
            ctx.require(child.excluded() is (k == "creation_timestamp" or k == "data" and not v and (not same["grain_type"] or not same.get("cog_frame_format", True)
                        or not same.get("cog_audio_format", True))), "%s: %s excluded" % (where, k), got=child.excluded())
        s = str(x)
        marks = [l.lstrip()[:1] for l in s.splitlines()]
        ctx.require(marks[0] == ("\u2705" if verdict else "\u274c"), where + ": first line of the report", got=s[:200])
        ctx.require(("\u274c" in marks) is (not verdict), where + ": lines of the report marked as failing", report=s[:1500])
        todo = [x]
        while todo:
            c = todo.pop()
            todo += c.children
            if not c.children:
                ctx.require(c.msg in s, where + ": a message is missing from the report", message=c.msg[:200], report=s[:1500])
        ctx.require(isinstance(x.msg, str) and x.msg and isinstance(repr(x), str), where + ": message or repr of the result")
    entries(ctx, r, a, b, same, where)
    sample(ctx, r, a, b, same, where)
    differences(ctx, r, a, b, same, where)
    return r


def entries(ctx, r, a, b, same, where):
    """failing entries of the list fields"""
    lists = [("timelabels", [(x.tag, (x.count, x.rate, x.drop_frame)) for x in a.timelabels], [(x.tag, (x.count, x.rate, x.drop_frame)) for x in b.timelabels])]
    if a.grain_type == b.grain_type == "event":
        lists.append(("event_data", [dict(e) for e in a.event_data], [dict(e) for e in b.event_data]))
    if a.grain_type == b.grain_type == "coded_video":
        lists.append(("unit_offsets", list(a.unit_offsets), list(b.unit_offsets)))
    for k, x, y in lists:
        want = [i for i in range(max(len(x), len(y))) if i >= len(x) or i >= len(y) or x[i] != y[i]]
        got = getattr(r, k).failing_keys()
        ctx.equal(got, want, "%s: failing entries of %s" % (where, k))
        for i in range(min(len(x), len(y))):
            ctx.require(bool(getattr(r, k)[i]) is (x[i] == y[i]), "%s: result for %s[%d]" % (where, k, i))
            if k == "event_data":
                bad = sorted(f for f in set(x[i]) | set(y[i]) if f not in x[i] or f not in y[i] or x[i][f] != y[i][f])
                ctx.equal(sorted(getattr(r, k)[i].failing_keys()), bad, "%s: failing keys of %s[%d]" % (where, k, i))
            elif k == "timelabels":
                bad = [f for n, f in enumerate(("tag", "timelabel")) if x[i][n] != y[i][n]]
                ctx.equal(sorted(getattr(r, k)[i].failing_keys()), bad, "%s: failing keys of %s[%d]" % (where, k, i))
        ctx.count("list_entries", len(want))


MSG = re.compile(r"first different values are a\.data\[(\d+)\] == (\S+) and b\.data\[(\d+)\] == (\S+)$")


def sample(ctx, r, a, b, same, where):
    """the first differing sample named in the message"""
    if same.get("data", True) or r.data.excluded() or a.data is None or b.data is None:
        return
    m = MSG.search(r.data.msg)
    if not m:
        return
    x, y, w = gen.data_bytes(a.data), gen.data_bytes(b.data), word(a)
    if len(x) % w or len(y) % w or a.grain_type == "audio" and floats(a):
        return
    i = next(n for n in range(min(len(x), len(y)) // w) if x[n * w:n * w + w] != y[n * w:n * w + w])
    signed = a.grain_type == "audio" and w > 1
    want = tuple(int.from_bytes(v[i * w:i * w + w], "little", signed=signed) for v in (x, y))
    ctx.equal((int(m.group(1)), int(m.group(3)), int(m.group(2)), int(m.group(4))), (i, i) + want, where + ": first differing sample in the message")
    ctx.count("first_sample")


OPLINE = re.compile(r"^\s*(equal|replace|delete|insert) +a\[(\d+):(\d+)\] --> b\[(\d+):(\d+)\] +\((.*)\) --> \((.*)\)$", re.M)


def samples(g, *others):
    """the values data is compared as"""
    x, w = gen.data_bytes(g.data), word(g)
    if any(len(gen.data_bytes(o.data)) % w for o in (g,) + others):
        w = 1
    if w > 1 and g.grain_type == "audio" and floats(g):
        return struct.unpack("<%d%s" % (len(x) // w, "f" if w == 4 else "d"), x)
    return tuple(int.from_bytes(x[i:i + w], "little", signed=g.grain_type == "audio" and w > 1) for i in range(0, len(x), w))


def differences(ctx, r, a, b, same, where):
    """the lines of the report that describe differing data"""
    if same.get("data", True) or r.data.excluded() or a.data is None or b.data is None:
        return
    x, y = samples(a, b), samples(b, a)
    at = (0, 0)
    for tag, i1, i2, j1, j2, va, vb in OPLINE.findall(str(r.data)):
        i1, i2, j1, j2 = int(i1), int(i2), int(j1), int(j2)
        ctx.require((i1, j1) == at and (tag != "equal" or x[i1:i2] == y[j1:j2]), where + ": differences in the report", report=str(r.data)[:800])
        ctx.equal((va, vb), tuple(", ".join(str(v) for v in s) for s in (x[i1:i2], y[j1:j2])), "%s: values of a %s in the report" % (where, tag))
        at = i2, j2
        ctx.count("difference_lines")


def repetitive(rng):
    """data of few distinct samples, runs and repeated lines"""
    unit = bytes(rng.choice(b"\x00\x10\x80\xff") for _ in range(rng.choice([1, 4, 8, 64])))
    few = [unit, bytes(len(unit)), unit[::-1]]

    def make(n):
        out = b""
        while len(out) < n:
            out += rng.choice(few) * rng.choice([1, 3, 50])
        return out[:n]
    return make


def case(ctx, rng, key, p):
    if p["kind"] == "formats":
        for f in rng.sample(gen.PLANAR + gen.PACKED + ["AYUV"], 6):
            d = gen.r_desc(rng, "video")
            w, h = 2 * rng.randint(1, 6), 2 * rng.randint(1, 3)
            big = rng.random() < 0.4
            if big:
                w, h = 2 * rng.randint(10, 30), 2 * rng.randint(5, 12)
                ctx.count("large")
            n = gen.video_size(f, w, h)
            d.update(fmt=gen.FRAME[f], width=w, height=h, components=gen.video_layout(f, w, h), data=(rng.randbytes if rng.random() < 0.5 else repetitive(rng))(n), numpy=True)
            run(ctx, rng, d, f)
        for f in rng.sample(gen.PCM, 6):
            d = gen.r_desc(rng, "audio")
            d.update(fmt=gen.AUDIO[f], channels=rng.randint(1, 5), samples=rng.randint(1, 20))
            n = gen.audio_size(f, d["channels"], d["samples"])
            d["data"] = rng.randbytes(n) if rng.random() < 0.7 else (b"\0\0\xc0\x7f" * n)[:n]
            d["numpy"] = n > 0
            run(ctx, rng, d, f)
        return
    if p["kind"] == "huge":
        for _ in range(2):
            huge(ctx, rng)
        return
    for _ in range(10):
        run(ctx, rng, gen.r_desc(rng))


def huge(ctx, rng):
    """a single difference anywhere in the data of a full-size grain"""
    from mediagrains.comparison import compare_grain
    d = gen.r_desc(rng, rng.choice(["video", "audio", "coded_video", "coded_audio", "empty"]))
    n = rng.choice([4096, 65536, 1 << 17, 100000, 300000]) + rng.choice([-24, 0, 24, 480])
    if d["type"] == "audio":
        d["fmt"] = gen.AUDIO[rng.choice([f for f in gen.PCM if not f.startswith(("FLOAT", "DOUBLE"))])]
    # of few distinct samples, or finding what the data has in common would take minutes
    units = [rng.randbytes(8) * 3 for _ in range(3)] + [bytes(24)]
    b = b"".join(rng.choices(units, k=n // 24 + 1))[:n]
    how = rng.choice(["none", "bit", "bit", "bit", "bit", "short", "long"])
    c = bytearray(b)
    if how == "bit":
        c[rng.choice([n - 1, rng.randrange(n), rng.randrange(n), rng.randrange(max(n - 70000, 0), n)])] ^= 1 << rng.randrange(8)
    c = c[:-1] if how == "short" else c + b"\0" if how == "long" else c
    x, y = gen.build(dict(d, data=b), "class"), gen.build(dict(d, data=bytes(c)), "class")
    where = "%s %s with %d octets of data, %s" % (d["type"], d.get("fmt", ""), n, how)
    for p, q in ((x, y), (y, x)):
        r = compare_grain(p, q)
        ctx.require(bool(r) is (how == "none"), where + ": verdict")
        want = [] if how == "none" else ["data"] + (["length"] if how in ("short", "long") else [])
        ctx.equal(sorted(set(r.failing_attributes()) - {"creation_timestamp"}), want, where + ": failing attributes")
    ctx.count("huge")
    ctx.saw("huge", d["type"], how, n)


def run(ctx, rng, d, name=None):
    if rng.random() < 0.06:
        e, what = gen.r_desc(rng), ["everything"]
        if rng.random() < 0.5:
            for k in ("src", "flow", "origin", "sync", "rate", "duration", "timelabels"):
                e[k] = d[k]
        d = dict(d, numpy=False)
        ctx.count("types_differ", int(e["type"] != d["type"]))
    else:
        e, what = mutate(ctx, rng, d)
        if d.get("numpy"):
            # numpy grains need data of the size of their format
            ok = len(e["data"]) == len(d["data"]) and all(e.get(k) == d.get(k) for k in ("fmt", "width", "height", "components", "samples", "channels"))
            d, e = dict(d, numpy=ok), dict(e, numpy=ok)
    (a, fa), (b, fb) = make(ctx, rng, d), make(ctx, rng, e)
    where = "%s %s (%s/%s) differing in %s" % (d["type"], name or d.get("fmt", ""), fa, fb, what)
    r = judge(ctx, a, b, where)
    ctx.require(bool(judge(ctx, a, a, where + ", with itself")), where + ": grain differs from itself")
    ctx.count("pairs")
    ctx.count("equal" if r else "differing")
    if d["type"] == "audio" and floats(a):
        ctx.count("float_data")
    if a.data is not None and d["type"] != "event" and len(gen.data_bytes(a.data)) % word(a):
        ctx.count("odd_length")
    ctx.saw(d["type"], e["type"], d.get("fmt"), tuple(sorted(set(what))), bool(r), fa, fb)
