"""A second GSF codec, written from gsf_docs/gsf.md and gsf_docs/ssb.md only.

parse()  strict parser: every byte of a file must be accounted for; raises SpecError otherwise.
write()  conformant writer with knobs (versions, unknown and fill blocks, extra properties, ordering).
Grains are the plain descriptions of rv.gen (without "creation", which GSF does not carry).
"""
import json
import struct
from fractions import Fraction
from uuid import UUID

from . import gen

NS = gen.NS


class SpecError(Exception):
    pass


# ================================================================ reader
class Rd:
    def __init__(self, b, pos, end):
        self.b, self.pos, self.end = b, pos, end

    def left(self):
        return self.end - self.pos

    def take(self, n):
        if n < 0 or self.pos + n > self.end:
            raise SpecError("field of %d octets at %d runs past the end of its block (%d)" % (n, self.pos, self.end))
        r = self.b[self.pos:self.pos + n]
        self.pos += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def s(self, n):
        return int.from_bytes(self.take(n), "little", signed=True)

    def uuid(self):
        return UUID(bytes=bytes(self.take(16)))

    def rational(self):
        n, d = self.u(4), self.u(4)
        return Fraction(0) if n == 0 or d == 0 else Fraction(n, d)

    def fixstr(self, n):
        raw = bytes(self.take(n)).split(b"\0", 1)[0]
        try:
            return raw.decode("utf-8")
        except UnicodeDecodeError:
            raise SpecError("string at %d is not UTF-8" % (self.pos - n))

    def boolean(self):
        v = self.u(1)
        if v not in (0, 1):
            raise SpecError("boolean %d at %d" % (v, self.pos - 1))
        return bool(v)

    def ts(self, major):
        if major == 7:
            return self.nosign()
        neg = not self.boolean()
        v = self.nosign()
        return -v if neg else v

    def nosign(self):
        sec, ns = self.u(6), self.u(4)
        if ns >= NS:
            raise SpecError("nanoseconds %d out of range" % ns)
        return sec * NS + ns

    def block(self):
        """-> tag, Rd over the payload"""
        start = self.pos
        tag = bytes(self.take(4))
        size = self.u(4)
        if size < 8:
            raise SpecError("block %r at %d has size %d" % (tag, start, size))
        if start + size > self.end:
            raise SpecError("block %r at %d (size %d) runs past its parent's end %d" % (tag, start, size, self.end))
        r = Rd(self.b, self.pos, start + size)
        self.pos = start + size
        return tag, r

    def done(self, what):
        if self.pos != self.end:
            raise SpecError("%d octets left over in %s" % (self.end - self.pos, what))


def _tag(r):
    k = r.fixstr(r.u(2))
    v = r.fixstr(r.u(2))
    r.done("tag")
    return (k, v)


def _parse_head(r):
    h = dict(id=r.uuid(), created=(r.s(2), r.u(1), r.u(1), r.u(1), r.u(1), r.u(1)), segments=[], tags=[])
    while r.left():
        t, c = r.block()
        if t == b"segm":
            pos_count = c.pos + 18
            s = dict(local_id=c.u(2), id=c.uuid(), count=c.s(8), tags=[], count_pos=pos_count)
            while c.left():
                t2, c2 = c.block()
                if t2 == b"tag ":
                    s["tags"].append(_tag(c2))
                elif t2 == b"flow":
                    if "flow" in s:
                        raise SpecError("two flow blocks in a segment")
                    s["flow"] = dict(source_id=c2.uuid(), flow_id=c2.uuid(), format=c2.fixstr(64),
                                     data=bytes(c2.take(c2.u(4))).decode("utf-8"))
                    c2.done("flow")
                else:
                    raise SpecError("unexpected %r in segm" % t2)
            h["segments"].append(s)
        elif t == b"tag ":
            h["tags"].append(_tag(c))
        else:
            raise SpecError("unexpected %r in head" % t)
    ids = [s["local_id"] for s in h["segments"]]
    if len(set(ids)) != len(ids):
        raise SpecError("segment local ids not unique: %r" % ids)
    return h


TYPEBLOCK = {b"vghd": "video", b"cghd": "coded_video", b"aghd": "audio", b"cahd": "coded_audio", b"eghd": "event"}


def _parse_gbhd(r, major):
    d = dict(type="empty", timelabels=[])
    d["src"], d["flow"] = r.uuid(), r.uuid()
    if major == 7:
        r.take(16)
    d["origin"], d["sync"] = r.ts(major), r.ts(major)
    d["rate"], d["duration"] = r.rational(), r.rational()
    seen = set()
    while r.left():
        t, c = r.block()
        if t in seen:
            raise SpecError("two %r blocks in gbhd" % t)
        seen.add(t)
        if t == b"tils":
            for _ in range(c.u(2)):
                d["timelabels"].append((c.fixstr(16), c.u(4), c.rational(), c.boolean()))
            if not d["timelabels"]:
                raise SpecError("tils block without labels")
            c.done("tils")
        elif t in TYPEBLOCK:
            if d["type"] != "empty":
                raise SpecError("two grain type blocks in gbhd")
            d["type"] = TYPEBLOCK[t]
            if t == b"vghd":
                for k in ("fmt", "layout", "width", "height", "extension"):
                    d[k] = c.u(4)
                d["sar"] = c.rational() or None
                d["par"] = c.rational() or None
                d["components"] = []
                if c.left():
                    t2, c2 = c.block()
                    if t2 != b"comp":
                        raise SpecError("unexpected %r in vghd" % t2)
                    off = 0
                    for _ in range(c2.u(2)):
                        w, h, st, ln = c2.u(4), c2.u(4), c2.u(4), c2.u(4)
                        d["components"].append((w, h, st, off, ln))
                        off += ln
                    c2.done("comp")
            elif t == b"cghd":
                for k in ("fmt", "layout", "origin_width", "origin_height", "coded_width", "coded_height"):
                    d[k] = c.u(4)
                kf, to = c.u(1), c.s(4)
                if major < 9:
                    if kf > 1:
                        raise SpecError("key frame flag %d in version %d" % (kf, major))
                    d["is_key_frame"], d["temporal_offset"] = bool(kf), to
                else:
                    d["is_key_frame"] = None if kf >= 2 else bool(kf)
                    d["temporal_offset"] = None if to == 0x7fffffff else to
                d["unit_offsets"] = []
                if c.left():
                    t2, c2 = c.block()
                    if t2 != b"unof":
                        raise SpecError("unexpected %r in cghd" % t2)
                    d["unit_offsets"] = [c2.u(4) for _ in range(c2.u(2))]
                    c2.done("unof")
            elif t == b"aghd":
                d["fmt"], d["channels"], d["samples"], d["sample_rate"] = c.u(4), c.u(2), c.u(4), c.u(4)
            elif t == b"cahd":
                d["fmt"], d["channels"] = c.u(4), c.u(2)
                for k in ("samples", "priming", "remainder", "sample_rate"):
                    d[k] = c.u(4)
            elif t == b"eghd":
                c.u(1)
            c.done(t.decode())
        else:
            raise SpecError("unexpected %r in gbhd" % t)
    return d


def parse(b, concat=False):
    """Strict parse -> list of files (one unless concat)."""
    b = bytes(b)
    files = []
    r = Rd(b, 0, len(b))
    while r.left():
        if bytes(r.take(4)) != b"SSBB":
            raise SpecError("no SSBB signature at %d" % (r.pos - 4))
        if bytes(r.take(4)) != b"grsg":
            raise SpecError("file type is not grsg")
        f = dict(major=r.u(2), minor=r.u(2), grains=[], grain_spans=[], terminator=False)
        if f["major"] not in (7, 8, 9):
            raise SpecError("version %d" % f["major"])
        t, c = r.block()
        if t != b"head":
            raise SpecError("first block is %r" % t)
        f["head"] = _parse_head(c)
        f["head_end"] = r.pos
        while r.left():
            start = r.pos
            if b[r.pos:r.pos + 8] == b"grai\0\0\0\0":
                r.take(8)
                f["terminator"] = True
                break
            t, c = r.block()
            if t != b"grai":
                raise SpecError("unexpected top level block %r at %d" % (t, start))
            lid = c.u(2)
            t1, c1 = c.block()
            if t1 != b"gbhd":
                raise SpecError("grai does not start with gbhd")
            d = _parse_gbhd(c1, f["major"])
            t2, c2 = c.block()
            if t2 != b"grdt":
                raise SpecError("gbhd not followed by grdt but %r" % t2)
            data = bytes(c2.take(c2.left()))
            c.done("grai")
            if d["type"] == "event":
                p = json.loads(data.decode("utf-8"))
                if set(p) != {"type", "topic", "data"}:
                    raise SpecError("event payload keys %r" % sorted(p))
                d["event_type"], d["topic"], d["event_data"] = p["type"], p["topic"], p["data"]
                for e in p["data"]:
                    if not set(e) <= {"path", "pre", "post"} or "path" not in e:
                        raise SpecError("event datum keys %r" % sorted(e))
            else:
                d["data"] = data
            f["grains"].append((lid, d))
            f["grain_spans"].append((start, r.pos))
        files.append(f)
        if not concat and r.left():
            raise SpecError("%d octets after the terminator" % r.left())
    return files


# ================================================================ writer
def u(v, n):
    return int(v).to_bytes(n, "little")


def s(v, n):
    return int(v).to_bytes(n, "little", signed=True)


def rat(fr, k=None):
    """a rational; an unusual writer needn't reduce it, and a null has a zero in either place"""
    n, d = (0, 1) if fr is None else (fr.numerator, fr.denominator)
    if k is not None and k.on(0.5):
        if n == 0:
            x = k.rng.choice([0, 1, 25, 0xffffffff, k.rng.getrandbits(32)])
            n, d = k.rng.choice([(0, x), (x, 0)])
        else:
            m = k.rng.choice([2, 3, 1000, 0xffffffff // max(n, d)])
            if max(n, d) * m <= 0xffffffff:
                n, d = n * m, d * m
    return u(n, 4) + u(d, 4)


def fixstr(x, n, junk=b""):
    raw = x.encode()
    assert len(raw) <= n
    if len(raw) < n:
        raw = raw + (b"\0" + junk + bytes(n))[:n - len(raw)]
    return raw


def blk(tag, payload):
    assert len(tag) == 4
    return tag + u(len(payload) + 8, 4) + payload


def tagblk(kv, kn):
    k, v = [x.encode() + (b"\0" + kn.strjunk() if kn.on(0.3) else b"") for x in kv]
    return blk(b"tag ", u(len(k), 2) + k + u(len(v), 2) + v + kn.extra())


class Knobs:
    """Where a conformant but unusual writer puts unusual things."""

    def __init__(self, rng=None, level=0.0, bare=False):
        self.rng, self.level, self.bare = rng, level, bare

    def on(self, p=1.0):
        return self.rng is not None and self.rng.random() < self.level * p

    def junk(self):
        """blocks any reader must skip"""
        out = b""
        while self.on(0.5):
            tag = self.rng.choice([b"fill", b"xxxx", b"zz42", b"\xc3\xa9ab", b"Grai", b"junk"])
            payload = gen.rbytes(self.rng, self.rng.choice([0, 1, 7, 8, 9, 40]))
            if self.rng.random() < 0.2:
                payload = b"grai" + u(0, 4) + payload      # looks like a terminator, but is inside an unknown block
            out += blk(tag, payload)
        return out

    def extra(self):
        """properties a newer minor version could append to a block without children"""
        return gen.rbytes(self.rng, self.rng.choice([1, 3, 8, 12])) if self.on(0.3) else b""

    def strjunk(self):
        """whatever bytes follow the terminator of a string"""
        return gen.rbytes(self.rng, self.rng.choice([1, 2, 20])) if self.on(0.4) else b""

    def shuffled(self, parts):
        if self.on(0.7):
            parts = list(parts)
            self.rng.shuffle(parts)
        return parts


def true_octet(k):
    """Readers must treat a non-0 as true"""
    return u(k.rng.randint(1, 255) if k.on(0.5) else 1, 1)


def ts_bytes(ns, major, k):
    body = u(abs(ns) // NS, 6) + u(abs(ns) % NS, 4)
    return body if major == 7 else (u(0, 1) if ns < 0 else true_octet(k)) + body


def gbhd(d, major, k):
    body = d["src"].bytes + d["flow"].bytes
    if major == 7:
        body += gen.rbytes(k.rng, 16) if k.on() else bytes(16)
    body += ts_bytes(d["origin"], major, k) + ts_bytes(d["sync"], major, k) + rat(d["rate"], k) + rat(d["duration"], k)
    parts = []
    if d["timelabels"]:
        parts.append(blk(b"tils", u(len(d["timelabels"]), 2) + b"".join(
            fixstr(t[0], 16, k.strjunk()) + u(t[1], 4) + rat(t[2], k) + u(k.rng.randint(1, 255) if t[3] and k.on() else int(t[3]), 1)
            for t in d["timelabels"]) + k.extra()))
    t = d["type"]
    if t == "video":
        p = b"".join(u(d[x], 4) for x in ("fmt", "layout", "width", "height", "extension")) + rat(d["sar"], k) + rat(d["par"], k)
        p += k.junk()
        if d["components"] or k.on():
            p += blk(b"comp", u(len(d["components"]), 2) + b"".join(
                u(c[0], 4) + u(c[1], 4) + u(c[2], 4) + u(c[4], 4) for c in d["components"]) + k.extra())
        p += k.junk()
        parts.append(blk(b"vghd", p))
    elif t == "coded_video":
        p = b"".join(u(d[x], 4) for x in ("fmt", "layout", "origin_width", "origin_height", "coded_width", "coded_height"))
        kf = d["is_key_frame"]
        if major >= 9:
            p += u((k.rng.choice([2, 3, 255]) if k.on() else 2) if kf is None else int(kf), 1)
            p += s(0x7fffffff if d["temporal_offset"] is None else d["temporal_offset"], 4)
        else:
            p += (true_octet(k) if kf else u(0, 1)) + s(d["temporal_offset"], 4)
        p += k.junk()
        if d["unit_offsets"]:
            p += blk(b"unof", u(len(d["unit_offsets"]), 2) + b"".join(u(x, 4) for x in d["unit_offsets"]) + k.extra())
        p += k.junk()
        parts.append(blk(b"cghd", p))
    elif t == "audio":
        parts.append(blk(b"aghd", u(d["fmt"], 4) + u(d["channels"], 2) + u(d["samples"], 4) + u(d["sample_rate"], 4) + k.extra()))
    elif t == "coded_audio":
        parts.append(blk(b"cahd", u(d["fmt"], 4) + u(d["channels"], 2) + b"".join(
            u(d[x], 4) for x in ("samples", "priming", "remainder", "sample_rate")) + k.extra()))
    elif t == "event":
        parts.append(blk(b"eghd", u(0, 1) + k.extra()))
    parts = k.shuffled(parts)
    return blk(b"gbhd", body + b"".join(k.junk() + p for p in parts) + k.junk())


def grain_data(d, k=None):
    if d["type"] == "event":
        return json.dumps(gen.event_payload(d)).encode()
    return gen.data_bytes(d.get("data"))


def grai(lid, d, major=9, k=None):
    return grai2(lid, d, major, k)[0]


def grai2(lid, d, major=9, k=None):
    """-> block, length up to the end of the grain's data (what may follow it are blocks to be skipped)"""
    k = k or Knobs()
    data = grain_data(d)
    if k.bare and not data:
        # not conformant, but what readers have to make do with when there is no data
        body = u(lid, 2) + gbhd(d, major, k)
        return blk(b"grai", body), 8 + len(body)
    body = u(lid, 2) + gbhd(d, major, k) + k.junk() + blk(b"grdt", data)
    return blk(b"grai", body + k.junk()), 8 + len(body)


TERM = b"grai" + u(0, 4)


def head(h, k=None):
    k = k or Knobs()
    y, mo, dd, hh, mi, ss = h["created"] or (0,) * 6
    p = h["id"].bytes + s(y, 2) + u(mo, 1) + u(dd, 1) + u(hh, 1) + u(mi, 1) + u(ss, 1)
    parts = []
    for sg in h["segments"]:
        sub = []
        if sg.get("flow"):
            f = sg["flow"]
            raw = f["data"].encode()
            sub.append(blk(b"flow", f["source_id"].bytes + f["flow_id"].bytes + fixstr(f["format"], 64, k.strjunk()) + u(len(raw), 4) + raw + k.extra()))
        subtags = [tagblk(t, k) for t in sg["tags"]]
        if sub and k.on():
            subtags.insert(k.rng.randint(0, len(subtags)), sub[0])
        else:
            subtags = sub + subtags
        parts.append((0, blk(b"segm", u(sg["local_id"], 2) + sg["id"].bytes + s(sg["count"], 8) +
                             b"".join(k.junk() + x for x in subtags) + k.junk())))
    for t in h["tags"]:
        parts.append((1, tagblk(t, k)))
    if k.on():
        # interleave tags and segments, keeping the order within each kind
        kinds = [p_[0] for p_ in parts]
        k.rng.shuffle(kinds)
        qs = {0: [p_ for p_ in parts if p_[0] == 0], 1: [p_ for p_ in parts if p_[0] == 1]}
        parts = [qs[kk].pop(0) for kk in kinds]
    p += b"".join(k.junk() + x[1] for x in parts) + k.junk()
    return blk(b"head", p)


def file_bytes(f, k=None, terminator=True, marks=None):
    """f = dict(major, minor, head, grains=[(local_id, desc)]); marks: list that receives the end of each grain's data"""
    k = k or Knobs()
    out = b"SSBBgrsg" + u(f["major"], 2) + u(f["minor"], 2)
    out += k.junk() + head(f["head"], k)
    for lid, d in f["grains"]:
        out += k.junk()
        b, n = grai2(lid, d, f["major"], k)
        if marks is not None:
            marks.append(len(out) + n)
        out += b
    out += k.junk()
    if terminator:
        out += TERM
    return out


def r_tags(rng, n):
    """Tags need not be unique, nor their keys."""
    out = [(gen.r_str(rng), gen.r_str(rng)) for _ in range(n)]
    if out and rng.random() < 0.3:
        k, v = rng.choice(out)
        out.insert(rng.randint(0, len(out)), rng.choice([(k, v), (k, gen.r_str(rng)), (gen.r_str(rng), v)]))
    return out


def random_file(rng, major=None, ngrains=None, nsegs=None, types=None):
    major = major or rng.choice([7, 8, 9])
    nsegs = rng.choice([1, 1, 2, 3]) if nsegs is None else nsegs
    lids = rng.sample([0, 1, 2, 3, 4, 7, 100, 65534, 65535], nsegs)
    n = rng.choice([0, 1, 2, 3, 5]) if ngrains is None else ngrains
    grains = []
    for _ in range(n if lids else 0):
        t = rng.choice(types) if types else None
        d = gen.r_desc(rng, t, neg=(major != 7), v7=(major < 9))
        grains.append((rng.choice(lids), d))
    segs = []
    for lid in lids:
        sg = dict(local_id=lid, id=gen.r_uuid(rng), tags=r_tags(rng, rng.choice([0, 0, 1, 3])),
                  count=rng.choice([-1, sum(1 for g in grains if g[0] == lid)]))
        if rng.random() < 0.3:
            sg["flow"] = dict(source_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), format=gen.r_str(rng, 64),
                              data=json.dumps({"x": gen.r_str(rng)}, ensure_ascii=rng.random() < 0.3))
        segs.append(sg)
    return dict(major=major, minor=rng.choice([0, 0, 1, 7]), grains=grains,
                head=dict(id=gen.r_uuid(rng),
                          created=(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                                   rng.randint(0, 59), rng.randint(0, 59)),
                          segments=segs, tags=r_tags(rng, rng.choice([0, 0, 1, 2]))))


# ================================================================ judging the library's view
def check_head(ctx, got, want, where):
    """got: the library's header dict; want: reference head"""
    ctx.equal(got["id"], want["id"], where + ": file id")
    c = got["created"]
    if want["created"] is None:
        ctx.equal(c, None, where + ": null created time")
    else:
        check_created(ctx, c, want, where)
    check_rest(ctx, got, want, where)


def check_created(ctx, c, want, where):
    import datetime
    y, mo, dd, hh, mi, ss = want["created"]
    ctx.require(isinstance(c, datetime.datetime) and c.utcoffset() == datetime.timedelta(0) and
                (c.year, c.month, c.day, c.hour, c.minute, c.second) == (y, mo, dd, hh, mi, ss),
                where + ": created time", got=c, want=want["created"])


def check_rest(ctx, got, want, where):
    ctx.equal([tuple(t) for t in got["tags"]], list(want["tags"]), where + ": file tags")
    ctx.equal([x["local_id"] for x in got["segments"]], [x["local_id"] for x in want["segments"]], where + ": segment local ids")
    for a, b in zip(got["segments"], want["segments"]):
        for f in ("id", "count"):
            ctx.equal(a[f], b[f], where + ": segment " + f)
        ctx.equal([tuple(t) for t in a["tags"]], list(b["tags"]), where + ": segment tags")
        ctx.equal(a.get("flow"), b.get("flow"), where + ": segment flow")
    ctx.count("headers_judged")


def check_grain(ctx, g, d, where, data=True):
    got = gen.observe(g, data=data, creation=False)
    want = gen.expected(d, data=data, creation=False)
    x = gen.diff(got, want)
    if x:
        ctx.fail(where + ": grain differs in " + x, got=got, want=want)
    if "fmt" in d:
        audio = "audio" in d["type"]
        e = g.cog_audio_format if audio else g.cog_frame_format
        ctx.equal(e.name, (gen.AUDIO_NAME if audio else gen.FRAME_NAME)[d["fmt"]], where + ": name of the format 0x%x" % d["fmt"])
        if not audio:
            ctx.equal(g.cog_frame_layout.name, [k for k, v in gen.LAYOUT.items() if v == d["layout"]][0], where + ": name of the layout")
    ctx.count("grains_judged")
