"""G08: malformed GSF input is rejected cleanly."""
import io
import warnings
from uuid import UUID

from .. import gen, gsfio, refgsf

ID = "G08"
LEVEL = "exploration"
CPU_LIMIT_S = 40.0
RULE = ("A case takes a valid file of the independent writer and damages it - octets flipped, fields set to extremes, block sizes and "
        "tags rewritten, blocks removed, doubled, swapped or moved between files, event payloads replaced by bad JSON, noise - and "
        "decodes it through several ways. Any exception but the GSF decoding errors, too many reads for the size of the input, too "
        "much CPU time, or a grain whose common attributes cannot be read is a violation; damaged magic, file type or version must be "
        "reported as such. Distinct = (damage kinds, way, outcome).")
FLOORS = dict(decodes_judged=8000, rejected=1500, accepted=1500, signature_judged=500)
KINDS = ["flip", "size", "tag", "blocks", "noise", "field", "event", "head", "mix"]
WAYS = ([("loads", None, None), ("old", "bytesio", "LOAD_IMMEDIATELY"), ("old", "bytesio", "ALWAYS_LOAD_DEFER_IF_POSSIBLE"),
         ("aload", "abytesio", None), ("aload", "astream", None)] +
        [("ctx", s, m) for s in ("count", "pipe", "count") for m in gsfio.MODES] +
        [("actx", s, m) for s in ("abytesio", "afilewrap_bytesio", "astream") for m in gsfio.MODES])


class TooManyReads(BaseException):
    pass


class Meter(io.BytesIO):
    """Raises when far more is done with the source than its size warrants."""
    left = 0

    def read(self, n=-1):
        self.tick()
        return super().read(n)

    def seek(self, *a):
        self.tick()
        return super().seek(*a)

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise TooManyReads()


def plan(ctx):
    n = ctx.n(90, 6000)
    return [("%s-%d" % (k, i), dict(kind=k)) for k in KINDS for i in range(n)] + \
        [("sig-%d" % i, dict(kind="sig")) for i in range(n)]


# ---------------------------------------------------------------- damage
def find_blocks(raw, known=(b"head", b"segm", b"tag ", b"flow", b"grai", b"gbhd", b"tils", b"vghd", b"comp", b"cghd", b"unof",
                            b"aghd", b"cahd", b"eghd", b"grdt")):
    out = []
    for t in known:
        p = raw.find(t)
        while p >= 0:
            out.append(p)
            p = raw.find(t, p + 1)
    return sorted(out)


def extreme(rng, n):
    return rng.choice([0, 1, 7, 8, 9, 10, (1 << (8 * n)) - 1, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, rng.getrandbits(8 * n),
                       rng.randint(0, 300)]) & ((1 << (8 * n)) - 1)


def put(raw, p, b):
    return raw[:p] + b + raw[p + len(b):]


def damage(rng, raw, kind, other):
    blocks = find_blocks(raw)
    if kind == "flip":
        for _ in range(rng.choice([1, 1, 2, 8, 40])):
            p = rng.randrange(len(raw))
            raw = put(raw, p, bytes([rng.choice([0, 255, raw[p] ^ (1 << rng.randrange(8)), rng.getrandbits(8)])]))
    elif kind == "size":
        for _ in range(rng.choice([1, 1, 2, 4])):
            p = rng.choice(blocks)
            old = int.from_bytes(raw[p + 4:p + 8], "little")
            v = rng.choice([extreme(rng, 4), max(0, old + rng.choice([-9, -8, -2, -1, 1, 2, 8, 9, 100]))])
            raw = put(raw, p + 4, (v & 0xffffffff).to_bytes(4, "little"))
    elif kind == "tag":
        for _ in range(rng.choice([1, 1, 3])):
            p = rng.choice(blocks)
            raw = put(raw, p, rng.choice([b"grai", b"gbhd", b"grdt", b"head", b"segm", b"tag ", b"flow", b"vghd", b"comp", b"eghd", b"cghd",
                                          b"aghd", b"cahd", b"unof", b"tils", b"SSBB", b"grsg", b"\0\0\0\0", b"\xff\xfe\xfd\xfc", b"fill"]))
    elif kind == "blocks":
        for _ in range(rng.choice([1, 2])):
            p, q = sorted([rng.choice(blocks), rng.choice(blocks + [len(raw)])])
            what = rng.randrange(4)
            if what == 0:
                raw = raw[:p] + raw[q:]
            elif what == 1:
                raw = raw[:q] + raw[p:q] + raw[q:]
            elif what == 2:
                ob = find_blocks(other)
                a, b = sorted([rng.choice(ob), rng.choice(ob + [len(other)])])
                raw = raw[:p] + other[a:b] + raw[p:]
            else:
                raw = raw[:p] + raw[q:] + raw[p:q]
            blocks = find_blocks(raw) or [0]
    elif kind == "noise":
        what = rng.randrange(4)
        n = rng.choice([0, 1, 3, 4, 7, 8, 11, 12, 13, 40, 500])
        if what == 0:
            raw = gen.rbytes(rng, n)
        elif what == 1:
            raw = raw[:rng.randint(0, 20)] + gen.rbytes(rng, n)
        elif what == 2:
            raw = raw + gen.rbytes(rng, n)
        else:
            p = rng.randrange(len(raw))
            raw = raw[:p] + gen.rbytes(rng, n) + raw[p:]
    elif kind == "field":
        for _ in range(rng.choice([1, 1, 2, 5])):
            p = rng.choice(blocks) + 8 + rng.randrange(80)
            n = rng.choice([1, 2, 4, 8])
            if p + n < len(raw):
                raw = put(raw, p, extreme(rng, n).to_bytes(n, "little"))
    return raw


BAD_EVENTS = [b"", b"{", b"null", b"[]", b"{}", b"5", b'"x"', b"\xff\xfe", b'{"type": "a", "topic": "b"}',
              b'{"type": "a", "topic": "b", "data": 5}', b'{"type": "a", "topic": "b", "data": {"path": 1}}',
              b'{"type": "a", "topic": "b", "data": [5]}', b'{"type": "a", "topic": "b", "data": [{}]}',
              b'{"type": "a", "topic": "b", "data": ["path"]}', b'{"type": "a", "topic": "b", "data": "path"}',
              b'{"type": "a", "topic": "b", "data": [null]}', b'{"type": "a", "topic": "b", "data": null}',
              b'{"topic": "b", "data": []}', b'{"type": "a", "data": []}', b"[" * 20000, b'{"a":' * 20000, b"1" * 5000,
              b'["type", "topic", "data"]', b'"type topic data"', b'{"type": "a", "topic": "b", "data": [{"path": "x", "pre": 1' + b"0" * 5000 + b"}]}",
              b"NaN", b'\xef\xbb\xbf{"type": "a", "topic": "b", "data": []}']


def make(rng, kind):
    types = ["event"] if kind == "event" else None
    f = refgsf.random_file(rng, types=types, ngrains=rng.randint(1, 4), nsegs=rng.randint(1, 3))
    k = refgsf.Knobs(rng, rng.choice([0, 0, 0.3]))
    if kind == "event":
        out = refgsf.file_bytes(dict(f, grains=[]), k, terminator=False)
        for lid, d in f["grains"]:
            if rng.random() < 0.7:
                body = refgsf.u(lid, 2) + refgsf.gbhd(d, f["major"], k) + refgsf.blk(b"grdt", rng.choice(BAD_EVENTS))
                out += refgsf.blk(b"grai", body)
            else:
                out += refgsf.grai(lid, d, f["major"], k)
        return f, out + refgsf.TERM
    return f, refgsf.file_bytes(f, k)


def bad_head(rng, f, raw):
    p = raw.find(b"head")
    what = rng.randrange(3)
    if what == 0:      # the creation date
        return put(raw, p + 24, bytes(rng.choice([0, 13, 32, 24, 60, 61, 255, rng.getrandbits(8)]) for _ in range(7)))
    if what == 1:
        return put(raw, p + 24, gen.rbytes(rng, 7))
    q = raw.find(b"flow")
    if q < 0:
        q = raw.find(b"tag ")
    if q < 0:
        return put(raw, p + 31, gen.rbytes(rng, 8))
    n = rng.randint(1, 20)
    return put(raw, q + 8 + rng.randrange(130), gen.rbytes(rng, n))[:len(raw)]


def case(ctx, rng, key, p):
    warnings.simplefilter("ignore")
    kind = p["kind"]
    f, raw = make(rng, kind)
    if kind == "sig":
        return case_sig(ctx, rng, f, raw)
    other = make(rng, "x")[1]
    for _ in range(4):
        bad = raw
        if kind == "mix":
            for k in rng.sample(KINDS[:6], rng.randint(2, 4)):
                bad = damage(rng, bad, k, other) if len(bad) > 60 and find_blocks(bad) else bad
        elif kind == "head":
            bad = bad_head(rng, f, raw)
        elif kind != "event":
            bad = damage(rng, raw, kind, other)
        for way in rng.sample(WAYS, 4):
            decode(ctx, rng, way, bad, kind)
    ctx.sample(dict(kind=kind, bytes=len(raw)))


def decode(ctx, rng, way, raw, kind):
    from mediagrains.gsf import GSFDecodeError
    kind_, source, loading = way
    where = "damaged (%s) file of %d octets, %s" % (kind, len(raw), "/".join(map(str, way)))
    try:
        if source == "count":
            got = metered(raw, loading)
        elif kind_ == "ctx":
            def after(got):
                for _, g in got.grains:
                    if loading != "LOAD_NEVER" and g.data is not None:
                        bytes(g.data)
            got = gsfio.read_session(raw, rng, source, loading, after=after)
        elif kind_ == "actx":
            async def after(got):
                for _, g in got.grains:
                    if loading != "LOAD_NEVER":
                        await g
            got = gsfio.run(gsfio.aread_session(raw, rng, source, loading, after=after))
        else:
            got = gsfio.read_any(way, raw, rng)
    except TooManyReads:
        ctx.fail(where + ": keeps reading without end", file=raw[:400])
    ctx.count("decodes_judged")
    if got.error is not None:
        if not isinstance(got.error, GSFDecodeError):
            ctx.fail("%s: raised %s instead of a GSF decoding error" % (where, type(got.error).__name__), error=got.error, file=raw[:600].hex())
        at = got.error.offset
        ctx.require(isinstance(at, int) and 0 <= at < (1 << 64), where + ": offset in the error", got=at)
        ctx.count("rejected")
    else:
        ctx.count("accepted")
        ctx.require(isinstance(got.head, dict) and isinstance(got.head["id"], UUID), where + ": header")
    grains = got.grains if not hasattr(got, "segs") else [(lid, g) for lid, gs in got.segs.items() for g in gs]
    for lid, g in grains:
        well_formed(ctx, lid, g, where)
    ctx.saw(kind, way, type(got.error).__name__, min(3, len(grains)))


def metered(raw, loading):
    from mediagrains.gsf import GSFDecoder
    got = gsfio.Got()
    src = Meter(raw)
    src.left = 60 * len(raw) + 5000
    try:
        with GSFDecoder(file_data=src) as dec:
            got.head = dec.file_headers
            for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                got.grains.append((lid, g))
            for _, g in got.grains:
                if loading != "LOAD_NEVER" and g.data is not None:
                    bytes(g.data)
    except Exception as e:
        got.error = e
    return got


def well_formed(ctx, lid, g, where):
    from mediagrains.grains import Grain
    from mediatimestamp.immutable import Timestamp
    from fractions import Fraction
    ctx.require(isinstance(g, Grain) and isinstance(lid, int), where + ": not a grain")
    ctx.require(isinstance(g.source_id, UUID) and isinstance(g.flow_id, UUID) and isinstance(g.origin_timestamp, Timestamp) and
                isinstance(g.sync_timestamp, Timestamp) and isinstance(g.rate, Fraction) and isinstance(g.duration, Fraction),
                where + ": grain attributes")
    for tl in g.timelabels:
        tl.tag, tl.count, tl.rate, tl.drop_frame
    if g.grain_type == "video":
        ctx.require(all(isinstance(x, int) for x in (g.width, g.height, g.extension)), where + ": video attributes")
        for c in g.components:
            ctx.require(all(isinstance(x, int) for x in (c.width, c.height, c.stride, c.offset, c.length)), where + ": components")
    elif g.grain_type == "coded_video":
        ctx.require(all(isinstance(x, int) for x in (g.origin_width, g.coded_height, *g.unit_offsets)), where + ": coded video attributes")
    elif g.grain_type in ("audio", "coded_audio"):
        ctx.require(all(isinstance(x, int) for x in (g.samples, g.channels, g.sample_rate)), where + ": audio attributes")
    elif g.grain_type == "event":
        for e in g.event_data:
            e.path
        bytes(g.data)
    ctx.count("grains_judged")


def case_sig(ctx, rng, f, raw):
    """The signature: magic, file type, version."""
    from mediagrains import gsf
    E = gsf
    for _ in range(4):
        what = rng.randrange(4)
        if what == 0:
            bad = put(raw, 0, rng.choice([b"SSBA", b"ssbb", b"RIFF", gen.rbytes(rng, 4), b"\xff\xff\xff\xff", b"\0\0\0\0", b"SSB\0"]))
            exc, info = E.GSFDecodeBadFileTypeError, None
        elif what == 1:
            bad = put(raw, 4, rng.choice([b"grsh", b"GRSG", b"head", gen.rbytes(rng, 4), b"\xff\xff\xff\xff", b"grs\0", b"\0\0\0\0"]))
            exc, info = E.GSFDecodeBadFileTypeError, None
        elif what == 2:
            major, minor = rng.choice([0, 1, 5, 6, 10, 11, 255, 256 + 9, 7 << 8, 65535]), rng.choice([0, 1, 7, 65535])
            bad = put(raw, 8, major.to_bytes(2, "little") + minor.to_bytes(2, "little"))
            exc, info = E.GSFDecodeBadVersionError, (major, minor)
        else:
            bad = raw[:rng.randrange(8)]
            exc, info = E.GSFDecodeBadFileTypeError, None
        if bad[:8] == b"SSBBgrsg" and info is None:
            continue
        for way in rng.sample(WAYS, 5):
            where = "signature %r, %s" % (bad[:12], "/".join(map(str, way)))
            if way[1] == "count":
                got = metered(bad, way[2])
            else:
                got = gsfio.read_any(way, bad, rng)
            if not isinstance(got.error, exc):
                ctx.fail(where + ": not reported as %s" % exc.__name__, error=got.error)
            if info is not None:
                ctx.equal((got.error.major, got.error.minor), info, where + ": version in the error")
            else:
                ctx.require(isinstance(got.error.filetype, str), where + ": file type in the error", got=got.error.filetype)
            # (from the start of the source, or from where the file starts in it)
            ctx.require(isinstance(got.error.offset, int) and 0 <= got.error.offset <= 8 + len(bad), where + ": offset in the error", got=got.error.offset)
            ctx.count("signature_judged")
            ctx.saw("sig", what, way)
