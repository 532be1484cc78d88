"""G07: cutting a GSF file short never yields an altered or invented grain."""
import io
import warnings

from .. import gen, gsfcase, gsfio, refgsf

ID = "G07"
LEVEL = "exploration"
RULE = ("'cut' cases decode every prefix of a file (from the library's encoder and from the independent writer, with unknown blocks) "
        "through rotating sources and loading modes; 'crash' cases record the individual writes of an encoding session on a seekable "
        "output, rebuild what the output held when interrupted inside or between any two writes, and decode that; 'fault' cases make "
        "the output fail for good after so many octets. What was delivered must be a run of the grains written, with all those "
        "completely present, and any failure a GSF decoding error. Distinct = (source, mode, what the cut hit).")
FLOORS = dict(cuts_judged=15000, crash_states_judged=1500, faults_judged=200, without_data_block=8, round_sizes=10)
WAYS = ([("ctx", s, m) for s in ("bytesio", "pipe") for m in gsfio.MODES] +
        [("actx", s, m) for s in ("abytesio", "alagging", "astream", "afilewrap_bytesio", "abytesiowrap") for m in gsfio.MODES] + [("loads", None, None)] * 3)
HEAVY = [("ctx", s, m) for s in ("file", "rawfile") for m in gsfio.MODES] + [("actx", "afilewrap_file", m) for m in gsfio.MODES]


def plan(ctx):
    n = ctx.n(8, 400)
    return ([("cut-%d" % i, dict(kind="cut")) for i in range(6 * n)] + [("crash-%d" % i, dict(kind="crash")) for i in range(3 * n)] +
            [("fault-%d" % i, dict(kind="fault")) for i in range(4 * n)])


def case(ctx, rng, key, p):
    warnings.simplefilter("ignore")
    globals()["case_" + p["kind"]](ctx, rng)


def judge(ctx, way, raw, grains, complete, where, rng):
    """grains: what was written; complete: how many of them are completely in raw"""
    from mediagrains.gsf import GSFDecodeError
    kind, source, loading = way
    bad = []         # (index, error) data that could not be loaded

    def note(i, e):
        if not isinstance(e, GSFDecodeError):
            raise e
        bad.append(i)

    if kind == "ctx":
        def after(got):
            for i, (_, g) in enumerate(got.grains):
                if loading != "LOAD_NEVER" and g.data is not None:
                    try:
                        bytes(g.data)
                    except Exception as e:
                        note(i, e)
        got = gsfio.read_session(raw, rng, source, loading, after=after)
    elif kind == "actx":
        async def after(got):
            for i, (_, g) in enumerate(got.grains):
                if loading != "LOAD_NEVER":
                    try:
                        await g
                    except Exception as e:
                        note(i, e)
        got = gsfio.run(gsfio.aread_session(raw, rng, source, loading, after=after))
    else:
        got = gsfio.read_any(way, raw, rng)
    if got.error is not None:
        if not isinstance(got.error, GSFDecodeError):
            ctx.fail("%s: %s instead of a GSF decoding error" % (where, type(got.error).__name__), error=got.error)
        if kind == "loads":
            return
    if hasattr(got, "segs"):
        delivered = [(lid, g) for lid, gs in got.segs.items() for g in gs]
        want = {}
        for lid, d in grains:
            want.setdefault(lid, []).append(d)
        have = {}
        for lid, d in grains[:complete]:
            have[lid] = have.get(lid, 0) + 1
        for lid, n in have.items():
            ctx.require(len(got.segs.get(lid, [])) >= n, where + ": complete grains were not delivered")
        pairs = []
        for lid, gs in got.segs.items():
            ctx.require(len(gs) <= len(want.get(lid, [])), where + ": invented grains")
            pairs += list(zip(gs, want[lid]))
        for g, d in pairs:
            refgsf.check_grain(ctx, g, d, where)
        return
    n = len(got.grains)
    ctx.require(n >= complete, where + ": %d grains are completely there but only %d were delivered" % (complete, n), error=got.error)
    ctx.require(n <= len(grains), where + ": more grains delivered than written")
    for i, (lid, g) in enumerate(got.grains):
        ctx.equal(lid, grains[i][0], where + ": segment of grain %d" % i)
        if i in bad:
            ctx.require(i >= complete, where + ": data of a complete grain could not be loaded")
            continue
        d = grains[i][1]
        data = loading != "LOAD_NEVER"
        if not data and d["type"] == "event":
            continue
        refgsf.check_grain(ctx, g, d, where + ": grain %d" % i, data=data)


def round_size(ctx, rng, f):
    """Grain data whose size in the file ends in null octets, so that a part of the size is a size itself"""
    for _, d in f["grains"]:
        if d["type"] in ("coded_video", "coded_audio", "audio") and rng.random() < 0.4:
            d["data"] = gen.rbytes(rng, rng.choice([256, 256, 512]) - 8)
            ctx.count("round_sizes")


def case_cut(ctx, rng):
    own = rng.random() < 0.5
    if own:
        f = gsfcase.content(rng, ngrains=rng.randint(1, 4))
        round_size(ctx, rng, f)
        grains = gsfcase.build_grains(rng, f)
        raw = gsfio.write_any("stream", grains, f["head"]["segments"], rng, **gsfcase.enc_kw(f, rng))
        marks = [b for _, b in refgsf.parse(raw)[0]["grain_spans"]]
    else:
        f = refgsf.random_file(rng, ngrains=rng.randint(1, 4))
        round_size(ctx, rng, f)
        marks = []
        bare = rng.random() < 0.5
        if bare:
            for _, d in f["grains"]:
                if d["type"] != "event" and rng.random() < 0.7:
                    d["data"] = None
                    ctx.count("without_data_block")
        raw = refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0, 0.2, 0.5]), bare=bare), marks=marks)
    cuts = range(len(raw) + 1)
    if len(raw) > 900:
        tags = [i for i in range(len(raw)) if raw[i:i + 4] in (b"grai", b"gbhd", b"grdt", b"tils")]
        cuts = sorted(set(rng.sample(range(len(raw) + 1), 700)) | {i + k for i in tags for k in range(11) if i + k <= len(raw)} | {m + k for m in marks for k in (-2, -1, 0, 1, 2, 7, 8, 9) if m + k <= len(raw)})
    ways = WAYS[:]
    rng.shuffle(ways)
    for c in cuts:
        way = ways[c % len(ways)] if rng.random() > 0.03 else rng.choice(HEAVY)
        complete = sum(1 for m in marks if m <= c)
        judge(ctx, way, raw[:c], f["grains"], complete, "file of %d octets cut at %d, %s" % (len(raw), c, "/".join(map(str, way))), rng)
        ctx.count("cuts_judged")
        nxt = [m - c for m in marks if m > c]
        ctx.saw(way, complete, "near" if nxt and nxt[0] < 12 else "far")
    ctx.sample(dict(bytes=len(raw), grains=[d["type"] for _, d in f["grains"]], own_encoder=own))


class Recorder(io.RawIOBase):
    """A seekable output that keeps every state it went through; fails for good after `limit` octets."""

    def __init__(self, limit=None):
        self.b = bytearray()
        self.pos = 0
        self.ops = []
        self.limit = limit
        self.failed = False

    def writable(self):
        return True

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, o, w=0):
        self.pos = o if w == 0 else self.pos + o if w == 1 else len(self.b) + o
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.b[n:]
        self.ops.append(("t", n, b""))
        return n

    def write(self, b):
        b = bytes(b)
        if self.limit is not None:
            if self.failed or self.limit < len(b):
                if not self.failed:
                    self.put(b[:self.limit])
                self.failed = True
                raise OSError(28, "No space left on device")
            self.limit -= len(b)
        self.put(b)
        return len(b)

    def put(self, b):
        self.ops.append(("w", self.pos, b))
        self.b[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def state(self, k, j):
        """contents when interrupted j octets into operation k"""
        out = bytearray()
        for i, (t, pos, b) in enumerate(self.ops[:k + 1]):
            if t == "t":
                del out[pos:]
            else:
                if i == k:
                    b = b[:j]
                out[pos:pos + len(b)] = b
        return bytes(out)


def encode_to(sink, how, f, rng):
    from mediagrains.gsf import GSFEncoder
    grains = gsfcase.build_grains(rng, f)
    kw = gsfcase.enc_kw(f, rng)
    if how in ("stream", "plain"):
        enc = GSFEncoder(sink, streaming=how == "stream", **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        with enc as e:
            for lid, g in grains:
                e.add_grain(g, segment_local_id=lid)
    elif how == "old":
        enc = GSFEncoder(sink, **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        enc.start_dump()
        for lid, g in grains:
            enc.add_grain(g, segment_local_id=lid)
        enc.end_dump()
    else:
        async def go():
            enc = GSFEncoder(sink, streaming=how == "astream", **kw)
            gsfio._setup_segments(enc, f["head"]["segments"])
            async with enc as e:
                for lid, g in grains:
                    await e.add_grain(g, segment_local_id=lid)
        gsfio.run(go())


def written_order(f, how):
    if how in ("plain", "aplain"):
        return [(s["local_id"], d) for s in f["head"]["segments"] for lid, d in f["grains"] if lid == s["local_id"]]
    return f["grains"]


def case_crash(ctx, rng):
    f = gsfcase.content(rng, ngrains=rng.randint(1, 4))
    how = rng.choice(["stream", "stream", "plain", "old", "astream", "aplain"])
    r = Recorder()
    encode_to(r, how, f, rng)
    parsed = refgsf.parse(bytes(r.b))[0]
    marks = [b for _, b in parsed["grain_spans"]]
    order = written_order(f, how)
    for k, (t, pos, b) in enumerate(r.ops):
        js = sorted({0, 1, len(b) // 2, max(0, len(b) - 1), len(b)} | ({rng.randint(0, len(b)) for _ in range(40)} if len(b) > 8 else set(range(len(b) + 1))))
        for j in js:
            raw = r.state(k, j)
            complete = sum(1 for m in marks if m <= len(raw))
            way = rng.choice(WAYS)
            judge(ctx, way, raw, order, complete, "%s interrupted %d octets into write %d of %d, %s" %
                  (how, j, k, len(r.ops), "/".join(map(str, way))), rng)
            ctx.count("crash_states_judged")
        ctx.saw("crash", how, t, len(b) == 8, k == len(r.ops) - 1)


def case_fault(ctx, rng):
    f = gsfcase.content(rng, ngrains=rng.randint(1, 4))
    how = rng.choice(["stream", "stream", "plain", "old", "astream", "aplain"])
    r = Recorder()
    encode_to(r, how, f, rng)
    total = sum(len(b) for t, _, b in r.ops)
    order = written_order(f, how)
    marks = [b for _, b in refgsf.parse(bytes(r.b))[0]["grain_spans"]]
    for _ in range(12):
        lim = rng.randrange(total)
        r2 = Recorder(limit=lim)
        try:
            encode_to(r2, how, f, rng)
            ctx.fail("%s: the output failed after %d of %d octets but no error was reported" % (how, lim, total))
        except OSError:
            pass
        raw = bytes(r2.b)
        complete = sum(1 for m in marks if m <= len(raw))
        way = rng.choice(WAYS)
        judge(ctx, way, raw, order, complete, "%s to an output failing after %d octets, %s" % (how, lim, "/".join(map(str, way))), rng)
        ctx.count("faults_judged")
        ctx.saw("fault", how, complete, way)
