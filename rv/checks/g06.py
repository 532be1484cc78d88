"""G06: progressive GSF encoding writes every grain once and never accepts misuse."""
import asyncio
import io
import json
import random
import time
import warnings

from .. import gen, gsfcase, gsfio, refgsf
from . import g01, g02

ID = "G06"
LEVEL = "exploration"
RULE = ("A case drives one encoder through a random history - segments and tags added before, grains added through the encoder, the open "
        "encoder or a segment, singly or as iterables, by segment id, local id or default, misuse in the middle (duplicate or late "
        "segments, late tags and flows, unknown segments), abnormal exits, several tasks adding at once, some cancelled meanwhile, further dumps with the same "
        "encoder - while a model keeps the accepted grains; each resulting file is judged by the independent strict parser (contents, "
        "counts, terminator) and by decoding. Distinct = (session kind, output, sequence of operation kinds).")
FLOORS = dict(dumps_judged=1000, refusals_judged=700, grains_judged=4000, cancelled_additions=100, late_additions=100,
              mixed_dumps=300, segments_changed_between_dumps=300)
KINDS = ["stream", "plain", "old", "astream", "aplain"]
OUTS = ["bytesio", "file", "pipe", "raw"]
AOUTS = ["bytesio", "abytesio", "aopen", "file", "writer", "lagging", "raw", "slow"]


def plan(ctx):
    n = ctx.n(60, 2500)
    out = []
    for k in KINDS:
        for o in (AOUTS if k.startswith("a") else OUTS):
            out += [("%s-%s-%d" % (k, o, i), dict(kind=k, out=o)) for i in range(n)]
    out += [("mixed-%s-%d" % (o, i), dict(kind="mixed", out=o)) for o in ("bytesio", "file", "raw") for i in range(2 * n)]
    out += [("many-%s-%d" % (o, i), dict(kind="many", out=o)) for o in ("bytesio", "pipe") for i in range(ctx.n(4, 40))]
    return out + [("tasks-%s-%d" % (o, i), dict(kind="tasks", out=o)) for o in AOUTS for i in range(n)]


class Boom(Exception):
    pass


def make_lagging(rng):
    """A seekable asynchronous output whose writes yield to the event loop half way through."""
    from mediagrains.utils.asyncbinaryio import OpenAsyncBinaryIO

    class Out(OpenAsyncBinaryIO):
        def __init__(self):
            self.f = io.BytesIO()

        async def read(self, size=-1):
            return self.f.read(size)

        async def readinto(self, b):
            return self.f.readinto(b)

        async def readall(self):
            return self.f.read()

        async def write(self, b):
            b = bytes(b)
            cut = rng.randint(0, len(b))
            self.f.write(b[:cut])
            for _ in range(rng.randint(0, 2)):
                await asyncio.sleep(0)
            self.f.write(b[cut:])
            await asyncio.sleep(0)
            return len(b)

        async def truncate(self, s=None):
            await asyncio.sleep(0)
            return self.f.truncate(s)

        def tell(self):
            return self.f.tell()

        def seek(self, o, w=0):
            return self.f.seek(o, w)

        def seekable(self):
            return True

        def readable(self):
            return True

        def writable(self):
            return True

        def getvalue(self):
            return self.f.getvalue()
    return Out()


class RawOut(io.RawIOBase):
    """A seekable unbuffered file, which may write less than it was given; slow: it takes its time to do so"""

    def __init__(self, rng, slow=False):
        self.f, self.rng, self.slow = io.BytesIO(), random.Random(rng.getrandbits(32)), slow

    def write(self, b):
        b = bytes(b)
        n = len(b) if self.slow or len(b) < 2 or self.rng.random() < 0.5 else self.rng.randint(0, len(b))
        for part in (b[:n // 2], b[n // 2:n]):
            if self.slow:
                time.sleep(self.rng.choice([0, 0, 0.001]))
            self.f.write(part)
        return n

    def read(self, n=-1):
        return self.f.read(n)

    def tell(self):
        return self.f.tell()

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def truncate(self, size=None):
        return self.f.truncate(size)

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return True

    def getvalue(self):
        return self.f.getvalue()


class Sink:
    def __init__(self, kind, rng):
        from mediagrains.utils import asyncbinaryio as ab
        self.kind = kind
        self.tmp = None
        self.pos = 0
        self.seekable = kind not in ("pipe", "writer")
        if kind == "bytesio":
            self.f = io.BytesIO(gen.rbytes(rng, rng.choice([0, 0, 5000])))
        elif kind in ("raw", "slow"):
            self.f = RawOut(rng, kind == "slow")
        elif kind == "pipe":
            self.f = gsfio.NonSeekableOut()
        elif kind == "file":
            self.tmp = gsfio.TmpFile(gen.rbytes(rng, rng.choice([0, 0, 5000])))
            self.f = open(self.tmp.path, "r+b")
        elif kind == "abytesio":
            self.f = ab.AsyncBytesIO(gen.rbytes(rng, rng.choice([0, 0, 5000])))
        elif kind == "aopen":
            self.a = ab.AsyncBytesIO(b"")
            self.f = None
        elif kind == "lagging":
            self.f = make_lagging(rng)
        elif kind == "writer":
            self.w = gsfio.FakeWriter()
            self.f = ab.AsyncStreamWrapper(writer=self.w)

    async def open(self):
        if self.kind == "aopen":
            self.f = await self.a.__aenter__()

    def value(self):
        """What this dump wrote (everything for outputs that are replaced, what was appended for pipes)."""
        if self.kind == "file":
            self.f.flush()
            return self.tmp.read()
        if self.kind == "writer":
            v = b"".join(self.w.parts)
        else:
            v = self.f.getvalue()
        if not self.seekable:
            v, self.pos = v[self.pos:], len(v)
        return v

    def close(self):
        if self.tmp:
            self.f.close()
            self.tmp.__exit__()


class Model:
    def __init__(self, f):
        self.segs = {}
        self.buffered = {}       # lid -> grains waiting for the dump
        self.live = []           # written progressively, in order
        self.tags = []
        self.f = f

    def add_segment(self, id, local_id, tags):
        self.segs[local_id] = dict(local_id=local_id, id=id, tags=list(tags))
        self.buffered[local_id] = []
        return local_id

    def pick(self, sid, lid):
        """Which segment a grain goes to; None if one has to be created"""
        if lid is None:
            c = sorted(k for k, v in self.segs.items() if sid is None or v["id"] == sid)
            return c[0] if c else None
        return lid if lid in self.segs else None

    def expected(self, streaming, seekable):
        grains = [(lid, d) for lid in self.segs for d in self.buffered[lid]] + self.live
        segs = []
        for lid, s in self.segs.items():
            s = dict(s, count=sum(1 for x in grains if x[0] == lid) if seekable or not streaming else -1)
            segs.append(s)
        return dict(self.f, grains=grains, head=dict(self.f["head"], segments=segs, tags=list(self.tags)))

    def dumped(self):
        self.live = []
        self.buffered = {k: [] for k in self.segs}


def new_grain(rng, f):
    d = gen.r_desc(rng, neg=f["major"] != 7, v7=f["major"] < 9)
    return d, gen.build(d, rng.choice(["class", "meta"]), gsfcase.wrapper(rng.choice(gsfcase.WRAPS)))


def refused(ctx, f, what, ops):
    from mediagrains.gsf import GSFEncodeError
    ctx.raises(GSFEncodeError, f, what)
    ctx.count("refusals_judged")
    ops.append("!" + what[:12])


def prepare(ctx, rng, enc, m, ops):
    """Segments and tags before dumping; handles by local id."""
    hs = {}
    for _ in range(rng.randint(0, 3)):
        lid = rng.choice([None, None, rng.choice([0, 1, 2, 3, 5, 9, 65535])])
        sid = gen.r_uuid(rng)
        tags = [(gen.r_str(rng), gen.r_str(rng)) for _ in range(rng.choice([0, 0, 2]))]
        if lid in m.segs:
            refused(ctx, lambda: enc.add_segment(id=sid, local_id=lid, tags=tags), "duplicate segment local id", ops)
            continue
        if lid is None and 65535 in m.segs:
            continue                      # no identifier left above the highest
        h = enc.add_segment(id=sid, local_id=lid, tags=tags)
        got = h.local_id
        ctx.require(got not in m.segs and lid in (None, got), "local id of a new segment", got=got, asked=lid)
        m.add_segment(sid, got, tags)
        hs[got] = h
        if rng.random() < 0.4:
            fl = dict(source_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), format=gen.r_str(rng, 64), data='{"a": "%s", "b": "%s"}' % (gen.r_uuid(rng), rng.choice(["", "\u00e9\u20ac", "\U0001f39e"])))
            h.add_flow(fl["source_id"], fl["flow_id"], fl["format"], rng.choice([fl["data"], fl["data"].encode()]))
            m.segs[got]["flow"] = fl
        if rng.random() < 0.3:
            t = (gen.r_str(rng), gen.r_str(rng))
            h.add_tag(*t)
            m.segs[got]["tags"].append(t)
        ops.append("seg")
    for _ in range(rng.choice([0, 0, 1, 2])):
        t = (gen.r_str(rng), gen.r_str(rng))
        enc.add_tag(*t)
        m.tags.append(t)
        ops.append("tag")
    for lid in list(m.segs):
        # segments there since before the last dump
        if lid in hs or rng.random() < 0.6:
            continue
        h = enc.segments[lid]
        if rng.random() < 0.7:
            t = (gen.r_str(rng), gen.r_str(rng))
            h.add_tag(*t)
            m.segs[lid]["tags"].append(t)
        if rng.random() < 0.3:
            fl = dict(source_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), format=gen.r_str(rng, 64), data='{"later": 1}')
            h.add_flow(fl["source_id"], fl["flow_id"], fl["format"], fl["data"])
            m.segs[lid]["flow"] = fl
        ops.append("retag")
        ctx.count("segments_changed_between_dumps")
    return hs


def target(rng, m, new=False):
    """-> (kwargs, local id or None to be created), which with new is sometimes a segment that isn't there yet"""
    k = rng.random()
    if new and rng.random() < 0.15:
        kw = {}
        if k < 0.7:
            kw["segment_id"] = gen.r_uuid(rng)
        if k > 0.5 or 65535 in m.segs:
            kw["segment_local_id"] = rng.choice([x for x in (1, 2, 3, 7, 40, 500, 60000, rng.randint(100, 400), rng.randint(1000, 9000), rng.randint(10000, 20000)) if x not in m.segs] or [next(x for x in range(20001, 60000) if x not in m.segs)])
            if k < 0.7 and m.segs and k > 0.6:
                kw["segment_id"] = rng.choice(list(m.segs.values()))["id"]     # (the local id decides)
        return kw, m.pick(kw.get("segment_id"), kw.get("segment_local_id"))
    if k < 0.35 or not m.segs:
        return {}, m.pick(None, None)
    lid = rng.choice(list(m.segs))
    if k < 0.75:
        return dict(segment_local_id=lid), lid
    sid = m.segs[lid]["id"]
    return dict(segment_id=sid), m.pick(sid, None)


def accept(ctx, enc, m, lid, kw, descs, live):
    if lid is None:
        new = set(enc.segments) - set(m.segs)
        ctx.equal(len(new), 1, "segments made for a grain without one", asked=kw)
        lid = new.pop()
        if "segment_local_id" in kw:
            ctx.equal(lid, kw["segment_local_id"], "local id of the segment made for grains")
        sid = enc.segments[lid].id
        if "segment_id" in kw:
            ctx.equal(sid, kw["segment_id"], "id of the segment made for grains")
        m.add_segment(sid, lid, [])
        ctx.count("segments_made_for_grains")
    for d in descs:
        if live:
            m.live.append((lid, d))
        else:
            m.buffered[lid].append(d)


def misuse(ctx, rng, e, m, hs, ops):
    """things that must be refused once the header has been written, through the object e"""
    what = rng.randrange(5)
    if what == 0:
        refused(ctx, lambda: e.add_segment(local_id=rng.choice([None] + list(range(20, 30)))), "late segment", ops)
    elif what == 1 and m.segs:
        lid = rng.choice(list(m.segs))
        refused(ctx, lambda: e.add_segment(local_id=lid), "duplicate late segment", ops)
    elif what == 2:
        refused(ctx, lambda: e.add_tag("late", "tag"), "late file tag", ops)
    elif what == 3 and hs:
        h = rng.choice(list(hs.values()))
        refused(ctx, lambda: h.add_tag("late", "tag"), "late segment tag", ops)
    elif hs:
        h = rng.choice(list(hs.values()))
        refused(ctx, lambda: h.add_flow(gen.r_uuid(rng), gen.r_uuid(rng), "f", "{}"), "late segment flow", ops)


def judge_dump(ctx, sink, m, streaming, what, ordered):
    raw = sink.value()
    want = m.expected(streaming, sink.seekable)
    g02.judge_file(ctx, raw, unknown_ids(raw, want), what, ordered)
    got = gsfio.read_session(raw, None, "bytesio", "LOAD_IMMEDIATELY")
    g01.judge(ctx, got, want, what + ", decoded", ordered)
    ctx.count("dumps_judged")
    m.dumped()
    return raw


def unknown_ids(raw, want):
    return dict(want, head=dict(want["head"], segments=[dict(s) for s in want["head"]["segments"]]))


def case(ctx, rng, key, p):
    f = refgsf.random_file(rng, ngrains=0, nsegs=0)
    f["head"]["created"] = gsfcase.r_created(rng)
    m = Model(f)
    ops = [p["kind"], p["out"]]
    if p["kind"] in ("stream", "plain"):
        session(ctx, rng, p, f, m, ops)
    elif p["kind"] == "old":
        old(ctx, rng, p, f, m, ops)
    elif p["kind"] == "mixed":
        mixed(ctx, rng, p, f, m, ops)
    elif p["kind"] == "many":
        many_grains(ctx, rng, p, f, m, ops)
    elif p["kind"] == "tasks":
        gsfio.run(tasks(ctx, rng, p, f, m, ops))
    else:
        gsfio.run(asession(ctx, rng, p, f, m, ops))
    ctx.saw(*ops)
    ctx.sample(dict(ops=ops[:30]))


def first_tags(f, m):
    m.tags = list(f["head"]["tags"])


def session(ctx, rng, p, f, m, ops):
    from mediagrains.gsf import GSFEncoder
    streaming = p["kind"] == "stream"
    sink = Sink(p["out"], rng)
    try:
        enc = GSFEncoder(sink.f, streaming=streaming, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        hs = {}
        for rnd in range(rng.choice([1, 1, 2, 3])):
            hs.update(prepare(ctx, rng, enc, m, ops))
            for _ in range(rng.choice([0, 0, 1, 3])):          # grains before the session
                d, g = new_grain(rng, f)
                kw, lid = target(rng, m, True)
                enc.add_grain(g, **kw)
                accept(ctx, enc, m, lid, kw, [d], False)
                ops.append("pre")
            boom = rng.random() < 0.15
            try:
                with enc as e:
                    if not streaming:
                        hs.update(prepare(ctx, rng, e, m, ops))
                    for _ in range(rng.randint(0, 8)):
                        k = rng.random()
                        if streaming and k < 0.3:
                            misuse(ctx, rng, rng.choice([e, enc]), m, hs, ops)
                            continue
                        if streaming and k < 0.36:
                            d, g = new_grain(rng, f)
                            refused(ctx, lambda: e.add_grain(g, segment_local_id=31000), "grain for unknown segment", ops)
                            continue
                        if not streaming and k < 0.1 and m.segs:
                            lid = rng.choice(list(m.segs))
                            refused(ctx, lambda: e.add_segment(local_id=lid), "duplicate segment", ops)
                            continue
                        if streaming and not m.segs:
                            continue
                        add(ctx, rng, f, m, e, enc, hs, ops, streaming)
                    if boom:
                        raise Boom()
            except Boom:
                ctx.require(boom, "?")
                ops.append("boom")
            else:
                ctx.require(not boom, "an exception in the body of the encoder's context was swallowed")
            judge_dump(ctx, sink, m, streaming, "%s to %s, dump %d" % (p["kind"], p["out"], rnd + 1), True)
            ops.append("dump")
    finally:
        sink.close()


def add(ctx, rng, f, m, e, enc, hs, ops, live):
    before = {lid: s.count for lid, s in enc.segments.items()}
    n = len(m.live) + sum(map(len, m.buffered.values()))
    add_some(ctx, rng, f, m, e, enc, hs, ops, live)
    n = len(m.live) + sum(map(len, m.buffered.values())) - n
    grown = {lid: s.count - before.get(lid, 0) for lid, s in enc.segments.items() if s.count != before.get(lid, 0)}
    ctx.require(sum(grown.values()) == n and len(grown) == (n > 0), "counts of the segments after adding %d grains" % n, grown=grown)


def add_some(ctx, rng, f, m, e, enc, hs, ops, live):
    k = rng.random()
    many = [new_grain(rng, f) for _ in range(rng.choice([1, 1, 1, 0, 2, 3]))]
    if hs and k < 0.35:
        lid = rng.choice(list(hs))
        if len(many) == 1 and rng.random() < 0.5:
            hs[lid].add_grain(many[0][1])
        else:
            hs[lid].add_grains(rng.choice([list, iter, tuple])([g for _, g in many]))
        accept(ctx, enc, m, lid, {}, [d for d, _ in many], live)
        ops.append("segadd%d" % len(many))
        return
    kw, lid = target(rng, m, not live)
    o = e if k < 0.8 else enc
    if len(many) == 1 and rng.random() < 0.5:
        o.add_grain(many[0][1], **kw)
    else:
        o.add_grains((g for _, g in many), **kw)
    accept(ctx, enc, m, lid, kw, [d for d, _ in many], live)
    ops.append("add%d" % len(many))


def old(ctx, rng, p, f, m, ops):
    from mediagrains.gsf import GSFEncoder
    sink = Sink(p["out"], rng)
    try:
        enc = GSFEncoder(sink.f, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        hs = {}
        for rnd in range(rng.choice([1, 2, 2])):
            hs.update(prepare(ctx, rng, enc, m, ops))
            for _ in range(rng.randint(0, 4)):
                add(ctx, rng, f, m, enc, enc, hs, ops, False)
            if rng.random() < 0.4:
                enc.dump()
                judge_dump(ctx, sink, m, False, "dump() to %s, dump %d" % (p["out"], rnd + 1), True)
                ops.append("dump")
                continue
            if not m.segs:
                continue
            enc.start_dump()
            for _ in range(rng.randint(0, 6)):
                if rng.random() < 0.3:
                    misuse(ctx, rng, enc, m, hs, ops)
                else:
                    add(ctx, rng, f, m, enc, enc, hs, ops, True)
            enc.end_dump()
            judge_dump(ctx, sink, m, True, "start_dump() to %s, dump %d" % (p["out"], rnd + 1), True)
            ops.append("prog")
    finally:
        sink.close()


def mixed(ctx, rng, p, f, m, ops):
    """Dumps of every kind in turn by one encoder, with the segments made in one used in the next."""
    from mediagrains.gsf import GSFEncoder
    sink = Sink(p["out"], rng)
    streaming = rng.random() < 0.5
    try:
        enc = GSFEncoder(sink.f, streaming=streaming, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        hs = {}
        for rnd in range(rng.choice([2, 3, 4])):
            hs.update(prepare(ctx, rng, enc, m, ops))
            for _ in range(rng.choice([0, 1, 2])):
                add(ctx, rng, f, m, enc, enc, hs, ops, False)
            k = rng.choice(["with", "async", "dump", "prog", "prog"])
            if k == "dump":
                enc.dump()
            elif k == "prog":
                if not m.segs:
                    continue
                enc.start_dump()
                for _ in range(rng.randint(0, 4)):
                    if rng.random() < 0.2:
                        misuse(ctx, rng, enc, m, hs, ops)
                    else:
                        add(ctx, rng, f, m, enc, enc, hs, ops, True)
                enc.end_dump()
            elif k == "with":
                with enc as e:
                    if not streaming:
                        hs.update(prepare(ctx, rng, e, m, ops))
                    for _ in range(rng.randint(0, 4)):
                        if m.segs or not streaming:
                            add(ctx, rng, f, m, e, e, hs, ops, streaming)
            else:
                async def go():
                    async with enc as e:
                        if not streaming:
                            hs.update(prepare(ctx, rng, e, m, ops))
                        for _ in range(rng.randint(0, 4)):
                            if not (m.segs or not streaming):
                                continue
                            if hs and rng.random() < 0.5:
                                lid, kw = rng.choice(list(hs)), None
                            else:
                                kw, lid = target(rng, m, not streaming)
                            many = [new_grain(rng, f) for _ in range(rng.choice([1, 2]))]
                            if kw is None:
                                hs[lid].add_grains([g for _, g in many])
                            else:
                                await e.add_grains([g for _, g in many], **kw)
                            accept(ctx, enc, m, lid, kw, [d for d, _ in many], streaming)
                gsfio.run(go())
            ops.append(k)
            for lid, h in enc.segments.items():
                if lid in m.segs and rng.random() < 0.5:
                    hs[lid] = h
            judge_dump(ctx, sink, m, k == "prog" or (streaming and k != "dump"), "%s to %s, dump %d" % (" ".join(x for x in ops if isinstance(x, str))[-60:], p["out"], rnd + 1), True)
            ctx.count("mixed_dumps")
    finally:
        sink.close()


def many_grains(ctx, rng, p, f, m, ops):
    """More grains in a segment than fit in an octet (and two)"""
    from mediagrains.gsf import GSFEncoder
    n = rng.choice([255, 256, 257, 300, 600] + ([65535, 65536, 66000] if ctx.thorough and rng.random() < 0.2 else []))
    sink = Sink(p["out"], rng)
    streaming = rng.random() < 0.7
    try:
        enc = GSFEncoder(sink.f, streaming=streaming, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        lids = [enc.add_segment(id=gen.r_uuid(rng)).local_id for _ in range(2)]
        for lid in lids:
            m.add_segment(enc.segments[lid].id, lid, [])
        d = gen.r_desc(rng, type="empty", neg=f["major"] != 7, v7=f["major"] < 9)
        d["timelabels"] = []
        g = gen.build(d, "meta", bytes)
        with enc as e:
            for i in range(n):
                lid = lids[i % 50 == 0]
                e.add_grain(g, segment_local_id=lid)
                accept(ctx, enc, m, lid, {}, [d], streaming)
        judge_dump(ctx, sink, m, streaming, "%d grains to %s" % (n, p["out"]), True)
        ops.append(n)
    finally:
        sink.close()


async def asession(ctx, rng, p, f, m, ops):
    from mediagrains.gsf import GSFEncoder
    streaming = p["kind"] == "astream"
    sink = Sink(p["out"], rng)
    await sink.open()
    try:
        enc = GSFEncoder(sink.f, streaming=streaming, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        hs = {}
        for rnd in range(rng.choice([1, 1, 2])):
            hs.update(prepare(ctx, rng, enc, m, ops))
            boom = rng.random() < 0.15
            order = []
            try:
                async with enc as e:
                    if not streaming:
                        hs.update(prepare(ctx, rng, e, m, ops))
                    for _ in range(rng.randint(0, 8)):
                        k = rng.random()
                        if streaming and k < 0.25:
                            misuse(ctx, rng, rng.choice([e, enc]), m, hs, ops)
                            continue
                        if streaming and not m.segs:
                            continue
                        many = [new_grain(rng, f) for _ in range(rng.choice([1, 1, 0, 2, 3]))]
                        descs = [d for d, _ in many]
                        gs = [deferred(g) if rng.random() < 0.3 and g.grain_type != "event" else g for _, g in many]
                        if hs and k < 0.5:
                            # through a segment: synchronous, so only grains whose data is there
                            lid = rng.choice(list(hs))
                            hs[lid].add_grains([g for _, g in many])
                            accept(ctx, enc, m, lid, {}, descs, streaming)
                            ops.append("segadd%d" % len(many))
                            continue
                        kw, lid = target(rng, m, not streaming)
                        if len(many) == 1 and k < 0.8:
                            await e.add_grain(gs[0], **kw)
                        else:
                            await e.add_grains(iter(gs), **kw)
                        accept(ctx, enc, m, lid, kw, descs, streaming)
                        ops.append("add%d" % len(many))
                    if boom:
                        raise Boom()
            except Boom:
                ops.append("boom")
            else:
                ctx.require(not boom, "an exception in the body of the encoder's context was swallowed")
            judge_dump(ctx, sink, m, streaming, "%s to %s, dump %d" % (p["kind"], p["out"], rnd + 1), True)
            ops.append("dump")
    finally:
        sink.close()


def deferred(g):
    """The same grain with its data still to be fetched."""
    from mediagrains.grains import GrainFactory
    data = g.data

    async def fetch():
        await asyncio.sleep(0)
        return data
    return GrainFactory(g.meta, fetch())


async def tasks(ctx, rng, p, f, m, ops):
    """Several tasks add grains at once: each task's grains in its own order, every grain exactly once."""
    from mediagrains.gsf import GSFEncodeError, GSFEncoder
    streaming = rng.random() < 0.7
    sink = Sink(p["out"], rng)
    await sink.open()
    try:
        enc = GSFEncoder(sink.f, streaming=streaming, **gsfcase.enc_kw(f, rng))
        first_tags(f, m)
        lids = [enc.add_segment(id=gen.r_uuid(rng)).local_id for _ in range(2)]
        for lid in lids:
            m.add_segment(enc.segments[lid].id, lid, [])
        hs = {lid: enc.segments[lid] for lid in lids}
        works = [[(rng.choice(lids), [new_grain(rng, f) for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(1, 4))]
                 for _ in range(rng.randint(2, 4))]
        killed = rng.random() < 0.5
        dropped = []            # calls that were cancelled: their grains may be in the file
        direct = []             # grains given to a segment, which can't be cancelled
        async with enc as e:
            async def worker(w):
                for lid, many in list(w):
                    for _ in range(rng.choice([0, 0, 1, 3])):
                        await asyncio.sleep(0)
                    if killed and rng.random() < 0.3:
                        x = new_grain(rng, f)
                        direct.append((lid, [x]))
                        hs[lid].add_grain(x[1])
                    if killed and rng.random() < 0.5:
                        t = asyncio.ensure_future(one(lid, many))
                        for _ in range(rng.randint(0, 3)):
                            await asyncio.sleep(rng.choice([0, 0, 0.0005]) if p["out"] in ("slow", "file") else 0)
                        t.cancel()
                        try:
                            await t
                        except asyncio.CancelledError:
                            w.remove((lid, many))
                            dropped.append((lid, many))
                            ctx.count("cancelled_additions")
                    else:
                        await one(lid, many)

            async def one(lid, many):
                if True:
                    gs = [deferred(g) if rng.random() < 0.3 and g.grain_type != "event" else g for _, g in many]
                    if len(gs) == 1:
                        await e.add_grain(gs[0], segment_local_id=lid)
                    else:
                        await e.add_grains(gs, segment_local_id=lid)
            await asyncio.gather(*(worker(w) for w in works))
            late = []
            for _ in range(rng.choice([0, 0, 0, 1, 2, 4]) if streaming else 0):
                x = (rng.choice(lids), [new_grain(rng, f) for _ in range(rng.randint(1, 2))])
                late.append((x, asyncio.ensure_future(one(*x))))
                for _ in range(rng.randint(1, 2)):        # (it has started, at least)
                    await asyncio.sleep(0)
        # tasks still at it when the context was left: in the file, or refused
        for (x, _), r in zip(late, await asyncio.gather(*(t for _, t in late), return_exceptions=True)):
            if r is None:
                direct.append(x)
            else:
                ctx.require(isinstance(r, GSFEncodeError), "adding a grain when the dump has ended raised another error", got=r)
                dropped.append(x)
            ctx.count("late_additions")
        raw = sink.value()
        try:
            r = refgsf.parse(raw)[0]
        except refgsf.SpecError as x:
            ctx.fail("file written by concurrent tasks does not conform: %s" % x)
        def canon(lid, d):
            d = gen.expected(d, creation=False)
            d.pop("cls", None)
            if d["type"] == "event":
                d["event_data"] = json.dumps(d["event_data"], sort_keys=True)
            return repr((lid, sorted(d.items(), key=lambda kv: kv[0])))
        seq = []
        for lid, d in r["grains"]:
            d = dict(d)
            if d["type"] == "event":
                d.pop("data", None)
            seq.append(canon(lid, d))
        allw = [[canon(lid, d) for lid, many in w for d, _ in many] for w in works]
        found = list(seq)
        for x in [x for w in allw for x in w] + [canon(lid, d) for lid, many in direct for d, _ in many]:
            ctx.require(x in found, "a grain added by concurrent tasks is not in the file as often as it was added", what=x)
            found.remove(x)
        may = [canon(lid, d) for lid, many in dropped for d, _ in many]
        for x in found:
            ctx.require(x in may, "the file written by concurrent tasks holds a grain nobody added, or one twice", what=x)
            may.remove(x)
        if streaming:
            for w in allw:
                it = iter(seq)
                ctx.require(all(x in it for x in w), "the grains of one task are out of order in the file")
        else:
            for lid in lids:
                for w in allw:
                    it = iter([x for x in seq])
                    ctx.require(all(x in it for x in [y for y in w if y.startswith("(%d," % lid)]), "the grains of one task are out of order")
        for s in r["head"]["segments"]:
            n = sum(1 for lid, _ in r["grains"] if lid == s["local_id"])
            ctx.equal(s["count"], n if sink.seekable or not streaming else -1, "segment count after concurrent additions")
        ctx.count("grains_judged", len(seq))
        ctx.count("dumps_judged")
        ops.append([len(x) for w in works for x in w])
    finally:
        sink.close()


warnings.simplefilter("ignore")
