"""R01: a stream of grains is worked on a few grains at a time, and only what is asked for is read."""
import asyncio
import gc
import io
import os
import struct
import subprocess
import sys
import threading
import tracemalloc
import weakref

from .. import gen, gsfcase, gsfio, h264ref, refgsf
from . import w02

ID = "R01"
LEVEL = "exploration"
RULE = ("Long files of large grains with distinct contents are decoded, encoded and wrapped in every way while monitors watch the octets taken from and given to "
        "instrumented files (by position), the grains still alive (weak references), the memory traced while it happens, and how far the input had to be read before a "
        "grain came out; inputs are paced so that reading ahead shows. Small hostile files claim enormous blocks. The tools run as processes on long essence and their "
        "peak memory is compared with that for short essence. Distinct = (activity, way, loading, sizes, moment).")
FLOORS = dict(sparse_files=120, grains_left_unread=2000, grains_loaded=200, decoded_and_dropped=1200, encoded_and_dropped=600, delivered_at_once=400,
              wrapped=3000, hostile_files=120, tool_runs=8)
ONCE = ("tool",)
SLACK = 64 << 10         # what buffering may take or hold back
KB = 1 << 10


def plan(ctx):
    n = ctx.n(45, 700)
    c = [("sparse-%s-%d" % (w, j), dict(kind="sparse", way=w)) for w in SPARSE for j in range(n)]
    c += [("drop-%s-%s-%d" % (s, m, j), dict(kind="drop", way=s, loading=m)) for s in DROP for m in gsfio.MODES for j in range(ctx.n(2, 40))]
    c += [("encode-%s-%d" % (w, j), dict(kind="encode", way=w)) for w in ENCODE for j in range(ctx.n(4, 100))]
    c += [("prompt-%s-%d" % (w, j), dict(kind="prompt", way=w)) for w in PROMPT for j in range(n)]
    c += [("wrap-%s-%d" % (w, j), dict(kind="wrap", way=w)) for w in ("raw", "audio", "aac", "h264") for j in range(ctx.n(8, 160))]
    c += [("hostile-%d" % j, dict(kind="hostile")) for j in range(ctx.n(250, 3000))]
    c += [("tool-%s-%s" % (t, e), dict(kind="tool", tool=t, ends=e)) for t in ("wrap", "extract", "probe", "live") for e in ("ff", "pp")]
    return c


def case(ctx, rng, key, p):
    return globals()["case_" + p["kind"]](ctx, rng, p)


def large(rng, n, size, segments=2):
    """-> (description, octets of the file, [(start, end) of each grain's data])"""
    f = refgsf.random_file(rng, ngrains=n, nsegs=segments, types=["coded_audio", "coded_video"])
    f["head"]["created"] = gsfcase.r_created(rng)
    f["head"]["tags"] = f["head"]["tags"][:3]
    for _, d in f["grains"]:
        d["data"] = rng.randbytes(size)
        if d["type"] == "coded_video" and d.get("unit_offsets"):
            d["unit_offsets"] = d["unit_offsets"][:20]
    marks = []
    raw = refgsf.file_bytes(f, marks=marks)
    return f, raw, [(e - size, e) for e in marks]


class Watched(io.RawIOBase):
    """A file that remembers which octets were taken from it. Only those before `limit` have arrived: wanting more raises."""

    def __init__(self, data, seekable=True, limit=None, pieces=None):
        self.b, self.pos, self.log, self.can, self.limit, self.pieces = data, 0, [], seekable, limit, pieces

    def readable(self):
        return True

    def seekable(self):
        return self.can

    def tell(self):
        if not self.can:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def seek(self, offset, whence=0):
        if not self.can:
            raise io.UnsupportedOperation("seek")
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else len(self.b) + offset
        return self.pos

    def take(self, size):
        end = min(len(self.b), self.pos + size)
        if self.limit is not None and end > self.limit:
            end = self.limit
            if end <= self.pos < len(self.b) and size:
                raise NotYet("octet %d wanted when %d had arrived" % (self.pos, self.limit))
        if self.pieces and end - self.pos > 1:
            end = self.pos + self.pieces.choice([1, end - self.pos, end - self.pos, (end - self.pos + 1) // 2])
        got = self.b[self.pos:end]
        if got:
            self.log.append((self.pos, end))
            self.pos = end
        return got

    def read(self, size=-1):
        return self.take(len(self.b) if size is None or size < 0 else size)

    def readinto(self, b):
        got = self.take(len(b))
        b[:len(got)] = got
        return len(got)

    def readall(self):
        return self.read(-1)


class NotYet(Exception):
    pass


def taken(log, span):
    """octets of a span that were taken, each time counted"""
    return sum(max(0, min(e, span[1]) - max(s, span[0])) for s, e in log)


def watched_async(way, raw, log_to):
    from mediagrains.utils import asyncbinaryio as ab
    if way == "native":
        class Open(ab.OpenAsyncBinaryIO):
            def __init__(self, w):
                self.w = w

            async def readinto(self, b):
                await asyncio.sleep(0)
                return self.w.readinto(b)

            async def readall(self):
                return self.w.readall()

            async def write(self, b):
                raise io.UnsupportedOperation()

            async def truncate(self, s=None):
                raise io.UnsupportedOperation()

            def tell(self):
                return self.w.tell()

            def seek(self, offset, whence=0):
                return self.w.seek(offset, whence)

            def seekable(self):
                return self.w.seekable()

            def readable(self):
                return True

            def writable(self):
                return False
        return ab.AsyncBinaryIO(cls=Open, w=log_to)
    return dict(afile=ab.AsyncFileWrapper, abytes=ab.AsyncBytesIOWrapper)[way](log_to)


# ---------------------------------------------------------------- only what is asked for is read
SPARSE = ["ctx", "buffered", "old", "afile", "abytes", "native"]


def case_sparse(ctx, rng, p):
    """of the data that is skipped, not selected, or deferred and not yet asked for, nothing (but a buffer's worth) is read"""
    from mediagrains.gsf import GSFDecoder
    way, size = p["way"], rng.choice([150, 200, 400]) * KB
    f, raw, spans = large(rng, rng.randint(4, 12), size)
    src = Watched(raw)
    loading = rng.choice(["LOAD_NEVER", "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "ALWAYS_LOAD_DEFER_IF_POSSIBLE", "LOAD_IMMEDIATELY"])
    lids = [s["local_id"] for s in f["head"]["segments"]]
    pick = rng.choice([None, None, lids[:1], [], [4242]]) if loading != "LOAD_IMMEDIATELY" else rng.choice([lids[:1], [], [4242]])
    chosen = [i for i, (lid, _) in enumerate(f["grains"]) if pick is None or lid in pick]
    load = set() if loading == "LOAD_NEVER" else set(chosen) if loading == "LOAD_IMMEDIATELY" else set(i for i in chosen if rng.random() < 0.3)
    early = set(i for i in load if rng.random() < 0.5) if loading != "LOAD_IMMEDIATELY" else load
    where = "%s %s of segments %r" % (way, loading, pick)

    def judge(done, when):
        for i, span in enumerate(spans):
            n = taken(src.log, span)
            allowed = SLACK + (size if i in done else 0)
            ctx.require(n <= allowed, "%s: octets of the data of grain %d read, %s" % (where, i, when), read=n, allowed=allowed, size=size, loaded=i in done)
        ctx.count("grains_left_unread", len(spans) - len(done))
        ctx.count("grains_loaded", len(done))
        ctx.saw(where, when, len(done), len(spans))

    if way in SPARSE[:3]:
        source = io.BufferedReader(src, rng.choice([512, 8192])) if way == "buffered" else src
        dec = GSFDecoder(file_data=source)
        if way == "old":
            dec.decode_file_headers()
            it = dec.grains(local_ids=pick, **{"LOAD_NEVER": dict(skip_data=True), "LOAD_IMMEDIATELY": {}}.get(loading, dict(load_lazily=True)))
        else:
            it = dec.__enter__().grains(local_ids=pick, loading_mode=gsfio.mode(loading))
        got = []
        for i, (g, _) in zip(chosen, it):
            got.append(g)
            if i in early:
                ctx.require(gen.data_bytes(g.data) == f["grains"][i][1]["data"], where + ": data of grain %d" % i)
        ctx.equal(len(got), len(chosen), where + ": grains")
        judge(early, "while decoding")
        for i, g in zip(chosen, got):
            if i in load:
                ctx.require(gen.data_bytes(g.data) == f["grains"][i][1]["data"], where + ": data of grain %d" % i)
        judge(load, "after loading some")
    else:
        async def go():
            async with GSFDecoder(file_data=watched_async(way, raw, src)) as dec:
                got, k = [], 0
                async for g, _ in dec.grains(local_ids=pick, loading_mode=gsfio.mode(loading)):
                    ctx.require(k < len(chosen), where + ": more grains than chosen")
                    i = chosen[k]
                    k += 1
                    got.append(g)
                    if i in early:
                        await g
                        ctx.require(gen.data_bytes(g.data) == f["grains"][i][1]["data"], where + ": data of grain %d" % i)
                ctx.equal(len(got), len(chosen), where + ": grains")
                judge(early, "while decoding")
                for i, g in zip(chosen, got):
                    if i in load:
                        await g
                        ctx.require(gen.data_bytes(g.data) == f["grains"][i][1]["data"], where + ": data of grain %d" % i)
                judge(load, "after loading some")
            if loading != "ALWAYS_LOAD_DEFER_IF_POSSIBLE":
                judge(load, "at the end")
        gsfio.run(go())
    ctx.count("sparse_files")
    ctx.sample("%s: %d octets, of which %d taken" % (where, len(raw), sum(e - s for s, e in src.log)))


# ---------------------------------------------------------------- grains dropped are gone
class Alive:
    """How many of the grains seen are still there, and the most memory in use since the start"""

    def __init__(self, ctx, size, where, grains=6, extra=2 << 20):
        self.ctx, self.size, self.where, self.refs, self.allowed = ctx, size, where, [], grains
        self.most = grains * size + extra
        self.n = 0

    def __enter__(self):
        gc.collect()
        tracemalloc.start()
        self.base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        return self

    def add(self, g):
        self.refs.append(weakref.ref(g))
        self.n += 1

    def check(self):
        """(called when the caller holds none of them)"""
        live = [r for r in self.refs if r() is not None]
        if len(live) > self.allowed:
            gc.collect()
            live = [r for r in self.refs if r() is not None]
        self.ctx.require(len(live) <= self.allowed, self.where + ": grains let go of are kept", alive=len(live), seen=self.n)
        self.refs = live
        peak = tracemalloc.get_traced_memory()[1] - self.base
        if peak > self.most:                     # cyclic garbage is not yet gone, which says nothing: look again from here
            gc.collect()
            now = tracemalloc.get_traced_memory()[0] - self.base
            tracemalloc.reset_peak()
            self.late = getattr(self, "late", 0) + 1
            self.ctx.require(now <= self.most and self.late <= max(2, self.n // 3), self.where + ": memory in use grows with the stream", in_use=now, peak=peak, allowed=self.most,
                             grains=self.n, size=self.size)

    def __exit__(self, *a):
        tracemalloc.stop()


DROP = ["bytesio", "rawfile", "pipe", "abytesio", "afilewrap_bytesio", "abytesiowrap", "afilewrap_file", "socket", "native", "oldfile"]


def case_drop(ctx, rng, p):
    from mediagrains.gsf import GSFDecoder
    way, loading = p["way"], p["loading"]
    size = rng.choice([100, 200]) * KB
    f, raw, spans = large(rng, 36, size)
    use = rng.random() < 0.7 and loading != "LOAD_NEVER"
    pick = rng.choice([None, None, [s["local_id"] for s in f["head"]["segments"]][:1]])
    want = [d["data"] for lid, d in f["grains"] if pick is None or lid in pick]
    where = "%s %s" % (way, loading)

    if way in ("bytesio", "rawfile", "pipe", "oldfile"):
        src, cleanup = gsfio.sync_source("file" if way == "oldfile" else way, raw, rng)
        try:
            with Alive(ctx, size, where) as alive:
                dec = GSFDecoder(file_data=src)
                if way == "oldfile":
                    dec.decode_file_headers()
                    it = dec.grains(local_ids=pick, **{"LOAD_NEVER": dict(skip_data=True), "LOAD_IMMEDIATELY": {}}.get(loading, dict(load_lazily=True)))
                else:
                    it = dec.__enter__().grains(local_ids=pick, loading_mode=gsfio.mode(loading))
                for i, (g, _) in enumerate(it):
                    alive.add(g)
                    if use:
                        ctx.require(gen.data_bytes(g.data) == want[i], where + ": data of grain %d" % i)
                    del g, _
                    alive.check()
                ctx.equal(alive.n, len(want), where + ": grains")
        finally:
            cleanup()
    else:
        # (grains whose data is deferred belong to the session until it is loaded or the session ends)
        deferred = loading in gsfio.MODES[1:3] and way != "socket"
        load = use or deferred

        async def go():
            if way == "socket":
                src, cleanup = await socket_source(raw)
            elif way == "native":
                src, cleanup = watched_async("native", raw, Watched(raw)), lambda: None
            else:
                src, cleanup = gsfio.async_source(way, raw, rng)
            try:
                with Alive(ctx, size, where) as alive:
                    async with GSFDecoder(file_data=src) as dec:
                        i = 0
                        async for g, _ in dec.grains(local_ids=pick, loading_mode=gsfio.mode(loading)):
                            alive.add(g)
                            if load:
                                await g
                                ctx.require(gen.data_bytes(g.data) == want[i], where + ": data of grain %d" % i)
                            i += 1
                            del g, _
                            alive.check()
                        ctx.equal(i, len(want), where + ": grains")
            finally:
                cleanup()
        gsfio.run(go())
    ctx.count("decoded_and_dropped", len(want))
    ctx.saw("drop", where, size, use, pick is None)


async def socket_source(raw):
    """A real connection, the other end of which a thread writes to as fast as it is read from"""
    import socket
    from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
    a, b = socket.socketpair()

    def feed():
        try:
            b.sendall(raw)
        except OSError:
            pass
        b.close()
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    reader, writer = await asyncio.open_connection(sock=a)
    return AsyncStreamWrapper(reader=reader), writer.close


# ---------------------------------------------------------------- written as they are added
ENCODE = ["ctx", "seg", "old", "old_seg", "iter", "async", "aiter", "awriter"]


class Sink(io.RawIOBase):
    """Keeps count of what is written, not the octets"""

    def __init__(self, can):
        self.can, self.pos, self.total, self.end = can, 0, 0, 0

    def writable(self):
        return True

    def seekable(self):
        return self.can

    def tell(self):
        if not self.can:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def seek(self, offset, whence=0):
        if not self.can:
            raise io.UnsupportedOperation("seek")
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else self.end + offset
        return self.pos

    def truncate(self, size=None):
        if not self.can:
            raise io.UnsupportedOperation("truncate")
        self.end = self.pos if size is None else size
        return self.end

    def write(self, b):
        n = len(b)
        self.pos += n
        self.total += n
        self.end = max(self.end, self.pos)
        return n


def case_encode(ctx, rng, p):
    from mediagrains.gsf import GSFEncoder
    from mediagrains.utils import asyncbinaryio as ab
    way, size, n = p["way"], rng.choice([80, 200]) * KB, 40
    descs = [gen.r_desc(rng, rng.choice(["coded_audio", "coded_video"]), neg=True, v7=True) for _ in range(4)]
    sink = Sink(rng.random() < 0.5)
    where = "%s to %s" % (way, "a file" if sink.can else "a pipe")
    kw = dict(major=rng.choice([7, 8, 9]), tags=[("a", "b")])
    if kw["major"] == 7:
        descs = [gen.r_desc(rng, d["type"], neg=False, v7=True) for d in descs]

    def make(i):
        return gen.build(dict(descs[i % 4], data=rng.randbytes(size)), "class")

    def judge(k, alive, when):
        ctx.require(sink.total >= k * size - SLACK, "%s: of %d grains added not all written %s" % (where, k, when), written=sink.total, data=k * size)
        ctx.require(sink.total <= k * (size + 8 * KB) + SLACK, "%s: more written than %d grains take" % (where, k), written=sink.total, data=k * size)
        alive.check()
        ctx.count("encoded_and_dropped")

    def supply(alive, k0, m):
        for k in range(k0, k0 + m):
            judge(k, alive, "when the next was asked for")
            g = make(k)
            alive.add(g)
            yield g
            del g

    runs = []
    k = 0
    while k < n:
        m = min(n - k, rng.choice([1, 1, 2, 15]))
        runs.append((k, m))
        k += m

    def loop(alive, one, many):
        for k, m in runs:
            if m == 1 or way not in ("iter",):
                for i in range(k, k + m):
                    g = make(i)
                    alive.add(g)
                    one(g)
                    del g
                    judge(i + 1, alive, "when added")
            else:
                many(supply(alive, k, m))
                judge(k + m, alive, "when added")

    with Alive(ctx, size, where) as alive:
        if way in ("ctx", "seg", "iter"):
            enc = GSFEncoder(sink, streaming=True, **kw)
            seg = enc.add_segment()
            with enc as e:
                if way == "seg" or rng.random() < 0.3:
                    loop(alive, seg.add_grain, seg.add_grains)
                else:
                    loop(alive, e.add_grain, e.add_grains)
        elif way in ("old", "old_seg"):
            enc = GSFEncoder(sink, **kw)
            seg = enc.add_segment()
            enc.start_dump()
            loop(alive, *([enc.add_grain, enc.add_grains] if way == "old" else [seg.add_grain, seg.add_grains]))
            enc.end_dump()
        else:
            class Writer(gsfio.FakeWriter):
                def write(self, b):
                    sink.write(b)

            async def go():
                out = ab.AsyncStreamWrapper(writer=Writer()) if way == "awriter" else rng.choice([sink, ab.AsyncFileWrapper(sink)])
                enc = GSFEncoder(out, streaming=True, **kw)
                enc.add_segment()
                async with enc as e:
                    for k, m in runs:
                        if way == "aiter" and m > 1:
                            await e.add_grains(supply(alive, k, m))
                            judge(k + m, alive, "when added")
                        else:
                            for i in range(k, k + m):
                                g = make(i)
                                alive.add(g)
                                await e.add_grain(g)
                                del g
                                judge(i + 1, alive, "when added")
            gsfio.run(go())
        enc = None
        before = sink.total
        judge(n, alive, "at the end")
        ctx.require(sink.total == before, where + ": written after the end")
    ctx.saw("encode", where, size, len(runs), kw["major"])


# ---------------------------------------------------------------- delivered as they arrive
PROMPT = ["wrapped", "wrapped_buffered", "old", "areader", "anative"]


def case_prompt(ctx, rng, p):
    """a grain comes out once its last octet has arrived, the headers once theirs have"""
    from mediagrains.gsf import GSFDecoder
    from mediagrains.utils import asyncbinaryio as ab
    from mediagrains.tools._file_or_pipe import InputStreamWrapper
    way, loading = p["way"], rng.choice(gsfio.MODES)
    # (the grain ends where its data does, so the unit offsets, kept in the header, may be of any number)
    if rng.random() < 0.5:
        f = gsfcase.content(rng, ngrains=rng.randint(1, 8), nsegs=rng.randint(1, 3))
    else:
        f, _, _ = large(rng, rng.randint(1, 5), rng.choice([1, 1000, 9000, 100000]))
    marks = []
    raw = refgsf.file_bytes(f, marks=marks)
    head = len(refgsf.file_bytes(dict(f, grains=[]), terminator=False))
    use = rng.random() < 0.7
    n = len(f["grains"])
    where = "%s %s" % (way, loading)

    def judge(i, g, lid):
        ctx.require(i < n, where + ": more grains than there are")
        d = f["grains"][i][1]
        ctx.equal(lid, f["grains"][i][0], where + ": local id of grain %d" % i)
        if loading != "LOAD_NEVER" and g.grain_type not in ("event", "empty"):
            ctx.require(gen.data_bytes(g.data) == d["data"], where + ": data of grain %d" % i)
        ctx.count("delivered_at_once")
        ctx.saw("prompt", where, d["type"], i, len(d.get("data") or b"") // 1000)

    if way in PROMPT[:3]:
        src = Watched(raw, False, head, rng if rng.random() < 0.5 else None)
        s = InputStreamWrapper(io.BufferedReader(src, rng.choice([16, 8192])) if way == "wrapped_buffered" else src)
        dec = GSFDecoder(file_data=s)
        at = "headers"
        try:
            if way == "old":
                dec.decode_file_headers()
                it = iter(dec.grains(**(dict(skip_data=True) if loading == "LOAD_NEVER" else {})))
            else:
                it = iter(dec.__enter__().grains(loading_mode=gsfio.mode(loading)))
            for i in range(n):
                src.limit = marks[i]
                at = "grain %d of %d" % (i, n)
                g, lid = next(it, (None, None))
                ctx.require(g is not None, where + ": %s not delivered" % at)
                judge(i, g, lid)
            src.limit = len(raw)
            ctx.require(next(it, None) is None, where + ": a grain more than there are")
        except NotYet as e:
            ctx.fail(where + ": %s held back until more has arrived" % at, error=e, marks=marks[:8], head=head)
        return

    async def soon(aw, at):
        t = asyncio.ensure_future(aw)
        for _ in range(200):
            await asyncio.sleep(0)
            if t.done():
                break
        if not t.done():                 # (in another thread, perhaps)
            await asyncio.wait([t], timeout=30)
        if not t.done():
            t.cancel()
            ctx.fail(where + ": %s held back until more has arrived" % at, marks=marks[:8], head=head)
        return t.result()

    async def go():
        if way == "areader":
            r = asyncio.StreamReader()
            sent = [0]

            def arrive(end):
                while sent[0] < end:
                    k = min(end - sent[0], rng.choice([1, 100, 100000]))
                    r.feed_data(raw[sent[0]:sent[0] + k])
                    sent[0] += k
                if end == len(raw):
                    r.feed_eof()
            src = ab.AsyncStreamWrapper(reader=r)
        else:
            w = Watched(raw, True, 0, None)

            def arrive(end):
                w.limit = end
            src = watched_async("native", raw, w)
        dec = GSFDecoder(file_data=src)
        try:
            arrive(head)
            d = await soon(dec.__aenter__(), "headers")
            it = d.grains(loading_mode=gsfio.mode(loading)).__aiter__()
            for i in range(n):
                arrive(marks[i])
                g, lid = await soon(it.__anext__(), "grain %d of %d" % (i, n))
                if loading != "LOAD_NEVER" and use:
                    await soon(load(g), "data of grain %d of %d" % (i, n))
                    judge(i, g, lid)
                elif loading == "LOAD_IMMEDIATELY" or loading == "LOAD_NEVER":
                    judge(i, g, lid)
            arrive(len(raw))
            try:
                await soon(it.__anext__(), "the end")
            except StopAsyncIteration:
                pass
            else:
                ctx.fail(where + ": a grain more than there are")
            await dec.__aexit__(None, None, None)
        except NotYet as e:
            ctx.fail(where + ": held back until more has arrived", error=e, marks=marks[:8], head=head)
        except StopAsyncIteration:
            ctx.fail(where + ": a grain not delivered")
    gsfio.run(go())


async def load(g):
    await g


# ---------------------------------------------------------------- wrapped as they are read
class Input:
    """Essence made as it is read, a piece at a time: nothing of it is kept here"""

    def __init__(self, pieces, rng):
        self.pieces, self.rng, self.left, self.taken = iter(pieces), rng, b"", 0
        self.whole = rng.random() < 0.5

    def read(self, n=-1):
        out = []
        have = 0
        while n < 0 or have < n:
            if not self.left:
                self.left = next(self.pieces, b"")
                if not self.left:
                    break
            k = len(self.left) if n < 0 else min(n - have, len(self.left))
            out.append(self.left[:k])
            self.left = self.left[k:]
            have += k
            if not self.whole and n > 0:
                break
        r = b"".join(out)
        self.taken += len(r)
        return r


def case_wrap(ctx, rng, p):
    from mediagrains import utils
    from mediagrains.grains import AudioGrain, CodedVideoGrain, VideoGrain
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    way = p["way"]
    ids = dict(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng))
    slack, extra = SLACK, 2 << 20
    if way == "raw":
        w, h = rng.choice([(320, 240), (400, 300)])
        size, n = w * h * 2, 40
        t = VideoGrain(width=w, height=h, cog_frame_format=CogFrameFormat[rng.choice(["U8_422", "UYVY"])], rate=25, **ids)
        pieces, grains = (rng.randbytes(size // 4) for _ in range(4 * n)), utils.GrainWrapper
        sizes = [size] * n
    elif way == "audio":
        size, n = 48000 * 4, 40
        t = AudioGrain(samples=48000, channels=2, sample_rate=48000, cog_audio_format=CogAudioFormat.S16_INTERLEAVED, rate=1, **ids)
        pieces, grains = (rng.randbytes(size // 3) for _ in range(3 * n)), utils.GrainWrapper
        sizes = [size] * n
    elif way == "aac":
        n, fi, cc = 600, rng.randrange(13), rng.randrange(1, 8)
        t, _ = w02.template(rng, 0)
        sizes = [rng.choice([8191, rng.randint(4000, 8191)]) for _ in range(n)]
        pieces, grains = (w02.frame(rng, fi, cc, s) for s in sizes), utils.ADTSAACGrainWrapper
        size, extra = 8191, 1 << 20
    else:
        t = CodedVideoGrain(origin_width=1920, origin_height=1080, coded_width=0, coded_height=0, cog_frame_format=CogFrameFormat.H264, rate=25, duration="1/25", **ids)
        st = h264ref.stream(rng, 40, rng.choice([8000, 20000]))
        sizes = [e - s for s, e, _, _ in st["aus"]]
        data = st["data"]
        pieces, grains = (data[i:i + 5000] for i in range(0, len(data), 5000)), utils.H264GrainWrapper
        size, n = max(sizes), len(sizes)
        slack, extra = SLACK + 2 * size, 1 << 20      # (an access unit ends where the next starts, and may be as long as the one before)
    src = Input(pieces, rng)
    out = 0
    with Alive(ctx, size, way, extra=extra, grains=6 if way != "h264" else 10) as alive:
        for g in grains(t, src).grains():
            alive.add(g)
            ctx.require(alive.n <= n, way + ": more grains than there are")
            ctx.equal(len(g.data), sizes[alive.n - 1], way + ": length of grain %d" % (alive.n - 1))
            out += sizes[alive.n - 1]
            del g
            ctx.require(src.taken <= out + slack, way + ": reads far ahead of the grains it gives", taken=src.taken, given=out, allowed=slack, grains=alive.n)
            alive.check()
            ctx.count("wrapped")
        ctx.equal(alive.n, n, way + ": grains")
    ctx.saw("wrap", way, size, src.whole)


# ---------------------------------------------------------------- sizes that a file only claims
HOSTILE = [("loads", None, None)] + [(k, s, m) for s in ("bytesio", "pipe") for k in ("load", "decode") for m in (None,)] + \
    [(k, s, m) for s in ("bytesio", "pipe") for k in ("old", "ctx") for m in gsfio.MODES] + \
    [("aload", s, None) for s in ("abytesio", "afilewrap_bytesio", "abytesiowrap", "astream", "native")] + \
    [("actx", s, m) for s in ("abytesio", "afilewrap_bytesio", "abytesiowrap", "astream") for m in gsfio.MODES]
HUGE = [0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x40000000, 100 << 20]


def case_hostile(ctx, rng, p):
    """memory is taken for what a file contains, not for what it claims to contain"""
    f = gsfcase.content(rng, ngrains=rng.randint(1, 4), nsegs=rng.randint(1, 2))
    raw = bytearray(refgsf.file_bytes(f))
    at = []
    for tag in (b"head", b"segm", b"tag ", b"grai", b"gbhd", b"grdt", b"tils", b"vghd", b"cghd", b"cahd", b"aghd", b"unof", b"comp"):
        i = raw.find(tag)
        while i >= 0 and i + 8 <= len(raw):
            at.append((tag, i))
            i = raw.find(tag, i + 1)
    for tag, i in rng.sample(at, min(len(at), rng.choice([1, 1, 2, 6]))) + [rng.choice([x for x in at if x[0] in (b"grdt", b"grai", b"head")])]:
        raw[i + 4:i + 8] = struct.pack("<I", rng.choice(HUGE))
        if rng.random() < 0.2:
            raw[i:i + 4] = b"xxxx"
    if rng.random() < 0.3:
        raw += b"fill" + struct.pack("<I", rng.choice(HUGE)) + b"..."
    raw = bytes(raw)
    for way in rng.sample(HOSTILE, 4):
        if way[1] == "native":
            way = ("aload", "alagging", None)
        gc.collect()
        tracemalloc.start()
        try:
            base = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            got = gsfio.read_any(way, raw, rng)
            peak = tracemalloc.get_traced_memory()[1] - base
        finally:
            tracemalloc.stop()
        ctx.require(peak <= 16 << 20, "%s: memory taken for a file of %d octets" % ("/".join(str(x) for x in way), len(raw)), peak=peak, error=got.error)
        ctx.saw("hostile", way, type(got.error).__name__)
        del got
    ctx.count("hostile_files")


# ---------------------------------------------------------------- the tools
PEAK = """
import sys, warnings
warnings.simplefilter("ignore")
from mediagrains.tools import %s as tool
tool()
sys.stdout.flush()
print("PEAK", [l.split()[1] for l in open("/proc/self/status") if l.startswith("VmHWM")][0], file=sys.stderr)
"""


def run_tool(name, args, stdin, stdout):
    r = subprocess.run([sys.executable, "-c", PEAK % name] + [str(a) for a in args], stdin=stdin, stdout=stdout, stderr=subprocess.PIPE, timeout=300,
                       env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
    text = r.stderr.decode()
    if r.returncode or "PEAK" not in text:
        raise RuntimeError("%s failed: %s" % (name, text[-800:]))
    return int(text.rsplit("PEAK", 1)[1].split()[0]) << 10


def case_tool(ctx, rng, p):
    name, ends = p["tool"], p["ends"]
    if name == "live":
        return live(ctx, rng, ends)
    size = gen.video_size("U8_422", 640, 400)
    opts = ["--size", "640x400", "--format", "U8_422"]

    def measure(n):
        """peak memory of a tool at work on n frames"""
        with gsfio.TmpFile() as essence_, gsfio.TmpFile() as made, gsfio.TmpFile() as out:
            one = rng.randbytes(size)
            if name == "wrap":
                with open(essence_, "wb") as h:
                    for _ in range(n):
                        h.write(one)
                src, args, tool = essence_, opts, "wrap_video_in_gsf"
            else:
                d = gen.r_desc(rng, "coded_audio", neg=True, v7=True)
                d["data"] = one
                f = refgsf.random_file(rng, ngrains=0, nsegs=1)
                f["head"]["created"] = gsfcase.r_created(rng)
                whole = refgsf.file_bytes(f, terminator=False)
                grain = refgsf.grai(f["head"]["segments"][0]["local_id"], d, f["major"])
                with open(made, "wb") as h:
                    h.write(whole)
                    for _ in range(n):
                        h.write(grain)
                    h.write(refgsf.TERM)
                src, args, tool = made, [], dict(extract="extract_gsf_essence", probe="gsf_probe")[name]
            with open(src, "rb") as i, open(out, "r+b") as o:
                two = [] if name == "probe" else ["-" if ends[1] == "p" else out]
                peak = run_tool(tool, (["-"] if ends[0] == "p" else [src]) + two + args, i if ends[0] == "p" else subprocess.DEVNULL,
                                o if ends[1] == "p" or name == "probe" else subprocess.DEVNULL)
                length = os.path.getsize(out)
            ctx.require(name == "probe" or length >= n * size, "%s %s: output of %d frames" % (name, ends, n), length=length, size=size)
            return peak
    small, large_ = measure(4), measure(160)          # 160 frames: 82 MB
    ctx.require(large_ - small <= 24 << 20, "%s %s: memory grows with the stream" % (name, ends), few=small, many=large_)
    ctx.count("tool_runs", 2)
    ctx.saw("tool", name, ends)
    ctx.sample("%s %s: peak %d KiB for 4 frames, %d KiB for 160" % (name, ends, small >> 10, large_ >> 10))


def live(ctx, rng, ends):
    """frames that arrive at a tool one at a time leave it one at a time"""
    size = gen.video_size("U8_422", 640, 400)
    frames = [rng.randbytes(size) for _ in range(6)]
    if ends == "ff":         # the extract tool
        f = refgsf.random_file(rng, ngrains=0, nsegs=1)
        f["head"]["created"] = gsfcase.r_created(rng)
        pieces = [refgsf.grai(f["head"]["segments"][0]["local_id"], dict(gen.r_desc(rng, "coded_audio", neg=True, v7=True), data=d), f["major"]) for d in frames]
        pieces[0] = refgsf.file_bytes(f, terminator=False) + pieces[0]
        name, args = "extract_gsf_essence", ["-", "-"]
    else:
        pieces, name, args = frames, "wrap_video_in_gsf", ["-", "-", "--size", "640x400", "--format", "U8_422"]
    import select
    pr = subprocess.Popen([sys.executable, "-c", PEAK % name] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0,
                          env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
    out = 0
    try:
        for i, b in enumerate(pieces):
            sent = threading.Thread(target=lambda: write_all(pr.stdin, b), daemon=True)
            sent.start()
            while out < (i + 1) * size - SLACK:
                ready, _, _ = select.select([pr.stdout], [], [], 60)
                got = os.read(pr.stdout.fileno(), 1 << 20) if ready else b""
                ctx.require(got, "%s: a frame that has arrived does not leave it until more arrives" % name, frame=i, out=out, size=size)
                out += len(got)
            sent.join()
            ctx.saw("live", name, i)
        pr.stdin.close()
        while os.read(pr.stdout.fileno(), 1 << 20):
            pass
        ctx.equal(pr.wait(60), 0, name + ": exit status")
    finally:
        pr.kill()
        pr.wait()
        pr.stdout.close()
    ctx.count("tool_runs")


def write_all(f, b):
    view = memoryview(b)
    while len(view):
        view = view[f.write(view):]
