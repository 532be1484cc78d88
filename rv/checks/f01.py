"""F01: a failure of what is read from or written to is reported, never taken for an end or a success."""
import asyncio
import io
import os
import subprocess
import sys
import warnings
from fractions import Fraction

from .. import gen, gsfcase, gsfio, h264ref, refgsf
from . import g02, w02

ID = "F01"
LEVEL = "exploration"
RULE = ("Every case makes one operation of a source or destination fail (the k-th read, write, drain, seek, tell or truncate, for k over all those a whole run "
        "performs, or a sample of them) and watches what the library tells: the very exception must come out of the operation under way, what was delivered before must be "
        "a run of the grains there are, what can be tried again must then give the right octets. Decoding (every source, loading mode and way), lazily loaded "
        "data (tried again after a failure or a cancellation), encoding (sinks, data and iterables that fail, alone and beside other tasks), essence wrapping, comparison of grain streams and the "
        "tools as processes (full device, unreadable input) are covered. Distinct = (kind, way, operation, exception, how far it got).")
FLOORS = dict(read_faults=4500, write_faults=1300, retries=220, cancellations=150, data_faults=100, written_without_it=60, task_files=100, iterable_faults=110,
              wrapper_faults=800, comparison_faults=130, process_faults=8, grains_before=1700)
ONCE = ("process",)


class Broken(Exception):
    """an error no part of the library knows"""


def r_error(rng):
    return rng.choice([lambda: OSError(5, "Input/output error"), lambda: BrokenPipeError(32, "broken pipe"), lambda: ConnectionResetError(104, "reset"),
                       lambda: Broken("broken"), lambda: PermissionError(13, "no"), lambda: ValueError("I/O operation on closed file"),
                       lambda: RuntimeError("lost")])()


def plan(ctx):
    n = ctx.n(60, 1500)
    c = []
    for k, m in (("read", 3), ("areads", 2), ("retry", 3), ("cancel", 2), ("write", 16), ("data", 4), ("tasks", 4), ("iterable", 4), ("wrapper", 6), ("compare", 5)):
        c += [("%s-%d" % (k, i), dict(kind=k)) for i in range(m * n)]
    return c + [("process-%d" % i, dict(kind="process", which=i)) for i in range(ctx.n(8, 40))]


def case(ctx, rng, key, p):
    warnings.simplefilter("ignore")
    if p["kind"] == "process":
        return case_process(ctx, rng, p["which"])
    globals()["case_" + p["kind"]](ctx, rng)


class Faulty(io.RawIOBase):
    """A file in memory whose k-th operation of a kind fails, once or from then on"""

    def __init__(self, data, error, op, k, lasting=True, short=None):
        super().__init__()
        self.f, self.error, self.op, self.k, self.lasting, self.short = io.BytesIO(data), error, op, k, lasting, short
        self.n, self.hit = 0, False

    def step(self, op):
        if op != self.op:
            return
        self.n += 1
        if self.n == self.k or (self.lasting and self.n > self.k):
            self.hit = True
            raise self.error

    def readable(self):
        return True

    writable = seekable = readable

    def read(self, n=-1):
        self.step("read")
        if self.short is not None and n > 1:
            n = self.short.choice([n, 1, n // 2])
        return self.f.read(n)

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def write(self, b):
        self.step("write")
        return self.f.write(b)

    def truncate(self, n=None):
        self.step("truncate")
        return self.f.truncate(n)

    def seek(self, *a):
        self.step("seek")
        return self.f.seek(*a)

    def tell(self):
        self.step("tell")
        return self.f.tell()

    def flush(self):
        pass


def outcome(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def told(ctx, src, err, where):
    """the injected error came out, itself or as what caused the one that did"""
    e, depth = err, 0
    while e is not None and e is not src.error and depth < 8:
        e, depth = e.__cause__, depth + 1
    ctx.require(e is not None, where + ": the failure of the file was not reported", injected=src.error, raised=err)


def prefix(ctx, grains, f, where, data=True):
    ctx.require(len(grains) <= len(f["grains"]), where + ": more grains than there are")
    for i, (lid, g) in enumerate(grains):
        ctx.equal(lid, f["grains"][i][0], where + ": segment")
        d = f["grains"][i][1]
        if data or d["type"] != "event":
            refgsf.check_grain(ctx, g, d, where + ": grain %d" % i, data=data)
        ctx.count("grains_before")


def content(rng):
    f = refgsf.random_file(rng, ngrains=rng.randint(1, 4))
    return f, refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0, 0, 0.3])))


# ---------------------------------------------------------------- decoding
def case_read(ctx, rng):
    from mediagrains import gsf
    f, raw = content(rng)
    loading = rng.choice(gsfio.MODES)
    way = rng.choice(["ctx", "ctx", "load", "decode", "old", "pipe"])
    op = rng.choice(["read", "read", "read", "seek", "tell"])
    if way == "pipe":
        op = "read"
    never = loading == "LOAD_NEVER" and way in ("ctx", "old", "pipe")
    k, lasting, most = 1, rng.random() < 0.7, 60
    while k < 5000:
        src = Faulty(raw, r_error(rng), op, k, lasting, rng if way == "pipe" else None)
        file = src
        if way == "pipe":
            file = io.BufferedReader(src, buffer_size=rng.choice([1, 16, 8192])) if rng.random() < 0.5 else src
            file = wrapped(file)
        grains = []

        def go():
            if way in ("ctx", "pipe"):
                with gsf.GSFDecoder(file_data=file) as dec:
                    grains.extend((lid, g) for g, lid in dec.grains(loading_mode=gsfio.mode(loading)))
                    touch(grains, never)
            elif way == "old":
                dec = gsf.GSFDecoder(file_data=file)
                dec.decode_file_headers()
                kw = {"LOAD_IMMEDIATELY": {}, "LOAD_NEVER": dict(skip_data=True)}.get(loading, dict(load_lazily=True))
                for g, lid in dec.grains(**kw):
                    grains.append((lid, g))
                touch(grains, never)
            elif way == "load":
                gsf.load(file)
            else:
                gsf.GSFDecoder(file_data=file).decode()
        # (grains met before the failure are looked at only where their data is there already)
        _, err = outcome(go)
        where = "%s %s, %s %d fails" % (way, loading, op, k)
        if not src.hit:
            ctx.require(err is None or way == "pipe", where + ": error although nothing failed", error=err)
            break
        told(ctx, src, err, where)
        if loading == "LOAD_IMMEDIATELY" or never:
            prefix(ctx, grains, f, where, data=not never)
        ctx.count("read_faults")
        ctx.saw("read", way, loading, op, type(src.error).__name__, len(grains))
        if k == 12:
            ctx.sample(dict(way=way, loading=loading, failing="%s %d" % (op, k), error=repr(src.error), grains_before=len(grains), grains=len(f["grains"]), octets=len(raw)), 1)
        k += 1 if k < most else rng.randint(1, 9)


def wrapped(file):
    try:
        from mediagrains.tools._file_or_pipe import InputStreamWrapper
    except ImportError:
        return file
    return InputStreamWrapper(file)


def touch(grains, never):
    for _, g in grains:
        if not never and g.data is not None and g.grain_type != "event":
            bytes(g.data)


def async_files(rng, raw, error, k, lasting, op="read"):
    """-> (file for the decoder, Faulty behind it)"""
    from mediagrains.utils import asyncbinaryio as ab
    src = Faulty(raw, error, op, k, lasting)
    which = rng.choice(["file", "bytes", "native", "native"])
    if which == "file":
        return ab.AsyncFileWrapper(src), src
    if which == "bytes":
        return ab.AsyncBytesIOWrapper(src), src
    return native(src, rng), src


def native(src, rng):
    from mediagrains.utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO

    class Open(OpenAsyncBinaryIO):
        async def readinto(self, b):
            for _ in range(rng.randint(0, 2)):
                await asyncio.sleep(0)
            return src.readinto(b)

        async def readall(self):
            await asyncio.sleep(0)
            return src.readall()

        async def write(self, b):
            await asyncio.sleep(0)
            return src.write(b)

        async def truncate(self, s=None):
            return src.truncate(s)

        def tell(self):
            return src.tell()

        def seek(self, offset, whence=0):
            return src.seek(offset, whence)

        def seekable(self):
            return True

        readable = writable = seekable

    class Native(AsyncBinaryIO):
        def __init__(self):
            super().__init__(cls=Open)
    return Native()


def case_areads(ctx, rng):
    from mediagrains import gsf
    f, raw = content(rng)
    loading = rng.choice(gsfio.MODES)
    never = loading == "LOAD_NEVER"
    whole = rng.random() < 0.2
    stream = rng.random() < 0.25
    k, lasting = 1, rng.random() < 0.7
    op = rng.choice(["read", "read", "seek", "tell"])
    most = 40
    while k < 5000:
        grains = []
        error = r_error(rng)

        async def go():
            if stream:
                # the connection breaks after so many octets
                from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
                reader = asyncio.StreamReader()
                src = Faulty(raw, error, "read", 1)
                src.hit = k < len(raw) - 8

                async def feed():
                    a, n = 0, min(k, len(raw))
                    while a < n:
                        b = min(n, a + rng.choice([1, 30, 1000]))
                        reader.feed_data(raw[a:b])
                        a = b
                        await asyncio.sleep(0)
                    if src.hit:
                        reader.set_exception(error)
                    else:
                        reader.feed_eof()
                task = asyncio.ensure_future(feed())
                file = AsyncStreamWrapper(reader=reader)
            else:
                file, src = async_files(rng, raw, error, k, lasting, op)
                task = None
            err = None
            try:
                if whole:
                    await gsf.load(file)
                else:
                    async with gsf.GSFDecoder(file_data=file) as dec:
                        async for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                            grains.append((lid, g))
                        if not never:
                            for _, g in grains:
                                await g
            except Exception as e:
                err = e
            if task:
                await task
            return src, err
        src, err = gsfio.run(go())
        where = "%s%s %s, %s %d fails" % ("stream, " if stream else "", "load" if whole else "async", loading, op, k)
        if not src.hit:
            ctx.require(err is None or stream, where + ": error although nothing failed", error=err)
            break
        told(ctx, src, err, where)
        if not whole and (loading == "LOAD_IMMEDIATELY" or never):
            prefix(ctx, grains, f, where, data=not never)
        ctx.count("read_faults")
        ctx.saw("areads", whole, stream, loading, type(error).__name__, len(grains))
        k += (1 if k < most else rng.randint(1, 9)) if not stream else max(1, rng.randint(1, max(2, len(raw) // 25)))


def deferred(rng):
    """a file with data worth deferring -> (content, octets, loading mode)"""
    f = refgsf.random_file(rng, ngrains=rng.randint(2, 5))
    for _, d in f["grains"]:
        if d["type"] in ("coded_video", "coded_audio"):
            d["data"] = gen.rbytes(rng, rng.choice([1, 30, 500]))
    return f, refgsf.file_bytes(f, refgsf.Knobs(rng, rng.choice([0, 0.3]))), "ALWAYS_DEFER_LOAD_IF_POSSIBLE"


def case_retry(ctx, rng):
    """loading the data of a grain fails once, and is tried again"""
    from mediagrains import gsf
    f, raw, loading = deferred(rng)
    src = Faulty(raw, r_error(rng), "read", -1, False)

    def arm():
        src.n, src.k, src.hit, src.error = 0, 1, False, r_error(rng)

    def disarm():
        src.k = -1
    if rng.random() < 0.4:
        with gsf.GSFDecoder(file_data=src) as dec:
            grains = []
            for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                grains.append((lid, g))
                if rng.random() < 0.4:
                    attempt(ctx, rng, rng.choice(grains)[1], arm, disarm, src)
            for _, g in rng.sample(grains, len(grains)):
                attempt(ctx, rng, g, arm, disarm, src)
            ctx.equal(len(grains), len(f["grains"]), "number of grains after failures")
            prefix(ctx, grains, f, "data loaded after a failure")
        return
    from mediagrains.utils import asyncbinaryio as ab
    file = rng.choice([lambda: ab.AsyncFileWrapper(src), lambda: ab.AsyncBytesIOWrapper(src), lambda: native(src, rng)])()

    async def aattempt(g):
        if g.grain_type == "event":
            return
        arm()
        err = None
        try:
            await g
        except Exception as e:
            err = e
        if src.hit:
            told(ctx, src, err, "deferred data")
            ctx.count("retries")
            ctx.saw("retry", "async", g.grain_type, type(src.error).__name__)
        disarm()

    async def go():
        async with gsf.GSFDecoder(file_data=file) as dec:
            grains = []
            async for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                grains.append((lid, g))
                if rng.random() < 0.4:
                    await aattempt(rng.choice(grains)[1])
                elif rng.random() < 0.2:
                    await rng.choice(grains)[1]
            for _, g in rng.sample(grains, len(grains)):
                await aattempt(g)
                if rng.random() < 0.5:
                    await rng.choice(grains)[1]
            ctx.equal(len(grains), len(f["grains"]), "number of grains after failures")
            if rng.random() < 0.5:
                await asyncio.gather(*[asyncio.ensure_future(hold(g)) for _, g in grains])
            else:
                for _, g in grains:
                    await g
            prefix(ctx, grains, f, "data loaded after a failure")
    gsfio.run(asyncio_limit(ctx, go(), "data loaded after a failure"))


async def hold(g):
    await g


async def asyncio_limit(ctx, coro, where):
    try:
        return await asyncio.wait_for(coro, 60)
    except asyncio.TimeoutError as e:
        if "timed out" in str(e):
            raise
        ctx.fail(where + ": waits for ever")


def attempt(ctx, rng, g, arm, disarm, src):
    if g.grain_type == "event" or g.data is None:
        return
    arm()
    _, err = outcome(lambda: bytes(g.data))
    if src.hit:
        told(ctx, src, err, "deferred data")
        ctx.count("retries")
        ctx.saw("retry", "sync", g.grain_type, type(src.error).__name__)
    disarm()


def case_cancel(ctx, rng):
    """a task loading data is cancelled part-way; everything can still be loaded"""
    from mediagrains import gsf
    f, raw, loading = deferred(rng)
    file = gsfio.lagging_source(raw, rng, lag=rng.choice([2, 6]))

    async def go():
        async with gsf.GSFDecoder(file_data=file) as dec:
            grains = []
            async for g, lid in dec.grains(loading_mode=gsfio.mode(loading)):
                grains.append((lid, g))
                if rng.random() < 0.3:
                    await spoil(rng.choice(grains)[1])
            for _ in range(rng.randint(1, 4)):
                await spoil(*[g for _, g in rng.sample(grains, rng.randint(1, len(grains)))])
            ctx.equal(len(grains), len(f["grains"]), "number of grains after cancelled tasks")
            if rng.random() < 0.5:
                await asyncio.gather(*[asyncio.ensure_future(hold(g)) for _, g in grains])
            else:
                for _, g in grains:
                    await g
            prefix(ctx, grains, f, "data loaded after a cancelled attempt")

    async def spoil(*gs):
        tasks = [asyncio.ensure_future(hold(g)) for g in gs]
        for _ in range(rng.randint(0, 6)):
            await asyncio.sleep(0)
        for t in rng.sample(tasks, rng.randint(1, len(tasks))):
            t.cancel()
        done = await asyncio.gather(*tasks, return_exceptions=True)
        for r in done:
            ctx.require(r is None or isinstance(r, asyncio.CancelledError), "loading beside a cancelled task failed", error=r)
            ctx.count("cancellations", 1 if r is not None else 0)
        ctx.saw("cancel", len(gs), sum(r is not None for r in done))
    gsfio.run(asyncio_limit(ctx, go(), "data loaded after a cancelled attempt"))


# ---------------------------------------------------------------- encoding
class FaultyWriter(gsfio.FakeWriter):
    def __init__(self, error, op, k):
        super().__init__()
        self.error, self.op, self.k, self.n, self.hit = error, op, k, 0, False

    def step(self, op):
        if op == self.op:
            self.n += 1
            if self.n >= self.k:
                self.hit = True
                raise self.error

    def write(self, b):
        self.step("write")
        super().write(b)

    async def drain(self):
        await asyncio.sleep(0)
        self.step("drain")


def case_write(ctx, rng):
    from mediagrains import gsf
    from mediagrains.utils import asyncbinaryio as ab
    f = gsfcase.content(rng, ngrains=rng.randint(1, 4))
    how = rng.choice(["stream", "plain", "old", "dump", "astream", "aplain", "anative", "awrapper", "connection"])
    op = rng.choice(["write"] * 6 + ["tell", "seek", "truncate"])
    if how == "connection":
        op = rng.choice(["write", "drain"])
    lasting = rng.random() < 0.5
    grains = gsfcase.build_grains(rng, f)
    kw = gsfcase.enc_kw(f, rng)
    k = 1
    while k < 3000:
        error = r_error(rng)
        src = FaultyWriter(error, op, k) if how == "connection" else Faulty(b"", error, op, k, lasting)

        def go():
            if how == "dump":
                gsf.dump([g for _, g in grains], src, **kw)
                return
            if how in ("stream", "plain", "old"):
                enc = gsf.GSFEncoder(src, streaming=how == "stream", **kw)
                gsfio._setup_segments(enc, f["head"]["segments"])
                if how == "old":
                    enc.start_dump()
                    for lid, g in grains:
                        enc.add_grain(g, segment_local_id=lid)
                    enc.end_dump()
                    return
                with enc as e:
                    for lid, g in grains:
                        e.add_grain(g, segment_local_id=lid)
                return

            async def ago():
                sink = src
                if how == "anative":
                    sink = native(src, rng)
                elif how == "awrapper":
                    sink = rng.choice([ab.AsyncFileWrapper, ab.AsyncBytesIOWrapper])(src)
                elif how == "connection":
                    sink = ab.AsyncStreamWrapper(writer=src)
                enc = gsf.GSFEncoder(sink, streaming=how != "aplain" and (how in ("astream", "connection") or streaming), **kw)
                gsfio._setup_segments(enc, f["head"]["segments"])
                async with enc as e:
                    for lid, g in grains:
                        await e.add_grain(g, segment_local_id=lid)
            gsfio.run(ago())
        streaming = rng.random() < 0.6
        _, err = outcome(go)
        where = "%s, %s %d fails" % (how, op, k)
        if not src.hit:
            ctx.require(err is None, where + ": error although nothing failed", error=err)
            break
        told(ctx, src, err, where)
        ctx.count("write_faults")
        ctx.saw("write", how, op, type(error).__name__, min(k, 12), lasting)
        k += 1 if k < 40 else rng.randint(1, 9)


class FaultyData:
    """Data that cannot be had: an awaitable that raises"""

    def __init__(self, error):
        self.error = error

    def __await__(self):
        yield from asyncio.sleep(0).__await__()
        raise self.error


def case_data(ctx, rng):
    """the data of one grain cannot be read when it is written: told, and what the file then holds is right"""
    from mediagrains import gsf
    from mediagrains.utils import IOBytes
    f = gsfcase.content(rng, ngrains=rng.randint(2, 5))
    able = [i for i, (_, d) in enumerate(f["grains"]) if d["type"] != "event" and d["data"]]
    if not able:
        return
    bad = rng.choice(able)
    error = r_error(rng)
    how = rng.choice(["stream", "plain", "old", "dumps", "astream", "aplain", "astream_awaitable", "aplain_awaitable"])
    grains = gsfcase.build_grains(rng, f)
    g = grains[bad][1]
    size = len(gen.data_bytes(g.data))
    what = "data"
    if rng.random() < 0.3:
        from . import g02
        d = dict(f["grains"][bad][1])
        what = "unfit " + g02.misfit(rng, d, f["major"])
        g, src, error = gen.build(d, "meta", bytes), None, gsf.GSFEncodeError("")
    elif how.endswith("awaitable"):
        g = gen.build(dict(f["grains"][bad][1], data=None), "meta")
        g.data = FaultyData(error)
        src = Faulty(b"", error, "read", 1)
    else:
        src = Faulty(bytes(size), error, "read", 1)
        g.data = IOBytes(src, 0, size)
    grains[bad] = (grains[bad][0], g)
    kw = gsfcase.enc_kw(f, rng)
    out = io.BytesIO()
    errs = []

    def keep(call):
        try:
            call()
        except Exception as e:
            errs.append(e)

    def go():
        if how == "dumps":
            gsf.dumps([x for _, x in grains], **kw)
            return
        enc = gsf.GSFEncoder(out, streaming=how == "stream", **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        if how == "old":
            enc.start_dump()
            for lid, x in grains:
                keep(lambda: enc.add_grain(x, segment_local_id=lid))
            enc.end_dump()
            return
        with enc as e:
            for lid, x in grains:
                keep(lambda: e.add_grain(x, segment_local_id=lid))

    async def ago():
        enc = gsf.GSFEncoder(out, streaming=how.startswith("astream"), **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        async with enc as e:
            for lid, x in grains:
                try:
                    await e.add_grain(x, segment_local_id=lid)
                except Exception as x:
                    errs.append(x)
    _, err = outcome(lambda: gsfio.run(ago()) if how[0] == "a" else go())
    raised = errs + ([err] if err else [])
    where = "%s, %s of grain %d of %d cannot be written" % (how, what, bad, len(grains))
    ctx.require(raised, where + ": not reported", written=out.getvalue()[-100:])
    if src is None:
        ctx.require(isinstance(raised[0], gsf.GSFEncodeError), where + ": not reported as such", raised=raised[0])
    else:
        told(ctx, src, raised[0], where)
    ctx.count("data_faults")
    ctx.saw("data", how, what, type(error).__name__, len(errs), err is not None)
    if err is None and out.getvalue():
        holds(ctx, out.getvalue(), f, [x for i, x in enumerate(f["grains"]) if i != bad], where + " (the caller went on)")
        ctx.count("written_without_it")


class SlowData:
    """Data that takes its time, or cannot be had in the end"""

    def __init__(self, data, error, rng):
        self.data, self.error, self.n = data, error, rng.randint(0, 4)

    def __await__(self):
        for _ in range(self.n):
            yield from asyncio.sleep(0).__await__()
        if self.error is not None:
            raise self.error
        return self.data


def case_tasks(ctx, rng):
    """several tasks add grains whose data is awaited; some of the data cannot be had"""
    from mediagrains import gsf
    f = gsfcase.content(rng, ngrains=rng.randint(2, 8))
    out = io.BytesIO()
    error = r_error(rng)
    bad = set()
    work = []
    for i, (lid, d) in enumerate(f["grains"]):
        g = gen.build(dict(d, data=None), "meta") if d["type"] != "event" and d["data"] else gen.build(d, "meta")
        if d["type"] != "event" and d["data"]:
            if rng.random() < 0.4:
                bad.add(i)
            g.data = SlowData(d["data"], error if i in bad else None, rng)
        work.append((i, lid, g))
    streaming = rng.random() < 0.6
    together = rng.random() < 0.3

    async def one(e, i, lid, g):
        for _ in range(rng.randint(0, 3)):
            await asyncio.sleep(0)
        await (e.add_grains([g], segment_local_id=lid) if together else e.add_grain(g, segment_local_id=lid))

    async def go():
        enc = gsf.GSFEncoder(native(out, rng) if rng.random() < 0.5 else out, streaming=streaming, **gsfcase.enc_kw(f, rng))
        gsfio._setup_segments(enc, f["head"]["segments"])
        async with enc as e:
            return await asyncio.gather(*[asyncio.ensure_future(one(e, *w)) for w in work], return_exceptions=True)
    got = gsfio.run(asyncio_limit(ctx, go(), "tasks adding grains, some failing"))
    where = "%d tasks adding grains, %d with data that cannot be had" % (len(work), len(bad))
    for i, r in enumerate(got):
        ctx.require((r is error) if i in bad else (r is None), where + ": what adding grain %d told" % i, told=r, injected=i in bad)
        ctx.count("data_faults", 1 if i in bad else 0)
    ctx.count("task_files")
    left = [x for i, x in enumerate(f["grains"]) if i not in bad]
    found = refgsf.parse(out.getvalue())[0]["grains"]
    order = []
    rest = list(left)
    for lid, d in found:
        k = next((k for k, (l2, w) in enumerate(rest) if l2 == lid and same(d, w)), None)
        ctx.require(k is not None, where + ": the file holds a grain that was not added, or one twice", grain=d)
        order.append(rest.pop(k))
    ctx.require(not rest, where + ": %d grains are not in the file" % len(rest))
    holds(ctx, out.getvalue(), f, order, where)
    ctx.saw("tasks", len(work), len(bad), streaming, together)


def same(a, b):
    a, b = dict(a), gen.expected(b, creation=False)
    b.pop("cls")
    if a["type"] == "event":
        a.pop("data", None)
    return gen.diff(a, b) is None


def holds(ctx, raw, f, grains, where):
    """the file is whole and has these grains"""
    segs = [dict(s, count=sum(lid == s["local_id"] for lid, _ in grains)) for s in f["head"]["segments"]]
    g02.judge_file(ctx, raw, dict(f, grains=grains, head=dict(f["head"], segments=segs)), where, False)


def case_iterable(ctx, rng):
    """what gives the grains fails: told, and the grains before it are written"""
    from mediagrains import gsf
    f = gsfcase.content(rng, ngrains=rng.randint(1, 5))
    grains = gsfcase.build_grains(rng, f)
    lid = rng.choice(f["head"]["segments"])["local_id"]
    error = r_error(rng)
    k = rng.randint(0, len(grains))
    rest = rng.random() < 0.5

    def feed():
        for _, g in grains[:k]:
            yield g
        raise error
    how = rng.choice(["stream", "plain", "old", "segment", "dumps", "dump", "astream", "aplain"])
    kw = gsfcase.enc_kw(f, rng)
    out = io.BytesIO()
    err = None

    def go():
        nonlocal err
        if how == "dumps":
            _, err = outcome(lambda: gsf.dumps(feed(), **kw))
            return
        if how == "dump":
            _, err = outcome(lambda: gsf.dump(feed(), out, **kw))
            return
        enc = gsf.GSFEncoder(out, streaming=how in ("stream", "segment"), **kw)
        hs = {h.local_id: h for h in gsfio._setup_segments(enc, f["head"]["segments"])}
        if how == "old":
            enc.start_dump()
            _, err = outcome(lambda: enc.add_grains(feed(), segment_local_id=lid))
            for _, g in grains[k:] if rest else ():
                enc.add_grain(g, segment_local_id=lid)
            enc.end_dump()
            return
        with enc as e:
            if how == "segment":
                _, err = outcome(lambda: hs[lid].add_grains(feed()))
            else:
                _, err = outcome(lambda: e.add_grains(feed(), segment_local_id=lid))
            for _, g in grains[k:] if rest else ():
                e.add_grain(g, segment_local_id=lid)

    async def ago():
        nonlocal err
        enc = gsf.GSFEncoder(out, streaming=how == "astream", **kw)
        gsfio._setup_segments(enc, f["head"]["segments"])
        async with enc as e:
            try:
                await e.add_grains(feed(), segment_local_id=lid)
            except Exception as x:
                err = x
            for _, g in grains[k:] if rest else ():
                await e.add_grain(g, segment_local_id=lid)
    gsfio.run(ago()) if how[0] == "a" else go()
    where = "%s, grains fail after %d of %d" % (how, k, len(grains))
    ctx.require(err is error, where + ": not reported", error=err, injected=error)
    if how not in ("dumps", "dump"):
        holds(ctx, out.getvalue(), f, [(lid, d) for _, d in f["grains"][:None if rest else k]], where)
    ctx.count("iterable_faults")
    ctx.saw("iterable", how, type(error).__name__, k, rest)


# ---------------------------------------------------------------- essence
class FaultyInput:
    """an input with only read(), whose k-th read fails"""

    def __init__(self, data, error, k, rng):
        self.b, self.pos, self.error, self.k, self.n, self.hit, self.rng = data, 0, error, k, 0, False, rng

    def read(self, n=-1):
        self.n += 1
        if self.n >= self.k:
            self.hit = True
            raise self.error
        n = len(self.b) if n is None or n < 0 else n
        if n > 1 and self.rng is not None:
            n = self.rng.choice([n, n, 1, n // 2])
        r = self.b[self.pos:self.pos + n]
        self.pos += len(r)
        return r


def case_wrapper(ctx, rng):
    """the essence cannot be read any further: told, after a run of the grains there are"""
    from mediagrains import utils
    from mediagrains.grains import AudioGrain, CodedVideoGrain, VideoGrain
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    kind = rng.choice(["video", "audio", "aac", "h264"])
    ids = dict(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(rng.randint(0, 10 ** 15)))
    if kind in ("video", "audio"):
        n = rng.randint(1, 6)
        if kind == "video":
            name = rng.choice(gen.PLANAR)
            w, h = 2 * rng.randint(1, 20), 2 * rng.randint(1, 10)
            size = gen.video_size(name, w, h)
            t = VideoGrain(rate=Fraction(25), width=w, height=h, cog_frame_format=CogFrameFormat(gen.FRAME[name]), **ids)
        else:
            name = rng.choice(gen.PCM)
            size = gen.audio_size(name, 2, 48)
            t = AudioGrain(rate=Fraction(1000), cog_audio_format=CogAudioFormat(gen.AUDIO[name]), channels=2, samples=48, sample_rate=48000, **ids)
        frames = [gen.rbytes(rng, size) for _ in range(n)]
        make = lambda src: utils.GrainWrapper(t, src)   # noqa: E731
    elif kind == "aac":
        fi, cc = rng.randrange(13), rng.randint(1, 7)
        frames = [w02.frame(rng, fi, cc, rng.randint(9, 400)) for _ in range(rng.randint(1, 6))]
        t, _ = w02.template(rng, rng.randint(0, 10 ** 15))
        make = lambda src: utils.ADTSAACGrainWrapper(t, src)   # noqa: E731
    else:
        st = h264ref.stream(rng, rng.choice([1, 2, 3]), 0, None)
        frames = [st["data"][a:b] for a, b, _, _ in st["aus"]]
        t = CodedVideoGrain(rate=Fraction(25), origin_width=1920, origin_height=1080, cog_frame_format=CogFrameFormat.H264, **ids)
        make = lambda src: utils.H264GrainWrapper(t, src)   # noqa: E731
    data = b"".join(frames)
    short = rng if len(data) < 600 and rng.random() < 0.5 else None
    how = rng.choice(["input", "file", "pipe"])
    k = 1
    while k < 4000:
        error = r_error(rng)
        if isinstance(error, ValueError):        # (what a malformed stream gives)
            error = Broken("broken")
        src = FaultyInput(data, error, k, short) if how == "input" else Faulty(data, error, "read", k, True, short)
        file = src if how != "pipe" else wrapped(src)
        got = []

        def go():
            for g in make(file).grains():
                got.append(gen.data_bytes(g.data))
        _, err = outcome(go)
        where = "%s from %s, read %d fails" % (kind, how, k)
        if not src.hit:
            ctx.require(err is None, where + ": error although nothing failed", error=err)
            ctx.equal(len(got), len(frames), where + ": grains")
            break
        told(ctx, src, err, where)
        ctx.equal(got, frames[:len(got)], where + ": grains before")
        ctx.count("wrapper_faults")
        ctx.saw("wrapper", kind, how, type(error).__name__, len(got))
        k += 1 if k < 50 else rng.randint(1, 60)


# ---------------------------------------------------------------- comparison
def case_compare(ctx, rng):
    """a comparison cannot be finished: told, never a verdict"""
    from mediagrains.comparison import compare_grain, compare_grains_pairwise
    from mediagrains.utils import IOBytes
    f = gsfcase.content(rng, ngrains=rng.randint(1, 5))
    one, two = ([gen.build(d, "meta") for _, d in f["grains"]] for _ in range(2))
    error = r_error(rng)
    if rng.random() < 0.5:
        k = rng.randint(0, len(one))

        def feed(gs):
            for g in gs[:k]:
                yield g
            raise error
        a, b = rng.choice([(feed(one), iter(two)), (iter(one), feed(two)), (feed(one), feed(two))])
        r, err = outcome(lambda: compare_grains_pairwise(a, b, return_last_only=rng.random() < 0.3))
        what = "iterator"
        # (where the other one ends sooner the end of it is the verdict)
        if k == len(one) and err is None:
            return
    else:
        able = [i for i, (_, d) in enumerate(f["grains"]) if d["type"] != "event" and d["data"]]
        if not able:
            return
        i = rng.choice(able)
        n = len(f["grains"][i][1]["data"])
        src = Faulty(bytes(n), error, "read", 1)
        rng.choice([one, two])[i].data = IOBytes(src, 0, n)
        if rng.random() < 0.5:
            r, err = outcome(lambda: compare_grain(one[i], two[i]))
        else:
            r, err = outcome(lambda: compare_grains_pairwise(iter(one), iter(two)))
        what = "data"
    ctx.require(err is error, "comparison although the %s failed" % what, error=err, injected=error, result=r if err is None else None)
    ctx.count("comparison_faults")
    ctx.saw("compare", what, type(error).__name__, len(one))


# ---------------------------------------------------------------- tools
def run_tool(name, args, **kw):
    return subprocess.run([sys.executable, "-W", "ignore", "-c", "from mediagrains.tools import %s; %s()" % (name, name)] + [str(a) for a in args],
                          stderr=subprocess.PIPE, timeout=300, env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"), **kw)


def case_process(ctx, rng, which):
    """a tool that could not read its input or write its output says so by its exit status"""
    w, h = 16, 8
    size = gen.video_size("U8_422", w, h)
    essence_data = gen.rbytes(rng, size * rng.randint(1, 40))
    opts = ["--size", "%dx%d" % (w, h), "--format", "U8_422"]
    with gsfio.TmpFile(essence_data) as raw, gsfio.TmpFile() as made:
        def ok(r, what):
            ctx.equal(r.returncode, 0, what, stderr=r.stderr[-300:])
        ok(run_tool("wrap_video_in_gsf", [raw, made] + opts, stdout=subprocess.DEVNULL), "wrapping")
        kind = which % 8
        with open("/dev/full", "wb") as full, open(raw, "rb") as rin, open(made, "rb") as gin, open(raw, "ab") as noread:
            r = [lambda: run_tool("wrap_video_in_gsf", [raw, "/dev/full"] + opts, stdout=subprocess.DEVNULL),
                 lambda: run_tool("wrap_video_in_gsf", ["-", "-"] + opts, stdin=rin, stdout=full),
                 lambda: run_tool("extract_gsf_essence", [made, "/dev/full"], stdout=subprocess.DEVNULL),
                 lambda: run_tool("extract_gsf_essence", ["-", "-"], stdin=gin, stdout=full),
                 lambda: run_tool("gsf_probe", [made], stdout=full),
                 lambda: run_tool("wrap_video_in_gsf", [raw + ".none", made] + opts, stdout=subprocess.DEVNULL),
                 lambda: run_tool("wrap_video_in_gsf", ["-", made] + opts, stdin=noread, stdout=subprocess.DEVNULL),
                 lambda: run_tool("extract_gsf_essence", ["-", raw], stdin=noread, stdout=subprocess.DEVNULL)][kind]()
        ctx.require(r.returncode != 0, "a tool that could not read its input or write its output ended with status 0", which=kind, stderr=r.stderr[-300:])
        ctx.count("process_faults")
        ctx.saw("process", kind)
