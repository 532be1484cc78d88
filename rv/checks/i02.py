"""I02: asynchronous binary files behave exactly like their synchronous counterparts."""
import asyncio
import io

from .. import gen, gsfio

ID = "I02"
LEVEL = "exploration"
RULE = ("A case runs one random history of reads, bulk reads, writes, seeks, tells and truncations on an asynchronous file and on the "
        "equivalent synchronous file with the same bytes, comparing every result, error, position and the final content. Kinds: in "
        "memory, wrapped BytesIO, wrapped buffered and raw disk files, stream readers fed in random pieces, stream writers, a user "
        "class that only implements readinto with partial counts, and the pipe wrapper of the tools. Distinct = (kind, operation, outcome).")
FLOORS = dict(operations_judged=20000, contents_judged=1200, errors_agreed=150, bytes_read=50000, large_files=10)
KINDS = ["mem", "mem", "filewrap_bytesio", "byteswrap", "filewrap_file", "filewrap_raw", "stream_in", "stream_in", "stream_out", "partial", "pipe"]


def plan(ctx):
    n = ctx.n(150, 5000)
    return [("%s-%d-%d" % (k, i, j), dict(kind=k)) for i, k in enumerate(KINDS) for j in range(n)] + \
        [("large-%s-%d" % (k, j), dict(kind=k, large=1)) for k in KINDS[1:6] for j in range(ctx.n(4, 60))]


def case(ctx, rng, key, p):
    kind = p["kind"]
    data = gen.rbytes(rng, rng.choice([0, 1, 5, 100, 1000]) if "large" not in p else rng.choice([70000, 200000]))
    if "large" in p:
        ctx.count("large_files")
    if kind in ("mem", "filewrap_bytesio", "byteswrap", "filewrap_file", "filewrap_raw"):
        gsfio.run(two_files(ctx, rng, kind, data))
    elif kind == "stream_in":
        gsfio.run(stream_in(ctx, rng, data))
    elif kind == "stream_out":
        gsfio.run(stream_out(ctx, rng))
    elif kind == "partial":
        gsfio.run(partial(ctx, rng, data))
    else:
        pipe(ctx, rng, data)


def op(rng, n, write=True, whences=(0, 1, 2), truncate=True):
    k = rng.random()
    size = rng.choice([0, 1, 2, 7, n // 3 + 1, n, n + 5, 100000])
    if k < 0.25:
        return ("read", size)
    if k < 0.30:
        return ("read", -1)
    if k < 0.33:
        return ("read",)
    if k < 0.38:
        return ("readall",)
    if k < 0.5:
        return ("readinto", min(size, 3000))
    if k < 0.7 or not write:
        w = rng.choice(whences)
        lo = {0: (-2 if rng.random() < 0.1 else 0, n + 20), 1: (-n, n), 2: (-n - 3, 10)}[w]
        return ("seek", rng.randint(*lo), w) if w or rng.random() < 0.5 else ("seek", rng.randint(*lo))
    if k < 0.9:
        return ("write", gen.rbytes(rng, rng.choice([0, 1, 3, 50, 300])))
    if truncate:
        return ("truncate",) if rng.random() < 0.4 else ("truncate", rng.choice([0, n // 2, n, n + 30, -1 if rng.random() < 0.2 else 3]))
    return ("tell",)


def sync_do(f, o):
    if o[0] == "readall":
        return f.read()
    if o[0] == "readinto":
        b = bytearray(b"\xee" * o[1])
        return (f.readinto(b), bytes(b))
    return getattr(f, o[0])(*o[1:])


async def async_do(f, o):
    if o[0] == "readinto":
        b = bytearray(b"\xee" * o[1])
        return (await f.readinto(b), bytes(b))
    r = getattr(f, o[0])(*o[1:])
    return await r if o[0] not in ("seek", "tell") else r


async def compare(ctx, where, kind, a, s, o, loose_errors=False):
    want = got = None
    werr = gerr = None
    try:
        want = sync_do(s, o)
    except Exception as e:
        werr = e
    try:
        got = await async_do(a, o)
    except Exception as e:
        gerr = e
    what = "%s: %s" % (where, " ".join(str(x if not isinstance(x, bytes) else "<%d octets>" % len(x)) for x in o))
    if werr is not None or gerr is not None:
        ctx.require(werr is not None and gerr is not None, what + ": error on one side only", sync=werr or want, asynchronous=gerr or got)
        ctx.require(isinstance(gerr, type(werr)) or isinstance(werr, type(gerr)), what + ": different errors", sync=werr, asynchronous=gerr)
        ctx.count("errors_agreed")
    else:
        ctx.require(got == want, what + ": result", got=got, want=want)
        if isinstance(want, bytes):
            ctx.count("bytes_read", len(want))
            ctx.require(isinstance(got, bytes), what + ": type of result", got=type(got))
    ctx.equal(a.tell(), s.tell(), what + ": position after")
    ctx.count("operations_judged")
    ctx.saw(kind, o[0], len(o), type(werr).__name__, isinstance(want, bytes) and len(want) > 0)


async def two_files(ctx, rng, kind, data):
    from mediagrains.utils import asyncbinaryio as ab
    tmp = []
    if kind == "mem":
        af, s = ab.AsyncBytesIO(data), io.BytesIO(data)
    elif kind == "filewrap_bytesio":
        af, s = ab.AsyncFileWrapper(io.BytesIO(data)), io.BytesIO(data)
    elif kind == "byteswrap":
        af, s = ab.AsyncBytesIOWrapper(io.BytesIO(data)), io.BytesIO(data)
    else:
        tmp = [gsfio.TmpFile(data), gsfio.TmpFile(data)]
        fs = [open(t.path, "r+b", **({} if kind == "filewrap_file" else dict(buffering=0))) for t in tmp]
        af, s = ab.AsyncFileWrapper(fs[0]), fs[1]
    try:
        async with af as a:
            ctx.equal((a.readable(), a.writable(), a.seekable(), a.seekable_forwards(), a.seekable_backwards()), (True,) * 5, kind + ": abilities")
            ctx.equal(a.tell(), s.tell(), kind + ": initial position")
            n = len(data)
            first = []
            if n > 50000:                # shorten, jump, write behind: gaps larger than any block
                first = [("truncate", rng.choice([0, 9, n // 50])), ("seek", rng.randint(n - 3000, n - 400)), ("write", gen.rbytes(rng, rng.choice([3, 300]))),
                         ("seek", 0), ("readall",)]
            for i in range(rng.randint(5, 40)):
                await compare(ctx, "%s, step %d" % (kind, i), kind, a, s, first.pop(0) if first else op(rng, n))
                if kind == "mem" and rng.random() < 0.2:
                    ctx.equal(af.getvalue(), s.getvalue(), "content of AsyncBytesIO, step %d" % i)
                if rng.random() < 0.1:
                    s.seek(0), a.seek(0)
            if not tmp:
                want = s.getvalue()
                got = af.getvalue() if kind == "mem" else a.getsync().getvalue()
                if kind == "mem":
                    ctx.equal(bytes(af.getbuffer()), want, "getbuffer")
                    ctx.equal(af.value(), want, "value")
                    ctx.equal(a.getvalue(), want, "getvalue of the open file")
                else:
                    ctx.require(a.getsync() is af.fp, "getsync is the wrapped file")
        if tmp:
            for f in fs:
                f.flush()
            got, want = tmp[0].read(), tmp[1].read()
        ctx.equal(got, want, kind + ": final content")
        ctx.count("contents_judged")
        if kind == "mem":
            async with af as again:
                ctx.equal((again.tell(), await again.read()), (0, want), "content on opening again")
    finally:
        if tmp:
            for f, t in zip(fs, tmp):
                f.close()
                t.__exit__()
    ctx.sample(dict(kind=kind, bytes=len(data)), 1)


async def stream_in(ctx, rng, data):
    src, task = gsfio.async_stream(data, rng, step=rng.choice([None, 1, 4]) if len(data) <= 100 else None)
    model = io.BytesIO(data)
    got = []
    async with src as a:
        ctx.require(a.getstream() == src.getstream() and src.getstream() == (src.reader, None) and src.reader is not None, "stream reader: getstream", got=(a.getstream(), src.getstream()))
        ctx.equal((a.readable(), a.writable(), a.seekable(), a.seekable_forwards(), a.seekable_backwards()), (True, False, False, True, False),
                  "stream reader: abilities")
        n = len(data)
        for i in range(rng.randint(3, 30)):
            o = op(rng, max(6, n // 4), write=False, whences=(0, 1))
            if o[0] == "seek":
                cur = model.tell()
                if rng.random() < 0.85:
                    fwd = rng.randint(0, n // 4 + 1)
                    o = ("seek", cur + fwd, 0) if rng.random() < 0.5 else ("seek", fwd, 1)
                target = o[1] if len(o) == 2 or o[2] == 0 else cur + o[1]
                if target < cur:
                    before = a.tell()
                    try:
                        a.seek(*o[1:])
                    except io.UnsupportedOperation:
                        ctx.count("errors_agreed")
                    else:
                        # moving back within a jump not yet carried out is possible
                        ctx.require(a.tell() == target, "stream reader: accepted a backward seek and went elsewhere")
                        model.seek(target)
                        continue
                    ctx.equal(a.tell(), before, "stream reader: position after a refused seek")
                    continue
            p = model.tell()
            await compare(ctx, "stream reader, step %d" % i, "stream_in", a, model, o)
            got.append((p, o))
        await compare(ctx, "stream reader, the rest", "stream_in", a, model, rng.choice([("read", -1), ("readall",), ("read", n + 1)]))
        await compare(ctx, "stream reader, at the end", "stream_in", a, model, rng.choice([("read", -1), ("read", 3), ("readinto", 4)]))
        for f, args in ((a.write, (b"x",)), (a.truncate, (0,))):
            try:
                await f(*args)
            except io.UnsupportedOperation:
                ctx.count("errors_agreed")
            else:
                ctx.fail("stream reader: %s accepted" % f.__name__)
    ctx.count("contents_judged")
    task.cancel()


async def stream_out(ctx, rng):
    from mediagrains.utils import asyncbinaryio as ab
    w = gsfio.FakeWriter()
    model = io.BytesIO()
    af = ab.AsyncStreamWrapper(writer=w)
    ctx.equal(af.getstream(), (None, w), "stream writer: getstream before it is opened")
    async with af as a:
        ctx.equal(a.getstream(), (None, w), "stream writer: getstream")
        ctx.equal((a.readable(), a.writable(), a.seekable(), a.seekable_forwards(), a.seekable_backwards()), (False, True, False, True, False),
                  "stream writer: abilities")
        for i in range(rng.randint(1, 20)):
            if rng.random() < 0.6:
                o = ("write", gen.rbytes(rng, rng.choice([0, 1, 30, 500])))
            else:
                fwd = rng.randint(0, 20)
                o = ("seek", model.tell() + fwd) if rng.random() < 0.5 else ("seek", fwd, 1)
            if o[0] == "write" and not o[1]:
                continue                 # nothing to write: whether a gap before it is filled is not observable in a file
            await compare(ctx, "stream writer, step %d" % i, "stream_out", a, model, o)
        for f, args in ((a.read, (1,)), (a.readall, ()), (a.readinto, (bytearray(2),)), (a.truncate, (0,))):
            try:
                await f(*args)
            except io.UnsupportedOperation:
                ctx.count("errors_agreed")
            else:
                ctx.fail("stream writer: %s accepted" % f.__name__)
    ctx.equal(b"".join(w.parts), model.getvalue(), "stream writer: octets written")
    ctx.equal(w.closed, True, "stream writer: closed on exit")
    ctx.count("contents_judged")


async def partial(ctx, rng, data):
    """A class that only implements what OpenAsyncBinaryIO leaves abstract, with partial and empty-handed reads."""
    from mediagrains.utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO

    class Mine(OpenAsyncBinaryIO):
        def __init__(self, b):
            self.f = io.BytesIO(b)

        async def readinto(self, b):
            k = rng.random()
            if k < 0.2:
                await asyncio.sleep(0)
                return None
            n = len(b)
            d = self.f.read(min(n, rng.randint(1, max(1, n))) if n else 0)
            b[:len(d)] = d
            return len(d)

        async def readall(self):
            return self.f.read()

        async def write(self, b):
            return self.f.write(b)

        async def truncate(self, s=None):
            return self.f.truncate(s)

        def tell(self):
            return self.f.tell()

        def seek(self, offset, whence=0):
            return self.f.seek(offset, whence)

        def seekable(self):
            return True

        def readable(self):
            return True

        def writable(self):
            return True

    s = io.BytesIO(data)
    async with AsyncBinaryIO(cls=Mine, b=data) as a:
        for i in range(rng.randint(5, 25)):
            o = op(rng, len(data))
            if o[0] == "readinto":
                continue
            await compare(ctx, "user class, step %d" % i, "partial", a, s, o)
    ctx.count("contents_judged")


def pipe(ctx, rng, data):
    src = gsfio.pipe_source(data, rng)
    s = io.BytesIO(data)
    n = len(data)
    for i in range(rng.randint(3, 20)):
        k = rng.random()
        if k < 0.6:
            o = ("read", rng.choice([0, 1, 5, n // 3 + 1, n, n + 3, 1 << 20, 3 << 20]))
        elif k < 0.65:
            o = rng.choice([("read", -1), ("read",), ("read", None)])
        else:
            fwd = rng.randint(0, n // 3 + 1)
            o = ("seek", s.tell() + fwd) if rng.random() < 0.5 else ("seek", fwd, 1)
        want, got = sync_do(s, o), sync_do(src, o)
        ctx.require(want == got and type(want) is type(got), "pipe wrapper, step %d: %s" % (i, o), got=got, want=want)
        ctx.equal(src.tell(), s.tell(), "pipe wrapper, step %d: position after %s" % (i, o))
        ctx.count("operations_judged")
        if isinstance(got, bytes):
            ctx.count("bytes_read", len(got))
        ctx.saw("pipe", o[0], len(o))
    ctx.equal(src.seekable(), False, "pipe wrapper: seekable")
    ctx.count("contents_judged")
