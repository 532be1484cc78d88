"""F02: files the library opens are used only while open and always closed, those it is given open are left open."""
import asyncio
import os
import warnings

from .. import gen, gsfcase, gsfio, refgsf
from . import f01
from .t01 import tool

ID = "F02"
LEVEL = "exploration"
RULE = ("Asynchronous files that record their opening, closing and every operation are given to decoders, load() and encoders, not yet open or open already, in sessions "
        "that end in every way: whole, abandoned, by an exception of the caller, by malformed input, by the k-th operation failing, by cancellation after any number of steps of "
        "the event loop, with tasks still adding or loading grains. Every operation must fall between the opening and the closing; what was opened must be closed exactly once by the time "
        "the context has been left (or entering it has failed); what was open already stays so, and synchronous files are never closed. The same file object serves several sessions. The tools "
        "run in process while the open descriptors are counted. Distinct = (kind, given open, how it ended, operations).")
FLOORS = dict(sessions=2500, closed_after_failure=900, closed_after_cancellation=230, left_open=700, operations=85000, sync_left_open=450, tools_run=300)

NEVER = 10 ** 9


def plan(ctx):
    n = ctx.n(150, 2500)
    c = []
    for k, m in (("decode", 12), ("load", 4), ("encode", 14), ("sync", 6), ("tool", 2)):
        c += [("%s-%d" % (k, i), dict(kind=k)) for i in range(m * n)]
    return c


def case(ctx, rng, key, p):
    warnings.simplefilter("ignore")
    globals()["case_" + p["kind"]](ctx, rng)


def tracked(src, rng, log):
    """An asynchronous file over src that notes what is done with it; an operation while it is not open is noted, not refused"""
    from mediagrains.utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO
    lag = rng.choice([0, 1, 3])

    async def wait():
        for _ in range(rng.randint(0, lag)):
            await asyncio.sleep(0)

    class Open(OpenAsyncBinaryIO):
        opened = 0

        def note(self, what):
            log.append((what, self.opened))

        async def __open__(self):
            await wait()
            log.append(("open", self.opened))
            self.opened += 1
            src.f.seek(0)

        async def __close__(self):
            self.opened -= 1
            log.append(("close", self.opened))
            await wait()

        async def readinto(self, b):
            self.note("read")
            await wait()
            r = src.readinto(b)
            await wait()
            self.note("read")
            return r

        async def readall(self):
            self.note("read")
            await wait()
            r = src.readall()
            self.note("read")
            return r

        async def write(self, b):
            self.note("write")
            await wait()
            r = src.write(b)
            await wait()
            self.note("write")
            return r

        async def truncate(self, s=None):
            self.note("truncate")
            return src.truncate(s)

        def tell(self):
            self.note("tell")
            return src.tell()

        def seek(self, offset, whence=0):
            self.note("seek")
            return src.seek(offset, whence)

        def seekable(self):
            return True

        readable = writable = seekable

    class File(AsyncBinaryIO):
        def __init__(self):
            super().__init__(cls=Open)
    return File()


def judge(ctx, log, given_open, where):
    """log: what was done with the file; given_open: it was open before, and is to be so still"""
    opens = sum(w == "open" for w, _ in log)
    closes = sum(w == "close" for w, _ in log)
    ctx.equal((opens, closes), (0, 0) if given_open else (1, 1), where + ": times the file was opened and closed")
    for i, (what, n) in enumerate(log):
        if what not in ("open", "close"):
            ctx.require(n == 1, where + ": the file was used while it was not open", operation=what, at=i, log=[x for x, _ in log][-8:])
    ctx.count("operations", len(log))
    if given_open:
        ctx.count("left_open")
    ctx.count("sessions")
    ctx.sample("%s: %s" % (where, " ".join(w for w, _ in log[:12])))


class Stop(Exception):
    """what the caller raises"""


async def session(ctx, rng, make, body, src, kind):
    """One or two sessions over one file, each ended in some way"""
    log = []
    file = make(log)
    given_open = kind != "load" and rng.random() < 0.3   # (load takes files that are not yet open)
    target = await file.__aenter__() if given_open else file
    for turn in range(rng.choice([1, 1, 2])):
        how = rng.choice(["whole", "whole", "raise", "fault", "fault", "cancel", "cancel"])
        if given_open:
            src.f.seek(0)
        src.k, src.n, src.hit = (rng.choice([1, 2, 3, rng.randint(1, 40)]), 0, False) if how == "fault" else (NEVER, 0, False)
        src.op, src.error, src.lasting = rng.choice(["read", "read", "seek", "tell"] if kind != "encode" else ["write", "write", "seek", "truncate", "tell"]), f01.r_error(rng), rng.random() < 0.6
        del log[:]
        where = "%s, %s, file %s" % (kind, how, "open already" if given_open else "not yet open")
        late = []
        task = asyncio.ensure_future(body(target, how, late))
        if how == "cancel":
            for _ in range(rng.choice([0, 1, 2, rng.randint(0, 30), rng.randint(0, 200)])):
                if task.done():
                    break
                await asyncio.sleep(0)
            task.cancel()
        err = None
        try:
            await task
        except asyncio.CancelledError:
            err = "cancelled"
        except Exception as e:
            err = e
        await asyncio.gather(*late, return_exceptions=True)
        # what a cancelled session left running in the background has ended by then
        for _ in range(30):
            await asyncio.sleep(0)
        if err is None and how == "fault" and not src.hit:
            how = "whole"
        if how == "raise":
            ctx.require(isinstance(err, Stop), where + ": the exception of the caller did not come out", raised=err)
        if not (how == "cancel" and not log):
            judge(ctx, log, given_open, where)
        if err is not None and not given_open and log:
            ctx.count("closed_after_cancellation" if err == "cancelled" else "closed_after_failure")
        ctx.saw(kind, given_open, how, turn, type(err).__name__ if err is not None and err != "cancelled" else err, tuple(sorted({w for w, _ in log})), min(len(log) // 20, 10))


def damaged(rng, raw):
    k = rng.random()
    if k < 0.5:
        return raw
    if k < 0.7:
        return raw[:rng.randint(0, min(len(raw), 60))]
    if k < 0.85:
        return raw[:rng.randint(0, len(raw))]
    b = bytearray(raw)
    b[rng.randrange(min(len(b), 40))] ^= 1 << rng.randrange(8)
    return bytes(b)


def case_decode(ctx, rng):
    from mediagrains import gsf
    f, raw = f01.content(rng)
    raw = damaged(rng, raw)
    src = f01.Faulty(raw, None, "read", NEVER)
    loading = gsfio.mode(rng.choice(gsfio.MODES))
    reuse = rng.random() < 0.5
    decoders = {}

    async def body(file, how, late):
        dec = decoders.get("x") if reuse else None
        if dec is None:
            dec = decoders["x"] = gsf.GSFDecoder(file_data=file)
        stop = rng.randint(0, 3) if how == "raise" or rng.random() < 0.2 else None
        background = rng.random() < 0.3
        async with dec as d:
            i = 0
            try:
                async for g, _ in d.grains(loading_mode=loading):
                    if background and rng.random() < 0.5:
                        late.append(asyncio.ensure_future(f01.hold(g)))
                    elif rng.random() < 0.5:
                        await g
                    if i == stop:
                        break
                    i += 1
            finally:
                if how != "raise":
                    for t in late:
                        if rng.random() < 0.5:
                            await asyncio.sleep(0)
            if how == "raise":
                raise Stop()
    gsfio.run(f01.asyncio_limit(ctx, session(ctx, rng, lambda log: tracked(src, rng, log), guard(body, gsf.GSFDecodeError), src, "decode"), "decode"))


def guard(body, errors):
    """(malformed input ends the session too)"""
    async def run(file, how, late):
        try:
            return await body(file, how, late)
        except errors as e:
            if how == "raise":
                raise Stop() from e
            raise
    return run


def case_load(ctx, rng):
    from mediagrains import gsf
    f, raw = f01.content(rng)
    raw = damaged(rng, raw)
    src = f01.Faulty(raw, None, "read", NEVER)

    async def body(file, how, late):
        await gsf.load(file)
        if how == "raise":
            raise Stop()
    gsfio.run(f01.asyncio_limit(ctx, session(ctx, rng, lambda log: tracked(src, rng, log), guard(body, gsf.GSFDecodeError), src, "load"), "load"))


def case_encode(ctx, rng):
    from mediagrains import gsf
    f = gsfcase.content(rng, ngrains=rng.randint(0, 5))
    src = f01.Faulty(b"", None, "write", NEVER)
    streaming = rng.random() < 0.6
    grains = gsfcase.build_grains(rng, f)

    async def one(e, lid, g):
        for _ in range(rng.randint(0, 3)):
            await asyncio.sleep(0)
        if not left:
            await e.add_grain(g, segment_local_id=lid)

    left = []

    async def body(file, how, late):
        del left[:]
        src.f.seek(0)
        src.f.truncate()
        enc = gsf.GSFEncoder(file, streaming=streaming, **gsfcase.enc_kw(f, rng))
        gsfio._setup_segments(enc, f["head"]["segments"])
        background = rng.random() < 0.3
        async with enc as e:
            try:
                for lid, g in grains:
                    if background and rng.random() < 0.6:
                        late.append(asyncio.ensure_future(one(e, lid, g)))
                    else:
                        await e.add_grain(g, segment_local_id=lid)
                if how == "raise":
                    raise Stop()
            finally:
                left.append(True)   # (what has been begun by now is to be finished, nothing more is begun)

    async def go():
        await session(ctx, rng, lambda log: tracked(src, rng, log), body, src, "encode")
    gsfio.run(f01.asyncio_limit(ctx, go(), "encode"))


def case_sync(ctx, rng):
    """files given to the synchronous API are never closed by it, whatever happens"""
    from mediagrains import gsf
    from mediagrains.utils import GrainWrapper, IOBytes
    from mediagrains.utils.asyncbinaryio import AsyncFileWrapper
    f, raw = f01.content(rng)
    how = rng.choice(["ctx", "old", "load", "decode", "enc", "stream", "dump", "iobytes", "wrapper", "awrapper", "aenc"])
    src = f01.Faulty(damaged(rng, raw), f01.r_error(rng), rng.choice(["read", "write", "seek"]), rng.choice([NEVER, NEVER, rng.randint(1, 30)]))
    grains = gsfcase.build_grains(rng, gsfcase.content(rng, ngrains=2))

    def go():
        if how == "ctx":
            with gsf.GSFDecoder(file_data=src) as dec:
                for g, _ in dec.grains(loading_mode=gsfio.mode(rng.choice(gsfio.MODES))):
                    if rng.random() < 0.2:
                        raise Stop()
        elif how == "old":
            dec = gsf.GSFDecoder(file_data=src)
            dec.decode_file_headers()
            list(dec.grains(load_lazily=rng.random() < 0.5))
        elif how == "load":
            gsf.load(src)
        elif how == "decode":
            gsf.GSFDecoder(file_data=src).decode()
        elif how in ("enc", "stream"):
            with gsf.GSFEncoder(src, streaming=how == "stream") as e:
                for _, g in grains:
                    e.add_grain(g)
                if rng.random() < 0.3:
                    raise Stop()
        elif how == "dump":
            gsf.dump([g for _, g in grains], src)
        elif how == "iobytes":
            x = IOBytes(src, 0, len(raw))
            bytes(x)
            del x
        elif how == "wrapper":
            from mediagrains.grains import VideoGrain
            from mediagrains.cogenums import CogFrameFormat
            w = GrainWrapper(VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), width=4, height=2, cog_frame_format=CogFrameFormat.U8_444), src)
            for _ in w.grains():
                if rng.random() < 0.1:
                    break
            del w
        else:
            async def ago():
                if how == "awrapper":
                    async with gsf.GSFDecoder(file_data=AsyncFileWrapper(src)) as dec:
                        async for g, _ in dec.grains():
                            await g
                else:
                    async with gsf.GSFEncoder(src) as e:
                        for _, g in grains:
                            await e.add_grain(g)
            gsfio.run(ago())
    _, err = f01.outcome(go)
    ctx.require(not src.closed, "%s: the file it was given was closed" % how, error=err)
    ctx.count("sync_left_open")
    ctx.saw("sync", how, type(err).__name__)


def descriptors():
    return sorted(os.listdir("/proc/self/fd"))


def case_tool(ctx, rng):
    """the tools close the files they open, also when they fail, and leave the standard streams open"""
    size = gen.video_size("U8_422", 16, 8)
    essence = gen.rbytes(rng, size * rng.randint(1, 4))
    opts = ["--size", "16x8", "--format", "U8_422"]
    import mediagrains.tools as tools
    import gc
    with gsfio.TmpFile(essence) as raw, gsfio.TmpFile() as made, gsfio.TmpFile() as out:
        gc.collect()
        before = descriptors()
        tool("wrap_video_in_gsf", [raw, made] + opts)
        ctx.equal(descriptors(), before, "wrap_video_in_gsf: descriptors open afterwards")
        with open(made, "rb") as h:
            ctx.equal(refgsf.parse(h.read())[0]["terminator"], True, "file made by wrap_video_in_gsf")
        k = rng.randrange(3)
        before = descriptors()
        err = None
        try:
            if k == 0:
                tool("extract_gsf_essence", [made, out])
            elif k == 1:
                tool("gsf_probe", [made])
            else:
                with open(made, "r+b") as h:
                    h.truncate(rng.randint(0, 60))
                before = descriptors()
                tool(rng.choice(["extract_gsf_essence", "gsf_probe"]), [made])
        except BaseException as e:
            err = type(e).__name__
            del e
        gc.collect()
        ctx.equal(descriptors(), before, "tool %d: descriptors open afterwards" % k)
        # and as a context manager
        with open(raw, "rb") as h:
            want = h.read()
        fp = None
        try:
            with tools.file_or_pipe(raw, "rb") as fp:
                ctx.equal(fp.read(), want, "file_or_pipe")
                if rng.random() < 0.5:
                    raise Stop()
        except Stop:
            pass
        ctx.require(fp.closed, "file_or_pipe left its file open")
        ctx.count("tools_run", 2)
        ctx.saw("tool", k, err)
