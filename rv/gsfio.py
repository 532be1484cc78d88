"""Every supported way of writing and of reading a GSF file, behind two tables."""
import asyncio
import io
import os
import tempfile
import time
import warnings

warnings.simplefilter("ignore")


def run(coro):
    """asyncio.run with its own loop and a private default executor that is always shut down."""
    return asyncio.run(coro)


# ---------------------------------------------------------------- streams
class NonSeekableOut(io.RawIOBase):
    """A pipe-like output: records every byte written, refuses to seek."""

    def __init__(self):
        self.parts = []
        self.n = 0

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        b = bytes(b)
        self.parts.append(b)
        self.n += len(b)
        return len(b)

    def tell(self):
        raise io.UnsupportedOperation("tell on a pipe")

    def seek(self, *a):
        raise io.UnsupportedOperation("seek on a pipe")

    def truncate(self, *a):
        raise io.UnsupportedOperation("truncate on a pipe")

    def getvalue(self):
        return b"".join(self.parts)


class ChunkedRaw(io.RawIOBase):
    """A raw pipe-like input that returns data in pieces chosen by rng, never seekable."""

    def __init__(self, data, rng):
        self.b, self.pos, self.rng = bytes(data), 0, rng
        self.taken = 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, buf):
        n = min(len(buf), len(self.b) - self.pos)
        if n > 1:
            n = self.rng.choice([1, n, max(1, n // 2), self.rng.randint(1, n)])
        buf[:n] = self.b[self.pos:self.pos + n]
        self.pos += n
        self.taken += n
        return n


class CountingBytesIO(io.BytesIO):
    """Counts bytes handed out and read calls."""
    taken = 0
    calls = 0

    def read(self, n=-1):
        r = super().read(n)
        self.taken += len(r)
        self.calls += 1
        return r


def pipe_source(data, rng):
    """Non-seekable input through the library's own pipe wrapper."""
    stream = io.BufferedReader(ChunkedRaw(data, rng), buffer_size=rng.choice([1, 7, 64, 8192]))
    try:
        from mediagrains.tools._file_or_pipe import InputStreamWrapper
    except ImportError:      # an internal name: the tools check covers the tools' own input whatever it is called
        return stream
    return InputStreamWrapper(stream if rng.random() < 0.7 else ChunkedRaw(data, rng))


class TmpFile:
    def __init__(self, data=b""):
        fd, self.path = tempfile.mkstemp(prefix="rv_", dir=os.environ.get("RV_TMP", "/dev/shm" if os.path.isdir("/dev/shm") else None))
        os.write(fd, data)
        os.close(fd)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        try:
            os.unlink(self.path)
        except FileNotFoundError:
            pass

    def read(self):
        with open(self.path, "rb") as f:
            return f.read()


def async_stream(data, rng, step=None):
    """AsyncStreamWrapper over a StreamReader fed in pieces by a background task (must run in a loop)."""
    from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
    reader = asyncio.StreamReader()

    async def feed():
        pos = 0
        while pos < len(data):
            n = step or rng.choice([1, 3, 11, 64, 1000, 100000])
            if len(data) > 4000:
                n = max(n, len(data) // 60)
            reader.feed_data(data[pos:pos + n])
            pos += n
            await asyncio.sleep(0)
        reader.feed_eof()

    task = asyncio.ensure_future(feed())
    return AsyncStreamWrapper(reader=reader), task


def lagging_source(data, rng, lag=3, log=None):
    """A seekable asynchronous file whose reads yield to the event loop between choosing and returning bytes."""
    from mediagrains.utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO

    class OpenLagging(OpenAsyncBinaryIO):
        def __init__(self, b, rng):
            self.b, self.pos, self.rng = bytes(b), 0, rng
            self.in_read = 0

        async def read(self, size=-1):
            for _ in range(self.rng.randint(0, lag)):
                await asyncio.sleep(0)
            r = self.b[self.pos:] if size < 0 else self.b[self.pos:self.pos + size]
            self.pos += len(r)
            if log is not None:
                log.append(len(r))
            for _ in range(self.rng.randint(0, lag)):
                await asyncio.sleep(0)
            return r

        async def readinto(self, b):
            r = await self.read(len(b))
            b[:len(r)] = r
            return len(r)

        async def readall(self):
            return await self.read(-1)

        async def write(self, b):
            raise io.UnsupportedOperation()

        async def truncate(self, s=None):
            raise io.UnsupportedOperation()

        def tell(self):
            return self.pos

        def seek(self, offset, whence=0):
            self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else len(self.b) + offset
            return self.pos

        def seekable(self):
            return True

        def readable(self):
            return True

        def writable(self):
            return False

    class Lagging(AsyncBinaryIO):
        def __init__(self, b, rng):
            super().__init__(cls=OpenLagging, b=b, rng=rng)

    return Lagging(data, rng)


class SlowFile(io.RawIOBase):
    """A seekable file that takes its time, delivering what is read in several steps (like one on a network)"""

    def __init__(self, data, rng, pause=0.001):
        self.b, self.pos, self.rng, self.pause = bytes(data), 0, rng, pause

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        self.pos = offset if whence == 0 else self.pos + offset if whence == 1 else len(self.b) + offset
        return self.pos

    def read(self, size=-1):
        size = max(len(self.b) - self.pos, 0) if size is None or size < 0 else size
        out = b""
        for part in (size - size // 2, size // 2):
            time.sleep(self.rng.choice([0, 0, 1]) * self.pause)
            got = self.b[self.pos:self.pos + part]
            self.pos += len(got)
            out += got
        return out

    def readinto(self, b):
        got = self.read(len(b))
        b[:len(got)] = got
        return len(got)

    def readall(self):
        return self.read(-1)


# ---------------------------------------------------------------- reading
MODES = ["LOAD_IMMEDIATELY", "ALWAYS_LOAD_DEFER_IF_POSSIBLE", "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "LOAD_NEVER"]


def mode(name):
    from mediagrains.gsf import GrainDataLoadingMode
    return GrainDataLoadingMode[name]


SYNC_SOURCES = ["bytesio", "file", "rawfile", "pipe"]
ASYNC_SOURCES = ["abytesio", "afilewrap_bytesio", "abytesiowrap", "afilewrap_file", "astream", "alagging"]


def sync_source(kind, data, rng):
    """-> (source, cleanup)"""
    if kind == "bytesio":
        return io.BytesIO(data), lambda: None
    if kind == "pipe":
        return pipe_source(data, rng), lambda: None
    t = TmpFile(data)
    f = open(t.path, "rb") if kind == "file" else open(t.path, "rb", buffering=0)

    def cleanup():
        f.close()
        t.__exit__()
    return f, cleanup


def async_source(kind, data, rng):
    """-> (source, cleanup); inside a running loop"""
    from mediagrains.utils import asyncbinaryio as ab
    if kind == "abytesio":
        return ab.AsyncBytesIO(data), lambda: None
    if kind == "afilewrap_bytesio":
        return ab.AsyncFileWrapper(io.BytesIO(data)), lambda: None
    if kind == "abytesiowrap":
        return ab.AsyncBytesIOWrapper(io.BytesIO(data)), lambda: None
    if kind == "afilewrap_slow":
        import random
        return ab.AsyncFileWrapper(SlowFile(data, random.Random(rng.getrandbits(32)))), lambda: None
    if kind == "astream":
        s, task = async_stream(data, rng)
        return s, task.cancel
    if kind == "alagging":
        return lagging_source(data, rng), lambda: None
    if kind == "afilewrap_file":
        t = TmpFile(data)
        f = open(t.path, "rb")

        def cleanup():
            f.close()
            t.__exit__()
        return ab.AsyncFileWrapper(f), cleanup
    raise KeyError(kind)


class Got:
    """What a decode delivered: headers, [(local_id, grain)], the error that ended it."""

    def __init__(self):
        self.head = None
        self.grains = []
        self.heads = []
        self.error = None


def read_session(data, rng, source="bytesio", loading="LOAD_IMMEDIATELY", local_ids=None, on_grain=None, after=None,
                 **dec_kw):
    """Decode through the synchronous context manager; errors are recorded, not raised."""
    from mediagrains.gsf import GSFDecoder
    got = Got()
    src, cleanup = sync_source(source, data, rng)
    try:
        try:
            with GSFDecoder(file_data=src, **dec_kw) as dec:
                got.head = dec.file_headers
                try:
                    for g, lid in dec.grains(local_ids=local_ids, loading_mode=mode(loading)):
                        got.grains.append((lid, g))
                        got.heads.append(dec.file_headers)
                        if on_grain:
                            on_grain(g, lid)
                except Exception as e:
                    got.error = e
                if after:
                    after(got)
        except Exception as e:
            got.error = e
    finally:
        cleanup()
    return got


async def aread_session(data, rng, source="abytesio", loading="LOAD_IMMEDIATELY", local_ids=None, on_grain=None,
                        after=None, **dec_kw):
    from mediagrains.gsf import GSFDecoder
    got = Got()
    src, cleanup = async_source(source, data, rng)
    opened = None
    try:
        try:
            if rng.random() < 0.4:
                opened = src
                src2 = await src.__aenter__()
            else:
                src2 = src
            async with GSFDecoder(file_data=src2, **dec_kw) as dec:
                got.head = dec.file_headers
                try:
                    async for g, lid in dec.grains(local_ids=local_ids, loading_mode=mode(loading)):
                        got.grains.append((lid, g))
                        got.heads.append(dec.file_headers)
                        if on_grain:
                            await on_grain(g, lid)
                except Exception as e:
                    got.error = e
                if after:
                    await after(got)
        except Exception as e:
            got.error = e
        if opened is not None:
            await opened.__aexit__(None, None, None)
    finally:
        cleanup()
    return got


def read_any(way, data, rng, **dec_kw):
    """way = (kind, source, loading) -> Got with every grain's data loaded where the mode can load it.
    kind: loads | load | decode | old | ctx | aload | actx"""
    from mediagrains import gsf
    kind, source, loading = way
    if kind == "loads":
        return grouped(lambda: gsf.loads(data, **dec_kw))
    if kind in ("load", "decode", "old"):
        src, cleanup = sync_source(source, data, rng)
        try:
            if kind == "load":
                return grouped(lambda: gsf.load(src, **dec_kw))
            if kind == "decode":
                if rng.random() < 0.2:
                    return grouped(lambda: gsf.GSFDecoder(file_data=rng.choice([None, src]), **dec_kw).decode(data))
                return grouped(lambda: gsf.GSFDecoder(file_data=src, **dec_kw).decode())

            def old():
                got = Got()
                try:
                    dec = gsf.GSFDecoder(file_data=src, **dec_kw)
                    got.head = dec.decode_file_headers()
                    # (skip_data is documented as ignored where the data is to be loaded lazily)
                    kw = {"LOAD_IMMEDIATELY": {}, "LOAD_NEVER": dict(skip_data=True)}.get(loading)
                    if kw is None:
                        kw = dict(load_lazily=True, **rng.choice([{}, dict(skip_data=True), dict(skip_data=False)]))
                    for g, lid in dec.grains(**kw):
                        got.grains.append((lid, g))
                    for lid, g in got.grains:
                        if loading != "LOAD_NEVER" and g.data is not None and g.grain_type != "event":
                            bytes(g.data)
                except Exception as e:
                    got.error = e
                return got
            return old()
        finally:
            cleanup()
    if kind == "ctx":
        def after(got):
            for lid, g in got.grains:
                if loading != "LOAD_NEVER" and g.data is not None and g.grain_type != "event":
                    bytes(g.data)
        return read_session(data, rng, source, loading, after=after, **dec_kw)
    if kind == "aload":
        async def go():
            src, cleanup = async_source(source, data, rng)
            try:
                return await agrouped(gsf.load(src, **dec_kw))
            finally:
                cleanup()
        return run(go())
    if kind == "actx":
        async def after(got):
            if loading != "LOAD_NEVER":
                for lid, g in got.grains:
                    await g
        return run(aread_session(data, rng, source, loading, after=after, **dec_kw))
    raise KeyError(kind)


def grouped(f):
    got = Got()
    try:
        got.head, segs = f()
        got.segs = segs
    except Exception as e:
        got.error = e
    return got


async def agrouped(aw):
    got = Got()
    try:
        got.head, got.segs = await aw
    except Exception as e:
        got.error = e
    return got


def read_ways():
    ways = [("loads", None, None)]
    for s in SYNC_SOURCES:
        ways.append(("load", s, None))
        ways.append(("decode", s, None))
        for m in MODES:
            ways.append(("old", s, m))
            ways.append(("ctx", s, m))
    for s in ASYNC_SOURCES:
        ways.append(("aload", s, None))
        for m in MODES:
            ways.append(("actx", s, m))
    return ways


# ---------------------------------------------------------------- writing
WRITE_WAYS = ["dumps", "dump", "dump_file", "enc", "enc_seg", "stream", "stream_seg", "stream_pipe", "enc_pipe", "old_dump",
              "old_prog", "aenc", "astream", "aenc_abytesio", "astream_abytesio", "aopen_abytesio", "astream_writer", "astream_file"]
# ways that only write one segment with default id
ONE_SEGMENT = ("dumps", "dump", "dump_file")
NO_SEEK = ("stream_pipe", "enc_pipe", "astream_writer")


class FakeWriter:
    """Enough of asyncio.StreamWriter for an output stream."""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, b):
        self.parts.append(bytes(b))

    async def drain(self):
        await asyncio.sleep(0)

    def close(self):
        self.closed = True


def _setup_segments(enc, segs):
    out = []
    for sg in segs:
        s = enc.add_segment(id=sg["id"], local_id=sg["local_id"], tags=sg["tags"])
        if sg.get("flow"):
            f = sg["flow"]
            s.add_flow(f["source_id"], f["flow_id"], f["format"], f["data"])
        out.append(s)
    return out


def write_any(way, grains, segs, rng, tags=(), junk_before=b"", **kw):
    """grains: [(local_id, grain)], segs: reference segment descriptions -> file bytes"""
    from mediagrains import gsf
    from mediagrains.utils import asyncbinaryio as ab
    kw = dict(kw, tags=list(tags))
    if way in ONE_SEGMENT:
        gs = [g for _, g in grains]
        st = segs[0]["tags"] if segs else None
        if way == "dumps":
            return gsf.dumps(gs, segment_tags=st, **kw)
        if way == "dump":
            f = io.BytesIO(junk_before)
            gsf.dump(gs, f, segment_tags=st, **kw)
            return f.getvalue()
        with TmpFile(junk_before) as p:
            with open(p, "r+b") as f:
                gsf.dump(gs, f, segment_tags=st, **kw)
            with open(p, "rb") as f:
                return f.read()

    def feed(enc, handles):
        i = 0
        while i < len(grains):
            lid, g = grains[i]
            j = i + 1
            while j < len(grains) and grains[j][0] == lid and rng.random() < 0.5:
                j += 1
            run_ = [x for _, x in grains[i:j]]
            if handles is not None:
                if len(run_) == 1 and rng.random() < 0.5:
                    handles[lid].add_grain(run_[0])
                else:
                    handles[lid].add_grains(iter(run_))
            elif len(run_) == 1 and rng.random() < 0.5:
                enc.add_grain(run_[0], segment_local_id=lid)
            else:
                enc.add_grains(iter(run_), segment_local_id=lid)
            i = j

    if way in ("enc", "enc_seg", "stream", "stream_seg", "stream_pipe", "enc_pipe"):
        f = NonSeekableOut() if way.endswith("pipe") else io.BytesIO(junk_before)
        streaming = way.startswith("stream")
        enc = gsf.GSFEncoder(f, streaming=streaming, **kw)
        if streaming:
            hs = _setup_segments(enc, segs)
        with enc as e:
            if not streaming:
                hs = _setup_segments(e, segs)
            feed(e, {h.local_id: h for h in hs} if way.endswith("seg") else None)
        return f.getvalue()
    if way in ("old_dump", "old_prog"):
        f = io.BytesIO(junk_before)
        enc = gsf.GSFEncoder(f, **kw)
        hs = {h.local_id: h for h in _setup_segments(enc, segs)}
        handles = hs if rng.random() < 0.5 else None
        if way == "old_dump":
            feed(enc, handles)
            enc.dump()
        else:
            cut = rng.randint(0, len(grains))
            # grains of later segments only appear after those buffered earlier: keep the global order per segment
            all_, grains_ = grains, grains
            grains = all_[:cut]
            feed(enc, handles)
            enc.start_dump()
            grains = all_[cut:]
            feed(enc, handles)
            enc.end_dump()
            grains = grains_
        return f.getvalue()

    async def go():
        streaming = way.startswith("astream")
        path = None
        if way in ("aenc", "astream"):
            f = io.BytesIO(junk_before)
        elif way in ("aenc_abytesio", "astream_abytesio"):
            f = ab.AsyncBytesIO(junk_before)
        elif way == "aopen_abytesio":
            f0 = ab.AsyncBytesIO(junk_before)
            f = await f0.__aenter__()
        elif way == "astream_writer":
            w = FakeWriter()
            f = ab.AsyncStreamWrapper(writer=w)
        else:
            path = TmpFile(junk_before)
            f = open(path.path, "r+b")
        enc = gsf.GSFEncoder(f, streaming=streaming, **kw)
        if streaming:
            _setup_segments(enc, segs)
        async with enc as e:
            if not streaming:
                _setup_segments(e, segs)
            i = 0
            while i < len(grains):
                lid, g = grains[i]
                if rng.random() < 0.5:
                    await e.add_grain(g, segment_local_id=lid)
                    i += 1
                else:
                    j = i + 1
                    while j < len(grains) and grains[j][0] == lid and rng.random() < 0.5:
                        j += 1
                    await e.add_grains(iter([x for _, x in grains[i:j]]), segment_local_id=lid)
                    i = j
        if way == "astream_writer":
            return b"".join(w.parts)
        if path is not None:
            f.close()
            r = path.read()
            path.__exit__()
            return r
        return f.getvalue()
    return run(go())
