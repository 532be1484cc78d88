"""Inputs that deliver the same octets in every way a file, a pipe or a socket may."""
import io
import os
import threading

from . import gsfio

KINDS = ["bytesio", "file", "raw", "buffered", "pipewrap", "ospipe", "eof", "bytearray"]


class Pieces:
    """a minimal input with only read(): returns fewer octets than asked for, b"" at the end"""

    def __init__(self, data, rng, kind):
        self.b, self.pos, self.rng, self.kind = data, 0, rng, kind

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.b)
        left = len(self.b) - self.pos
        if left == 0 and self.kind == "eof" and n:
            raise EOFError()
        n = min(n, left)
        if n > 1:
            n = self.rng.choice([n, n, 1, max(1, n // 2), self.rng.randint(1, n)])
        r = self.b[self.pos:self.pos + n]
        self.pos += n
        return bytearray(r) if self.kind == "bytearray" else r


def source(kind, data, rng, closing):
    """an input of a kind; closing collects clean-up functions"""
    if kind == "bytesio":
        return io.BytesIO(data)
    if kind == "file":
        t = gsfio.TmpFile(data)
        f = open(t.path, "rb")
        closing += [f.close, t.__exit__]
        return f
    if kind == "raw":
        return gsfio.ChunkedRaw(data, rng)
    if kind == "buffered":
        return io.BufferedReader(gsfio.ChunkedRaw(data, rng), buffer_size=rng.choice([1, 16, 4096]))
    if kind == "pipewrap":
        return gsfio.pipe_source(data, rng)
    if kind == "ospipe":
        r, w = os.pipe()
        sizes = [rng.choice([1, 5, 1000, 65536, 200000]) for _ in range(8)]

        def feed():
            pos = i = 0
            step_min = len(data) // 300 + 1
            try:
                while pos < len(data):
                    n = max(step_min, sizes[i % 8])
                    pos += os.write(w, data[pos:pos + n])
                    i += 1
            except OSError:
                pass
            finally:
                os.close(w)
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        f = os.fdopen(r, "rb", buffering=rng.choice([0, -1]))
        closing += [f.close, th.join]
        return f
    return Pieces(data, rng, kind)


class Open:
    def __init__(self, kind, data, rng):
        self.closing = []
        self.src = source(kind, data, rng, self.closing)

    def __enter__(self):
        return self.src

    def __exit__(self, *a):
        for f in self.closing:
            f()
