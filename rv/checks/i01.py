"""I01: lazily read byte ranges behave exactly like the bytes they stand for."""
import copy
import io
import pickle

from .. import gen, gsfio

ID = "I01"
LEVEL = "exploration"
RULE = ("A case makes several lazy ranges over one file (in memory, buffered, unbuffered or recording), overlapping, empty and whole, "
        "and runs a random history of sequence operations on them, mixed with other users moving the file position; every result or "
        "error is compared with that of the bytes object, the file position is checked after every operation, and reads of the file "
        "are recorded (none before content is needed, none outside the range). Distinct = (operation, source, outcome type).")
FLOORS = dict(operations_judged=30000, errors_agreed=1500, first_loads=1000, positions_judged=30000)
SOURCES = ["bytesio", "file", "rawfile", "recording", "deferred_gsf"]


def plan(ctx):
    n = ctx.n(120, 5000)
    return [("%s-%d" % (s, i), dict(source=s)) for s in SOURCES for i in range(n)] + \
        [("faulty-%d" % i, dict(source="faulty")) for i in range(n)]


class Recording(io.BytesIO):
    def __init__(self, *a):
        super().__init__(*a)
        self.reads = []
        self.broken = 0

    def read(self, n=-1):
        p = self.tell()
        if self.broken:
            self.broken -= 1
            super().read(n)
            raise OSError("device error")
        r = super().read(n)
        self.reads.append((p, len(r)))
        return r


def operations(rng, n):
    """(name, function of one sequence and of the other range's sequence)"""
    i = rng.choice([0, -1, n - 1, n, -n, -n - 1, rng.randint(-n - 2, n + 2)])
    a, b, s = (rng.choice([None, rng.randint(-n - 2, n + 2)]) for _ in range(3))
    if s == 0:
        s = rng.choice([None, 0])
    by = bytes([rng.randrange(256)])
    sub = gen.rbytes(rng, rng.choice([0, 1, 2]))
    v = rng.choice([0, 255, 256, -1, rng.randrange(256)])
    return [
        ("len", lambda x, y: len(x)), ("bytes", lambda x, y: bytes(x)), ("bytearray", lambda x, y: bytearray(x)),
        ("list", lambda x, y: list(x)), ("tuple", lambda x, y: tuple(iter(x))), ("reversed", lambda x, y: list(reversed(x))),
        ("getitem", lambda x, y: x[i]), ("getitem", lambda x, y: x[i]), ("slice", lambda x, y: x[a:b]), ("step", lambda x, y: x[a:b:s]),
        ("getbad", lambda x, y: x["a"]), ("getfloat", lambda x, y: x[1.0]), ("getnone", lambda x, y: x[None]),
        ("in_int", lambda x, y: v in x), ("in_bytes", lambda x, y: by in x), ("in_sub", lambda x, y: sub in x),
        ("in_other", lambda x, y: y in x), ("in_str", lambda x, y: "a" in x), ("notin", lambda x, y: by not in x),
        ("in_part", lambda x, y: bytes(x)[a:b] in x),
        ("eq", lambda x, y: x == y), ("ne", lambda x, y: x != y), ("lt", lambda x, y: x < y), ("le", lambda x, y: x <= y),
        ("gt", lambda x, y: x > y), ("ge", lambda x, y: x >= y),
        ("eqb", lambda x, y: x == bytes(y)), ("beq", lambda x, y: bytes(y) == x), ("eqself", lambda x, y: x == bytes(x)),
        ("beqself", lambda x, y: bytes(x) == x), ("neb", lambda x, y: x != bytes(x)), ("bne", lambda x, y: bytes(x) != x),
        ("ltb", lambda x, y: x < bytes(y)), ("blt", lambda x, y: bytes(y) < x), ("geb", lambda x, y: x >= bytes(y)),
        ("eqba", lambda x, y: x == bytearray(x)), ("baeq", lambda x, y: bytearray(x) == x), ("leba", lambda x, y: bytearray(y) <= x),
        ("eqstr", lambda x, y: x == "abc"), ("eqnone", lambda x, y: x == None), ("nenone", lambda x, y: x != None),  # noqa: E711
        ("eqlist", lambda x, y: x == list(x)), ("ltint", lambda x, y: x < 5), ("gestr", lambda x, y: x >= "a"),
        ("hash", lambda x, y: hash(x) == hash(bytes(x))), ("inset", lambda x, y: x in {bytes(x)}), ("dict", lambda x, y: {bytes(x): 1}[x]),
        ("index", lambda x, y: x.index(by[0])), ("index2", lambda x, y: x.index(by)), ("count", lambda x, y: x.count(by)),
        ("counti", lambda x, y: x.count(by[0])), ("find", lambda x, y: x.find(sub)), ("starts", lambda x, y: x.startswith(sub)),
        ("hex", lambda x, y: x.hex()), ("str", lambda x, y: str(x)), ("fmt", lambda x, y: "%s" % (x,)), ("split", lambda x, y: x.split(by)),
        ("bool", lambda x, y: bool(x)), ("sum", lambda x, y: sum(x)), ("max", lambda x, y: max(x)), ("sorted", lambda x, y: sorted(x)),
        ("enum", lambda x, y: list(enumerate(x))[-1:]), ("zip", lambda x, y: list(zip(x, y))), ("frombytes", lambda x, y: int.from_bytes(x, "big")),
        ("intoslice", lambda x, y: splice(x)), ("extend", lambda x, y: extend(x)), ("copy", lambda x, y: bytes(copy.copy(x))),
        ("deepcopy", lambda x, y: bytes(copy.deepcopy(x))), ("star", lambda x, y: (lambda *k: k)(*x)[:3]),
        ("setitem", lambda x, y: setitem(x)), ("delitem", lambda x, y: delitem(x)), ("attr", lambda x, y: x.no_such_attribute),
        ("decode", lambda x, y: x.decode("latin-1")), ("decodebad", lambda x, y: x.decode("ascii")), ("rfind", lambda x, y: x.rfind(by)),
        ("pickle", lambda x, y: bytes(pickle.loads(pickle.dumps(bytes(x))))), ("unpack", lambda x, y: unpack2(x)),
        ("iternext", lambda x, y: next(iter(x))),
    ]


def unpack2(x):
    a, b = x
    return (a, b)


def splice(x):
    b = bytearray(b"abcdef")
    b[2:4] = bytes(x)
    return b


def extend(x):
    b = bytearray(b"ab")
    b.extend(x)
    return b


def setitem(x):
    x[0] = 1


def delitem(x):
    del x[0]


NEEDS_NOTHING = {"len", "bool"}
LOADS = {"bytes", "hex", "slice", "step", "eqb", "eq", "getitem", "str", "count", "find", "decode", "in_bytes"}


def outcome(f, x, y):
    try:
        return ("value", f(x, y))
    except Exception as e:
        return ("error", e)


def case(ctx, rng, key, p):
    from mediagrains.utils import IOBytes
    content = gen.rbytes(rng, rng.choice([0, 1, 5, 40, 300]))
    if rng.random() < 0.3:
        content = bytes(rng.choice([0, 1, 255]) for _ in content)
    kind = p["source"]
    if kind == "faulty":
        return case_faulty(ctx, rng, content, IOBytes)
    if kind == "deferred_gsf":
        return case_gsf(ctx, rng)
    if kind == "recording":
        src, cleanup = Recording(content), lambda: None
    else:
        src, cleanup = gsfio.sync_source(kind, content, rng)
    try:
        history(ctx, rng, kind, content, src, IOBytes)
    finally:
        cleanup()


def ranges(rng, content):
    out = []
    for _ in range(rng.randint(1, 4)):
        a = rng.randint(0, len(content))
        b = rng.randint(a, len(content))
        out.append(rng.choice([(a, b), (0, len(content)), (a, a), (a, b)]))
    return out


def history(ctx, rng, kind, content, src, IOBytes):
    rs = ranges(rng, content)
    if rng.random() < 0.4:
        rs.append(rng.choice(rs))
    lazy = [IOBytes(src, a, b - a) for a, b in rs]
    loaded = [False] * len(rs)
    src.seek(rng.randint(0, len(content)))
    for _ in range(rng.randint(20, 160)):
        if rng.random() < 0.2:
            src.seek(rng.randint(0, len(content) + 3))
        k, j = rng.randrange(len(rs)), rng.randrange(len(rs))
        one(ctx, rng, kind, content, src, rs, lazy, loaded, k, j)


def one(ctx, rng, kind, content, src, rs, lazy, loaded, k, j):
    (a, b), (c, d) = rs[k], rs[j]
    model, other = content[a:b], content[c:d]
    name, f = rng.choice(operations(rng, b - a))
    pos = src.tell()
    before = list(src.reads) if kind == "recording" else None
    r = repr(lazy[k])
    got = outcome(f, lazy[k], lazy[j])
    want = outcome(f, model, other)
    where = "%s of range [%d, %d) of %d octets (%s)" % (name, a, b, len(content), kind)
    ctx.equal(got[0], want[0], where + ": outcome", result=got[1], expected=want[1])
    if got[0] == "value":
        ctx.require(got[1] == want[1] and type(got[1]) is type(want[1]), where + ": result", got=got[1], want=want[1])
    else:
        same = type(got[1]) is type(want[1]) or (name in ("setitem", "delitem") and isinstance(got[1], (TypeError, AttributeError)))
        ctx.require(same, where + ": kind of error", got=got[1], want=want[1])
        ctx.count("errors_agreed")
    ctx.equal(src.tell(), pos, where + ": file position")
    ctx.count("positions_judged")
    ctx.require(r == repr(model) or "IOBytes" in r, where + ": repr", got=r)
    if kind == "recording":
        new = src.reads[len(before):]
        if name in NEEDS_NOTHING:
            ctx.equal(new, [], where + ": read the file")
        for p, n in new:
            ctx.require(any(p >= s and p + n <= e for s, e in ((a, b), (c, d))), where + ": read outside the range", reads=new)
        if loaded[k] and (loaded[j] or name in ("getitem", "list")):
            ctx.equal(new, [], where + ": read again")
    if name in LOADS:
        if not loaded[k]:
            ctx.count("first_loads")
        loaded[k] = True
    ctx.count("operations_judged")
    ctx.saw(name, kind, got[0], type(got[1]).__name__, b - a == 0)


def case_faulty(ctx, rng, content, IOBytes):
    """A read error reaches the user, leaves the position alone, and does not stop a later load."""
    src = Recording(content)
    rs = ranges(rng, content)
    lazy = [IOBytes(src, a, b - a) for a, b in rs]
    for x, (a, b) in zip(lazy, rs):
        for _ in range(rng.randint(0, 2)):
            pos = src.seek(rng.randint(0, len(content)))
            src.broken = 1
            f = rng.choice([lambda: bytes(x), lambda: x[0:1], lambda: x == b"a", lambda: list(x), lambda: x.hex()])
            if b > a:
                ctx.raises(OSError, f, "read error of the file while loading a lazy range")
                ctx.equal(src.tell(), pos, "file position after a failed load")
                ctx.count("positions_judged")
            src.broken = 0
        ctx.equal(len(x), b - a, "length")
        ctx.equal(bytes(x), content[a:b], "content after a failed load")
        src.seek(0)
        src.write(bytes(len(content)))
        ctx.equal(bytes(x), content[a:b], "loaded content after the file changed")
        src.seek(0)
        src.write(content)
        ctx.count("operations_judged", 3)
        ctx.saw("faulty", b - a == 0)


def case_gsf(ctx, rng):
    """The ranges a GSF decoder hands out."""
    from .. import refgsf
    from mediagrains.gsf import GSFDecoder
    f = refgsf.random_file(rng, types=["coded_video", "empty", "coded_audio"], ngrains=rng.randint(1, 4))
    for _, d in f["grains"]:
        d["data"] = gen.rbytes(rng, rng.randint(1, 60))
    raw = refgsf.file_bytes(f)
    src = io.BytesIO(raw)
    with GSFDecoder(file_data=src) as dec:
        gs = [g for g, _ in dec.grains(loading_mode=gsfio.mode("ALWAYS_DEFER_LOAD_IF_POSSIBLE"))]
        lazy = [g.data for g in gs]
        datas = [d["data"] for _, d in f["grains"]]
        if not lazy:
            return
        content = b"".join(datas)
        rs, p = [], 0
        for d in datas:
            rs.append((p, p + len(d)))
            p += len(d)
        loaded = [False] * len(rs)
        for _ in range(rng.randint(20, 60)):
            one(ctx, rng, "gsf", content, src, rs, lazy, loaded, rng.randrange(len(rs)), rng.randrange(len(rs)))
