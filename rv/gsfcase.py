"""Random GSF contents built as library grains, shared by the GSF checks."""
import datetime
import io

from . import gen, refgsf

WRAPS = ["bytes", "bytearray", "memoryview", "iobytes", "bytes", "bytes"]


def wrapper(kind):
    from mediagrains.utils import IOBytes
    if kind == "bytes":
        return bytes
    if kind == "bytearray":
        return bytearray
    if kind == "memoryview":
        return memoryview

    def w(b):
        return IOBytes(io.BytesIO(b"abc" + b + b"xyz"), 3, len(b))
    return w


def r_created(rng):
    y, mo, dd, hh, mi, ss = (rng.randint(2, 9998), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                             rng.randint(0, 59), rng.randint(0, 59))
    return (y, mo, dd, hh, mi, ss)


def dt(created, rng):
    d = datetime.datetime(*created, microsecond=rng.choice([0, 0, 999999]))
    k = rng.random()
    if k < 0.3:
        return d                                           # naive: UTC is assumed
    d = d.replace(tzinfo=datetime.timezone.utc)
    if k < 0.7:
        return d
    if k < 0.82:
        return d.astimezone(Summer(rng.choice([-8, 0, 1, 10])))
    return d.astimezone(datetime.timezone(datetime.timedelta(minutes=rng.choice([-720, -90, 60, 330, 840]))))


class Summer(datetime.tzinfo):
    """A zone an hour further ahead from April to September"""

    def __init__(self, hours):
        self.hours = hours

    def utcoffset(self, d):
        return datetime.timedelta(hours=self.hours) + self.dst(d)

    def dst(self, d):
        return datetime.timedelta(hours=1 if d is not None and 4 <= d.month <= 9 else 0)

    def fromutc(self, d):
        std = d + datetime.timedelta(hours=self.hours)
        # (the hour repeated when summer ends is not told apart, so it is not used)
        out = std + datetime.timedelta(hours=1) if 4 <= (std + datetime.timedelta(hours=1)).month <= 9 and std.month <= 9 else std
        return out if out.replace(tzinfo=None) - self.utcoffset(out) == d.replace(tzinfo=None) else d.replace(tzinfo=datetime.timezone.utc)


def content(rng, major=None, ngrains=None, nsegs=None, types=None, big=False):
    """A file description whose every element the library's encoder accepts."""
    f = refgsf.random_file(rng, major=major, nsegs=nsegs, ngrains=ngrains, types=types)
    f["head"]["created"] = r_created(rng)
    for s in f["head"]["segments"]:
        s["count"] = sum(1 for lid, _ in f["grains"] if lid == s["local_id"])
    if big and rng.random() < 0.25:
        long_ = rng.choice(["k" * 65535, "\u00e9" * 32767, "x" * 256])
        f["head"]["tags"].append((long_, rng.choice(["v" * 65535, ""])))
    if big and rng.random() < 0.15:
        sg = rng.choice(f["head"]["segments"]) if f["head"]["segments"] else {}
        if "flow" in sg:
            sg["flow"]["data"] = '{"x": "%s"}' % (rng.choice(["d", "\u00e9"]) * rng.choice([250, 33000, 70000]))
    if big and f["grains"] and rng.random() < 0.2:
        d = f["grains"][0][1]
        if d["type"] in ("coded_video", "coded_audio"):
            d["data"] = gen.rbytes(rng, rng.choice([65536, 100001, 300000]))
        if d["type"] == "coded_video":
            d["unit_offsets"] = [gen.r_uint(rng, 32) for _ in range(rng.choice([255, 1000, 65535]))]
    return f


def build_grains(rng, f):
    out = []
    for lid, d in f["grains"]:
        how = rng.choice(["class", "meta"])
        out.append((lid, gen.build(d, how, wrapper(rng.choice(WRAPS)))))
    return out


def enc_kw(f, rng):
    return dict(major=f["major"], minor=f["minor"], id=f["head"]["id"], created=dt(f["head"]["created"], rng),
                tags=f["head"]["tags"])


def by_segment(grains):
    out = {}
    for lid, d in grains:
        out.setdefault(lid, []).append(d)
    return out


def one_segment(f, rng):
    """The same content as dump()/dumps() write it: one segment with local id 1, unknown id."""
    st = f["head"]["segments"][0]["tags"] if f["head"]["segments"] else []
    return dict(f, grains=[(1, d) for _, d in f["grains"]],
                head=dict(f["head"], segments=[dict(local_id=1, id=None, tags=st, count=len(f["grains"]))]))
