"""P01: what video pattern generators draw."""
import copy
import io
import uuid
from fractions import Fraction

from .. import gen, tsref
from . import m03

ID = "P01"
LEVEL = "exploration"
RULE = ("Luma steps, colour bars, stills of every video format (data in every form, padded lines, numpy) and bars overlaid on each of them (also on each other) are made at random sizes, rates, "
        "intensities, bar heights and speeds, and asked for grains at random times before and after zero in random order by every way of asking; every sample of every component is "
        "decoded and must lie in the step or bar of the picture it belongs to with the value documented for it, stills must be the template byte for byte, and an overlaid "
        "bar must replace exactly its lines of the source picture; grains handed out are overwritten at random and neither that nor later requests may change other grains, the "
        "generator, its template or its source. Distinct = (generator, format, size, rate, position of the bar).")
FLOORS = dict(grains=12000, steps=1700, bars=1700, stills=3000, overlays=5500, overlays_of_overlays=120, odd_widths=180, samples=10000000, padded=150, numpy=120, vandalised=5000, negative_times=2000)

SUPPORTED = ["U8_444", "U8_422", "U8_420", "S16_444_10BIT", "S16_422_10BIT", "S16_420_10BIT", "S16_444_12BIT", "S16_422_12BIT", "S16_420_12BIT", "S16_444", "S16_422", "S16_420"]
# luma and the two colour differences of 100% bars, in 16 bits
BARS = [(0xFFFF, 0x8000, 0x8000), (0xE1FF, 0x0000, 0x9400), (0xB200, 0xABFF, 0x0000), (0x95FF, 0x2BFF, 0x15FF), (0x69FF, 0xD400, 0xEA00), (0x4C00, 0x5400, 0xFFFF),
        (0x1DFF, 0xFFFF, 0x6BFF), (0x0000, 0x8000, 0x8000)]
WHITE = {8: 235, 10: 940, 12: 3760, 16: 60160}
RATES = [Fraction(25), Fraction(50), Fraction(24), Fraction(30000, 1001), Fraction(60000, 1001), Fraction(1), Fraction(1000, 7), Fraction(1, 3)]


def plan(ctx):
    return [("pattern-%d" % j, dict()) for j in range(ctx.n(3000, 60000))] + [("large-%d" % j, dict(large=True)) for j in range(ctx.n(4, 60))]


def black(bits):
    return 16 << (bits - 8)


def r_size(rng, fmt, large=False):
    bits, bps, hs, vs, _ = gen.planar_info(fmt)
    if large:
        w, h = rng.choice([(720, 576), (1280, 720), (1000, 562)])
    else:
        w = rng.choice([8, 16, 24, 40, 64, 240, rng.randint(1, 40), rng.randint(8, 70)])
        h = rng.choice([1, 2, 4, 5, rng.randint(1, 12)])
        if rng.random() < 0.15:
            w, h = 8 * rng.randint(1, 260), rng.choice([1, 2, 4])
    return max(w, 1 << hs), -(-h // (1 << vs)) * (1 << vs)


def planes(fmt, g):
    """[[rows of sample values]] of the three components, as their geometry says"""
    bits, bps, hs, vs, _ = gen.planar_info(fmt)
    data = bytes(memoryview(g.data).cast("B")) if not isinstance(g.data, bytes) else g.data
    out = []
    for c in g.components:
        rows = []
        for y in range(c.height):
            o = c.offset + y * c.stride
            line = data[o:o + c.width * bps]
            rows.append(list(line) if bps == 1 else [line[i] | line[i + 1] << 8 for i in range(0, len(line), 2)])
        out.append(rows)
    return out


def drawn(ctx, fmt, w, h, g, value, where):
    """value(step, component) for every sample"""
    bits, bps, hs, vs, _ = gen.planar_info(fmt)
    shape = [(w, h), (w >> hs, h >> vs), (w >> hs, h >> vs)]
    ctx.equal([(c.width, c.height) for c in g.components], shape, where + ": geometry")
    ctx.equal(len(g.data), gen.video_size(fmt, w, h), where + ": length of data")
    for ci, rows in enumerate(planes(fmt, g)):
        cw = shape[ci][0]
        allowed = []
        for x in range(cw):
            # the steps that overlap this sample: one, unless steps end within samples
            ps = [p for p in range(8) if p * cw < 8 * (x + 1) and (p + 1) * cw > 8 * x]
            allowed.append({value(p, ci) for p in ps})
        for y, row in enumerate(rows):
            if row == rows[0] and y:
                continue
            ctx.require(len(row) == cw and all(v in a for v, a in zip(row, allowed)), where + ": component %d line %d" % (ci, y), got=row, want=[sorted(a) for a in allowed])
        ctx.require(all(row == rows[0] for row in rows), where + ": lines of component %d differ" % ci)
        ctx.count("samples", cw * len(rows))


class Source:
    """a generator under test, with what it must draw: expect(grain, count, where)"""


def steps(ctx, rng, large, rate):
    from mediagrains.patterngenerators.video import LumaSteps, ColourBars
    from mediagrains.cogenums import CogFrameFormat
    s = Source()
    s.fmt = rng.choice(SUPPORTED)
    s.w, s.h = r_size(rng, s.fmt, large)
    s.rate, s.duration, s.ids = rate, 1 / rate, (uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=rng.getrandbits(128)))
    bits, bps, hs, vs, _ = gen.planar_info(s.fmt)
    kw = dict(rate=rate, cog_frame_format=CogFrameFormat[s.fmt])
    if rng.random() < 0.5:
        s.name = "LumaSteps"
        s.make = lambda: LumaSteps(*s.ids, s.w, s.h, **kw)

        def value(p, ci):
            return black(bits) + p * (WHITE[bits] - black(bits)) // 8 if ci == 0 else 1 << (bits - 1)
        s.kind = "steps"
    else:
        intensity = rng.choice([0.75, 1.0, 0.0, 0.5, round(rng.random(), 3)])
        s.name = "ColourBars intensity %s" % intensity
        if intensity != 0.75 or rng.random() < 0.5:
            kw["intensity"] = intensity
        s.make = lambda: ColourBars(*s.ids, s.w, s.h, **kw)

        def value(p, ci):
            v = BARS[p][ci] >> (16 - bits)
            return int(v * intensity) if ci == 0 else v
        s.kind = "bars"
    s.name = "%s %s %dx%d" % (s.name, s.fmt, s.w, s.h)
    def expect(g, n, where):
        ctx.equal((g.cog_frame_layout.name, list(g.timelabels)), ("FULL_FRAME", []), where + ": layout and time labels")
        drawn(ctx, s.fmt, s.w, s.h, g, value, where)
    s.expect = expect
    s.data = None
    ctx.count("odd_widths", int(s.w % 8 != 0))
    return s


def still(ctx, rng, supported=False):
    """any video grain"""
    from mediagrains.patterngenerators.video import StillPatternGenerator
    from mediagrains.utils.iobytes import IOBytes
    from mediagrains import numpy as mnp
    s = Source()
    d = gen.r_desc(rng, "video")
    s.fmt = rng.choice(SUPPORTED) if supported else rng.choice(SUPPORTED + list(gen.PLANAR) + list(gen.PACKED))
    pi = gen.planar_info(s.fmt)
    s.w, s.h = r_size(rng, s.fmt if pi else "U8_420")
    if pi or s.fmt != "v210":
        s.w = max(s.w, 2)
    # even sizes only, as for every subsampled format
    s.w, s.h = s.w + s.w % 2, s.h + s.h % 2
    comps = gen.video_layout(s.fmt, s.w, s.h)
    wrap = rng.choice(["bytes", "bytearray", "view", "lazy", "numpy"])
    if pi and wrap != "numpy" and rng.random() < 0.4:
        # padded lines, and gaps between components
        off, out = rng.choice([0, 0, 16]), []
        for (cw, ch, stride, _, _) in comps:
            st = stride + pi[1] * rng.choice([0, 1, 5, 16])
            out.append((cw, ch, st, off, st * ch))
            off += st * ch + pi[1] * rng.choice([0, 3])
        comps, size = out, off
        ctx.count("padded")
    else:
        size = gen.video_size(s.fmt, s.w, s.h)
    rate = rng.choice(RATES)
    d.update(fmt=gen.FRAME[s.fmt], width=s.w, height=s.h, components=comps, data=rng.randbytes(size), rate=rate)
    s.data = d["data"]
    t = gen.build(d, "meta", dict(bytes=bytes, bytearray=bytearray, view=memoryview, lazy=lambda b: IOBytes(io.BytesIO(b"x" + b), 1, len(b)), numpy=bytearray)[wrap])
    if wrap == "numpy":
        t = mnp.VideoGrain(grain=t)
        ctx.count("numpy")
    s.rate, s.duration, s.ids, s.kind = rate, t.duration, (t.src_id, t.flow_id), "stills"
    s.name = "still %s %dx%d (%s)" % (s.fmt, s.w, s.h, wrap)
    before = m03.snap(t)

    def expect(g, n, where):
        got = bytes(memoryview(g.data).cast("B"))
        ctx.require(got == s.data, where + ": data of the still", got=got[:80].hex(), want=s.data[:80].hex())
        ctx.equal(m03.snap(t), before, where + ": template changed")
        a, b = copy.deepcopy(g.meta), copy.deepcopy(t.meta)
        for m in (a, b):
            for k in ("origin_timestamp", "sync_timestamp"):
                m["grain"].pop(k, None)
        ctx.equal(a, b, where + ": metadata of the still")
        ctx.count("samples", len(got))
    s.make = lambda: StillPatternGenerator(t)
    s.expect = expect
    return s


def overlay(ctx, rng, src):
    from mediagrains.patterngenerators.video import MovingBarOverlay
    s = Source()
    s.fmt, s.w, s.h, s.rate, s.duration, s.ids = src.fmt, src.w, src.h, src.rate, src.duration, src.ids
    bits, bps, hs, vs, _ = gen.planar_info(s.fmt)
    height = rng.choice([0, 1, 2, s.h // 2, s.h, s.h + 3, 2 * s.h, rng.randint(1, 12)])
    speed = rng.choice([1.0, 1.0, 2.0, 0.5, 0, -1.0, 3, round(rng.uniform(-4, 4), 2)])
    s.name = "bar of %d at speed %s over %s" % (height, speed, src.name)
    kept = src.make()
    plain = src.make()
    s.make = lambda: MovingBarOverlay(kept, height=height, **({} if speed == 1.0 else dict(speed=speed)))
    s.kind = "overlays"
    s.expect = None

    def expect(g, n, where):
        from mediatimestamp import TimeValue
        base = plain.get(TimeValue(n, rate=s.rate))
        want = bytearray(memoryview(base.data).cast("B"))
        f = int(speed * n)
        ctx.equal([(c.width, c.height, c.stride, c.offset) for c in g.components], [(c.width, c.height, c.stride, c.offset) for c in base.components], where + ": geometry")
        for ci, c in enumerate(base.components):
            v = vs if ci else 0
            value = (black(bits) if ci == 0 else 1 << (bits - 1)).to_bytes(bps, "little")
            for i in range(height >> v):
                o = c.offset + ((f >> v) + i) % c.height * c.stride
                want[o:o + c.width * bps] = value * c.width
        got = bytes(memoryview(g.data).cast("B"))
        ctx.require(got == bytes(want), where + ": picture", first_difference=next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), None), lengths=(len(got), len(want)))
        ctx.count("samples", len(got) // bps)
        ctx.saw("bar", s.fmt, s.h, height, f % s.h if s.h else 0)
        if src.expect is not None and rng.random() < 0.3:
            # the source still draws what it did
            src.expect(kept.get(TimeValue(n, rate=s.rate)), n, where + ": source afterwards")
    s.expect = expect
    return s


def ask(rng, g, n, rate):
    """the grain of count n, by any way of asking"""
    from mediatimestamp import TimeValue, Timestamp, TimeValueRange
    ts = Timestamp.from_count(n, rate.numerator, rate.denominator)
    how = rng.randrange(6)
    if how == 0:
        return g[n]
    if how == 1:
        return g[ts]
    if how == 2:
        return g[TimeValue(n, rate=rate)]
    if how == 3:
        return g.get(TimeValue(ts))
    if how == 4:
        return next(iter(g[ts:]))
    k = rng.randint(1, 3)
    return list(g[TimeValueRange(n - k, n, rate=rate)])[-1]


def case(ctx, rng, key, p):
    large = bool(p.get("large"))
    r = rng.random()
    s = still(ctx, rng, supported=r < 0.25) if r < 0.4 and not large else steps(ctx, rng, large, rng.choice(RATES))
    if s.fmt in SUPPORTED and rng.random() < 0.5:
        s = overlay(ctx, rng, s)
        if rng.random() < 0.2:
            s = overlay(ctx, rng, s)
            ctx.count("overlays_of_overlays")
    g = s.make()
    ctx.equal((g.src_id, g.flow_id, g.rate, g.width, g.height, g.cog_frame_format.name), s.ids + (s.rate, s.w, s.h, s.fmt), s.name + ": attributes of the generator")
    given = []
    for _ in range(3 if large else 8):
        n = rng.choice([0, 1, rng.randint(-30, 30), rng.randint(-30, 30), rng.randint(0, 10 ** 4), 10 ** 9 + rng.randint(0, 100),
                        int(rng.randint(-10 ** rng.randint(9, 14), 10 ** rng.randint(9, 14)) * s.rate)])
        if n / s.rate > 2 ** 47:
            n = 5
        where = "%s at %s fps, grain %d" % (s.name, s.rate, n)
        x = ask(rng, g, n, s.rate)
        ctx.equal((x.src_id, x.flow_id, x.rate, x.duration, x.width, x.height, x.cog_frame_format.name, gen.ts_ns(x.origin_timestamp), gen.ts_ns(x.sync_timestamp)),
                  s.ids + (s.rate, s.duration, s.w, s.h, s.fmt, tsref.at(n, s.rate), tsref.at(n, s.rate)), where + ": attributes")
        s.expect(x, n, where)
        for y, snap in given:
            ctx.require(m03.snap(y) == snap, where + ": a grain handed out before has changed")
        if rng.random() < 0.5 and x.data is not None and not isinstance(x.data, bytes):
            # the user draws on the grain
            m = memoryview(x.data).cast("B")
            for _ in range(5):
                m[rng.randrange(len(m))] ^= 0xff
            x.meta["grain"]["cog_frame"]["height"] = 1
            ctx.count("vandalised")
        given.append((x, m03.snap(x)))
        ctx.count("grains")
        ctx.count(s.kind)
        ctx.count("negative_times", int(n < 0))
        ctx.saw(s.kind, s.fmt, s.w, s.h, s.rate)
        ctx.sample(where)
