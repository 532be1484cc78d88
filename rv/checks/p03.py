"""P03: how pattern generators are asked for grains."""
import itertools
import uuid
from fractions import Fraction

from .. import gen, tsref

ID = "P03"
LEVEL = "exploration"
RULE = ("Every pattern generator of the library (and sparse generators made for the check, which log what they are asked for) is asked at random rates for single grains by integers, time values, "
        "timestamps and objects that have a time, on and off grain times, and for runs of grains by slices with and without steps (in grains or in time), count, time and time value ranges of every "
        "inclusivity, with and without a rate, empty, reversed, unbounded or with bounds off grain times; membership, lookup with a default and the error for what does not "
        "exist must agree with each other, and grains of runs must be the grains of single requests, in order, at exactly the times in the range, made no earlier than needed. "
        "Distinct = (generator, rate, way of asking, kind of result).")
FLOORS = dict(single=20000, missing=13000, runs=24000, run_grains=65000, stepped=2500, other_rate=1800, empty=5500, unbounded=1800, off_grid_bounds=6000, invalid=13000, sparse=150, contents=18000)
VIDEO_RATES = [Fraction(25), Fraction(50), Fraction(24), Fraction(30), Fraction(30000, 1001), Fraction(60000, 1001), Fraction(24000, 1001), Fraction(1), Fraction(7, 3)]
AUDIO_RATES = [(48000, 1920), (44100, 1764), (48000, 1602), (48000, 1), (44100, 1024), (8000, 7), (96000, 960), (11025, 441)]


def plan(ctx):
    return [("address-%d" % j, dict()) for j in range(ctx.n(2000, 30000))]


class WithTime:
    """an object that has a time"""
    def __init__(self, ts):
        self.ts = ts

    def __mediatimestamp__(self):
        return self.ts


class WithRange:
    def __init__(self, r):
        self.r = r

    def __mediatimerange__(self):
        return self.r


class Gen:
    """a generator under test; unit: its media units per second; per: media units per grain"""


def make(ctx, rng):
    from mediagrains.patterngenerators import FixedRatePatternGenerator
    from mediagrains.patterngenerators.video import LumaSteps, ColourBars, StillPatternGenerator, MovingBarOverlay
    from mediagrains.patterngenerators.audio import Tone, Silence
    from mediagrains.grains import EventGrain
    from mediatimestamp import TimeValue
    x = Gen()
    x.ids = (uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=rng.getrandbits(128)))
    x.log, x.sparse, x.audio = None, None, False
    r = rng.random()
    if r < 0.3:
        sr, samples = rng.choice(AUDIO_RATES)
        x.audio, x.unit, x.per, x.rate = True, Fraction(sr), samples, Fraction(sr, samples)
        cls = rng.choice([Tone, Silence])
        x.name, x.g = cls.__name__, cls(*x.ids, samples=samples, channels=1, sample_rate=sr)
        return x
    x.rate = x.unit = rng.choice(VIDEO_RATES)
    x.per = 1
    if r < 0.45:
        # a generator that has only some grains
        x.sparse = rng.choice([2, 3])
        x.log = []

        class Sparse(FixedRatePatternGenerator):
            def get(self, key, default=None):
                k = TimeValue(key, rate=self.rate).as_count()
                x.log.append(k)
                if k % x.sparse:
                    return default
                ts = TimeValue(k, rate=self.rate).as_timestamp()
                return EventGrain(topic=str(k), src_id=x.ids[0], flow_id=x.ids[1], origin_timestamp=ts, sync_timestamp=ts, rate=self.rate, duration=1 / self.rate)
        x.name, x.g = "sparse", Sparse(x.rate)
        ctx.count("sparse")
        return x
    w, h = 8 * rng.randint(1, 3), 2 * rng.randint(1, 3)
    cls = rng.choice([LumaSteps, ColourBars])
    g = cls(*x.ids, w, h, rate=x.rate)
    x.name = cls.__name__
    if rng.random() < 0.3:
        g, x.name = StillPatternGenerator(g[TimeValue(0, rate=x.rate)]), "still"
    if rng.random() < 0.4:
        g, x.name = MovingBarOverlay(g, height=rng.randint(1, 3), speed=rng.choice([1.0, 0.5, 2.0])), x.name + " with bar"
    x.g = g
    return x


def at(x, n):
    """time of grain n in ns"""
    return tsref.at(n * x.per, x.unit)


def exists(x, n):
    return x.sparse is None or n % x.sparse == 0


def ts(ns):
    from mediatimestamp import Timestamp
    return Timestamp(abs(ns) // gen.NS, abs(ns) % gen.NS, -1 if ns < 0 else 1)


def good(ctx, x, g, n, where):
    ctx.require(g is not None, where + ": no grain")
    ctx.equal((gen.ts_ns(g.origin_timestamp), gen.ts_ns(g.sync_timestamp), g.src_id, g.flow_id, g.rate, g.duration), (at(x, n), at(x, n)) + x.ids + (x.rate, 1 / x.rate), where + ": grain")


def content(g):
    m = {k: v for k, v in g.meta["grain"].items() if k != "creation_timestamp"}
    return repr(m), bytes(g.data) if g.data is not None else None


def key_for(ctx, rng, x):
    """(key, grain number or None)"""
    from mediatimestamp import TimeValue
    n = rng.choice([0, 1, -1, rng.randint(-50, 50), rng.randint(-50, 50), rng.randint(0, 10 ** 5), 10 ** 7 + rng.randint(0, 1000)])
    how = rng.randrange(9)
    if how == 0:
        return "integer", n * x.per, n
    if how == 1:
        return "count", TimeValue(n * x.per), n
    if how == 2:
        return "count at rate", TimeValue(n, rate=x.rate), n
    if how == 3:
        return "timestamp", ts(at(x, n)), n
    if how == 4:
        return "time value", TimeValue(ts(at(x, n))), n
    if how == 5:
        return "object with time", WithTime(ts(at(x, n))), n
    # not the time of a grain
    if x.sparse:
        n = x.sparse * n + 1
        return "missing", rng.choice([n, ts(at(x, n)), TimeValue(n, rate=x.rate)]), None
    if x.audio:
        if x.per == 1:
            return "integer", n, n
        s = n * x.per + rng.randint(1, x.per - 1)
        return "between grains", rng.choice([s, ts(tsref.at(s, x.unit)), TimeValue(s, rate=x.unit), TimeValue(s)]), None
    a, b = at(x, n), at(x, n + 1)
    off = rng.choice([a + 1, b - 1, (a + b) // 2, rng.randint(a + 1, b - 1)])
    return "between grains", rng.choice([ts(off), TimeValue(ts(off)), WithTime(ts(off)), TimeValue(2 * n + 1, rate=2 * x.rate)]), None


def single(ctx, rng, x):
    from mediatimestamp import TimeValue
    how, key, n = key_for(ctx, rng, x)
    if n is not None and not exists(x, n):
        n = None
    where = "%s at %s: %s %r" % (x.name, x.rate, how, key)
    tv = TimeValue(key)
    default = object()
    if n is None:
        ctx.raises(KeyError, lambda: x.g[key], where + ": [] of no grain")
        ctx.require((key in x.g) is False, where + ": membership of no grain")
        ctx.require(x.g.get(tv) is None, where + ": get of no grain")
        got = x.g.get(tv, default)
        ctx.require(got is default, where + ": get of no grain with default", got=got)
        ctx.count("missing")
    else:
        g = x.g[key]
        good(ctx, x, g, n, where)
        ctx.require((key in x.g) is True, where + ": membership")
        h = x.g.get(tv, default)
        ctx.require(h is not default, where + ": default for a grain that exists")
        good(ctx, x, h, n, where + " by get")
        ctx.equal(content(h), content(g), where + ": contents by get")
        ctx.require(h is not g, where + ": the same grain handed out twice")
        ctx.count("single")
    ctx.saw(x.name, x.rate, how, n is None)
    ctx.sample(where)


def run_key(ctx, rng, x):
    """(description, key, grain numbers (an iterator, may be endless), bounded?)"""
    from mediatimestamp import TimeValue, TimeValueRange, TimeRange, CountRange, Timestamp
    a = rng.choice([0, rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(0, 10 ** 6), int(rng.randint(-10 ** rng.randint(9, 14), 10 ** rng.randint(9, 14)) * x.rate)])
    k = rng.choice([0, 1, 1, 2, 3, 5, 8, -1, -3])
    b = a + k
    how = rng.choice(["slice counts", "slice times", "slice values", "slice step", "slice time step", "TimeRange", "TimeRange", "CountRange", "TimeValueRange", "TimeValueRange rate",
                      "object", "other rate", "unbounded"])
    inc = rng.randrange(4)

    def inside(a, b, inc):
        return range(a + (0 if inc & 1 else 1), b + (1 if inc & 2 else 0))
    ta, tb = ts(at(x, a)), ts(at(x, b))
    if how == "slice counts":
        return how, slice(a, b), inside(a, b, 3)
    if how == "slice times":
        return how, slice(ta, tb), inside(a, b, 3)
    if how == "slice values":
        return how, slice(TimeValue(a, rate=x.rate), TimeValue(b, rate=x.rate)), inside(a, b, 3)
    if how == "slice step":
        step = rng.choice([1, 2, 3, 7, rng.randint(1, 5000)])
        b = a + rng.randint(0, 20) * rng.choice([1, step])
        ctx.count("stepped")
        return how, slice(*rng.choice([(a, b), (ta, ts(at(x, b)))]), step), inside(a, b, 3)[::step]
    if how == "slice time step":
        # a step of whole grains
        if (gen.NS / x.rate).denominator != 1:
            return "slice times", slice(ta, tb), inside(a, b, 3)
        step = rng.choice([1, 2, 3, rng.randint(1, 5000)])
        a -= a % step                  # the grid of the step
        b = a + step * rng.randint(0, 8)
        ctx.count("stepped")
        ns = int(step * gen.NS / x.rate)
        return how, slice(ts(at(x, a)), ts(at(x, b)), ts(ns)), inside(a, b, 3)[::step]
    if how == "TimeRange":
        return how, TimeRange(ta, tb, TimeRange.Inclusivity(inc)), inside(a, b, inc)
    if how == "CountRange":
        return how, CountRange(a, b, inc), inside(a, b, inc)
    if how == "TimeValueRange":
        v = rng.choice([(ta, tb), (a, b), (TimeValue(ta), TimeValue(tb))])
        return how, TimeValueRange(*v, inc), inside(a, b, inc)
    if how == "TimeValueRange rate":
        v = rng.choice([(ta, tb), (a, b)])
        return how, TimeValueRange(*v, inc, rate=x.rate), inside(a, b, inc)
    if how == "object":
        return how, WithRange(TimeRange(ta, tb, TimeRange.Inclusivity(inc))), inside(a, b, inc)
    if how == "other rate":
        b = a + rng.randint(0, 10)
        ctx.count("other_rate")
        if rng.random() < 0.5 or x.sparse or x.audio and x.per < 7:
            # every second grain
            return how, TimeValueRange(a, b, rate=x.rate / 2), [2 * n for n in inside(a, b, 3)]
        m = rng.choice([2, 3])
        return how, TimeValueRange(a, b, rate=x.rate * m), [n // m for n in inside(a, b, 3) if n % m == 0]
    ctx.count("unbounded")
    key = rng.choice([slice(a, None), slice(ta, None), slice(ta, None, 1), TimeRange.from_start(ta), CountRange.from_start(a), TimeValueRange.from_start(TimeValue(a, rate=x.rate)),
                      TimeValueRange(ta, None), TimeRange(ta, None)])
    return how, key, itertools.count(a)


def run(ctx, rng, x):
    how, key, want = run_key(ctx, rng, x)
    endless = not isinstance(want, (list, range))
    where = "%s at %s: %s %r" % (x.name, x.rate, how, key)
    want = (n for n in want if exists(x, n))
    if endless:
        want = itertools.islice(want, rng.randint(1, 5))
    want = list(want)
    if x.log is not None:
        del x.log[:]
    it = x.g[key]
    if x.log is not None:
        ctx.require(x.log == [], where + ": grains made before they are asked for", log=x.log)
    got = []
    for g in it:
        got.append(g)
        if x.log is not None and len(got) <= len(want):
            ctx.require(x.log[-1] == want[len(got) - 1], where + ": grains made ahead", log=x.log)
        if len(got) > len(want) + 2 or (endless and len(got) == len(want)):
            break
    ctx.equal([gen.ts_ns(g.origin_timestamp) for g in got], [at(x, n) for n in want], where + ": times of grains")
    for g, n in zip(got, want):
        good(ctx, x, g, n, where)
    if got:
        i = rng.randrange(len(got))
        from mediatimestamp import TimeValue
        ctx.equal(content(got[i]), content(x.g[TimeValue(want[i], rate=x.rate)]), where + ": contents of grain %d" % want[i])
        ctx.count("contents")
    ctx.count("runs")
    ctx.count("run_grains", len(got))
    ctx.count("empty", int(not want))
    ctx.saw(x.name, x.rate, how, len(got))


def loose(ctx, rng, x):
    """bounds that are not grain times are taken to a grain at most one away"""
    from mediatimestamp import TimeRange, TimeValueRange
    a = rng.randint(-20, 1000)
    b = a + rng.randint(0, 6)
    step = at(x, a + 1) - at(x, a)
    if step < 10:
        return
    lo, hi = at(x, a) + rng.randrange(step), at(x, b) + rng.randrange(step)
    if hi < lo:
        lo, hi = hi, lo
    inc = rng.randrange(4)
    key = rng.choice([slice(ts(lo), ts(hi)), TimeRange(ts(lo), ts(hi), TimeRange.Inclusivity(inc)), TimeValueRange(ts(lo), ts(hi), inc)])
    where = "%s at %s: %r" % (x.name, x.rate, key)
    times = [gen.ts_ns(g.origin_timestamp) for g in x.g[key]]
    numbers = [n for n in range(a - 2, b + 4) if at(x, n) in times]
    ctx.equal([at(x, n) for n in numbers], times, where + ": times of grains with bounds between grains")
    want = [n for n in range(a - 2, b + 4) if exists(x, n)]
    ctx.equal(numbers, [n for n in want if numbers and numbers[0] <= n <= numbers[-1]], where + ": gaps in a run")
    ctx.require(all(lo - step <= t <= hi + step for t in times), where + ": grains outside the range", times=times)
    ctx.require(all(at(x, n) in times for n in want if lo + step < at(x, n) < hi - step), where + ": grains of the range are missing", times=times)
    ctx.count("off_grid_bounds")


def invalid(ctx, rng, x):
    from mediatimestamp import TimeRange, TimeValueRange, CountRange
    for key in (slice(None, 5), slice(None, ts(5)), TimeRange.from_end(ts(3)), CountRange.from_end(3), TimeValueRange.from_end(3), TimeRange.eternity(), slice(None, None)):
        ctx.raises(ValueError, lambda: x.g[key], "%s: range without start %r" % (x.name, key))
    for key in ("0", None, 1.5, b"0", [1], object()):
        ctx.raises(ValueError, lambda: x.g[key], "%s: key %r" % (x.name, key))
    ctx.count("invalid", 13)


def case(ctx, rng, key, p):
    x = make(ctx, rng)
    for _ in range(6):
        for _ in range(6):
            single(ctx, rng, x)
        for _ in range(4):
            run(ctx, rng, x)
        loose(ctx, rng, x)
    invalid(ctx, rng, x)
