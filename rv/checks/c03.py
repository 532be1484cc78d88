"""C03: pairwise comparison of grain streams."""
import collections
import copy
import gc
import io
import itertools
import weakref

from .. import gen
from . import c01, c02, m03

ID = "C03"
LEVEL = "exploration"
RULE = ("Pairs of grain streams of 0-12 (and some of 60) grains of all classes, equal, differing at one or more chosen positions or of unequal length, are compared pairwise under random options, "
        "as lists, tuples, deques, generators, one-shot iterators, re-iterable objects, endless streams, GSF decoders and pattern generator slices, with and without returning only the last "
        "result. Monitored iterators log every request: the verdict must be that of the direct comparison of the fields of the pairs, no stream may be restarted, asked "
        "again after its end or read past the first difference, the results present must be those of the pairs compared, in order, and "
        "an error in a stream must reach the caller. Distinct = (kinds of iterable, lengths, first difference, types, options, last only).")
FLOORS = dict(streams=12000, equal=4500, differing=5000, unequal_length=2500, empty=2700, last_only=6000, requests=40000, endless=250, errors=900, long=20, from_gsf=30, from_pattern=30)


def plan(ctx):
    return [("streams-%d" % j, dict()) for j in range(ctx.n(1500, 24000))] + [("long-%d" % j, dict(long=True)) for j in range(ctx.n(24, 300))] + [
        ("library-%d" % j, dict(library=True)) for j in range(ctx.n(120, 2000))]


class Broken(Exception):
    pass


class Stream:
    """a monitored iterator: logs requests; misuse is recorded"""

    def __init__(self, items, log, fail_at=None, endless=False):
        self.items, self.log, self.fail_at, self.endless = items, log, fail_at, endless
        self.i, self.done, self.iters = 0, False, 0

    def __iter__(self):
        self.iters += 1
        return self

    def __next__(self):
        if self.done:
            self.log.append("again")
        if self.i == self.fail_at:
            self.log.append("fail")
            raise Broken("at %d" % self.i)
        if self.i >= len(self.items) and not self.endless:
            self.done = True
            self.log.append("end")
            raise StopIteration
        self.log.append(self.i)
        self.i += 1
        return self.items[(self.i - 1) % len(self.items)]


class Reiterable:
    def __init__(self, items, log):
        self.items, self.log, self.iters = items, log, 0

    def __iter__(self):
        self.iters += 1
        return Stream(self.items, self.log)


def iterable(rng, items, log, fail_at=None, endless=False):
    """(kind, iterable, monitored?)"""
    if endless:
        return "endless", Stream(items, log, endless=True)
    kind = rng.choice(["list", "tuple", "deque", "generator", "iterator", "iterator", "reiterable", "map"]) if fail_at is None else rng.choice(["generator", "iterator"])
    if kind == "list":
        return kind, list(items)
    if kind == "tuple":
        return kind, tuple(items)
    if kind == "deque":
        return kind, collections.deque(items)
    if kind == "reiterable":
        return kind, Reiterable(items, log)
    s = Stream(items, log, fail_at)
    if kind == "generator":
        return kind, (g for g in s)
    if kind == "map":
        return kind, map(lambda g: g, s)
    return kind, s


def verdict(pair, descs):
    a, b = pair
    v, excluded = c02.reference(a, b, c01.expected(a, b), descs)
    vals = [x for k, x in v.items() if k not in excluded]
    return None if None in vals else all(vals)


def r_pairs(ctx, rng, n):
    """n pairs of grains"""
    out = []
    base = gen.r_desc(rng)
    equal = rng.random() < 0.4
    bad = rng.randrange(n) if n and not equal else None
    while len(out) < n:
        if rng.random() < 0.3:
            base = gen.r_desc(rng)
        d = dict(copy.deepcopy(base), origin=len(out) * 40000000, sync=len(out) * 40000000)
        e, what = copy.deepcopy(d), []
        if len(out) == bad or (not equal and rng.random() < 0.1):
            e, what = c01.mutate(ctx, rng, d)
        elif rng.random() < 0.1:
            e["creation"] += 1000
        p = (c01.make(ctx, rng, d)[0], c01.make(ctx, rng, e)[0])
        if None in c01.expected(*p).values():
            continue
        out.append(p)
    return out


def judge(ctx, rng, As, Bs, descs, opts, last_only, where, fail=None, endless=False):
    from mediagrains.comparison import compare_grains_pairwise, compare_grain
    n = min(len(As), len(Bs)) if not endless else len(As)
    pairs = [(As[i], Bs[i % len(Bs)]) for i in range(n)]
    ok = [verdict(p, descs) for p in pairs]
    if None in ok:
        return
    first = ok.index(False) if False in ok else None
    log = [[], []]
    fail_at = [None, None]
    if fail is not None:
        fail_at[fail[0]] = fail[1]
    swap = endless and rng.random() < 0.5
    ka, xa = iterable(rng, As, log[0], fail_at[0])
    kb, xb = iterable(rng, Bs, log[1], fail_at[1], endless)
    if swap:
        # the endless stream first; the fields' differences change sign
        if descs:
            return
        xa, xb, ka, kb, log = xb, xa, kb, ka, log[::-1]
        As, Bs, pairs = Bs, As, [p[::-1] for p in pairs]
    where += " %d %s, %d %s%s, options %s" % (len(As), ka, len(Bs), kb, ", last only" if last_only else "", descs)
    before = [m03.snap(g) for p in pairs for g in p]
    reach = first if first is not None else n          # entries before the one that ends the comparison
    if fail is not None and fail[1] <= reach and (first is None or fail[1] <= first):
        # the broken stream is reached: as the second stream only if the first one did not end before
        ctx.raises(Broken, lambda: compare_grains_pairwise(xa, xb, *opts, return_last_only=last_only), where + ": error in a stream")
        ctx.count("errors")
        return
    r = compare_grains_pairwise(xa, xb, *opts, return_last_only=last_only)
    same_length = not endless and len(As) == len(Bs)
    want = first is None and same_length
    ctx.require(bool(r) is want, where + ": verdict", got=bool(r), want=want, first=first, report=str(r)[:1500])
    ctx.require([m03.snap(g) for p in pairs for g in p] == before, where + ": grains changed")
    # requests made of the streams
    for which, x, l in ((0, xa, log[0]), (1, xb, log[1])):
        ctx.require("again" not in l, where + ": stream %d asked again after its end" % which, log=l)
        got = [i for i in l if isinstance(i, int)]
        ctx.require(got == list(range(len(got))), where + ": stream %d not consumed once in order" % which, log=l)
        ctx.require(len(got) <= (first + 1 if first is not None else n + 1), where + ": stream %d read past the first difference" % which, log=l, first=first)
        ctx.count("requests", len(l))
        if isinstance(x, Reiterable):
            ctx.require(x.iters <= 1, where + ": stream %d iterated %d times" % (which, x.iters))
    # results present
    keys = list(range(reach)) + ([reach] if not want else [])
    ctx.equal(len(r), sum(k < n for k in keys), where + ": number of pairs compared")
    if last_only:
        keys = keys[-1:]
    ctx.require([c.key for c in r.children] == keys, where + ": results present", got=[c.key for c in r.children], want=keys)
    for k, c in zip(keys, r.children):
        ctx.require(r[k] is c, where + ": result [%d]" % k)
        if k < n:
            direct = compare_grain(*pairs[k], *opts)
            ctx.require(bool(c) is ok[k] and c.failing_attributes() == direct.failing_attributes(), where + ": result [%d]" % k, got=str(c)[:800], want=str(direct)[:800])
            ctx.require(c.a is pairs[k][0] and c.b is pairs[k][1], where + ": grains of result [%d]" % k)
        else:
            longer = 0 if endless and swap or not endless and len(As) > len(Bs) else 1
            ctx.require(not c and not c.excluded() and (c.a, c.b)[1 - longer] is None and (c.a, c.b)[longer] is not None, where + ": result of the end", got=str(c)[:800])
    ctx.require(r.failing_keys() == [k for k in keys if k == reach and not want], where + ": failing keys", got=r.failing_keys())
    if not want:
        ctx.require(str(r).splitlines()[0].endswith("entry %d" % reach) or "entry" not in str(r).splitlines()[0], where + ": entry of first difference", got=r.msg[:200], want=reach)
    ctx.require(str(r).startswith("\u2705" if want else "\u274c") and isinstance(r.msg, str), where + ": report")
    ctx.count("streams")
    ctx.count("equal", int(want))
    ctx.count("differing", int(first is not None))
    ctx.count("unequal_length", int(first is None and not same_length))
    ctx.count("empty", int(not As or not Bs))
    ctx.count("last_only", int(last_only))
    ctx.count("endless", int(endless))
    ctx.saw(ka, kb, len(As), len(Bs), first, tuple(sorted({p[0].grain_type for p in pairs})), len(descs), last_only)
    ctx.sample("%s -> %s" % (where, want))


def long(ctx, rng):
    """60 grains made one at a time: with return_last_only they must not accumulate"""
    from mediagrains.comparison import compare_grains_pairwise
    n = 60
    d = gen.r_desc(rng, rng.choice(["audio", "video", "coded_video", "event"]))
    live, peak = [], [0]

    def grains(diff):
        for i in range(n):
            x = dict(d, origin=i * 1000)
            if i == diff:
                x["origin"] += 1
            g = gen.build(x, "class", bytes)
            live.append(weakref.ref(g))
            yield g
            del g
            if i % 10 == 9:
                gc.collect()
                peak[0] = max(peak[0], sum(w() is not None for w in live))
    diff = rng.choice([None, rng.randrange(n)])
    r = compare_grains_pairwise(grains(None), grains(diff), return_last_only=True)
    ctx.require(bool(r) is (diff is None), "60 grains, different at %s: verdict" % diff, report=str(r)[:500])
    ctx.require(peak[0] <= 8, "grains kept although only the last result is returned", peak=peak[0])
    ctx.require([c.key for c in r.children] == [n - 1 if diff is None else diff], "last result of 60", got=[c.key for c in r.children])
    ctx.count("long")


def library(ctx, rng):
    """streams made by the library itself"""
    from mediagrains.comparison import compare_grains_pairwise, options
    if rng.random() < 0.5:
        from mediagrains.gsf import GSFDecoder, GSFEncoder
        n = rng.randint(0, 8)
        ds = [gen.r_desc(rng, rng.choice(["audio", "video", "event", "coded_audio"])) for _ in range(n)]
        grains = [gen.build(d, "class", bytes) for d in ds]
        buf = io.BytesIO()
        with GSFEncoder(buf) as enc:
            enc.add_segment(local_id=1)
            for g in grains:
                enc.add_grain(g, segment_local_id=1)
        cut = rng.choice([None, None, rng.randint(0, n)])
        want = cut is None or cut == n
        with GSFDecoder(file_data=io.BytesIO(buf.getvalue())) as dec:
            r = compare_grains_pairwise((g for g, _ in dec.grains()), grains[:cut], return_last_only=rng.random() < 0.5)
            ctx.require(bool(r) is want, "grains read from GSF compared to those written", n=n, cut=cut, report=str(r)[-1500:])
        ctx.count("from_gsf")
    else:
        import uuid
        from fractions import Fraction
        from mediatimestamp import TimeValue, TimeValueRange
        from mediagrains.patterngenerators.video import LumaSteps
        ls = LumaSteps(uuid.UUID(int=1), uuid.UUID(int=2), 16, 8)
        n = [rng.randint(0, 5) for _ in "ab"]
        a, b = [lambda first=0, k=k: itertools.islice(ls[TimeValueRange.from_start(TimeValue(first, Fraction(25)))], k) for k in n]
        r = compare_grains_pairwise(a(), b(), return_last_only=rng.random() < 0.5)
        ctx.require(bool(r) is (n[0] == n[1]), "pattern generator slices compared", n=n, report=str(r)[:800])
        r = compare_grains_pairwise(a(), a(1))
        ctx.require(bool(r) is (n[0] == 0), "shifted slice", n=n)
        r = compare_grains_pairwise(a(), a(1), options.Exclude.origin_timestamp, options.Exclude.sync_timestamp, return_last_only=True)
        ctx.require(bool(r), "shifted slice without timestamps", n=n, report=str(r)[:800])
        ctx.count("from_pattern")


def case(ctx, rng, key, p):
    if p.get("long"):
        return long(ctx, rng)
    if p.get("library"):
        return library(ctx, rng)
    pairs = r_pairs(ctx, rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12]))
    As, Bs = [x[0] for x in pairs], [x[1] for x in pairs]
    for _ in range(10):
        chosen = []
        if rng.random() < 0.5 and pairs:
            x = rng.choice(pairs)
            chosen = c02.r_options(ctx, rng, *x, c01.expected(*x))
        descs, opts = [c[0] for c in chosen], [c[1] for c in chosen]
        for last_only in (False, True):
            i = rng.randint(0, len(pairs)) if rng.random() < 0.4 else None
            fail = (rng.randrange(2), rng.randint(0, len(pairs))) if rng.random() < 0.15 else None
            a, b = As, Bs
            if i is not None:
                a, b = (As[:i], Bs) if rng.random() < 0.5 else (As, Bs[:i])
            if fail is not None and i is not None:
                fail = None
            endless = fail is None and i is None and bool(Bs) and rng.random() < 0.06
            judge(ctx, rng, a, b, descs, opts, last_only, "", fail, endless)
