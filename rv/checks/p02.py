"""P02: the samples of audio tone generators."""
import math
import struct
import uuid
from fractions import Fraction

from .. import gen, tsref

ID = "P02"
LEVEL = "exploration"
RULE = ("Tones, 1 kHz tones and silence are made in every PCM format at random sample rates, frequencies, volumes (with silent and full volume), channel counts and grain sizes, and asked for "
        "single grains and runs of grains before and after time zero in random order by every way of asking; every sample of every channel is decoded from the bytes and "
        "compared to the sine at its absolute sample index computed with exact phase; grains handed out are overwritten and asked for again. Distinct = "
        "(format, channels, sample rate, frequency, samples, volume class).")
FLOORS = dict(grains=20000, samples=7000000, runs=5000, full_volume=160, silent=7000, odd_pairs=180, loops=550, negative=2800, repeated=3300, vandalised=10000, far=1500)
RATES = [48000, 44100, 96000, 32000, 8000, 11025, 192000, 100, 1001, 47952]
FORMATS = list(gen.PCM)


def plan(ctx):
    return [("tone-%d" % j, dict(fmt=FORMATS[j % len(FORMATS)])) for j in range(ctx.n(2500, 60000))]


def decode(fmt, data, channels, samples):
    """[[values]] per channel"""
    kind, order = fmt.split("_")
    size = gen.audio_sample_bytes(fmt)

    def value(i):
        b = data[i * size:(i + 1) * size]
        if kind == "FLOAT":
            return struct.unpack("<f", b)[0]
        if kind == "DOUBLE":
            return struct.unpack("<d", b)[0]
        # 24-bit samples are the lower three octets, in planes of the lower part of 32 bits
        return int.from_bytes(b[:3] if kind == "S24" else b, "little", signed=True)
    if order == "PLANES":
        pos = [lambda s, c=c: c * samples + s for c in range(channels)]
    elif order == "INTERLEAVED":
        pos = [lambda s, c=c: s * channels + c for c in range(channels)]
    else:
        pos = [lambda s, c=c: (c // 2) * 2 * samples + 2 * s + c % 2 for c in range(channels)]
    return [[value(p(s)) for s in range(samples)] for p in pos]


def ideal(sr, f, volume, i):
    return math.sin(2 * math.pi * (f * i % sr) / sr) * volume


def scale(fmt):
    return {"S16": 1 << 15, "S24": 1 << 23, "S32": 1 << 31}.get(fmt.split("_")[0])


def judge(ctx, c, g, first, where):
    """grain g, which starts at sample first"""
    ctx.equal((g.cog_audio_format.name, g.samples, g.channels, g.sample_rate, g.rate, g.duration, g.src_id, g.flow_id), (c.fmt, c.samples, c.channels, c.sr, Fraction(c.sr, c.samples), Fraction(c.samples, c.sr)) + c.ids, where + ": attributes")
    ctx.equal(gen.ts_ns(g.origin_timestamp), tsref.at(first, Fraction(c.sr)), where + ": timestamp")
    ctx.equal(len(g.data), gen.audio_size(c.fmt, c.channels, c.samples), where + ": length of data")
    full = scale(c.fmt)
    # the angle of a sample is known to within some units in the last place of its size, at most as many turns as the frequency
    eps = 2 * math.pi * max(c.f, 1) * 8 * 2.0 ** -53
    chans = decode(c.fmt, bytes(g.data), c.channels, c.samples)
    for s, got in enumerate(chans[0]):
        want = ideal(c.sr, c.f, c.volume, first + s)
        if full is not None:
            ok = abs(got - min(want * full, full - 1)) <= 1 + eps * full
        else:
            ok = abs(got - want) <= (1e-7 if c.fmt.startswith("FLOAT") else 1e-9) + eps
        if not ok or (c.volume == 0 and got != 0):
            ctx.fail(where + ": sample %d" % s, got=got, want=want * (full or 1))
    for k, ch in enumerate(chans):
        ctx.require(ch == chans[0], where + ": channel %d differs from channel 0" % k)
    ctx.count("samples", c.samples * c.channels)


class Config:
    pass


def make(ctx, rng, fmt):
    from mediagrains.patterngenerators.audio import Tone, Tone1K, Silence
    from mediagrains.cogenums import CogAudioFormat
    c = Config()
    c.fmt = fmt
    c.sr = rng.choice(RATES)
    c.samples = rng.choice([1, 2, 7, 48, 1, rng.randint(1, 300), rng.choice([480, 1024, 1602, 1920])])
    c.channels = rng.choice([1, 1, 2, 2, 3, 5, 6, 8])
    if c.samples > 400:
        c.channels = min(c.channels, 2)
    c.ids = (uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=rng.getrandbits(128)))
    kw = dict(samples=c.samples, channels=c.channels, cog_audio_format=CogAudioFormat[fmt], sample_rate=c.sr)
    which = rng.choice(["Tone"] * 4 + ["Tone1K", "Silence"])
    if which == "Silence":
        c.f, c.volume = 0, 0.0
        g = Silence(*c.ids, **kw)
    else:
        c.volume = rng.choice([0.5, 0.5, 1.0, 0.0, 0.25, round(rng.random(), 4)])
        if c.volume != 0.5 or rng.random() < 0.5:
            kw["volume"] = c.volume
        if which == "Tone1K":
            c.f = 1000
            g = Tone1K(*c.ids, **kw)
        else:
            # frequencies that divide the sample rate, share factors with it, or do not; also above it
            c.f = rng.choice([1000, 440, 1, 0, c.sr // 4, c.sr // 2, c.sr - 1, c.sr + 3, rng.randint(1, 20000), rng.randint(1, 20000)])
            if c.f != 1000 or rng.random() < 0.5:
                kw["frequency"] = c.f
            g = Tone(*c.ids, **kw)
    ctx.count("full_volume", int(c.volume == 1.0))
    ctx.count("odd_pairs", int(fmt.endswith("PAIRS") and c.channels % 2))
    ctx.count("loops", int(bool(c.f) and c.sr % c.f != 0))
    ctx.saw(fmt, c.channels, c.sr, c.f, c.samples, c.volume in (0, 1) and c.volume)
    return c, g


def case(ctx, rng, key, p):
    from mediatimestamp import TimeValue, TimeValueRange, Timestamp, CountRange
    c, g = make(ctx, rng, p["fmt"])
    rate = Fraction(c.sr, c.samples)
    name = "%s Hz tone at volume %s, %s x %d at %d" % (c.f, c.volume, c.fmt, c.channels, c.sr)
    ctx.equal((g.src_id, g.flow_id, g.rate, g.samples, g.channels, g.cog_audio_format.name, g.sample_rate), c.ids + (rate, c.samples, c.channels, c.fmt, c.sr), name + ": attributes of the generator")
    seen = {}
    for _ in range(10):
        n = rng.choice([0, 1, 2, rng.randint(-30, 30), rng.randint(-3000, 3000), rng.randint(0, 10 ** 6), 10 ** 9 + rng.randint(0, 1000),
                        int(rng.randint(-10 ** rng.randint(9, 14), 10 ** rng.randint(9, 14)) * rate)])
        if seen and rng.random() < 0.3:
            n = rng.choice(sorted(seen))
            ctx.count("repeated")
        ts = Timestamp.from_count(n * c.samples, c.sr, 1)
        how = rng.randrange(7)
        if how == 0:
            grains = [g[n * c.samples]]
        elif how == 1:
            grains = [g[ts]]
        elif how == 2:
            grains = [g[TimeValue(n, rate=rate)]]
        elif how == 3:
            grains = [g.get(TimeValue(ts))]
        else:
            k = rng.randint(1, 4)
            if how == 4:
                it = g[ts:]
                grains = [next(it) for _ in range(k)]
            elif how == 5:
                grains = list(g[TimeValueRange(n, n + k - 1, rate=rate)])
            else:
                grains = list(g[CountRange(n, n + k - 1)])
            ctx.equal(len(grains), k, name + ": grains of a run")
            ctx.count("runs")
        for i, x in enumerate(grains):
            where = "%s, grain %d%s" % (name, n + i, " in a run" if i else "")
            judge(ctx, c, x, (n + i) * c.samples, where)
            old = seen.get(n + i)
            if old is not None:
                ctx.require(old == bytes(x.data), where + ": differs from when it was asked for before")
            seen[n + i] = bytes(x.data)
            if rng.random() < 0.5:
                m = memoryview(x.data)
                for _ in range(3):
                    m[rng.randrange(len(m))] ^= 0x55
                ctx.count("vandalised")
            ctx.count("grains")
            ctx.count("silent", int(c.volume == 0 or c.f == 0))
            ctx.count("negative", int(n + i < 0))
            ctx.count("far", int(abs(n * c.samples) > 1 << 53))
        ctx.sample(name)
