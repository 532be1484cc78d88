"""W02: ADTS AAC wrapping finds every frame and describes it correctly."""
import os
from fractions import Fraction

from .. import essence, gen, tsref

ID = "W02"
LEVEL = "exploration"
RULE = ("Streams of ADTS frames come from an independent bit writer (every header field random, with and without CRC, frames from the bare header to 8191 "
        "octets, bodies containing sync words) and from tests/audio.aac. Every grain is compared with the frame written and the instant of the "
        "sample count so far. Broken streams (cut frames, wrong sync or layer, impossible sizes and frequencies) must end in a ValueError after exactly the "
        "frames before. Headers are parsed alone over all sizes and field values. Distinct = (kind, input, frequency, channels, frame-size class).")
FLOORS = dict(grains_judged=4000, streams=400, headers_parsed=30000, headers_refused=5000, broken_streams=250, real_file=1)
FREQ = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
CHAN = [0, 1, 2, 3, 4, 5, 6, 8]


def header(rng, size, fi, cc, ot=None, sync=0xfff, layer=0, blocks=0, crc=None, full=None):
    crc = rng.random() < 0.5 if crc is None else crc
    v, n = 0, 0
    for val, bits in ((sync, 12), (rng.getrandbits(1), 1), (layer, 2), (0 if crc else 1, 1), (rng.getrandbits(2) if ot is None else ot, 2), (fi, 4),
                      (rng.getrandbits(1), 1), (cc, 3), (rng.getrandbits(1), 1), (rng.getrandbits(1), 1), (rng.getrandbits(1), 1),
                      (rng.getrandbits(1), 1), (size, 13), (rng.getrandbits(11), 11), (blocks, 2)):
        v, n = (v << bits) | val, n + bits
    assert n == 56
    return v.to_bytes(7, "big")


def frame(rng, fi, cc, size=None, blocks=0):
    size = size or rng.choice([7, 8, 9, 10, 100, 371, 1000, 2047, 2048, 8191, rng.randint(7, 8191), rng.randint(7, 600)])
    crc = rng.random() < 0.5 and size >= 9
    body = gen.rbytes(rng, size - 7)
    if rng.random() < 0.3:
        body = (b"\xff\xf1" + b"\x50\x80\x00\x1f\xfc" * 3 + body)[:size - 7]
    return header(rng, size, fi, cc, blocks=blocks, crc=crc) + body


def plan(ctx):
    n = ctx.n(100, 2500)
    c = [("stream-%s-%d" % (k, j), dict(kind="stream", k=k)) for k in essence.KINDS for j in range(n)]
    c += [("broken-%s-%d" % (k, j), dict(kind="broken", k=k)) for k in essence.KINDS for j in range(n)]
    c += [("header-%d" % j, dict(kind="header")) for j in range(ctx.n(24, 300))]
    c += [("real-%s" % k, dict(kind="real", k=k)) for k in essence.KINDS]
    return c


def template(rng, start):
    from mediagrains.grains import CodedAudioGrain
    from mediagrains.cogenums import CogAudioFormat
    samples = rng.choice([None, 1024, 2048, 960])
    kw = dict(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(start), cog_audio_format=CogAudioFormat.AAC)
    if samples is not None:
        kw["samples"] = samples
    if rng.random() < 0.5:
        kw.update(channels=rng.randint(1, 8), sample_rate=rng.choice(FREQ), rate=gen.r_rate(rng, False), duration=gen.r_rate(rng, False))
    g = CodedAudioGrain(**kw)
    if rng.random() < 0.3:
        g.add_timelabel("tl", 3, Fraction(25))
    return g, samples


def wrap(ctx, rng, k, data, frames, fi, cc, error, where):
    from mediagrains.utils import ADTSAACGrainWrapper
    start = rng.choice([0, 0, rng.randint(-10 ** 15, 10 ** 15), rng.randint(0, 1 << 60), gen.r_ts(rng) // 2])
    t, _ = template(rng, start)
    samples = t.samples or 1024
    want = gen.observe(t, data=False)
    rate = Fraction(FREQ[fi])
    want.update(samples=samples, sample_rate=FREQ[fi], channels=CHAN[cc], rate=rate / samples, duration=1 / (rate / samples))
    starts = sorted({tsref.first_not_before(tsref.at(c, rate), rate / samples) for c in tsref.nearest(start, rate)})
    got, raised = [], None
    keep = []
    with essence.Open(k, data, rng) as src:
        try:
            for g in ADTSAACGrainWrapper(t, src).grains():
                i = len(got)
                ctx.require(i < len(frames), where + ": more grains than frames")
                w = "%s, grain %d of %d" % (where, i, len(frames))
                ts = gen.ts_ns(g.origin_timestamp)
                if i == 0:
                    starts = [s for s in starts if tsref.at(s * samples, rate) == ts]
                    ctx.require(starts, w + ": first instant", got=ts, start=start)
                judge(ctx, g, frames[i], dict(want, origin=tsref.at((starts[0] + i) * samples, rate), sync=tsref.at((starts[0] + i) * samples, rate)), w)
                got.append(g)
                keep.append(g)
                if rng.random() < 0.1:
                    g.channels = 77
                    g.add_timelabel("changed", 5, Fraction(25))
                    keep[-1] = None
        except ValueError as e:
            raised = e
    ctx.equal(len(got), len(frames), where + ": number of grains", error=raised)
    if error:
        ctx.require(raised is not None, where + ": bytes that are no frame accepted")
    elif raised:
        raise raised
    for i, g in enumerate(keep):
        if g is not None:
            judge(ctx, g, frames[i], dict(want, origin=tsref.at((starts[0] + i) * samples, rate), sync=tsref.at((starts[0] + i) * samples, rate)),
                  where + ", grain %d looked at again" % i)


def judge(ctx, g, frame, want, where):
    ctx.require(gen.data_bytes(g.data) == frame, where + ": data", got=gen.data_bytes(g.data)[:40], want=frame[:40])
    d = gen.diff(gen.observe(g, data=False), want)
    ctx.require(d is None, where + ": metadata: %s" % d)
    ctx.count("grains_judged")


def case(ctx, rng, key, p):
    if p["kind"] == "header":
        return headers(ctx, rng)
    if p["kind"] == "real":
        with open("/repo/tests/audio.aac", "rb") as f:
            data = f.read()
        frames, pos = [], 0
        while pos < len(data):
            v = int.from_bytes(data[pos:pos + 7], "big")
            size = (v >> 13) & 0x1fff
            fi, cc = (v >> 34) & 15, (v >> 30) & 7
            frames.append(data[pos:pos + size])
            pos += size
        wrap(ctx, rng, p["k"], data, frames, fi, cc, False, "tests/audio.aac")
        ctx.count("real_file")
        return
    fi, cc = rng.randrange(13), rng.randrange(8)
    frames = [frame(rng, fi, cc) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
    data = b"".join(frames)
    if p["kind"] == "stream":
        wrap(ctx, rng, p["k"], data, frames, fi, cc, False, "%s stream" % p["k"])
        ctx.count("streams")
        ctx.saw("stream", p["k"], fi, cc, len(frames) and min(len(frames[0]), 11))
        ctx.sample(dict(input=p["k"], frequency=FREQ[fi], channels=CHAN[cc], sizes=[len(f) for f in frames][:6]), 1)
        return
    bad = rng.choice(["cut", "cut header", "sync", "layer", "size", "freq", "garbage"])
    f = frame(rng, fi, cc, size=rng.choice([None, 50]))
    if bad == "cut":
        if len(f) < 9:
            f = frame(rng, fi, cc, size=100)
        tail = f[:rng.choice([len(f) - 1, 7, 8, rng.randint(7, len(f) - 1)])]
    elif bad == "cut header":
        tail = f[:rng.randint(1, 6)]
    elif bad == "sync":
        s = 0xfff ^ (1 << rng.randrange(12))
        tail = header(rng, len(f), fi, cc, sync=s) + f[7:]
    elif bad == "layer":
        tail = header(rng, len(f), fi, cc, layer=rng.randint(1, 3)) + f[7:]
    elif bad == "size":
        tail = header(rng, rng.randint(0, 6), fi, cc) + f[7:]
    elif bad == "freq":
        tail = header(rng, len(f), rng.randint(13, 15), cc) + f[7:]
    else:
        tail = bytes([rng.randrange(255)]) + gen.rbytes(rng, rng.randint(0, 50))
    more = frame(rng, fi, cc) if bad not in ("cut", "cut header") and rng.random() < 0.5 else b""
    wrap(ctx, rng, p["k"], data + tail + more, frames, fi, cc, True, "%s stream ending in %s" % (p["k"], bad))
    ctx.count("broken_streams")
    ctx.saw("broken", p["k"], bad, min(2, len(frames)))


def headers(ctx, rng):
    from mediagrains.utils.adts_aac_parser import ADTSAACParser
    parser = ADTSAACParser()
    for _ in range(3000):
        fi, cc, ot = rng.randrange(16), rng.randrange(8), rng.randrange(4)
        size = rng.choice([rng.randrange(8192), 1 << rng.randrange(13), 8191 ^ (1 << rng.randrange(13)), rng.randrange(16)])
        layer = 0 if rng.random() < 0.95 else rng.randint(1, 3)
        sync = 0xfff if rng.random() < 0.95 else rng.choice([0, 0xffe, 0x7ff, 0xfff ^ (1 << rng.randrange(12))])
        h = header(rng, size, fi, cc, ot=ot, layer=layer, sync=sync, blocks=rng.getrandbits(2))
        n = 7 if rng.random() < 0.95 else rng.randrange(7)
        b = h[:n] + (gen.rbytes(rng, rng.choice([0, 0, 2, 30])) if n == 7 else b"")
        if rng.random() < 0.3:
            b = bytearray(b)
        if fi > 12 or size < 7 or layer or sync != 0xfff or n < 7:
            ctx.raises(ValueError, lambda: parser.parse_header(b), "header %s" % h.hex())
            ctx.count("headers_refused")
        else:
            i = parser.parse_header(b)
            ctx.equal((i.frame_size, i.object_type, i.sample_rate, i.channels), (size, ot, FREQ[fi], CHAN[cc]), "header %s" % h.hex())
            ctx.count("headers_parsed")
            ctx.saw("header", fi, cc, ot, size.bit_length())
