"""W01: raw essence wrapping partitions the input into contiguous grains."""
from fractions import Fraction

from .. import essence, gen, tsref

ID = "W01"
LEVEL = "exploration"
RULE = ("A case wraps random essence of a random format, size, rate and start time, delivered by one kind of input (memory, file, short-reading "
        "raw/buffered file, the tools' pipe wrapper, an OS pipe, inputs ending in EOFError), and compares every grain with the slice of the input, the "
        "instant of the rate and the template's metadata; earlier grains are re-examined after the last and after changes to later ones. "
        "Distinct = (type, format, input kind, length class, partial last frame).")
FLOORS = dict(grains_judged=4000, streams=800, partial_last=150, empty_inputs=40, exact_multiples=150, metadata_equal=4000)


def plan(ctx):
    n = ctx.n(250, 4000)
    return [("%s-%s-%d" % (t, k, j), dict(t=t, k=k)) for t in ("video", "audio") for k in essence.KINDS for j in range(n)]


def case(ctx, rng, key, p):
    from mediagrains.utils import GrainWrapper
    from mediagrains.grains import VideoGrain, AudioGrain
    from mediagrains.cogenums import CogFrameFormat, CogAudioFormat
    start = gen.r_ts(rng) if rng.random() < 0.7 else 0
    start = max(-(1 << 47) * gen.NS, min(start, (1 << 47) * gen.NS))
    if p["t"] == "video":
        name = rng.choice(gen.PLANAR + gen.PACKED)
        w, h = rng.choice([(2, 2), (16, 4), (48, 6), (50, 10), (130, 8), (2 * rng.randint(1, 40), 2 * rng.randint(1, 20))])
        rate = gen.r_media_rate(rng)
        size = gen.video_size(name, w, h)
        if rng.random() < 0.5:
            template = VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(start), rate=rate, duration=1 / rate,
                                  width=w, height=h, cog_frame_format=CogFrameFormat(gen.FRAME[name]))
        else:
            d = gen.r_desc(rng, "video")
            d.update(origin=start, rate=rate, duration=gen.r_rate(rng), fmt=gen.FRAME[name], width=w, height=h, components=gen.video_layout(name, w, h),
                     data=rng.choice([None, bytes(size), gen.rbytes(rng, 5)]))
            template = gen.build(d, rng.choice(["class", "meta"]))
    else:
        name = rng.choice(gen.PCM)
        ch, n = rng.choice([1, 2, 3, 4, 6, 8, 16]), rng.choice([1, 2, 7, 48, 1920, 1601])
        sr = rng.choice([48000, 44100, 96000, 8000])
        rate = Fraction(sr, n) if rng.random() < 0.8 else gen.r_media_rate(rng)
        size = gen.audio_size(name, ch, n)
        if rng.random() < 0.5:
            template = AudioGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(start), rate=rate, duration=1 / rate,
                                  cog_audio_format=CogAudioFormat(gen.AUDIO[name]), channels=ch, samples=n, sample_rate=sr)
        else:
            d = gen.r_desc(rng, "audio")
            d.update(origin=start, rate=rate, duration=gen.r_rate(rng), fmt=gen.AUDIO[name], channels=ch, samples=n, sample_rate=sr,
                     data=rng.choice([None, bytes(size)]))
            template = gen.build(d, rng.choice(["class", "meta"]))
    ctx.require(template.expected_length == size, "%s: frame size" % name, got=template.expected_length, want=size)
    frames = rng.choice([0, 1, 1, 2, 3, 5, 12, 30])
    if size > 100000:
        frames = min(frames, 4)
    part = rng.choice([0, 0, 1, size - 1, rng.randint(0, size - 1)]) if size > 1 else 0
    data = gen.rbytes(rng, frames * size + part)
    want_meta = gen.observe(template, data=False)
    tdata = gen.data_bytes(template.data)
    k0 = tsref.first_not_before(start, rate)
    got = []
    with essence.Open(p["k"], data, rng) as src:
        wrapper = GrainWrapper(template, src)
        for g in wrapper.grains():
            where = "%s %s, grain %d of %d" % (name, p["k"], len(got), frames)
            got.append(g)
            ctx.require(len(got) <= frames + 1, where + ": more grains than frames in the input")
            judge(ctx, g, len(got) - 1, data, size, want_meta, k0, rate, where)
            if rng.random() < 0.1 and g.data and isinstance(g.data, bytearray):
                g.data[0] ^= 0xff          # a change to one grain must not reach the others
                got[-1] = None
            elif rng.random() < 0.1:
                g.flow_id = gen.r_uuid(rng)
                g.add_timelabel("changed", 5, Fraction(25))
                got[-1] = None
    ctx.equal(len(got), frames + (1 if part else 0), "%s %s: number of grains" % (name, p["k"]), input=len(data), frame=size)
    for i, g in enumerate(got):
        if g is not None:
            judge(ctx, g, i, data, size, want_meta, k0, rate, "%s %s, grain %d looked at again" % (name, p["k"], i))
    ctx.require(gen.diff(gen.observe(template, data=False), want_meta) is None, "template changed by wrapping")
    ctx.equal(gen.data_bytes(template.data), tdata, "template data changed by wrapping")
    ctx.count("streams")
    ctx.count("partial_last", 1 if part else 0)
    ctx.count("exact_multiples", 1 if frames and not part else 0)
    ctx.count("empty_inputs", 0 if data else 1)
    ctx.saw(p["t"], name, p["k"], min(frames, 3), bool(part))
    ctx.sample(dict(format=name, frame=size, octets=len(data), input=p["k"], rate=str(rate), start=start), 1)


def judge(ctx, g, i, data, size, want_meta, k0, rate, where):
    ctx.require(gen.data_bytes(g.data) == data[i * size:(i + 1) * size], where + ": data", got=gen.data_bytes(g.data)[:40])
    ctx.equal(g.length, len(data[i * size:(i + 1) * size]), where + ": length")
    want = dict(want_meta, origin=tsref.at(k0 + i, rate))
    d = gen.diff(gen.observe(g, data=False), want)
    ctx.require(d is None, where + ": metadata: %s" % d)
    ctx.count("grains_judged")
    ctx.count("metadata_equal")
