"""W03: H.264 wrapping splits a byte stream into exact access units."""
from fractions import Fraction

from .. import essence, gen, h264ref, tsref

ID = "W03"
LEVEL = "exploration"
RULE = ("Byte streams come from an independent H.264 writer: random sequence and picture parameter sets (all profiles, chroma formats, order count types, "
        "cropping, VUI, scaling lists, slice groups), pictures of 1 to 6 slices that differ from the one before in as little as one header field, fields, "
        "data partitions, redundant and auxiliary slices, delimiters, SEI, filler, 3 and 4 octet start codes, extra zero octets, emulation prevention; up to 32 sequence and 256 picture sets, up to 300 units each. Every "
        "grain is compared with the access unit written. Distinct = (input kind, leading units, boundary kind, slice types, sizes).")
FLOORS = dict(grains_judged=3000, streams=700, boundaries_by_slice_header=1500, key_frames=300, not_key_frames=700, frame_infos=700, field_streams=50,
              large_streams=8, streams_of_many=8, templates_describing_a_unit=200)
KINDS = [k for k in essence.KINDS if k != "eof"]


def plan(ctx):
    n = ctx.n(250, 3000)
    c = [("%s-%d" % (k, j), dict(k=k, big=0)) for k in KINDS for j in range(n)]
    c += [("large-%s-%d" % (k, j), dict(k=k, big=rng_big(j))) for k in KINDS for j in range(ctx.n(3, 30))]
    c += [("many-%s-%s-%d" % (m, k, j), dict(k=k, big=0, many=m)) for m in ("sets", "units") for k in KINDS[:4] for j in range(ctx.n(2, 30))]
    return c


def rng_big(j):
    return [2000, 9000, 20000][j % 3]


def case(ctx, rng, key, p):
    from mediagrains.utils import H264GrainWrapper
    from mediagrains.grains import CodedVideoGrain
    from mediagrains.cogenums import CogFrameFormat
    st = h264ref.stream(rng, rng.choice([1, 2, 3, 4, 8]) if not p["big"] and "many" not in p else 4, p["big"], p.get("many"))
    data, aus = st["data"], st["aus"]
    if p["k"] in ("raw", "bytearray") and len(data) > 1500 and not p["big"] and "many" not in p:
        p = dict(p, k="ospipe")
    start = rng.choice([0, 0, rng.randint(-10 ** 15, 10 ** 15), rng.randint(0, 1 << 60)])
    fmt = rng.choice(["H264", "H264", "AVCI"])
    t = CodedVideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), origin_timestamp=gen.mts(start), rate=Fraction(25), duration=Fraction(1, 25),
                        origin_width=1920, origin_height=1080, coded_width=rng.choice([0, 1920]), coded_height=0,
                        cog_frame_format=CogFrameFormat(gen.FRAME[fmt]))
    if rng.random() < 0.3:
        t.add_timelabel("tl", 3, Fraction(25))
    if rng.random() < 0.3:                      # what the template says of one access unit is not true of the others
        t.is_key_frame, t.temporal_offset, t.unit_offsets, t.data = rng.choice([True, False]), rng.choice([0, 3, -2]), [0, 7], b"\0\0\1\x09\x10"
        ctx.count("templates_describing_a_unit")
    want = gen.observe(t, data=False)
    first = aus[0][3]
    want.update(origin_width=first["width"], origin_height=first["height"], coded_width=first["coded_width"], coded_height=first["coded_height"],
                temporal_offset=None)
    rate = first["rate"] or Fraction(25)
    want.update(rate=rate, duration=1 / rate)
    starts = tsref.nearest(start, rate)
    firsts = sorted({tsref.first_not_before(tsref.at(c, rate), rate) for c in starts})
    got = []

    def judge(i, g, where):
        a, b, units, pic = aus[i]
        ctx.require(gen.data_bytes(g.data) == data[a:b], where + ": octets of the access unit", got_len=g.length, want_len=b - a, units=units)
        w = dict(want, origin=tsref.at(firsts[0] + i, rate), is_key_frame=pic["key"], unit_offsets=units)
        d = gen.diff(gen.observe(g, data=False), w)
        ctx.require(d is None, where + ": metadata: %s" % d, slices=pic["slices"])
        ctx.count("grains_judged")

    with essence.Open(p["k"], data, rng) as src:
        for g in H264GrainWrapper(t, src).grains():
            i = len(got)
            where = "%s, grain %d of %d" % (p["k"], i, len(aus))
            ctx.require(i < len(aus), where + ": more grains than pictures")
            if i == 0:
                firsts = [c for c in firsts if tsref.at(c, rate) == gen.ts_ns(g.origin_timestamp)]
                ctx.require(firsts, where + ": first instant", got=g.origin_timestamp, start=start, rate=rate)
            judge(i, g, where)
            got.append(g)
            if rng.random() < 0.1:
                g.unit_offsets = [1, 2]
                if isinstance(g.data, bytearray):
                    g.data[:1] = b"\xee"
                got[-1] = None
    ctx.equal(len(got), len(aus), "%s: number of grains" % p["k"])
    for i, g in enumerate(got):
        if g is not None:
            judge(i, g, "%s, grain %d looked at again" % (p["k"], i))
        ctx.count("key_frames" if aus[i][3]["key"] else "not_key_frames")
        unit = data[aus[i][0] + aus[i][2][0] + 3] & 31
        if i and unit in (1, 2, 5):
            ctx.count("boundaries_by_slice_header")
        ctx.saw(p["k"], unit, tuple(sorted(set(aus[i][3]["slices"]))), len(aus[i][2]))
    infos(ctx, rng, data, aus)
    ctx.count("streams")
    ctx.count("streams_of_many", 1 if "many" in p else 0)
    ctx.count("large_streams", 1 if p["big"] else 0)
    ctx.count("field_streams", 1 if first["field"] else 0)
    ctx.sample(dict(input=p["k"], octets=len(data), access_units=[(b - a, len(u), x["key"]) for a, b, u, x in aus][:4]), 1)


def infos(ctx, rng, data, aus):
    """the parser asked about whole access units, one after another"""
    from mediagrains.utils.h264_parser import H264Parser
    parser = H264Parser()
    for i, (a, b, units, pic) in enumerate(aus):
        au = data[a:b]
        ctx.equal(list(parser.get_nalu_byte_offsets(au)), units, "unit offsets of access unit %d" % i)
        info = parser.parse_frame_info(au) if rng.random() < 0.5 else parser.parse_frame_info(au, nalu_byte_offsets=units)
        s = pic["sps"]
        ctx.equal((info.profile, info.level, info.flags, info.bit_depth, info.coded_width, info.coded_height, info.width, info.height, info.frame_rate,
                   info.key_frame),
                  (s["profile"], s["level"], s["flags"], s["bdl"] + 8, pic["coded_width"], pic["coded_height"], pic["width"], pic["height"], pic["rate"],
                   pic["key"]), "information about access unit %d" % i, slices=pic["slices"])
        ctx.equal(info.sample_aspect_ratio or None, pic["sar"], "sample aspect ratio of access unit %d" % i)
        if pic["rate"]:
            ctx.equal(info.fixed_frame_rate, bool(s["fixed"]), "fixed rate of access unit %d" % i)
        ctx.count("frame_infos")
