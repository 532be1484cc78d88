"""T01: the command line tools are exact inverses on essence, and the probe agrees with the file."""
import io
import json
import os
import subprocess
import sys
import uuid
from fractions import Fraction

from .. import core, essence, gen, gsfcase, gsfio, h264ref, refgsf, tsref
from . import w02

ID = "T01"
LEVEL = "exploration"
RULE = ("Random raw video, raw audio, AAC and H.264 essence is wrapped by the tools with random options, from a file or standard input to a file or standard "
        "output (in process with their argv and streams replaced, and as real processes joined by pipes); the GSF file is parsed by the "
        "independent strict parser and compared with the options and the essence slices, and the extract tool must give the essence back. The probe runs on random files "
        "and its JSON is compared with the content. Distinct = (tool, format, endpoints, options given, frames).")
FLOORS = dict(round_trips=600, grains_judged=1500, process_runs=12, probes=500, concatenated=150, new_segments=100, probed_grains=800, extracts=300)
ENDS = ["ff", "fp", "pf", "pp"]


def plan(ctx):
    n = ctx.n(40, 700)
    c = [("%s-%s-%d" % (t, e, j), dict(kind=t, ends=e)) for t in ("video", "audio", "aac", "h264") for e in ENDS for j in range(n)]
    c += [("process-%s-%s-%d" % (t, e, j), dict(kind=t, ends=e, process=True)) for t in ("video", "audio", "aac", "h264") for e in ("ff", "pp")
          for j in range(ctx.n(2, 20))]
    c += [("probe-%s-%d" % (e, j), dict(kind="probe", ends=e)) for e in "fp" for j in range(ctx.n(300, 5000))]
    c += [("extract-%s-%d" % (e, j), dict(kind="extract", ends=e)) for e in ENDS for j in range(ctx.n(90, 1500))]
    return c


class Std:
    def __init__(self, buffer):
        self.buffer = buffer


def tool(name, args, stdin=None, rng=None, process=False):
    """-> (octets on standard output, text on standard output)"""
    if process:
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from mediagrains.tools import %s; %s()" % (name, name)] + [str(a) for a in args],
                           input=stdin, capture_output=True, timeout=300, env=dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            raise core.Violation("%s failed as a process" % name, dict(args=repr(args), stderr=r.stderr.decode()[-1500:]))
        return r.stdout
    import mediagrains.tools as tools
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.BytesIO()
    sys.argv = [name] + [str(a) for a in args]
    if stdin is not None:
        sys.stdin = Std(io.BufferedReader(gsfio.ChunkedRaw(stdin, rng), buffer_size=rng.choice([1, 100, 8192])) if rng.random() < 0.7 else io.BytesIO(stdin))
    sys.stdout = io.TextIOWrapper(out, "utf-8", write_through=True)
    sys.stderr = io.StringIO()
    try:
        getattr(tools, name)()
        sys.stdout.flush()
        return out.getvalue()
    except SystemExit as e:
        raise core.Violation("%s exited with %s" % (name, e.code), dict(args=repr(args), stderr=sys.stderr.getvalue()[-1500:]))
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old


def through(name, data, opts, ends, rng, process):
    """run a tool on octets with files or standard streams at the ends; options before or after the positional arguments"""
    tin = gsfio.TmpFile(data) if ends[0] == "f" else None
    tout = gsfio.TmpFile() if ends[-1] == "f" else None
    try:
        pos = [tin.path if tin else "-"] + ([tout.path if tout else "-"] if len(ends) > 1 else [])
        args = pos + opts if rng.random() < 0.5 else opts + pos
        out = tool(name, args, None if tin else data, rng, process)
        if len(ends) > 1 and tout:
            if out:
                raise core.Violation("%s wrote to standard output although told to write to a file" % name, dict(out=out[:50]))
            out = tout.read()
        return out
    finally:
        for t in (tin, tout):
            if t:
                t.__exit__()


def case(ctx, rng, key, p):
    if p["kind"] == "probe":
        return probe(ctx, rng, p)
    if p["kind"] == "extract":
        return extract(ctx, rng, p)
    round_trip(ctx, rng, p)


def flag(rng, opts, name, value, p=0.7):
    """give an option or leave it out -> whether given"""
    if rng.random() < p:
        opts += [name, value] if rng.random() < 0.5 else ["%s=%s" % (name, value)]
        return True
    return False


def round_trip(ctx, rng, p):
    kind = p["kind"]
    opts, want = [], {}
    flow, src = gen.r_uuid(rng), gen.r_uuid(rng)
    want["flow"] = flow if flag(rng, opts, "--flow-id", flow) else None
    want["src"] = src if flag(rng, opts, "--source-id", src) else None
    start = rng.choice([0, rng.randint(0, 1 << 60), rng.randint(0, 10 ** 12)])
    if not flag(rng, opts, "--start-ts", gen.ts_str(start)):
        start = 0
    process = p.get("process", False)
    if kind == "video":
        tool_name = "wrap_video_in_gsf"
        w, h = rng.choice([(16, 8), (48, 6), (2 * rng.randint(1, 40), 2 * rng.randint(1, 20))])
        name = rng.choice(gen.PLANAR + gen.PACKED)
        if name in gen.PLANAR and not gen.planar_info(name)[2] and not gen.planar_info(name)[3]:
            w, h = rng.choice([w, w - 1]), rng.choice([h, h - 1])
        if not flag(rng, opts, "--size", rng.choice(["%dx%d", "%d x %d"]) % (w, h), 0.97):
            w, h = 1920, 1080
        if not flag(rng, opts, "--format", name, 0.95):
            name = "S16_422_10BIT"
        rate = rng.choice([1, 24, 25, 30, 50, 60, 100, 240])
        if not flag(rng, opts, "--rate", rate):
            rate = 25
        size = gen.video_size(name, w, h)
        data = raw(rng, size)
        rate = Fraction(rate)
        want.update(type="video", fmt=gen.FRAME[name], width=w, height=h, rate=rate, duration=1 / rate,
                    components=gen.video_layout(name, w, h), extension=0, sar=None, par=None)
        pieces = [data[i:i + size] for i in range(0, len(data), size)]
        times = steps(start, rate, len(pieces))
    elif kind == "audio":
        tool_name = "wrap_audio_in_gsf"
        name, ch = rng.choice(gen.PCM), rng.choice([1, 2, 3, 6, 16])
        n, sr = rng.choice([1, 48, 1024, 1601]), rng.choice([48000, 44100, 96000, 8000])
        if ch < 3 and rng.random() < 0.15:
            n, sr = rng.choice([(48001, 48000), (22051, 44100), (10007, 192000), (20011, rng.randint(8000, 192000)), (4800, 352800), (7681, 384000)])
        if not flag(rng, opts, "--format", name):
            name = "S16_PLANES"
        if not flag(rng, opts, "--channels", ch):
            ch = 2
        if not flag(rng, opts, "--samples-per-grain", n):
            n = 1920
        if not flag(rng, opts, "--sample-rate", sr):
            sr = 48000
        size = gen.audio_size(name, ch, n)
        data = raw(rng, size)
        rate = Fraction(sr, n)
        want.update(type="audio", fmt=gen.AUDIO[name], samples=n, channels=ch, sample_rate=sr, rate=rate, duration=1 / rate)
        pieces = [data[i:i + size] for i in range(0, len(data), size)]
        times = steps(start, rate, len(pieces))
    elif kind == "aac":
        tool_name, name = "wrap_audio_in_gsf", "AAC"
        opts += ["--format", "AAC"]
        fi, cc = rng.randrange(13), rng.randrange(1, 8)
        n, sr = rng.choice([1024, 2048]), w02.FREQ[fi]
        if not flag(rng, opts, "--samples-per-grain", n, 0.3):
            n = 1024
        flag(rng, opts, "--channels", w02.CHAN[cc], 0.3)
        flag(rng, opts, "--sample-rate", sr, 0.3)
        pieces = [w02.frame(rng, fi, cc) for _ in range(rng.choice([0, 1, 2, 8]))]
        if rng.random() < 0.1:
            with open("/repo/tests/audio.aac", "rb") as f:
                raw_file = f.read()
            pieces, pos = [], 0
            while pos < len(raw_file):
                v = int.from_bytes(raw_file[pos:pos + 7], "big")
                fi, cc = (v >> 34) & 15, (v >> 30) & 7
                pieces.append(raw_file[pos:pos + ((v >> 13) & 0x1fff)])
                pos += len(pieces[-1])
            sr = w02.FREQ[fi]
        data = b"".join(pieces)
        rate = Fraction(sr, n)
        want.update(type="coded_audio", fmt=gen.AUDIO["AAC"], samples=n, channels=w02.CHAN[cc], sample_rate=sr, rate=rate, duration=1 / rate,
                    priming=0, remainder=0)
        times = None
        starts = [tsref.first_not_before(tsref.at(c, Fraction(sr)), rate) for c in tsref.nearest(start, Fraction(sr))]
    else:
        tool_name, name = "wrap_video_in_gsf", rng.choice(["H264", "AVCI"])
        opts += ["--format", name]
        st = h264ref.stream(rng, rng.choice([1, 2, 5]), rng.choice([0, 0, 6000]))
        data, aus = st["data"], st["aus"]
        pieces = [data[a:b] for a, b, _, _ in aus]
        pic = aus[0][3]
        if rng.random() < 0.15:
            # A stream that says nothing about its pictures: what is known of them is what the options say
            data = b"\x00\x00\x00\x01\x09" + bytes([rng.choice([0x10, 0x30, 0xf0])])
            if rng.random() < 0.5:
                data += b"\x00\x00\x00\x01\x06\x05\x04" + bytes(rng.randint(1, 255) for _ in range(4)) + b"\x80"
            pic = dict(width=rng.randint(1, 2000), height=rng.randint(1, 1200), coded_width=0, coded_height=0, rate=None)
            aus = [(0, len(data), [1] + [7] * (len(data) > 6), dict(pic, key=None))]
            pieces = [data]
            if not flag(rng, opts, "--size", "%dx%d" % (pic["width"], pic["height"]), 0.9):
                pic.update(width=1920, height=1080)
            ctx.count("bare_streams")
        else:
            flag(rng, opts, "--size", "%dx%d" % (pic["width"], pic["height"]), 0.3)
        rate = rng.choice([24, 25, 50])
        if not flag(rng, opts, "--rate", rate, 0.5):
            rate = 25
        rate = pic["rate"] or Fraction(rate)
        want.update(type="coded_video", fmt=gen.FRAME[name], origin_width=pic["width"], origin_height=pic["height"],
                    coded_width=pic["coded_width"], coded_height=pic["coded_height"], rate=rate, duration=1 / rate, temporal_offset=None)
        times = None
        starts = [tsref.first_not_before(tsref.at(c, rate), rate) for c in tsref.nearest(start, rate)]
    gsf = through(tool_name, data, opts, p["ends"], rng, process)
    where = "%s %s, %s" % (tool_name, " ".join(str(o) for o in opts), p["ends"])
    f = refgsf.parse(gsf)[0]
    head = f["head"]
    ctx.equal(len(head["segments"]), 1, where + ": segments")
    seg = head["segments"][0]
    if p["ends"][1] == "p":
        ctx.equal(seg["count"], -1, where + ": count in a stream") if process else None
    else:
        ctx.equal(seg["count"], len(pieces), where + ": grain count")
    ctx.equal(len(f["grains"]), len(pieces), where + ": grains")
    if want["flow"] is not None:
        ctx.equal(seg["id"], want["flow"], where + ": segment id")
    ids = set()
    for i, (lid, d) in enumerate(f["grains"]):
        w = "%s: grain %d of %d" % (where, i, len(pieces))
        ctx.equal(lid, seg["local_id"], w + ": segment")
        ctx.equal(d["data"] or b"", pieces[i], w + ": data")
        for k in want:
            if want[k] is not None:
                ctx.equal(d[k], want[k], w + ": " + k)
        ids.add((d["src"], d["flow"]))
        if times:
            ctx.equal(d["origin"], times[i], w + ": time")
        elif kind == "aac":
            starts = [s for s in starts if tsref.at((s + i) * n, Fraction(sr)) == d["origin"]]
            ctx.require(starts, w + ": time", got=d["origin"], start=start)
        else:
            starts = [s for s in starts if tsref.at(s + i, rate) == d["origin"]]
            ctx.require(starts, w + ": time", got=d["origin"], start=start)
            ctx.equal((d["unit_offsets"], d["is_key_frame"]), (aus[i][2], aus[i][3]["key"]), w + ": units and key frame")
        ctx.count("grains_judged")
    ctx.require(len(ids) <= 1, where + ": identifiers differ between grains", ids=ids)
    if ids and want["flow"] is None:
        a, b = ids.pop()
        ctx.require(b == seg["id"] and b != uuid.UUID(int=0) and a != b, where + ": generated identifiers", flow=b, source=a, segment=seg["id"])
    only = []
    if rng.random() < 0.3:
        only = ["--only-id", seg["local_id"]]
    back = through("extract_gsf_essence", gsf, only, rng.choice(ENDS), rng, process)
    ctx.require(back == data, where + ": extracted essence", got_len=len(back), want_len=len(data))
    none = through("extract_gsf_essence", gsf, ["--only-id", seg["local_id"] + 1], rng.choice(ENDS), rng, False)
    ctx.equal(none, b"", where + ": essence of a segment that is not there")
    ctx.count("round_trips")
    ctx.count("process_runs", 2 if process else 0)
    ctx.saw(tool_name, name, p["ends"], process, len(opts), min(3, len(pieces)))
    ctx.sample(dict(tool=tool_name, options=[str(o) for o in opts], ends=p["ends"], essence=len(data), gsf=len(gsf)), 1)


def raw(rng, size):
    if size > 200000:
        return gen.rbytes(rng, size + rng.choice([0, 5]))
    return gen.rbytes(rng, size * rng.choice([0, 1, 2, 7]) + rng.choice([0, 0, 1, size - 1]))


def steps(start, rate, n):
    k = tsref.first_not_before(start, rate)
    return [tsref.at(k + i, rate) for i in range(n)]


def extract(ctx, rng, p):
    """essence of arbitrary GSF files: the data of the chosen segments' grains in file order"""
    f = gsfcase.content(rng, types=["video", "audio", "coded_video", "coded_audio", "empty"]) if rng.random() < 0.5 else \
        refgsf.random_file(rng, types=["video", "audio", "coded_video", "coded_audio", "empty"])
    data = refgsf.file_bytes(f)
    f = concatenated(ctx, rng, f, ["video", "audio", "coded_video", "coded_audio", "empty"])
    data += f.pop("more", b"")
    lids = sorted({s["local_id"] for s in f["head"]["segments"]} | {lid for lid, _ in f["grains"]})
    only = rng.sample(lids, rng.randint(1, len(lids))) if lids and rng.random() < 0.6 else None
    opts = [x for lid in only or [] for x in ("--only-id", lid)]
    back = through("extract_gsf_essence", data, opts, p["ends"], rng, False)
    want = b"".join(gen.data_bytes(d.get("data")) for lid, d in f["grains"] if only is None or lid in only)
    ctx.require(back == want, "essence of a file with %d grains, only %s" % (len(f["grains"]), only), got_len=len(back), want_len=len(want))
    ctx.count("extracts")
    ctx.saw("extract", p["ends"], len(lids), len(only or []), min(3, len(f["grains"])))


def timed(f):
    for _, d in f["grains"]:
        if d.get("samples") == 0 and d["sample_rate"]:
            d["sample_rate"] = 48000       # where a sample lasts at least a nanosecond no samples means no time
            d["origin"] = max(d["origin"], -gen.MAX_SEC * gen.NS)       # (unless there is no instant before)
    return f


def concatenated(ctx, rng, f, types):
    """the content of the file together with up to two more, whose bytes are "more"; a later header counts only for segments not known before that have grains"""
    f = dict(f, grains=list(f["grains"]), segments=list(f["head"]["segments"]), more=b"")
    while rng.random() < 0.25:
        e = timed(gsfcase.content(rng, types=types) if types else gsfcase.content(rng))
        f["more"] += refgsf.file_bytes(e)
        known, used = {s["local_id"] for s in f["segments"]}, {lid for lid, _ in e["grains"]}
        f["segments"] += [s for s in e["head"]["segments"] if s["local_id"] in used - known]
        f["grains"] += e["grains"]
        ctx.count("concatenated")
        ctx.count("new_segments", len(used - known))
    return f


def probe(ctx, rng, p):
    f = gsfcase.content(rng) if rng.random() < 0.6 else refgsf.random_file(rng)
    data = refgsf.file_bytes(timed(f))
    f = concatenated(ctx, rng, f, None)
    data += f.pop("more", b"")
    opts = [o for o in (rng.choice(["-a", "--all-timestamps"]), rng.choice(["-g", "--all-grains"])) if rng.random() < 0.5]
    out = through("gsf_probe", data, opts, p["ends"], rng, False)
    where = "gsf_probe %s" % " ".join(opts)
    j = json.loads(out)
    h = f["head"]
    ctx.equal((j["id"], [tuple(t) for t in j["tags"]]), (str(h["id"]), h["tags"]), where + ": file identifier and tags")
    if h["created"]:
        import datetime
        c = datetime.datetime.fromisoformat(j["created"])
        ctx.equal((c.year, c.month, c.day, c.hour, c.minute, c.second), tuple(h["created"]), where + ": creation time")
    ctx.equal(sorted(j["segments"], key=int), [str(x) for x in sorted(s["local_id"] for s in f.get("segments", h["segments"]))], where + ": segments")
    for s in f.get("segments", h["segments"]):
        got = j["segments"][str(s["local_id"])]
        w = where + ": segment %d" % s["local_id"]
        ctx.equal((got["local_id"], got["id"], got["count"], [tuple(t) for t in got["tags"]]),
                  (s["local_id"], str(s["id"]), s["count"], s["tags"]), w)
        grains = [d for lid, d in f["grains"] if lid == s["local_id"]]
        if not grains:
            ctx.require("grain_data" not in got and "timerange" not in got, w + ": grains described where there are none")
            continue
        # a single instant is printed as [t], a range as [a_b], no time at all as ()
        ranges = [(d["origin"], last_instant(d)) for d in grains if d.get("samples") != 0 or not d["sample_rate"]]
        first, last = min([r[0] for r in ranges], default=0), max([r[1] for r in ranges], default=0)
        want = "[%s_%s]" % (gen.ts_str(first), gen.ts_str(last)) if first != last else "[%s]" % gen.ts_str(first)
        ctx.equal(got["timerange"], want if ranges else "()", w + ": time range")
        descs = got["grain_data"] if "-g" in opts or "--all-grains" in opts else [got["grain_data"]]
        ctx.equal(len(descs), len(grains) if "-g" in opts or "--all-grains" in opts else 1, w + ": grains described")
        for d, g in zip(grains, descs):
            want = gen.meta_of(d)["grain"]
            for k in ("origin_timestamp", "sync_timestamp", "source_id", "flow_id", "grain_type", "rate", "duration", "timelabels", "cog_audio",
                      "cog_coded_audio"):
                if k in want:
                    ctx.equal(g.get(k), want[k], w + ": " + k)
            for k in ("cog_frame", "cog_coded_frame"):
                if k in want:
                    for kk, v in want[k].items():
                        ctx.equal(g[k].get(kk), v, w + ": %s %s" % (k, kk))
            ctx.count("probed_grains")
        if "-a" in opts or "--all-timestamps" in opts:
            ctx.equal([(x["origin_timestamp"], x["sync_timestamp"]) for x in got["grain_timestamps"]],
                      [(gen.ts_str(d["origin"]), gen.ts_str(d["sync"])) for d in grains], w + ": timestamps")
        else:
            ctx.require("grain_timestamps" not in got, w + ": timestamps not asked for")
    ctx.count("probes")
    ctx.saw("probe", p["ends"], len(opts), tuple(sorted({d["type"] for _, d in f["grains"]})))


def last_instant(d):
    if not d.get("sample_rate"):
        return d["origin"]
    return min(gen.MAX_SEC * gen.NS + gen.NS - 1, d["origin"] + tsref.at(d["samples"] - 1, Fraction(d["sample_rate"])))
