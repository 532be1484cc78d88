"""An H.264 byte stream writer (Rec. ITU-T H.264 clauses 7.3, 7.4.1.2, Annex B), independent of the library."""
from fractions import Fraction


class Bits:
    def __init__(self):
        self.s = []

    def u(self, n, v):
        assert 0 <= v < (1 << n) or n == 0, (n, v)
        if n:
            self.s.append(format(v, "0%db" % n))
        return self

    def ue(self, v):
        x = format(v + 1, "b")
        self.s.append("0" * (len(x) - 1) + x)
        return self

    def se(self, v):
        return self.ue(2 * v - 1 if v > 0 else -2 * v)

    def octets(self):
        b = "".join(self.s) + "1"
        b += "0" * (-len(b) % 8)
        return int(b, 2).to_bytes(len(b) // 8, "big")


def escape(rbsp):
    out, zeros = bytearray(), 0
    for x in rbsp:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    if out and out[-1] == 0:
        out.append(3)
    return bytes(out)


def nal(ref, type, rbsp):
    return bytes([(ref << 5) | type]) + escape(rbsp)


def zeroish(rng, n):
    """random octets with many zero runs"""
    return bytes(rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(256)]) for _ in range(n))


HIGH = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]


def r_sps(rng, id, keep=None):
    s = dict(id=id, profile=rng.choice([66, 77, 88] + HIGH), level=rng.choice([10, 11, 30, 40, 51]), flags=rng.getrandbits(6) << 2)
    s["chroma"], s["separate"], s["bdl"], s["bdc"], s["scaling"] = 1, 0, 0, 0, None
    if s["profile"] in HIGH:
        s["chroma"] = rng.randrange(4)
        if s["chroma"] == 3:
            s["separate"] = rng.getrandbits(1)
        s["bdl"], s["bdc"] = rng.randint(0, 6), rng.randint(0, 6)
        if rng.random() < 0.4:
            s["scaling"] = [rng.choice([None, "rand", "default", "flat"]) for _ in range(8 if s["chroma"] != 3 else 12)]
    s["fnbits"] = rng.randint(4, 16)
    s["poc"] = rng.choice([0, 0, 1, 2])
    s["lsbbits"] = rng.randint(4, 16)
    s["always_zero"] = rng.getrandbits(1)
    s["cycle"] = [rng.randint(-300, 300) for _ in range(rng.choice([0, 0, 1, 3, 255 if rng.random() < 0.1 else 2]))]
    s["mbs_only"] = rng.choice([1, 1, 0])
    s["wmb"] = rng.choice([1, 2, 20, 40, 45, 120, rng.randint(1, 300)])
    s["hmb"] = rng.choice([1, 2, 15, 18, 34, 68, rng.randint(1, 200)])
    s["crop"] = None
    if rng.random() < 0.5:
        s["crop"] = [rng.randint(0, 1), rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 2)]
    s["vui"] = rng.random() < 0.7
    s["sar"] = rng.choice([None, 0, rng.randint(1, 16), rng.randint(1, 16), rng.randint(1, 16), 17, 200, 255, 255])
    s["sarw"], s["sarh"] = rng.choice([(0, 0), (4, 3), (40, 33), (65535, 1), (0, 5), (7, 0)])
    s["timing"] = None
    if rng.random() < 0.7:
        s["timing"] = rng.choice([(1, 50), (1001, 60000), (1, 100), (1001, 48000), (2, 50), (1001, 120000), (90000, 90000 * 25),
                                  (1, 2), (rng.randint(1, 5000), rng.randint(20000, 100000))])
    s["fixed"] = rng.getrandbits(1)
    s["ref"] = rng.randint(1, 3)
    return s


def sps_nal(rng, s):
    b = Bits().u(8, s["profile"]).u(8, s["flags"]).u(8, s["level"]).ue(s["id"])
    if s["profile"] in HIGH:
        b.ue(s["chroma"])
        if s["chroma"] == 3:
            b.u(1, s["separate"])
        b.ue(s["bdl"]).ue(s["bdc"]).u(1, rng.getrandbits(1)).u(1, s["scaling"] is not None)
        for i, kind in enumerate(s["scaling"] or []):
            b.u(1, kind is not None)
            if kind is None:
                continue
            n, last = (16 if i < 6 else 64), 8
            if kind == "default":
                b.se(-8)
            elif kind == "flat":       # the list ends early: the rest repeats the last scale
                k = rng.randint(1, n - 1)
                for j in range(k):
                    nxt = rng.randint(1, 255)
                    d = (nxt - last + 128) % 256 - 128
                    b.se(d)
                    last = nxt
                b.se((0 - last + 128) % 256 - 128)
            else:
                for j in range(n):
                    nxt = rng.randint(1, 255)
                    b.se((nxt - last + 128) % 256 - 128)
                    last = nxt
    b.ue(s["fnbits"] - 4).ue(s["poc"])
    if s["poc"] == 0:
        b.ue(s["lsbbits"] - 4)
    elif s["poc"] == 1:
        b.u(1, s["always_zero"]).se(rng.randint(-9, 9)).se(rng.randint(-9, 9)).ue(len(s["cycle"]))
        for c in s["cycle"]:
            b.se(c)
    b.ue(rng.randint(0, 16)).u(1, rng.getrandbits(1)).ue(s["wmb"] - 1).ue(s["hmb"] - 1).u(1, s["mbs_only"])
    if not s["mbs_only"]:
        b.u(1, rng.getrandbits(1))
    b.u(1, rng.getrandbits(1)).u(1, s["crop"] is not None)
    for c in s["crop"] or []:
        b.ue(c)
    b.u(1, s["vui"])
    if s["vui"]:
        b.u(1, s["sar"] is not None)
        if s["sar"] is not None:
            b.u(8, s["sar"])
            if s["sar"] == 255:
                b.u(16, s["sarw"]).u(16, s["sarh"])
        over = rng.getrandbits(1)
        b.u(1, over)
        if over:
            b.u(1, rng.getrandbits(1))
        sig = rng.getrandbits(1)
        b.u(1, sig)
        if sig:
            b.u(3, rng.randrange(6)).u(1, rng.getrandbits(1))
            col = rng.getrandbits(1)
            b.u(1, col)
            if col:
                b.u(8, rng.randrange(10)).u(8, rng.randrange(10)).u(8, rng.randrange(9))
        loc = rng.getrandbits(1)
        b.u(1, loc)
        if loc:
            b.ue(rng.randrange(6)).ue(rng.randrange(6))
        b.u(1, s["timing"] is not None)
        if s["timing"]:
            b.u(32, s["timing"][0]).u(32, s["timing"][1]).u(1, s["fixed"])
        b.u(1, 0).u(1, 0).u(1, rng.getrandbits(1)).u(1, 0)
    return nal(s["ref"], 7, b.octets())


def size(s):
    """(width, height, coded width, coded height)"""
    cw, ch = s["wmb"] * 16, s["hmb"] * 16 * (2 - s["mbs_only"])
    cat = 0 if s["separate"] else s["chroma"]
    ux, uy = {0: (1, 1), 1: (2, 2), 2: (2, 1), 3: (1, 1)}[cat]
    uy *= 2 - s["mbs_only"]
    left, right, top, bottom = s["crop"] or (0, 0, 0, 0)
    return cw - ux * (left + right), ch - uy * (top + bottom), cw, ch


SAR = [None, (1, 1), (12, 11), (10, 11), (16, 11), (40, 33), (24, 11), (20, 11), (32, 11), (80, 33), (18, 11), (15, 11), (64, 33), (160, 99),
       (4, 3), (3, 2), (2, 1)]


def sar(s):
    """the coded sample aspect ratio, None or 0 where unspecified"""
    if not s["vui"] or s["sar"] in (None, 0):
        return None
    if s["sar"] == 255:
        return Fraction(s["sarw"], s["sarh"]) if s["sarw"] and s["sarh"] else None
    return Fraction(*SAR[s["sar"]]) if s["sar"] < len(SAR) else None


def rate(s, field):
    if not (s["vui"] and s["timing"]):
        return None
    return Fraction(s["timing"][1], s["timing"][0] * (1 if field else 2))


def r_pps(rng, id, sps_id):
    return dict(id=id, sps=sps_id, bottom=rng.getrandbits(1), redundant=rng.random() < 0.3, ref=rng.randint(1, 3),
                groups=rng.choice([0, 0, 0, 1, 2, 7]), map=rng.randint(0, 6))


def pps_nal(rng, p):
    b = Bits().ue(p["id"]).ue(p["sps"]).u(1, rng.getrandbits(1)).u(1, p["bottom"]).ue(p["groups"])
    if p["groups"]:
        b.ue(p["map"])
        if p["map"] == 0:
            for _ in range(p["groups"] + 1):
                b.ue(rng.randint(0, 40))
        elif p["map"] == 2:
            for _ in range(p["groups"]):
                b.ue(rng.randint(0, 40)).ue(rng.randint(0, 40))
        elif p["map"] in (3, 4, 5):
            b.u(1, rng.getrandbits(1)).ue(rng.randint(0, 30))
        elif p["map"] == 6:
            n = rng.randint(0, 30)
            b.ue(n)
            bits = {1: 1, 2: 2, 7: 3}[p["groups"]]
            for _ in range(n + 1):
                b.u(bits, rng.randint(0, p["groups"]))
    b.ue(rng.randint(0, 31)).ue(rng.randint(0, 31)).u(1, rng.getrandbits(1)).u(2, rng.randrange(3))
    b.se(rng.randint(-26, 25)).se(rng.randint(-26, 25)).se(rng.randint(-12, 12)).u(1, rng.getrandbits(1)).u(1, rng.getrandbits(1))
    b.u(1, p["redundant"])
    return nal(p["ref"], 8, b.octets())


def r_picture(rng, s, p, prev):
    """The slice header fields all slices of a picture share; differs from prev as clause 7.4.1.2.4 requires."""
    while True:
        h = dict(pps=p["id"], frame_num=rng.choice([0, 1, rng.getrandbits(s["fnbits"])]), field=0, bottom=0, ref=rng.randrange(4), idr=rng.random() < 0.3,
                 idr_id=rng.choice([0, 1, 65535]), lsb=rng.choice([0, 2, rng.getrandbits(s["lsbbits"])]), dbottom=rng.choice([0, 0, -1, 5]),
                 d0=rng.choice([0, 0, 1, -3]), d1=rng.choice([0, 0, 2]))
        if prev and rng.random() < 0.6:        # differ in one field only
            k = rng.choice(["frame_num", "field", "ref", "idr", "idr_id", "lsb", "dbottom", "d0", "d1"])
            h = dict(prev, **{k: h[k]})
            h["pps"] = p["id"]
        if not s["mbs_only"]:
            h["field"] = rng.getrandbits(1)
            h["bottom"] = h["field"] and rng.getrandbits(1)
        else:
            h["field"] = h["bottom"] = 0
        h["frame_num"] &= (1 << s["fnbits"]) - 1
        h["lsb"] &= (1 << s["lsbbits"]) - 1
        if h["idr"] and not h["ref"]:
            h["ref"] = 1
        if h["idr"]:
            h["frame_num"] = 0
        h["poc"] = s["poc"]
        if s["poc"] != 0:
            h["lsb"] = h["dbottom"] = 0
        if s["poc"] != 1 or s["always_zero"]:
            h["d0"] = h["d1"] = 0
        if not p["bottom"] or h["field"]:
            h["dbottom"] = h["d1"] = 0
        if not h["idr"]:
            h["idr_id"] = 0
        if prev is None or differs(prev, h):
            return h


def differs(a, b):
    return (a["pps"] != b["pps"] or a["frame_num"] != b["frame_num"] or a["field"] != b["field"] or a["bottom"] != b["bottom"]
            or (a["ref"] == 0) != (b["ref"] == 0) or a["idr"] != b["idr"] or (a["idr"] and a["idr_id"] != b["idr_id"])
            or (a["poc"] == b["poc"] == 0 and (a["lsb"], a["dbottom"]) != (b["lsb"], b["dbottom"]))
            or (a["poc"] == b["poc"] == 1 and (a["d0"], a["d1"]) != (b["d0"], b["d1"])))


def slice_nal(rng, s, p, h, type, first_mb, slice_type, ref, redundant=0, payload=None):
    b = Bits().ue(first_mb).ue(slice_type).ue(h["pps"])
    if s["separate"]:
        b.u(2, rng.randrange(3))
    b.u(s["fnbits"], h["frame_num"])
    if not s["mbs_only"]:
        b.u(1, h["field"])
        if h["field"]:
            b.u(1, h["bottom"])
    if h["idr"]:
        b.ue(h["idr_id"])
    if s["poc"] == 0:
        b.u(s["lsbbits"], h["lsb"])
        if p["bottom"] and not h["field"]:
            b.se(h["dbottom"])
    if s["poc"] == 1 and not s["always_zero"]:
        b.se(h["d0"])
        if p["bottom"] and not h["field"]:
            b.se(h["d1"])
    if p["redundant"]:
        b.ue(redundant)
    body = zeroish(rng, rng.choice([0, 1, 3, 20, 60])) if payload is None else payload
    for x in body:
        b.u(8, x)
    return nal(ref, type, b.octets())


def stream(rng, npics, big=0, many=None):
    """-> dict(data, aus=[(start, end, [unit offsets], picture dict)]), with pictures described as the wrapper must report them"""
    nsps = rng.choice([1, 1, 2, 3])
    spss = {i: r_sps(rng, i) for i in (range(32) if many == "sets" else rng.sample([0, 1, 2, 31], nsps))}
    ppss = {}
    for i in (rng.sample(range(256), rng.choice([40, 256])) if many == "sets" else rng.sample([0, 1, 2, 7, 63, 255], rng.choice([1, 1, 2, 3]))):
        ppss[i] = r_pps(rng, i, rng.choice(list(spss)))
    aus, prev = [], None
    plain = rng.random() < 0.6             # pictures told apart by their slice headers alone
    for n in range(npics):
        nals = []
        if n and not plain and rng.random() < 0.3:
            # parameter sets change where a new sequence starts; here any picture may refer to new ones
            if rng.random() < 0.5:
                i = rng.choice(list(spss))
                spss[i] = r_sps(rng, i)
            i = rng.choice(list(ppss))
            ppss[i] = r_pps(rng, i, rng.choice(list(spss)))
            send_s, send_p = dict(spss), dict(ppss)
            prev_for = dict(prev, pps=-1)      # and then the picture starts behind them
        elif n == 0 or not plain and rng.random() < 0.2:
            send_s, send_p, prev_for = dict(spss), dict(ppss), prev
        else:
            send_s, send_p, prev_for = {}, {}, prev
        p = ppss[rng.choice(list(ppss))]
        s = spss[p["sps"]]
        lead = rng.random() < (0.1 if plain else 1)
        if lead and rng.random() < 0.3:
            nals.append(("aud", nal(0, 9, Bits().u(3, rng.randrange(8)).octets())))
        for x in send_s.values():
            nals.append(("sps", sps_nal(rng, x)))
            if rng.random() < 0.1:
                nals.append(("spsext", nal(1, 13, zeroish(rng, 3) + b"\x80")))
        for x in send_p.values():
            nals.append(("pps", pps_nal(rng, x)))
        for _ in range(rng.choice([0, 0, 1, 2]) if lead else 0):
            nals.append(("sei", nal(0, 6, zeroish(rng, rng.choice([1, 5, 30])) + b"\x80")))
        if lead and rng.random() < 0.1:
            t = rng.choice([15, 16, 17, 18])
            nals.append(("other", nal(rng.randrange(1, 4), t, zeroish(rng, 6) + b"\x80")))
        h = r_picture(rng, s, p, prev_for)
        prev = h
        nslices = rng.choice([130, 256, 300]) if many == "units" and n == 1 else rng.choice([1, 1, 1, 2, 3, 6])
        kinds = rng.choice([[2, 7], [4, 9, 2], [0, 5], [1, 6], [2, 0, 1, 3, 7, 8, 9, 5, 6, 4]])
        types = [rng.choice(kinds) for _ in range(nslices)]
        partition = not h["idr"] and s["profile"] == 88 and rng.random() < 0.5
        for k in range(nslices):
            ref = h["ref"] and (h["ref"] if rng.random() < 0.8 else rng.randint(1, 3))
            t = 5 if h["idr"] else 2 if partition else 1
            payload = zeroish(rng, big) if big and rng.random() < 0.5 else None
            nals.append(("slice", slice_nal(rng, s, p, h, t, k * 3, types[k], ref, payload=payload)))
            if partition:
                for t in (3, 4):
                    if rng.random() < 0.7:
                        b = Bits().ue(k)
                        if s["separate"]:
                            b.u(2, 0)
                        if p["redundant"]:
                            b.ue(0)
                        for x in zeroish(rng, 4):
                            b.u(8, x)
                        nals.append(("part", nal(ref, t, b.octets())))
        if p["redundant"] and rng.random() < 0.6:
            for r in range(1, rng.choice([2, 3])):
                for k in range(rng.randint(1, 2)):
                    nals.append(("redundant", slice_nal(rng, s, p, h, 5 if h["idr"] else 1, k * 3, rng.choice([0, 2, 5, 7]), h["ref"], redundant=r)))
        if rng.random() < 0.1:
            nals.append(("aux", slice_nal(rng, s, p, h, 19, 0, 2, 0)))
        if rng.random() < 0.1:
            nals.append(("filler", nal(0, 12, b"\xff" * rng.randint(0, 20) + b"\x80")))
        if rng.random() < 0.1:
            nals.append(("eoseq", nal(0, 10, b"")))
            if n == npics - 1 and rng.random() < 0.5:
                nals.append(("eostream", nal(0, 11, b"")))
        w, hh, cw, ch = size(s)
        aus.append((nals, dict(key=all(t in (2, 4, 7, 9) for t in types), width=w, height=hh, coded_width=cw, coded_height=ch,
                               rate=rate(s, h["field"]), sar=sar(s), sps=s, slices=types, field=h["field"], partition=partition)))
    out = bytearray(b"\0" * rng.choice([0, 0, 0, 1, 4]))
    res = []
    for i, (nals, pic) in enumerate(aus):
        start = len(out) if i else 0
        units = []
        for j, (kind, b) in enumerate(nals):
            if j == 0 or kind in ("sps", "pps") or rng.random() < 0.5:
                out += b"\0"
            units.append(len(out) - start)
            out += b"\0\0\1" + b
            if rng.random() < 0.08:
                out += b"\0" * rng.randint(1, 5)      # trailing_zero_8bits belong to this unit
        res.append((start, len(out), units, pic))
    # an access unit starts at its zero_byte: everything before belongs to the one before
    return dict(data=bytes(out), aus=res)
