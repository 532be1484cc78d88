"""Independent reference for video format conversion: pictures are (lo, hi) intervals per component."""
import itertools

import numpy as np

from . import gen
from .checks import n01


PACKED = {"YUYV": (8, "422"), "UYVY": (8, "422"), "v216": (16, "422"), "RGB": (8, "RGB"), "RGBx": (8, "RGB"), "xRGB": (8, "RGB"), "BGRx": (8, "RGB"), "xBGR": (8, "RGB"),
          "v210": (10, "422")}


def kind(f):
    """(bits, subsampling)"""
    if f in PACKED:
        return PACKED[f]
    bits, bps, hs, vs, rgb = gen.planar_info(f)
    return bits, "RGB" if rgb else "444" if not hs else "422" if not vs else "420"


def available():
    return sorted(list(PACKED) + list(gen.PLANAR))


def comp_names(f):
    return "RGB" if kind(f)[1] == "RGB" else "YUV"


def size(f, w, h, n):
    ss = kind(f)[1]
    if n in "UV" and ss in ("422", "420"):
        w //= 2
    if n in "UV" and ss == "420":
        h //= 2
    return w, h


# --- bytes <-> samples ---

def positions(f, comps, n, w, h):
    b = n01.sample_bytes(f)
    out = np.zeros((h, w), dtype=np.int64)
    for y in range(min(h, 2)):
        for x in range(w):
            out[y, x] = n01.position(f, comps, n, x, y)
    if h > 1:
        out[:, :] = out[0] + np.arange(h)[:, None] * (out[1, :1] - out[0, :1])
    return out, b


V210_ORDER = ["U0", "Y0", "V0", "Y1", "U1", "Y2", "V1", "Y3", "U2", "Y4", "V2", "Y5"]


def v210_map(w, h):
    """component -> (word index, shift) arrays"""
    per_line = (w + 47) // 48 * 32
    out = {}
    for n in "YUV":
        cw = w if n == "Y" else w // 2
        per = 6 if n == "Y" else 3
        word, shift = np.zeros((h, cw), dtype=np.int64), np.zeros((h, cw), dtype=np.int64)
        for x in range(cw):
            k = V210_ORDER.index("%s%d" % (n, x % per))
            word[:, x] = (x // per) * 4 + k // 3 + np.arange(h) * per_line
            shift[:, x] = 10 * (k % 3)
        out[n] = word, shift
    return out


def decode(f, w, h, comps, data):
    """{component: int64 array [y, x]}"""
    out = {}
    if f == "v210":
        words = np.frombuffer(data, dtype="<u4").astype(np.int64)
        for n, (word, shift) in v210_map(w, h).items():
            out[n] = (words[word] >> shift) & 0x3FF
        return out
    raw = np.frombuffer(data, dtype=np.uint8).astype(np.int64)
    for n in comp_names(f):
        pos, b = positions(f, comps, n, *size(f, w, h, n))
        out[n] = sum(raw[pos + k] << (8 * k) for k in range(b))
    return out


def encode(f, w, h, comps, samples, data):
    """write the samples into bytearray data"""
    if f == "v210":
        words = np.frombuffer(data, dtype="<u4").astype(np.int64)
        for n, (word, shift) in v210_map(w, h).items():
            # each (word, shift) pair is distinct, but several share a word
            for s in (0, 10, 20):
                m = shift == s
                words[word[m]] = (words[word[m]] & ~(0x3FF << s)) | (samples[n][m] << s)
        data[:] = words.astype("<u4").tobytes()
        return
    raw = np.frombuffer(data, dtype=np.uint8)
    for n in comp_names(f):
        pos, b = positions(f, comps, n, *size(f, w, h, n))
        for k in range(b):
            raw[pos + k] = (samples[n] >> (8 * k)) & 0xFF


# --- elementary steps on intervals ---

def chroma(p, frm, to):
    order = ["444", "422", "420"]
    i, j = order.index(frm), order.index(to)
    while i != j:
        if i < j:
            axis = 1 if i == 0 else 0
            mean = (lambda a: -((-(a[:, 0::2] + a[:, 1::2])) // 2)) if axis == 1 else (lambda a: -((-(a[0::2] + a[1::2])) // 2))
            f = mean
            i += 1
        else:
            axis = 1 if i == 1 else 0
            f = lambda a, axis=axis: np.repeat(a, 2, axis=axis)
            i -= 1
        p = dict(p, U=tuple(f(v) for v in p["U"]), V=tuple(f(v) for v in p["V"]))
    return p


def depth(p, frm, to):
    if to < frm:
        n, top = frm - to, (1 << to) - 1
        return {c: tuple(np.minimum((a >> n) + ((a >> (n - 1)) & 1), top) for a in v) for c, v in p.items()}
    n = to - frm
    return {c: (v[0] << n, (v[1] << n) + (1 << n) - 1) for c, v in p.items()}


TO_YUV = dict(Y=(dict(R=.2126, G=.7152, B=.0722), 0), U=(dict(R=-.114572, G=-.385428, B=.5), 1), V=(dict(R=.5, G=-.454153, B=-.045847), 1))
TO_RGB = dict(R=dict(Y=1., V=1.5748), G=dict(Y=1., U=-.187324, V=-.468124), B=dict(Y=1., U=1.8556))


def matrix(p, bd, to):
    half, top, eps = 1 << (bd - 1), (1 << bd) - 1, 1e-6 + 2.0 ** bd * 1e-14
    out = {}
    for n in to:
        if to == "YUV":
            coefs, centre = TO_YUV[n]
            off = {}
        else:
            coefs, centre, off = TO_RGB[n], 0, dict(U=half, V=half)
        lo = hi = float(half * centre)
        for c, k in coefs.items():
            a, b = ((v.astype(np.float64) - off.get(c, 0)) * k for v in p[c])
            lo, hi = lo + np.minimum(a, b), hi + np.maximum(a, b)
        out[n] = tuple(np.clip(np.floor(v), 0, top).astype(np.int64) for v in (lo - eps, hi + eps))
    return out


def references(f1, f2, samples):
    """[(steps, intervals)] for every order in which the steps can be taken"""
    (b1, s1), (b2, s2) = kind(f1), kind(f2)
    start = {n: (a, a) for n, a in samples.items()}
    steps = []
    if b1 != b2:
        steps.append("depth")
    c1, c2 = ("444" if s == "RGB" else s for s in (s1, s2))
    if c1 != c2:
        steps.append("chroma")
    if (s1 == "RGB") != (s2 == "RGB"):
        steps.append("matrix")
    out = []
    for order in itertools.permutations(steps):
        if "matrix" in order and "chroma" in order and (order.index("chroma") < order.index("matrix")) != (s2 == "RGB"):
            continue
        p, bits = start, b1
        for s in order:
            if s == "depth":
                p, bits = depth(p, b1, b2), b2
            elif s == "chroma":
                p = chroma(p, c1, c2)
            else:
                p = matrix(p, bits, comp_names(f2))
        out.append((order, p))
    return out
