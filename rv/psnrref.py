"""Independent PSNR of raw video and audio data, computed from bytes with exact integer sums."""
import math
import struct
from fractions import Fraction

import numpy as np

from . import gen, convref
from .checks import n01, n02


def psnr(total, n, peak):
    """total: exact sum of squared errors"""
    if total == 0:
        return math.inf
    if isinstance(total, float):
        return math.nan         # a sample that is not a number
    mse = Fraction(total) / n
    r = Fraction(peak) ** 2 / mse
    # logarithm of a fraction that may be outside the range of floats
    return 10 * (math.log10(r.numerator) - math.log10(r.denominator))


def video_bits(f):
    return gen.planar_info(f)[0] if f in gen.PLANAR else 16 if f == "v216" else 8


def video_samples(f, comps, data):
    raw = np.frombuffer(bytes(data), dtype=np.uint8).astype(np.int64)
    out = []
    for n in n01.names(f):
        pos, b = convref.positions(f, comps, n, *n01.size(f, comps, n))
        out.append(sum(raw[pos + k] << (8 * k) for k in range(b)))
    return out


def video(f, comps_a, a, comps_b, b, peak=None):
    peak = (1 << video_bits(f)) - 1 if peak is None else peak
    out = []
    for x, y in zip(video_samples(f, comps_a, a), video_samples(f, comps_b, b)):
        total = sum(d * d for d in (x - y).ravel().tolist())
        out.append(psnr(total, x.size, peak))
    return out


def audio_samples(f, channels, samples, data):
    b, k = gen.audio_sample_bytes(f), f.split("_")[0]
    out = []
    for ch in range(channels):
        v = []
        for i in range(samples):
            o = data[(p := n02.position(f, channels, samples, ch, i)):p + b]
            x = struct.unpack("<" + ("f" if k == "FLOAT" else "d"), o)[0] if k in ("FLOAT", "DOUBLE") else None
            v.append((x if math.isnan(x) else Fraction(x)) if x is not None else int.from_bytes(o[:3] if k == "S24" else o, "little", signed=True))
        out.append(v)
    return out


def audio(f, channels, samples, a, b, peak=None):
    bits = dict(S16=15, S24=23, S32=31).get(f.split("_")[0])
    peak = (1 if bits is None else 1 << bits) if peak is None else peak
    return [psnr(sum((x - y) ** 2 for x, y in zip(p, q)), samples, peak) for p, q in zip(audio_samples(f, channels, samples, a), audio_samples(f, channels, samples, b))]


def close(a, b):
    return a == b or abs(a - b) < 1e-6 * max(1, abs(b))
