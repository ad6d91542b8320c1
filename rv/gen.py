"""Seeded generators of hostile and realistic inputs. Nothing here judges."""
import array
import json
import math
import struct

import numpy as np

from . import ref

LO, HI = ref.I32MIN, ref.I32MAX
WIDTHS = (1, 4, 5, 6, 8, 10, 15, 16, 17, 24, 30, 31, 32)


class Short:
    """a source that can only be read, a few bytes at a time, as an unbuffered pipe or socket"""

    def __init__(self, rng, data):
        self.rng, self.data, self.at, self.most, self.calls = rng, data, 0, rng.choice([1, 7, 39, 40, 47, 48, 64, 200, 1000, 4000]), 0
        if self.most < 39:
            self.most = max(self.most, len(data) // 2000)

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        self.calls += 1
        k = min(n, self.most if self.rng.random() < 0.5 else self.rng.randint(1, self.most))
        out = self.data[self.at:self.at + k]
        self.at += len(out)
        return out


def edge(rng, bits):
    """a value at or beside the limits of a signed width"""
    h = 1 << (bits - 1)
    return rng.choice([h - 1, -h, h, -h - 1, h - 2, -h + 1, 0, 1, -1])


def diff(rng, bits):
    r = rng.random()
    if r < 0.35:
        return edge(rng, bits)
    h = 1 << (bits - 1)
    return rng.randint(-h, h - 1)


def ints(rng, n, maxbits=32, lo=LO, hi=HI):
    """
    n integers in [lo, hi]; segments with differences of one width each, so
    packings, their limits and the change between them all occur. With
    maxbits < 32 no difference needs more than maxbits.
    """
    style = rng.random()
    if style < 0.04:
        v = rng.choice([lo, hi, 0, rng.randint(lo, hi)])
        return [v] * n
    if style < 0.08 and maxbits == 32:
        return [rng.choice([lo, hi, 0, lo + 1, hi - 1, -1]) if lo < 0 else rng.choice([lo, hi]) for _ in range(n)]
    if style < 0.14:
        amp = min(hi, 10 ** rng.randint(0, 8), (1 << maxbits - 2))
        w = rng.uniform(0.01, 1.5)
        return [max(lo, min(hi, int(amp * math.sin(w * i)))) for i in range(n)]
    widths = [w for w in WIDTHS if w <= maxbits]
    limit = (1 << (maxbits - 1)) - 1
    v = rng.choice([0, 0, rng.randint(max(lo, -1000), min(hi, 1000)), rng.randint(lo, hi), lo, hi])
    out = []
    seg = 0
    bits = 4
    while len(out) < n:
        if seg == 0:
            seg = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 30, 60, 110])
            bits = rng.choice(widths)
        out.append(v)
        d = diff(rng, bits)
        if maxbits < 32:
            d = max(-limit - 1, min(limit, d))
        w = v + d
        if not lo <= w <= hi:
            w = v - d if -d <= limit else v - d - 1
        if not lo <= w <= hi:
            w = v
        v = w
        seg -= 1
    return out


def nsamples(rng, big=700):
    return rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, 30), rng.randint(1, 130), rng.randint(1, big)])


NP_INT = ["i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8", "<u8"]


def container(rng, vals):
    """(label, object) holding exactly these integers"""
    mn, mx = (min(vals), max(vals)) if vals else (0, 0)
    opts = ["list", "list", "tuple", "npints"]
    for t in NP_INT:
        i = np.iinfo(t)
        if i.min <= mn and mx <= i.max:
            opts += [t] * (3 if t[-2:] in ("i4",) else 1)
    for t in "bBhHiIlq":
        size = array.array(t).itemsize * 8
        l, h = (0, 2**size - 1) if t.isupper() else (-2**(size - 1), 2**(size - 1) - 1)
        if l <= mn and mx <= h:
            opts.append("array." + t)
    if mn >= 0 and mx <= 1:
        opts.append("bool")
    o = rng.choice(opts)
    if o == "list":
        return o, list(vals)
    if o == "tuple":
        return o, tuple(vals)
    if o == "npints":
        return o, [np.int64(v) for v in vals]
    if o.startswith("array."):
        return o, array.array(o[6:], vals)
    a = np.array(vals, dtype=o)
    shape = rng.random()
    if shape < 0.15:
        o += "/strided"
        b = np.zeros(len(vals) * 3, dtype=a.dtype)
        b[1::3] = a
        return o, b[1::3]
    if shape < 0.3:
        o += "/reversed"
        return o, np.ascontiguousarray(a[::-1])[::-1]
    if shape < 0.45:
        o += "/readonly"
        a.flags.writeable = False
    return o, a


def tolist(x):
    """python values of a result array"""
    return [v.item() if hasattr(v, "item") else v for v in x]


# ---------------------------------------------------------------- typed samples

F32_SPECIAL = [0.0, -0.0, 1.0, float("inf"), float("-inf"), float("nan"), 1.401298464324817e-45, 3.4028234663852886e+38,
               -3.4028234663852886e+38, 1.1754943508222875e-38, 0.10000000149011612]
F64_SPECIAL = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e+308,
               -1.7976931348623157e+308, 2.2250738585072014e-308, 0.1, 1 / 3]


def typed(rng, encoding, n):
    """n python values of a primitive encoding (floats exact in the type)"""
    if encoding == 1:
        return ints(rng, n, 32, -32768, 32767)
    if encoding == 3:
        return ints(rng, n)
    if encoding == 4:
        return [rng.choice(F32_SPECIAL) if rng.random() < 0.2 else
                struct.unpack("<f", struct.pack("<f", rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)))[0]
                for _ in range(n)]
    if encoding == 5:
        return [rng.choice(F64_SPECIAL) if rng.random() < 0.2 else
                rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300) for _ in range(n)]
    raise ValueError(encoding)


def bits(encoding, values):
    """comparable bit pattern of values of a primitive type, so NaN and -0.0 count"""
    return ref.prim_encode(encoding, values, True)


NPTYPE = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}


def np_typed(rng, encoding, values):
    """numpy array or array.array of a primitive type in some byte order"""
    t = NPTYPE[encoding]
    if rng.random() < 0.2:
        return "array", array.array({1: "h", 3: "i", 4: "f", 5: "d"}[encoding], values)
    order = rng.choice("<<>=")
    a = np.array(values, dtype=order + t)
    k = rng.random()
    if k < 0.15:
        b = np.zeros(2 * len(values), dtype=a.dtype)
        b[::2] = a
        return order + t + "/strided", b[::2]
    if k < 0.3:
        a.flags.writeable = False
        return order + t + "/readonly", a
    return order + t, a


# ---------------------------------------------------------------- text

UNI = ["é", "ß", "日本", "🌋", "Ω", "\u0301", "\u2028", "ä"]


def word(rng, alphabet, lo, hi):
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def code(rng, lo, hi, extra=""):
    return word(rng, ref.UP + ref.DIG + extra, lo, hi)


def fdsn_id(rng):
    net = rng.choice(["CO", "XX", "XD1994", code(rng, 1, 8)])
    sta = rng.choice(["BIRD", "JSC", code(rng, 1, 8, "-")])
    loc = rng.choice(["", "00", "10", code(rng, 0, 8)])
    if rng.random() < 0.7:
        ch = rng.choice("BHLES") + "_" + rng.choice("HNL") + "_" + rng.choice("ZNE12")
    else:
        ch = code(rng, 0, 1) + "_" + code(rng, 1, 4) + "_" + code(rng, 0, 4)
    return f"FDSN:{net}_{sta}_{loc}_{ch}"


def ident(rng):
    """any identifier allowed in a record, up to 255 bytes of UTF-8"""
    r = rng.random()
    if r < 0.75:
        return fdsn_id(rng)
    if r < 0.8:
        return ""
    if r < 0.87:
        return "x" * 255
    s = "".join(rng.choice(UNI + list("abcXYZ:/_.-0123 ")) for _ in range(rng.randint(1, 60)))
    while len(s.encode("utf-8")) > 255:
        s = s[:-1]
    return s


def scalar(rng):
    return rng.choice([
        lambda: rng.randint(-10, 10), lambda: rng.randint(-2**60, 2**60), lambda: rng.uniform(-1e6, 1e6),
        lambda: 1e-7 * rng.random(), lambda: True, lambda: False, lambda: None, lambda: "",
        lambda: text(rng), lambda: [], lambda: {}, lambda: 0.1, lambda: -0.5,
    ])()


def text(rng):
    return "".join(rng.choice(list("abc XYZ019\"\\/{}[],:~\n\t") + UNI) for _ in range(rng.randint(0, 12)))


def jkey(rng):
    return rng.choice(["FDSN", "Time", "bag", "y", "a/b", "m~n", "0", "1", "", " ", "é", "Quality", "key"])


def jvalue(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < 0.5:
        return scalar(rng)
    if r < 0.65:
        return [jvalue(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    return jobject(rng, depth - 1)


def jobject(rng, depth=2):
    return {jkey(rng): jvalue(rng, depth) for _ in range(rng.randint(0, 4))}


def jtext(rng, obj):
    """some JSON text of an object: compact, spaced, indented, ascii or not"""
    k = rng.random()
    ascii_ = rng.random() < 0.5
    if k < 0.4:
        return json.dumps(obj, separators=(",", ":"), ensure_ascii=ascii_)
    if k < 0.7:
        return json.dumps(obj, ensure_ascii=ascii_)
    if k < 0.85:
        return json.dumps(obj, indent=rng.choice([1, 2]), ensure_ascii=ascii_)
    return "  " + json.dumps(obj, ensure_ascii=ascii_, sort_keys=True) + "\n "


def jsame(a, b):
    """JSON equality that tells true from 1 and 1 from 1.0 apart only by kind of value"""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(jsame(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- time and rate

def year_day(rng, lo, hi):
    y = rng.choice([rng.randint(lo, hi), rng.randint(max(lo, 1990), min(hi, 2030)), rng.choice([lo, hi, 2000, 2024, 1900, 2023])])
    y = max(lo, min(hi, y))
    last = 366 if ref.leap(y) else 365
    return y, rng.choice([1, 31, 32, 59, 60, 61, last, last - 1, rng.randint(1, last), rng.randint(1, last)])


def clock(rng):
    return rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)),
                       (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])


def rate_period(rng):
    return rng.choice([1, 1.0, 20, 40.0, 100.0, 200, 250.5, 1000.0, 0.1, 33.333333333, -1, -1.0, -10, -0.005, -60.0, -3600, -86400.0,
                       rng.uniform(0.001, 5000), -rng.uniform(0.001, 5000), 10.0 ** rng.randint(-4, 5), -10.0 ** rng.randint(-4, 5)])
