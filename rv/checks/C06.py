"""Samples that an encoding cannot hold are refused, never altered"""
import array
import math

import numpy as np

from ..core import Kind
from .. import gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "steim1.py", "steim2.py", "seedcodec.py"]
RULE = ("a case is one distinct (entry point, encoding, container, samples) with at least one sample the encoding may not hold; "
        "counted when it was refused or read back and compared")


def hostile_values(rng):
    """list with something that does not fit, or only just does"""
    n = rng.choice([1, 2, 3, 8, rng.randint(1, 40)])
    base = [rng.randint(-100, 100) for _ in range(n)]
    k = rng.randrange(n)
    what = rng.choice(["i32", "i32", "i16", "i16", "frac", "big", "nan", "inf", "none", "str", "complex", "huge", "edge", "nested",
                       "bool", "wholefloat", "i64"])
    base[k] = {
        "i32": lambda: rng.choice([2**31, -2**31 - 1, 2**32, 2**32 + 5, -2**32, 2**31 + rng.randint(0, 1000)]),
        "i16": lambda: rng.choice([2**15, -2**15 - 1, 2**16, 65535, 40000, -40000]),
        "frac": lambda: rng.choice([0.5, -0.25, 1e-9, 1.9999999, 100.1, 2**31 - 0.5]),
        "big": lambda: rng.choice([1e10, -1e10, 1e300, 2.0**31, 2.0**53, -3.5e38, 2.0**128, 2.0**127, -1e39, 1.7e308]),
        "nan": lambda: math.nan,
        "inf": lambda: rng.choice([math.inf, -math.inf]),
        "none": lambda: None,
        "str": lambda: rng.choice(["1", "x", ""]),
        "complex": lambda: 1 + 2j,
        "huge": lambda: rng.choice([2**63, 2**64, -2**63 - 1, 2**64 + 1, 2**100, 2**128, -10**39]),
        "edge": lambda: rng.choice([2**31 - 1, -2**31, 2**15 - 1, -2**15]),
        "nested": lambda: [1, 2],
        "bool": lambda: True,
        "wholefloat": lambda: rng.choice([3.0, -7.0, 2.0**31 - 1]),
        "i64": lambda: rng.choice([2**63 - 1, -2**63, 2**40]),
    }[what]()
    return what, base


def hostile_container(rng):
    """(label, object, python values or None when not defined)"""
    what, vals = hostile_values(rng)
    r = rng.random()
    if r < 0.4:
        return "list " + what, vals, vals
    if r < 0.45:
        return "tuple " + what, tuple(vals), vals
    numeric = all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals)
    if r < 0.6:
        t = rng.choice("bBhHiIlLqQfd")
        try:
            a = array.array(t, vals)
        except (TypeError, OverflowError, ValueError):
            return "list " + what, vals, vals
        return f"array.{t} {what}", a, list(a)
    if r < 0.7:
        shape = rng.choice([(2, 3), (1, 4), (4, 1), (2, 2, 2), ()])
        a = np.arange(int(np.prod(shape)), dtype=rng.choice(["i2", "i4", "i8", "f4", "f8"])).reshape(shape)
        return f"shape {shape}", a, None
    if r < 0.8:
        t = rng.choice(["c8", "U3", "O", "M8[s]", "?", "f2", "u1", "i1", "u2", "u4", "u8", "m8[s]", "S2"])
        a = np.zeros(3, dtype=t)
        return f"dtype {t}", a, [0, 0, 0] if t in ("?", "f2", "u1", "i1", "u2", "u4", "u8", "m8[s]", "O") else None
    t = rng.choice(["i8", "u8", ">i8", "<i8", ">u4", "u4", "f4", "f8", ">f8", "i4", "i2", "u2", ">i2"])
    if not numeric:
        return "list " + what, vals, vals
    try:
        a = np.array(vals, dtype=t)
    except (OverflowError, ValueError, TypeError):
        return "list " + what, vals, vals
    return f"numpy {t} {what}", a, gen.tolist(a)


def equal(got, vals):
    """numerically equal, value for value"""
    if len(got) != len(vals):
        return False
    try:
        return all(int(g) == v for g, v in zip(got, vals))
    except (TypeError, ValueError, OverflowError):
        return False


def outcome(ctx, label, vals, act, exact=False):
    """act() gives (encoding, samples read back) or raises; exact: floats of a type the encoding has, so not even rounded"""
    try:
        encoding, got = act()
    except Exception:  # pylint: disable=broad-except
        # which error is not part of this property, only that samples are not altered
        ctx.count("refused")
        ctx.count("refused " + label.split()[0])
        return
    ctx.check(vals is not None, f"accepted {label}", encoding, got)
    if encoding in (1, 3, 10, 11):
        ctx.check(equal(got, vals), f"altered: {label} in encoding {encoding}", vals, got)
        ctx.count("accepted, equal")
    else:
        ctx.eq(len(got), len(vals), "number of samples")
        for g, v in zip(got, vals):
            if exact and isinstance(v, (int, float)):
                ctx.check(g == v or g != g and v != v, f"altered: {label} in encoding {encoding}", vals, got)
                ctx.count("compared exactly")
            elif isinstance(v, (int, float)) and math.isfinite(v):
                # finite stays so
                ctx.check(math.isfinite(g) and abs(g - v) <= 2.0**-23 * abs(v) + 1e-40,
                          f"altered: {label} in encoding {encoding}", vals, got)
            elif isinstance(v, float):
                ctx.check(g == v or g != g and v != v, f"altered: {label} in encoding {encoding}", vals, got)
        ctx.count("accepted as float")


def ms3(rng, ctx):
    import simplemseed as s
    label, data, vals = hostile_container(rng)
    encoding = rng.choice([-1, 1, 3, 3, 4, 5, 10, 11])
    later = rng.choice([None, None, None, 1, 3, 4, 5])

    count = 0
    if vals is not None and rng.random() < 0.1:
        # a header that says another number of samples
        count = max(1, len(vals) + rng.choice([-1, 1, -len(vals) // 2, 7, len(vals)]))

    def act():
        h = s.MSeed3Header()
        h.encoding = encoding
        h.starttime = "2024-01-01T00:00:00Z"
        h.numSamples = count
        rec = s.MSeed3Record(h, "FDSN:XX_A__H_H_Z", data)
        if later is not None:
            rec.header.encoding = later
        b = bytes(rec.pack())
        try:
            r = ref.ms3_parse(b)
            got = ref.ms3_samples(r)
        except ref.RefError as e:
            ctx.check(False, f"packed {label} to a record that is not valid: {e}", count, b[:80])
        back = gen.tolist(s.unpackMSeed3Record(bytes(rec.pack())).decompress())
        ctx.check(gen.bits(r["encoding"], back) == gen.bits(r["encoding"], got), "library reads other samples", back, got)
        ctx.check(len(got) == r["numSamples"], "number of samples in header")
        return r["encoding"], got
    # an array has a type of its own; without one, or with another encoding set later, the values are rounded to that
    outcome(ctx, label, vals, act, later is None and isinstance(data, (np.ndarray, array.array)))
    if count:
        ctx.count("headers with a number of samples")
    ctx.seen("ms3", label, encoding, later, count, repr(vals))
    ctx.sample(f"miniSEED 3 record, {label}, encoding {encoding}: {str(vals)[:80]}")


def ms2(rng, ctx):
    import simplemseed as s
    label, data, vals = hostile_container(rng)
    encoding = rng.choice([-1, 1, 3, 3, 4, 5, 10, 11])
    later = rng.choice([None, None, None, 1, 3])

    def act():
        h = s.MiniseedHeader("XX", "A", "00", "HHZ", "2024-01-01T00:00:00Z", 0, 20.0, encoding=encoding)
        rec = s.MiniseedRecord(h, data)
        if later is not None:
            rec.header.encoding = later
        b = bytes(rec.pack())
        r = ref.ms2_parse(b)
        got = ref.ms2_samples(r)
        back = gen.tolist(s.unpackMiniseedRecord(b).decompress())
        ctx.check(gen.bits(r["encoding"], back) == gen.bits(r["encoding"], got), "library reads other samples", back, got)
        return r["encoding"], got
    outcome(ctx, label, vals, act)
    ctx.seen("ms2", label, encoding, later, repr(vals))


def codec(rng, ctx):
    import simplemseed as s
    label, data, vals = hostile_container(rng)
    which = rng.choice(["steim1", "steim2", "encode", "encode"])
    encoding = rng.choice([None, 1, 3])

    def act():
        if which == "encode":
            seg = s.encode(data, encoding, rng.random() < 0.5)
            return seg.compressionType, gen.tolist(
                ref.payload_decode(seg.compressionType, bytes(seg.dataBytes), seg.numSamples, bool(seg.littleEndian)))
        version = 1 if which == "steim1" else 2
        data_ = (s.encodeSteim1 if version == 1 else s.encodeSteim2)(data)
        n = len(vals) if vals is not None else len(data)
        return 9 + version, ref.steim_decode(version, bytes(data_), n)[0]
    outcome(ctx, f"{label} {which}", vals, act)
    ctx.seen(which, label, encoding, repr(vals))


def codes_ms2(rng, ctx):
    """codes and numbers that the fixed header has no room for"""
    import simplemseed as s
    bad = rng.choice(["net", "sta", "loc", "chan", "seq", "numSamples", "utf8"])
    v = dict(net="XX", sta="ABC", loc="00", chan="HHZ", seq=5)
    if bad in ("net", "sta", "loc", "chan"):
        room = {"net": 2, "sta": 5, "loc": 2, "chan": 3}[bad]
        v[bad] = gen.code(rng, room + 1, room + 5)
    elif bad == "seq":
        v["seq"] = rng.choice([1000000, 12345678])
    elif bad == "utf8":
        v["sta"] = "ÄÖÜÄ"
    h = s.MiniseedHeader(v["net"], v["sta"], v["loc"], v["chan"], "2024-01-01T00:00:00Z", 0, 20.0, sequence_number=v["seq"])
    if bad == "numSamples":
        h.numSamples = 70000
        h.encoding = 3
        rec = s.MiniseedRecord(h, None, encodedDataBytes=bytes(8))
    else:
        rec = s.MiniseedRecord(h, np.array([1, 2], dtype="i4"))
    try:
        b = rec.pack()
    except Exception:  # pylint: disable=broad-except
        ctx.count("header values refused")
    else:
        ctx.check(False, f"packed although {bad} does not fit", v, bytes(b[:48]))
    ctx.seen("codes", bad, repr(v))


KINDS = [
    Kind("ms3", ms3, 30000, 1500000, need=("refused", "accepted, equal")),
    Kind("ms2", ms2, 30000, 1500000),
    Kind("codec", codec, 30000, 1500000),
    Kind("codes", codes_ms2, 1500, 20000, need=("header values refused",)),
]
