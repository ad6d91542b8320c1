"""Primitive encodings preserve values in both byte orders"""
import importlib
import struct

import numpy as np

from ..core import Kind
from .. import gen, ref

LEVEL = "exploration"
FILES = ["seedcodec.py"]
RULE = "a case is one distinct (encoding, byte order, container, samples) encoded, decoded, cut short and lengthened"
SIZE = {1: 2, 3: 4, 4: 4, 5: 8}


def judge_array(ctx, encoding, got, vals, what):
    a = np.asarray(got)
    ctx.check(a.dtype.kind == ("i" if encoding in (1, 3) else "f") and a.dtype.itemsize == SIZE[encoding],
              f"{what}: type", encoding, a.dtype)
    ctx.eq(len(got), len(vals), f"{what}: count")
    ctx.eq(gen.bits(encoding, gen.tolist(got)), gen.bits(encoding, vals), f"{what}: bits of values")


def roundtrip(rng, ctx):
    import simplemseed as s
    encoding = rng.choice([1, 3, 4, 5])
    n = rng.choice([0, 1, 2, 3, rng.randint(1, 300)])
    vals = gen.typed(rng, encoding, n)
    little = rng.random() < 0.5
    if rng.random() < 0.7:
        label, data = gen.np_typed(rng, encoding, vals)
    else:
        label, data = rng.choice([("list", list(vals)), ("tuple", tuple(vals))])
    given = None
    if label in ("list", "tuple") or rng.random() < 0.5:
        given = encoding
    elif rng.random() < 0.3:
        given = -1
    seg = s.encode(data, given, little)
    want = ref.prim_encode(encoding, vals, little)
    ctx.eq(seg.compressionType, encoding, "encoding of the segment")
    ctx.eq(seg.numSamples, n, "number of samples of the segment")
    ctx.eq(bytes(seg.dataBytes), want, f"bytes, little {little}")
    ctx.eq(bool(seg.littleEndian), little, "byte order of the segment")
    judge_array(ctx, encoding, seg.decode(), vals, "EncodedDataSegment.decode")
    buf = rng.choice([bytes, bytearray, memoryview])(want)
    judge_array(ctx, encoding, s.decompress(encoding, buf, n, little), vals, "decompress")
    ctx.count("values compared", n)
    # extra bytes are ignored
    extra = want + rng.randbytes(rng.choice([1, 2, 7, 8, 64]))
    judge_array(ctx, encoding, s.decompress(encoding, extra, n, little), vals, "decompress with extra bytes")
    m = rng.randint(0, n)
    judge_array(ctx, encoding, s.decompress(encoding, want, m, little), vals[:m], "decompress of first samples")
    # short
    if n:
        for cut in {len(want) - 1, rng.randrange(len(want)), 0, len(want) - SIZE[encoding]}:
            try:
                got = s.decompress(encoding, want[:cut], n, little)
            except s.CodecException:
                ctx.count("short data refused")
            else:
                ctx.check(False, "short data decoded", cut, len(want), got)
        try:
            got = s.decompress(encoding, want, n + rng.choice([1, 2, 100]), little)
        except s.CodecException:
            ctx.count("short data refused")
        else:
            ctx.check(False, "more samples than bytes decoded", got)
    ctx.seen(encoding, little, label, gen.bits(encoding, vals))
    ctx.sample(f"encoding {encoding} little {little} from {label} {n} values {vals[:4]}")


def huge(rng, ctx):
    """more samples, and bytes, than two bytes can count"""
    import simplemseed as s
    encoding = rng.choice([1, 3, 4, 5])
    n = rng.choice([65535, 65536, 65537, 32768, 131072, rng.randint(40000, 200000)])
    little = rng.random() < 0.5
    some = gen.typed(rng, encoding, rng.randint(90, 130))
    vals = (some * (n // len(some) + 1))[:n]
    data = gen.np_typed(rng, encoding, vals)[1]
    seg = s.encode(data, None, little)
    want = ref.prim_encode(encoding, vals, little)
    ctx.eq((seg.compressionType, seg.numSamples), (encoding, n), "encoding and number of samples of the segment")
    ctx.check(bytes(seg.dataBytes) == want, "bytes of a long segment", n, little)
    judge_array(ctx, encoding, s.decompress(encoding, want, n, little), vals, "decompress")
    for cut in (1, SIZE[encoding], 65536):
        try:
            s.decompress(encoding, want[:-cut], n, little)
        except s.CodecException:
            ctx.count("short data refused")
        else:
            ctx.check(False, "short data decoded", cut, len(want))
    ctx.seen("huge", encoding, little, n, gen.bits(encoding, some))
    ctx.count("long segments")


def crossorder(rng, ctx):
    """encode in one byte order, decoded by the other reference order gives the swapped values"""
    import simplemseed as s
    encoding = rng.choice([1, 3, 4, 5])
    vals = gen.typed(rng, encoding, rng.randint(1, 50))
    little = rng.random() < 0.5
    data = rng.randbytes(SIZE[encoding] * len(vals))
    got = s.decompress(encoding, data, len(vals), little)
    want = ref.prim_decode(encoding, data, len(vals), little)
    ctx.eq(gen.bits(encoding, gen.tolist(got)) if encoding != 4 else np.asarray(got).astype("<f4").tobytes(),
           ref.prim_encode(encoding, want, True) if encoding != 4 else
           b"".join(data[i:i + 4] if little else data[i:i + 4][::-1] for i in range(0, len(data), 4)), "any bytes decoded")
    ctx.seen("any", encoding, little, data)
    ctx.count("arbitrary bytes decoded")


def unsupported(rng, ctx):
    """every encoding code"""
    import simplemseed as s
    code = rng.index
    data = bytes(256)
    can = code in (1, 3, 4, 5, 10, 11)
    ctx.eq(bool(s.canDecompress(code)), can, f"canDecompress({code})")
    for n in (1, 2, 15):
        for little in (True, False):
            try:
                got = s.decompress(code, data, n, little)
                ok = True
            except s.UnsupportedCompressionType:
                ok = False
            except s.CodecException:
                ok = code in (10, 11)  # no differences in these bytes
                ctx.check(ok, f"decompress of {code} with enough bytes refused")
            ctx.check(ok or not can, f"encoding {code} not decompressed")
            ctx.check(not ok or can or code == 32, f"encoding {code} decompressed", code)
    try:
        seg = s.encode(np.array([1, 2, 3], dtype="i2"), code, True)
        ctx.check(code in (1, 3, 4, 5), f"encoded as {code}", seg.dataBytes)
        ctx.eq(bytes(seg.dataBytes), ref.prim_encode(code, [1, 2, 3], True), "bytes")
    except s.UnsupportedCompressionType:
        ctx.check(code not in (1, 3, 4, 5), f"encode as {code} refused")
    ctx.count("encodings tried")
    ctx.seen("code", code)


def convert(rng, ctx):
    """samples of another type than the encoding: by value, or refused"""
    import simplemseed as s
    encoding = rng.choice([1, 3, 4, 5])
    n = rng.randint(1, 60)
    top = {1: 2**15 - 1, 3: 2**31 - 1, 4: 2**24, 5: 2**31 - 1}[encoding]
    have = rng.choice(["i1", "u1", "<i2", ">i2", "<u2", "<i4", ">i4", "<u4", "<i8", ">i8", "<f4", ">f4", "<f8", ">f8", "f2"])
    if have[-2] == "f":
        top = min(top, {"2": 2**11, "4": 2**24, "8": 2**31 - 1}[have[-1]])
        low = -top
    else:
        top, low = min(top, int(np.iinfo(have).max)), max(-top, int(np.iinfo(have).min))
    whole = encoding in (1, 3) or have[-2] != "f"
    vals = [rng.choice([rng.randint(low, top), rng.randint(max(low, -100), min(top, 100)), low, top]) for _ in range(n)]
    if not whole:
        vals = [v if abs(v) > 1000 else v / 4 for v in vals]
    data = np.array(vals, dtype=have)
    little = rng.random() < 0.5
    try:
        seg = s.encode(data, encoding, little)
    except Exception:  # pylint: disable=broad-except
        ctx.count("other type refused")
    else:
        ctx.eq(bytes(seg.dataBytes), ref.prim_encode(encoding, vals, little), f"{have} as encoding {encoding}, bytes")
        judge_array(ctx, encoding, seg.decode(), vals, f"{have} as encoding {encoding}")
        ctx.count("other type converted by value")
    if rng.random() < 0.1:
        # bytes are a payload, not samples
        held = rng.choice([bytes, bytearray])(data.tobytes())
        try:
            seg = s.encode(held, encoding, little)
        except Exception:  # pylint: disable=broad-except
            ctx.count("bytes refused")
        else:
            ctx.check(False, f"bytes taken as samples of encoding {encoding}", held, seg)
    ctx.seen("convert", encoding, have, little, tuple(vals))


ACCESSORS = (("steimframeblock", "getInt16", "h"), ("steimframeblock", "getInt32", "i"), ("steimframeblock", "getUint32", "I"),
             ("steimframeblock", "getFloat32", "f"), ("seedcodec", "getFloat64", "d"))


def accessors(rng, ctx):
    """a single value out of a payload, at any offset"""
    data = rng.randbytes(rng.randint(8, 60))
    for module, name, code in ACCESSORS:
        fn = getattr(importlib.import_module("simplemseed." + module), name, None)
        if fn is None:
            continue
        little = rng.random() < 0.5
        at = rng.randint(0, len(data) - struct.calcsize(code))
        want, = struct.unpack_from(("<" if little else ">") + code, data, at)
        got = fn(rng.choice([bytes, bytearray])(data), at, little)
        ctx.check(got == want or got != got and want != want, f"{name}() at {at} little {little}", got, want)
        ctx.count("single values")
    ctx.seen(data)


# encoding codes of the SEED manual and the miniSEED 3 specification, by the names the codec gives them
NAMES = {"ASCII": 0, "SHORT": 1, "INT24": 2, "INTEGER": 3, "FLOAT": 4, "DOUBLE": 5, "STEIM1": 10, "STEIM2": 11,
         "CDSN": 16, "STEIM3": 19, "SRO": 30, "DWWSSN": 32}


def names(rng, ctx):
    """the names of the encodings stand for the codes of the specification"""
    seedcodec = importlib.import_module("simplemseed.seedcodec")
    for name, code in NAMES.items():
        got = getattr(seedcodec, name, code)
        ctx.check(got == code, f"seedcodec.{name}", got, code)
        ctx.count("named encodings")


KINDS = [
    Kind("huge", huge, 24, 800, need=("long segments",)),
    Kind("convert", convert, 6000, 300000, need=("bytes refused",)),
    Kind("roundtrip", roundtrip, 40000, 2500000, need=("values compared", "short data refused")),
    Kind("anybytes", crossorder, 20000, 1000000),
    Kind("accessors", accessors, 1000, 50000),
    Kind("names", names, 1, 1),
    Kind("unsupported", unsupported, 256, 256, exhaustive=True),
]
