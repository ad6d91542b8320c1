"""Encodings, sample types and their names agree everywhere in the library"""
import array

import numpy as np

from ..core import Kind
from .. import gen, ref

LEVEL = "exploration"
FILES = ["seedcodec.py", "mseed3.py", "miniseed.py"]
RULE = "a case is one encoding code, type code or numpy type with sample values, carried through every helper and both record formats"

PRIMS = {1: ("i", 2), 3: ("i", 4), 4: ("f", 4), 5: ("f", 8)}
NAMES = {0: "text", 1: "16-bit integer", 3: "32-bit integer", 4: "32-bit float", 5: "64-bit float", 10: "steim-1", 11: "steim-2", 19: "steim-3",
         100: "opaque"}


def refusal(ctx, fn, what):
    """refused with the documented error"""
    import simplemseed as s
    try:
        got = fn()
    except s.UnsupportedCompressionType:
        ctx.count("refused")
        return
    ctx.check(False, f"{what}: not refused", got)


def judge_type(ctx, kind, size, enc, what):
    """number kind and size of a sample type are those of the encoding"""
    ctx.check(enc in PRIMS, f"{what}: encoding", enc)
    ctx.eq((kind, size), PRIMS[enc], f"{what}: type of encoding {enc}")


def codes(rng, ctx):
    """every encoding code, and what is not one"""
    import simplemseed as s
    from simplemseed import seedcodec as c
    code = rng.index - 5
    prim = code in PRIMS
    ctx.eq(bool(s.isPrimitiveCompression(code)), prim, f"isPrimitiveCompression({code})")
    ctx.eq(bool(c.isFloatCompression(code)), code in (4, 5), f"isFloatCompression({code})")
    ctx.eq(bool(s.EncodedDataSegment(code, b"", 0, True).isFloatCompression()), code in (4, 5), f"segment of {code} isFloatCompression")
    ctx.eq(bool(s.canDecompress(code)), prim or code in (10, 11), f"canDecompress({code})")
    name = s.encodingName(code)
    low = name.lower()
    if code in NAMES:
        ctx.check(NAMES[code] in low, f"encodingName({code})", name)
        ctx.check(not any(n in low for k, n in NAMES.items() if k != code), f"encodingName({code}) names another", name)
    else:
        ctx.check(str(code) in name and not any(n in low for n in NAMES.values()), f"encodingName({code})", name)
    rec = s.MSeed3Record(s.MSeed3Header(), "FDSN:XX_A__B_H_Z", None)
    rec.header.encoding = code
    ctx.eq(rec.encodingName(), name, f"encodingName of a record of {code}")
    if not prim:
        refusal(ctx, lambda: c.arrayTypecodeFromMSeed(code), f"arrayTypecodeFromMSeed({code})")
        refusal(ctx, lambda: c.numpyDTFromMseed3Encoding(code), f"numpyDTFromMseed3Encoding({code})")
        for e, (k, n) in PRIMS.items():
            a = np.array([1, 2, 3], dtype=f"{k}{n}")
            if code >= 0:  # negative is not given
                refusal(ctx, lambda: s.encode(a, code), f"encode({a.dtype}, {code})")
                refusal(ctx, lambda: s.encode(array.array({1: "h", 3: "i", 4: "f", 5: "d"}[e], [1, 2, 3]), code, False), f"encode(array, {code})")
        if code not in (10, 11, 32):
            refusal(ctx, lambda: s.decompress(code, bytes(64), 1, True), f"decompress({code})")
            refusal(ctx, lambda: s.EncodedDataSegment(code, bytes(64), 1, False).decode(), f"segment of {code} decode()")
    else:
        dt = np.dtype(c.numpyDTFromMseed3Encoding(code))
        judge_type(ctx, dt.kind, dt.itemsize, code, "numpyDTFromMseed3Encoding")
        ctx.eq(c.mseed3EncodingFromNumpyDT(dt), code, "encoding of the numpy type of an encoding")
        tc = c.arrayTypecodeFromMSeed(code)
        a = array.array(tc)
        judge_type(ctx, "f" if tc in "fd" else "i" if tc in "bhilq" else "?", a.itemsize, code, f"arrayTypecodeFromMSeed, {tc!r}")
        ctx.eq(c.mseed3EncodingFromArrayTypecode(tc, a.itemsize), code, "encoding of the type code of an encoding")
    ctx.count("codes")
    ctx.seen("code", code)


TYPES = [np.dtype(o + t) for o in "<>" for t in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "c8", "c16", "M8[s]", "m8[s]", "S1", "U1", "?")]
TYPES += [np.dtype(x) for x in ("O", "V4", "g", [("a", "<i4")], "(2,)i4", "l", "q", "L", "i", "d", "f", "h", "intc", "int_", "longlong")]
CODES = [(t, n) for t in "bBhHiIlLqQfdu" for n in sorted({array.array(t).itemsize, 2, 4, 8})]


def types(rng, ctx):
    """every numpy type, every array type as arrays have them"""
    from simplemseed import seedcodec as c
    i = rng.index
    if i < len(TYPES):
        dt = TYPES[i]
        if (dt.kind, dt.itemsize) in PRIMS.values() and not dt.subdtype:
            judge_type(ctx, dt.kind, dt.itemsize, c.mseed3EncodingFromNumpyDT(dt), f"mseed3EncodingFromNumpyDT({dt})")
        else:
            refusal(ctx, lambda: c.mseed3EncodingFromNumpyDT(dt), f"mseed3EncodingFromNumpyDT({dt})")
        ctx.count("numpy types")
    else:
        t, n = CODES[i - len(TYPES)]
        if array.array(t).itemsize != n:
            return
        kind = "f" if t in "fd" else "i" if t in "hil" else "?"
        if (kind, n) in PRIMS.values():
            judge_type(ctx, kind, n, c.mseed3EncodingFromArrayTypecode(t, n), f"mseed3EncodingFromArrayTypecode({t!r}, {n})")
        else:
            refusal(ctx, lambda: c.mseed3EncodingFromArrayTypecode(t, n), f"mseed3EncodingFromArrayTypecode({t!r}, {n})")
        ctx.count("array types")
    ctx.seen("type", i)


def carried(rng, ctx):
    """samples in the type the library names for an encoding are of this encoding through encode() and both formats"""
    import simplemseed as s
    from simplemseed import seedcodec as c
    enc = rng.choice(list(PRIMS))
    vals = gen.typed(rng, enc, rng.randint(1, 40))
    how = rng.choice(["array", "numpy", "numpy swapped"])
    if how == "array":
        data = array.array(c.arrayTypecodeFromMSeed(enc), vals)
    else:
        data = np.array(vals, dtype=c.numpyDTFromMseed3Encoding(enc))
        if how != "numpy":
            data = data.astype(data.dtype.newbyteorder())
    want = gen.bits(enc, vals)
    little = rng.random() < 0.5
    seg = s.encode(data, rng.choice([None, enc, -1]), little) if rng.random() < 0.7 else s.encode(data, littleEndian=little)
    ctx.eq((seg.compressionType, seg.numSamples, bool(seg.littleEndian), bytes(seg.dataBytes)), (enc, len(vals), little, ref.prim_encode(enc, vals, little)),
           f"encode() of {how}")
    back = seg.decode()
    ctx.eq(gen.bits(enc, gen.tolist(back)), want, f"decode() of {how}")
    ctx.eq(c.mseed3EncodingFromNumpyDT(back.dtype), enc, f"type of decoded {how}")
    h = s.MSeed3Header()
    h.sampleRatePeriod = 20
    r3 = s.MSeed3Record(h, "FDSN:XX_A__B_H_Z", data)
    ctx.eq((r3.header.encoding, r3.header.numSamples), (enc, len(vals)), f"miniSEED 3 record of {how}")
    r2 = s.MiniseedRecord(s.MiniseedHeader("XX", "A", "", "BHZ", "2024-01-01T00:00:00Z", 0, 20), data)
    ctx.eq((r2.header.encoding, r2.header.numSamples), (enc, len(vals)), f"miniSEED 2 record of {how}")
    for r in (s.unpackMSeed3Record(r3.pack()), s.unpackMiniseedRecord(r2.pack()), s.mseed2to3(s.unpackMiniseedRecord(r2.pack()))
              if callable(s.mseed2to3) else r3):
        ctx.eq(r.header.encoding, enc, f"read record of {how}")
        got = r.decompress()
        ctx.eq(gen.bits(enc, gen.tolist(got)), want, f"samples read of {how}")
        ctx.eq(c.mseed3EncodingFromNumpyDT(got.dtype), enc, f"type of samples read of {how}")
    ctx.count("carried")
    ctx.count(f"encoding {enc} {how}")
    ctx.seen(enc, how, little, tuple(map(repr, vals)))


KINDS = [
    Kind("codes", codes, 266, 266, exhaustive=True, need=("codes", "refused")),
    Kind("types", types, len(TYPES) + len(CODES), len(TYPES) + len(CODES), exhaustive=True, need=("numpy types", "array types")),
    Kind("carried", carried, 4000, 200000, need=("carried",)),
]
