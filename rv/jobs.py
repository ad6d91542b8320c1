"""Pieces of work on the library, each a function of a random generator only, with a comparable result; and snapshots of inputs."""
import array
import io
import json

import numpy as np

from . import gen, mergegen, ms2gen, ms3gen, ref, sidgen


def plain(x):
    """comparable form of a result, or of an input to be left alone"""
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return ("float", repr(x))
    if isinstance(x, np.ndarray):
        return ("ndarray", x.dtype.str, x.shape, x.tobytes(), bool(x.flags.writeable))
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, x.tobytes())
    if isinstance(x, (bytes, bytearray, memoryview)):
        return (type(x).__name__, bytes(x))
    if isinstance(x, array.array):
        return ("array", x.typecode, x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(k, plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, plain(v)) for k, v in public(x)])
    return repr(x)


def public(x):
    """attributes a user may look at; something cached inside is not a change"""
    return sorted((k, v) for k, v in vars(x).items() if not k.startswith("_"))


def jsonish(eh):
    if isinstance(eh, str):
        return json.loads(eh) if eh.strip() else {}
    return eh


def record3(rec, packed=False):
    """state of a record as its user sees it; packed: without what packing sets"""
    h = dict(public(rec.header))
    if packed:
        for k in ("crc", "identifierLength", "extraHeadersLength", "dataLength"):
            h.pop(k, None)
    data = rec._data if hasattr(rec, "_data") else guarded(lambda: bytes(rec.encodedDataBytes()))
    return plain((h, str(rec.identifier), jsonish(rec._eh if hasattr(rec, "_eh") else rec.eh) or {}, data))


def record2(rec, packed=False):
    h = dict(public(rec.header))
    bl = [b for b in rec.blockettes if not packed or b.blocketteNum != 1000]
    raw = rec.encodedDataBytes
    if raw is None and getattr(rec, "_data", None) is not None:
        raw = np.array(rec._data)
    return plain((h, [tuple(b) for b in bl], raw))


def guarded(fn):
    try:
        return fn()
    except Exception as e:  # pylint: disable=broad-except
        return ("raises", type(e).__name__, str(e))


def steim(rng):
    import simplemseed as s
    v = rng.choice([1, 2])
    enc, dec, blk = [(s.encodeSteim1, s.decodeSteim1, s.encodeSteim1FrameBlock), (s.encodeSteim2, s.decodeSteim2, s.encodeSteim2FrameBlock)][v - 1]
    vals = gen.ints(rng, rng.choice([1, 3, 20, 100, 200]), 32 if v == 1 else rng.choice([29, 32]))
    data = gen.container(rng, vals)[1]
    bias = rng.choice([0, 0, 5, -1000])

    def work():
        out = bytes(enc(data, 0, bias))
        return out, dec(out, len(vals), bias)

    def block():
        b = blk(data, rng.choice([1, 2, 7]), bias)
        return bytes(b.pack()), b.getNumSamples(), b.getNumFrames()
    return guarded(work), guarded(block)


def primitive(rng):
    import simplemseed as s
    e = rng.choice([1, 3, 4, 5])
    vals = gen.typed(rng, e, rng.choice([1, 5, 50]))
    a = gen.np_typed(rng, e, vals)[1]
    little = rng.random() < 0.5
    seg = s.encode(a, e, little)
    return bytes(seg.dataBytes), s.decompress(e, seg.dataBytes, len(vals), little), seg.decode(), s.encodingName(e)


def ms3(rng):
    import simplemseed as s
    m = ms3gen.model(rng, n=rng.choice([1, 5, 40]))
    m["year"] = min(max(m["year"], 10), 9000)
    rec = ms3gen.build(rng, m)[1]
    out = [bytes(rec.pack()), rec.summary() if abs(m["sampleRatePeriod"]) > 1e-3 else "", rec.starttime.isoformat()]
    out.append(guarded(lambda: rec.details(True, True)))
    back = s.unpackMSeed3Record(out[0])
    out += [back.eh, guarded(back.decompress), bytes(back.clone().pack()), back.hasExtraHeaders()]
    back.eh = gen.jobject(rng, 2)
    out += [bytes(back.pack()), guarded(lambda: back.decompressedRecord().pack())]
    return out


def ms3new(rng):
    """with all defaults"""
    import simplemseed as s
    h = s.MSeed3Header()
    rec = s.MSeed3Record(h, gen.fdsn_id(rng), gen.np_typed(rng, 3, gen.ints(rng, 5))[1])
    first = bytes(rec.pack())
    rec.eh = {"a": {"b": rng.randrange(5)}}
    rec.header.starttime = f"20{rng.randint(10, 99)}-01-02T03:04:05Z"
    h2 = s.MSeed3Header()
    return first, bytes(rec.pack()), vars(h2), vars(rec.header.clone())


def stream3(rng):
    """(bytes, options for the reader)"""
    recs = mergegen.stream(rng, rng.choice([2, 3, 6]))
    data = b"".join(ms3gen.to_ref(rng, m) for m, _j in recs)
    if rng.random() < 0.1:
        at = rng.randrange(len(data))
        data = data[:at] + bytes([data[at] ^ 1]) + data[at + 1:]
    return data, dict(merge=rng.random() < 0.6, check_crc=rng.random() < 0.8, matchsid=rng.choice([None, None, "BIRD", "JSC", "_Z$"]))


def view3(rec):
    out = [rec.header.__dict__.copy(), str(rec.identifier), guarded(lambda: rec.eh), guarded(rec.decompress), guarded(rec.summary)]
    return plain(out + [guarded(lambda: bytes(rec.pack()))])


def view2(rec):
    h = rec.header
    out = [vars(h).copy(), [tuple(b) for b in rec.blockettes], str(rec.identifier), guarded(rec.decompress), guarded(rec.starttime)]
    return plain(out + [guarded(lambda: bytes(rec.pack()))])


def read3(rng):
    import simplemseed as s
    data, opts = stream3(rng)
    return guarded(lambda: [view3(r) for r in s.readMSeed3Records(io.BytesIO(data), **opts)])


def stream2(rng):
    recs = [ms2gen.model(rng, exps=(7, 8, 8, 9)) for _ in range(rng.choice([1, 2, 4]))]
    data = b"".join(ms2gen.build(r) for r in recs)
    return data, dict(matchsid=rng.choice([None, None, "BIRD", "^FDSN:CO", "_H_"]))


def read2(rng):
    import simplemseed as s
    data, opts = stream2(rng)
    return guarded(lambda: [view2(r) for r in s.readMiniseed2Records(io.BytesIO(data), **opts)])


def ms2new(rng):
    """made without blockettes"""
    import simplemseed as s
    vals = gen.ints(rng, rng.choice([1, 10, 50]))
    h = s.MiniseedHeader("CO", gen.code(rng, 3, 5), "00", "HHZ", f"20{rng.randint(10, 54)}-02-03T04:05:06.789Z", 0, rng.choice([20, 100, 0.1]))
    rec = s.MiniseedRecord(h, gen.np_typed(rng, 3, vals)[1])
    out = [len(rec.blockettes), bytes(rec.pack()), len(rec.blockettes), bytes(rec.pack()), bytes(rec.clone().pack()), rec.details(True)]
    return out + [s.mseed2to3(rec.clone()).summary()]


def to3(rng):
    import simplemseed as s
    rec = s.unpackMiniseedRecord(ms2gen.build(ms2gen.model(rng, exps=(8, 9))))
    ms = s.mseed2to3(rec)
    return view3(ms), view2(rec)


def merge3(rng):
    import simplemseed as s
    (a, _), (b, j) = mergegen.stream(rng, 2)
    ra, rb = (s.unpackMSeed3Record(ms3gen.to_ref(rng, m)) for m in (a, b))
    if a["samples"] is not None:
        ra = ra.decompressedRecord()
    if b["samples"] is not None:
        rb = rb.decompressedRecord()
    return [view3(r) for r in s.mseed3merge(ra, rb)]


def ids(rng):
    import simplemseed as s
    from simplemseed.fdsnsourceid import bandCodeInfo, sourceCodeInfo
    c = sidgen.codes(rng)
    text = "FDSN:" + "_".join(c[:rng.choice([1, 2, 3, 6, 6])])
    out = [guarded(lambda: str(s.FDSNSourceId.parse(text))), guarded(lambda: vars(s.FDSNSourceId.parse(text)))]
    out.append(guarded(lambda: str(s.FDSNSourceId.fromNslc("CO", "BIRD", rng.choice(["", "00"]), sidgen.word(rng, 3, 3, ref.UP)))))
    rate, resp = rng.choice([100, 0.1, -10, 20, 1000]), rng.choice([None, 0.1, -100, 10])
    out += [s.bandCodeForRate(rate, resp), str(s.FDSNSourceId.createUnknown(rate, "H", resp)), str(s.FDSNSourceId.createUnknown())]
    b = rng.choice("HBLEVU")
    out += [s.bandCodeDescribe(b), bandCodeInfo(b), s.sourceCodeDescribe("H"), sourceCodeInfo(rng.choice("HNLP"))]
    return out


def broken(rng):
    """bytes that end early or are spoilt"""
    import simplemseed as s
    k = rng.randrange(4)
    if k == 0:
        data = bytearray(ms3gen.to_ref(rng, ms3gen.model(rng, n=10)))
        f = lambda d: s.unpackMSeed3Record(d).decompress()
    elif k == 1:
        data = bytearray(ms2gen.build(ms2gen.model(rng, exps=(8,))))
        f = lambda d: s.unpackMiniseedRecord(d).decompress()
    elif k == 2:
        data = bytearray(ref.steim_encode(1, gen.ints(rng, 50), rng))
        f = lambda d: s.decodeSteim1(d, 50)
    else:
        data = bytearray(ref.steim_encode(2, gen.ints(rng, 50, 29, -2**28, 2**28), rng))
        f = lambda d: s.decodeSteim2(d, 50)
    if rng.random() < 0.5:
        data = data[:rng.randrange(len(data))]
    else:
        # not the exponent of the record length of miniSEED 2, of which the excess is memory
        at = rng.randrange(min(48, len(data))) if k == 1 else rng.randrange(len(data))
        data[at] ^= 1 << rng.randrange(8)
    return guarded(lambda: f(bytes(data)))


JOBS = [steim, primitive, ms3, ms3new, read3, read2, ms2new, to3, merge3, ids, broken]
