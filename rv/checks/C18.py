"""Conversion from miniSEED 2 to 3 preserves the record"""
import io

import numpy as np

from ..core import Kind
from .. import gen, ms2gen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed2to3.py", "miniseed.py", "mseed3.py"]
RULE = "a case is one distinct miniSEED 2 record by the independent writer or the library, converted, packed and parsed independently"


def snapshot(rec):
    h = {k: v for k, v in vars(rec.header).items()}
    raw = rec.encodedDataBytes
    return repr((h, [tuple(b) for b in rec.blockettes], None if raw is None else bytes(raw)))


def judge(ctx, ms3, rec, p, samples, what):
    data = bytes(ms3.pack())
    try:
        r = ref.ms3_parse(data)
    except (ref.RefError, ValueError) as e:
        ctx.check(False, f"{what}: packed miniSEED 3 is not valid: {e}")
    ctx.check(r["crcok"] and r["size"] == len(data), f"{what}: crc or size")
    ctx.eq(r["identifier"], ms2gen.sid(p), f"{what}: identifier")
    ctx.eq(str(ms3.identifier), str(rec.identifier), f"{what}: identifier of both records")
    flags = (p["actFlag"] & 1) | (2 if p["qualFlag"] & 0x80 else 0) | (4 if p["ioFlag"] & 0x20 else 0)
    ctx.eq(r["flags"], flags, f"{what}: flags of activity {p['actFlag']} clock {p['ioFlag']} quality {p['qualFlag']}")
    micro = sum(b["micro"] for b in p["blockettes"] if b["num"] == 1001)
    if p["second"] == 60:
        want = (p["year"], p["yday"], p["hour"], p["minute"], 60, (p["tenthMilli"] * 100 + micro) * 1000)
        ctx.count("leap seconds")
    else:
        y, d, h, mi, s, us = ref.fields_of(p["btime"] + micro)
        want = (y, d, h, mi, s, us * 1000)
    ctx.eq(tuple(r[k] for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")), want, f"{what}: start time")
    ctx.eq(ms3.starttime, rec.starttime(), f"{what}: start time of both records")
    ctx.eq(r["numSamples"], p["numSamples"], f"{what}: number of samples")
    ctx.eq(r["publicationVersion"], 0, f"{what}: publication version, which miniSEED 2 does not have")
    rp = r["sampleRatePeriod"]
    rate = rp if rp >= 0 else -1 / rp
    if p["rate"]:
        ctx.check(ms2gen.near(rate, p["rate"]), f"{what}: rate", rp, p["rate"])
        ctx.check(ms2gen.near(ms3.header.sampleRate, rec.header.sampleRate), f"{what}: rate of both records")
    else:
        ctx.eq(rp, 0, f"{what}: rate")
        ctx.count("without rate")
    fdsn = r["eh"].get("FDSN", {})
    ctx.eq(fdsn.get("DataQuality", "D"), p["quality"], f"{what}: data quality")
    tq = [b["quality"] for b in p["blockettes"] if b["num"] == 1001]
    ctx.eq(fdsn.get("Time", {}).get("Quality", 0), tq[0] if tq else 0, f"{what}: time quality")
    if p["second"] == 60:
        ctx.eq(fdsn.get("Time", {}).get("LeapSecond"), 1, f"{what}: leap second header")
    else:
        ctx.check("LeapSecond" not in fdsn.get("Time", {}), f"{what}: leap second header without one")
    if tq:
        ctx.count("time quality")
    if p["numSamples"]:
        e = {32: 1}.get(p["encoding"], p["encoding"])
        ctx.check(r["encoding"] == e or e in (10, 11) and r["encoding"] == 3, f"{what}: encoding", r["encoding"], p["encoding"])
        want = ms2gen.bits(p["encoding"], samples)
        ctx.check(ms3gen.samples_bits(r["encoding"], ref.ms3_samples(r)) == want, f"{what}: samples in bytes")
        ctx.check(ms3gen.samples_bits(r["encoding"], gen.tolist(ms3.decompress())) == want, f"{what}: samples")
    return data


def one(rng, ctx, rec, p, samples):
    import simplemseed as s
    dec = rng.random() < 0.3
    if dec:
        rec.decompress()
    before = snapshot(rec)
    ms3 = s.mseed2to3(rec)
    ctx.eq(snapshot(rec), before, "original record")
    data = judge(ctx, ms3, rec, p, samples, "converted")
    ctx.eq(snapshot(rec), before, "original record after the new one was packed")
    back = s.unpackMSeed3Record(data)
    judge(ctx, back, rec, p, samples, "converted, packed and unpacked")
    again = s.mseed2to3(rec)
    ctx.eq(bytes(again.pack()), data, "converted again")
    if rng.random() < 0.3:
        rec.decompress()
        judge(ctx, s.mseed2to3(rec), rec, p, samples, "converted after decompression")
        ctx.count("converted after decompression")
    # changes of the new record do not reach the original
    ms3.header.year, ms3.header.flags = 1, 99
    ms3.identifier = "spoilt"
    if not dec:
        ctx.eq(bytes(rec.pack())[8:20], (p["sta"].ljust(5) + p["loc"].ljust(2) + p["chan"].ljust(3) + p["net"].ljust(2)).encode(), "original packed")


def theirs(rng, ctx):
    import simplemseed as s
    r = ms2gen.model(rng)
    for b in r["blockettes"]:
        if b["num"] == 1001:
            b["micro"] = min(b["micro"], 99)
    if r["payload"] is None and r["factor"] == 0 and rng.random() < 0.5:
        r["factor"], r["mult"] = 20, 1
    if rng.random() < 0.1 and r["year"] not in (2054, 2303):
        r.update(hour=23, minute=59, second=60, yday=rng.choice([366 if ref.leap(r["year"]) else 365, 181]))
    data = ms2gen.build(r)
    rec = s.unpackMiniseedRecord(data)
    one(rng, ctx, rec, r["parsed"], r["samples"])
    ctx.count(f"{r['order']} headers, {'little' if r['little'] else 'big'} data")
    ctx.count(f"encoding {r['encoding']}")
    ctx.count("rate below one" if r["parsed"]["rate"] < 1 else "rate one and above")
    ctx.seen(data)
    ctx.sample(ms2gen.describe(r))


def stream(rng, ctx):
    """a file converted record by record"""
    import simplemseed as s
    recs = [ms2gen.model(rng) for _ in range(rng.choice([2, 3, 5]))]
    for r in recs:
        for b in r["blockettes"]:
            if b["num"] == 1001:
                b["micro"] = min(b["micro"], 99)
    data = b"".join(ms2gen.build(r) for r in recs)
    n = 0
    out = []
    for rec, r in zip(s.readMiniseed2Records(io.BytesIO(data)), recs):
        ms3 = s.mseed2to3(rec)
        out.append((ms3, rec, r))
        n += 1
    for ms3, rec, r in out:  # all of them only afterwards
        judge(ctx, ms3, rec, r["parsed"], r["samples"], "converted in a stream")
    ctx.eq(n, len(recs), "records converted")
    ctx.count("streams")
    ctx.seen(data)


def flags(rng, ctx):
    """all values of one flag byte with the two others at corners"""
    import simplemseed as s
    which, others = ["actFlag", "ioFlag", "qualFlag"][rng.index % 3], [0, 255, 0x55, 0xAA][rng.index // 3]
    for v in range(256):
        r = dict(order="big", seq=b"000001", quality="D", sta="A", loc="", chan="BHZ", net="XX", year=2024, yday=60, hour=1, minute=2, second=3,
                 tenthMilli=4, numSamples=3, factor=20, mult=1, actFlag=others, ioFlag=others, qualFlag=others, timeCorr=0,
                 blockettes=[dict(num=1000), dict(num=1001, quality=v, micro=0, frames=0)], encoding=3, little=False, exp=7, samples=[7, -8, 9])
        r[which] = v
        r["payload"] = ref.prim_encode(3, r["samples"], False)
        rec = s.unpackMiniseedRecord(ms2gen.build(r))
        judge(ctx, s.mseed2to3(rec), rec, r["parsed"], r["samples"], f"{which} {v}")
        ctx.count("flag values")
    ctx.seen("flags", rng.index)


def ours(rng, ctx):
    """record made by the library: packed, so it has its blockette 1000"""
    import simplemseed as s
    enc = rng.choice([1, 3, 4, 5, 10, 11])
    vals = ms2gen.samples_fit(rng, enc, 300)
    rate = rng.choice([20.0, 0.1, 1.0, 100, 1 / 60, 33.3])
    order = rng.randrange(2)
    h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", "2024-02-29T23:59:59.123456Z", 0, rate, encoding=enc, byteorder=order,
                         actFlag=rng.randrange(256), ioFlag=rng.randrange(256), qualFlag=rng.randrange(256), dataquality=rng.choice("DRQM"))
    if enc in (10, 11):
        vals = vals[:20]
        f = s.encodeSteim1 if enc == 10 else s.encodeSteim2
        data = s.EncodedDataSegment(enc, f(np.array(vals, dtype="i4")), len(vals), False)
    else:
        data = gen.np_typed(rng, enc, vals)[1]
    rec = s.MiniseedRecord(h, data)
    if rng.random() < 0.5:
        rec.blockettes.append(rec.createB100())
    if rng.random() < 0.5:
        rec.blockettes.append(rec.createB1001()._replace(timeQuality=rng.randrange(256)))
    p = ref.ms2_parse(bytes(rec.pack()))
    src = rec if rng.random() < 0.5 else rec.clone()
    ms3 = s.mseed2to3(src)
    # not packed yet record still has its exact rate and start
    h3 = ms3.header
    ctx.check(abs(h3.sampleRate / rate - 1) < 1e-4, "rate", h3.sampleRate, rate)
    ctx.eq(ms3.starttime, src.starttime(), "start time")
    ctx.eq(ms3gen.samples_bits(h3.encoding, gen.tolist(ms3.decompress())), gen.bits({10: 3, 11: 3}.get(enc, enc), vals), "samples")
    if src is not rec:
        judge(ctx, ms3, src, p, vals, "clone converted")
    ms3b = s.unpackMSeed3Record(bytes(ms3.pack()))
    ctx.eq(ms3gen.samples_bits(ms3b.header.encoding, gen.tolist(ms3b.decompress())), gen.bits({10: 3, 11: 3}.get(enc, enc), vals), "samples packed")
    ctx.count("library records")
    ctx.seen(enc, rate, order, tuple(gen.bits({10: 3, 11: 3}.get(enc, enc), vals)))


def opaque(rng, ctx):
    """encodings that neither library nor oracle can decompress: the payload goes over as it is"""
    import simplemseed as s
    enc = rng.choice([0, 2, 12, 13, 14, 15, 16, 17, 18, 19, 20, 30, 31, 33, 100, 255])
    size = 1 << rng.choice([7, 8, 9, 12])
    n = rng.choice([0, 1, 5, 100, 65535])
    r = dict(order=rng.choice(["big", "little"]), seq=b"000001", quality=rng.choice("DRQM"), sta="A", loc="", chan="LOG", net="XX", year=2024, yday=60,
             hour=1, minute=2, second=3, tenthMilli=4, numSamples=n, factor=20, mult=1, actFlag=0, ioFlag=0, qualFlag=0,
             timeCorr=0, blockettes=[dict(num=1000)], encoding=enc, little=rng.random() < 0.5, exp=size.bit_length() - 1, samples=None)
    r["payload"] = rng.randbytes(size - 64)
    data = ms2gen.build(r)
    payload = ref.ms2_parse(data)["payload"]
    ctx.eq(payload[:size - 64], r["payload"], "own parsing")
    rec = s.unpackMiniseedRecord(data)
    what = f"encoding {enc} of {n} samples"
    for src in (rec, rec, rec.clone()):
        ms3 = s.mseed2to3(src)
        got = ref.ms3_parse(bytes(ms3.pack()))
        ctx.eq(got["encoding"], enc, f"{what}: encoding")
        ctx.eq(got["numSamples"], n, f"{what}: number of samples")
        ctx.check(got["payload"].startswith(payload) and not any(got["payload"][len(payload):]), f"{what}: payload", len(got["payload"]), len(payload))
        ctx.eq(got["identifier"], "FDSN:XX_A__L_O_G", f"{what}: identifier")
        ctx.check(got["crcok"], f"{what}: crc")
    ctx.count("opaque payloads")
    ctx.seen("opaque", enc, n, r["payload"])


KINDS = [
    Kind("opaque", opaque, 1000, 40000, need=("opaque payloads",)),
    Kind("theirs", theirs, 6000, 300000, need=("leap seconds", "time quality", "converted after decompression", "rate below one", "without rate")),
    Kind("stream", stream, 800, 40000, need=("streams",)),
    Kind("flags", flags, 12, 12, need=("flag values",), exhaustive=True),
    Kind("ours", ours, 3000, 100000, need=("library records",)),
]
