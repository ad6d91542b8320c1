"""miniSEED 3 records survive pack and unpack unchanged"""
import io

from ..core import Kind
from .. import gen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py", "seedcodec.py"]
RULE = "a case is one record with distinct content, packed, unpacked by each way there is, and packed again"


def case(rng, ctx):
    import simplemseed as s
    m = ms3gen.model(rng)
    label, rec = ms3gen.build(rng, m)
    packed = bytes(rec.pack())
    # lengths and size agree with the bytes
    h = rec.header
    ctx.eq(h.recordSize(), len(packed), "header.recordSize() after pack")
    if h.dataLength or h.identifierLength:
        ctx.eq(rec.getSize(), len(packed), "getSize() after pack")
    r = ref.ms3_parse(packed)
    ctx.eq((h.identifierLength, h.extraHeadersLength, h.dataLength), (r["idl"], r["ehl"], r["dl"]), "lengths in header after pack")
    ctx.eq(h.crc, r["crc"], "crc in header after pack")
    ms3gen.judge_record(ctx, rec, m, "packed record object")
    ctx.eq(bytes(rec.pack()), packed, "packing again")
    buf = rng.choice([bytes, bytearray])(packed + rng.choice([b"", b"", b"\0", b"MS\x03", packed]))
    back = s.unpackMSeed3Record(buf)
    ways = [("unpackMSeed3Record", back), ("read", list(s.readMSeed3Records(io.BytesIO(packed)))[0]), ("clone", rec.clone()),
            ("no crc", s.unpackMSeed3Record(packed, check_crc=False))]
    for name, b in ways:
        ms3gen.judge_record(ctx, b, m, name)
        ctx.eq(b.header.crc, r["crc"], f"{name}: crc")
        ctx.eq(bytes(b.pack()), packed, f"{name}: packing again")
        if m["samples"] is not None:
            d = b.decompressedRecord()
            e = {10: 3, 11: 3}.get(m["encoding"], m["encoding"])
            ms3gen.judge_record(ctx, d, dict(m, encoding=e), f"{name}: decompressedRecord")
            ms3gen.judge_bytes(ctx, bytes(d.pack()), dict(m, encoding=e), f"{name}: packed decompressedRecord")
            ctx.eq(bytes(b.pack()), packed, f"{name}: packing again after decompressedRecord")
        ms3gen.judge_eh(ctx, b, m, name)
        ms3gen.judge_bytes(ctx, bytes(b.pack()), m, f"{name} after extra headers were read")
        ctx.count("round trips")
    fh = s.mseed3.unpackMSeed3FixedHeader(packed[:40])
    ctx.eq(bytes(fh.pack()), packed[:40], "fixed header packed again")
    ctx.eq(fh.recordSize(), len(packed), "fixed header recordSize()")
    ctx.eq(bytes(fh.clone().pack()), packed[:40], "fixed header clone packed")
    if m["identifier"].startswith("FDSN:") and m["identifier"].count("_") == 5:
        ctx.eq(str(back.parseIdentifier()), m["identifier"], "parseIdentifier()")
    ctx.count("from " + label.split()[0].split("/")[0])
    ctx.count(f"encoding {m['encoding']}")
    ctx.seen(label, ms3gen.key(m))
    ctx.sample(f"{label}: {ms3gen.describe(m)}")


def edges(rng, ctx):
    """one field at a limit of its range, all others plain"""
    import simplemseed as s
    field, values = EDGES[rng.index % len(EDGES)]
    for v in values:
        m = dict(identifier="FDSN:XX_A__H_H_Z", year=2024, dayOfYear=60, hour=1, minute=2, second=3, nanosecond=4, sampleRatePeriod=20.0,
                 flags=0, publicationVersion=1, encoding=3, eh={}, samples=[1, -2, 3], numSamples=3, payload=None)
        m[field] = v
        if field == "samples":
            m["numSamples"] = len(v)
        _label, rec = ms3gen.build(rng, m)
        packed = bytes(rec.pack())
        ms3gen.judge_bytes(ctx, packed, m)
        ms3gen.judge_record(ctx, s.unpackMSeed3Record(packed), m)
        ctx.count("limits tried")
        ctx.seen("edge", field, repr(v)[:100])


EDGES = [
    ("year", [1, 1799, 1900, 1970, 2000, 2100, 9998]),
    ("dayOfYear", list(range(1, 367))),
    ("hour", list(range(24))), ("minute", list(range(60))), ("second", list(range(61))),
    ("nanosecond", [0, 1, 999, 1000, 999999999, 2**29]),
    ("sampleRatePeriod", [0.0, 1e-300, 1e300, -1e-300, -1e300, 0.1, 1 / 3, 5e-324, -1.0, 1.0]),
    ("flags", list(range(256))), ("publicationVersion", list(range(256))),
    ("identifier", ["", "x", "x" * 255, "é" * 127, "FDSN:" + "A" * 250]),
    ("samples", [[1], [2**31 - 1, -2**31], [0] * 70000]),
    ("eh", [{"a": "x" * 60000}, {"": ""}, {"a": {"b": {"c": [[[]]]}}}, {"é": "日本"}, {"a": 1.5e300}]),
]


def oversize(rng, ctx):
    """identifier or extra headers longer than their length fields can say must not be packed as something else"""
    import simplemseed as s
    h = s.MSeed3Header()
    h.starttime = "2024-01-01T00:00:00Z"
    which = rng.choice(["id", "eh", "flags", "pub"])
    ident, eh = "FDSN:XX_A__H_H_Z", None
    if which == "id":
        ident = rng.choice(["x" * 256, "é" * 128, "x" * 511, "x" * rng.randint(256, 2000)])
    elif which == "eh":
        n = rng.choice([65536, 65537, 70000, 131072])
        eh = rng.choice([{"a": "x" * n}, '{"a":"' + "x" * n + '"}', '{"a":"' + "é" * (n // 2) + '"}'])
    elif which == "flags":
        h.flags = rng.choice([256, -1, 1000])
    else:
        h.publicationVersion = rng.choice([256, -1, 300])
    try:
        packed = s.MSeed3Record(h, ident, [1, 2, 3] if which == "x" else gen.np_typed(rng, 3, [1, 2, 3])[1], eh).pack()
    except Exception:  # pylint: disable=broad-except
        ctx.count("oversize refused")
    else:
        ctx.check(False, f"packed although {which} does not fit", len(packed), bytes(packed[:40]))
    ctx.seen("oversize", which, str(ident), str(eh), h.flags, h.publicationVersion)


class Odd:
    pass


def not_json(rng, ctx):
    """extra headers that JSON has no way to say must not be packed without them"""
    import datetime
    import numpy as np
    import simplemseed as s
    what, bad, key = rng.choice([
        ("tuple key", 5, (1, 2)), ("bytes key", "x", b"k"), ("object key", 1, Odd), ("set", {1, 2}, "k"), ("bytes", b"abc", "k"),
        ("date", datetime.datetime(2024, 1, 1), "k"), ("object", Odd(), "k"), ("complex", 1j, "k"), ("array", np.arange(3), "k"),
        ("numpy integer", np.int32(5), "k"), ("source id", s.FDSNSourceId.createUnknown(), "k")])
    eh = gen.jobject(rng, 2)
    at = eh
    for _ in range(rng.choice([0, 1, 2])):
        at = at.setdefault("deeper", {})
    at[key] = bad
    if rng.random() < 0.5:
        at["after"] = 1
    m = ms3gen.model(rng, n=3)
    rec = ms3gen.build(rng, m)[1]
    try:
        if rng.random() < 0.5:
            rec = s.MSeed3Record(rec.header, rec.identifier, gen.np_typed(rng, 3, [1, 2, 3])[1], eh)
            rec.header.encoding = 3
        else:
            rec.eh = eh
        packed = bytes(rec.pack())
    except Exception:  # pylint: disable=broad-except
        ctx.count("not JSON refused")
    else:
        ctx.check(False, f"packed although extra headers have a {what}", ref.ms3_parse(packed)["ehbytes"], str(eh))
    ctx.seen("not json", what, str(eh))


KINDS = [
    Kind("random", case, 4000, 200000, need=("round trips",)),
    Kind("edges", edges, len(EDGES), len(EDGES), exhaustive=True),
    Kind("not json", not_json, 1000, 20000, need=("not JSON refused",)),
    Kind("oversize", oversize, 600, 5000, need=("oversize refused",)),
]
