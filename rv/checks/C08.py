"""miniSEED 3 bytes follow the FDSN specification"""
import io

from ..core import Kind
from .. import gen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py"]
RULE = "a case is one record with distinct content, written by one side and parsed by the other"


def ours(rng, ctx):
    """library writes, independent parser reads"""
    m = ms3gen.model(rng)
    label, rec = ms3gen.build(rng, m)
    packed = rec.pack()
    r = ms3gen.judge_bytes(ctx, bytes(packed), m)
    ctx.check(packed[0:3] == b"MS\x03", "record indicator and version", bytes(packed[:4]))
    if m["encoding"] in (10, 11):
        ctx.check(r["dl"] % 64 == 0, "steim payload is not whole frames")
    elif m["samples"] is not None:
        ctx.eq(r["dl"], m["numSamples"] * {1: 2, 3: 4, 4: 4, 5: 8}[m["encoding"]], "payload length")
    ctx.count("records parsed independently")
    ctx.count(f"written encoding {m['encoding']}")
    ctx.seen("ours", bytes(packed))
    ctx.sample(f"library wrote {len(packed)} bytes, {label}: {ms3gen.describe(m)}")


def theirs(rng, ctx):
    """independent writer, library reads"""
    import simplemseed as s
    m = ms3gen.model(rng)
    data = ms3gen.to_ref(rng, m)
    for name, rec in (("unpack", s.unpackMSeed3Record(rng.choice([bytes, bytearray])(data))),
                      ("read", next(s.readMSeed3Records(io.BytesIO(data))))):
        ms3gen.judge_record(ctx, rec, m, name)
        ctx.eq(rec.header.crc, ref.ms3_parse(data)["crc"], f"{name}: crc")
        ctx.eq(rec.header.recordSize(), len(data), f"{name}: size")
        ctx.eq(bytes(rec.pack()), data, f"{name}: packed as read")
        ctx.eq(rec.hasExtraHeaders(), bool(m["eh"]), f"{name}: hasExtraHeaders()")
        ms3gen.judge_eh(ctx, rec, m, name)
        ms3gen.judge_bytes(ctx, bytes(rec.pack()), m, f"{name}: packed after reading extra headers")
        ctx.count("independent records read")
    ctx.count(f"read encoding {m['encoding']}")
    ctx.seen("theirs", data)


def layout(rng, ctx):
    """every byte of the fixed header, alone, means what the specification says"""
    import simplemseed as s
    off = 3 + rng.index % 31
    if off in range(28, 32) or off == 33:
        return
    for v in (1, 2, 0x7F, 0x80, 0xFF):
        m = dict(identifier="X", year=0, dayOfYear=0, hour=0, minute=0, second=0, nanosecond=0, sampleRatePeriod=0.0, flags=0,
                 publicationVersion=0, encoding=0, eh={}, samples=None, numSamples=0, payload=b"")
        data = bytearray(ref.ms3_build(dict(m, ehbytes=b"")))
        data[off] = v
        data[28:32] = bytes(4)
        data[28:32] = ref.crc32c(bytes(data)).to_bytes(4, "little")
        want = ref.ms3_parse(bytes(data))
        h = s.unpackMSeed3Record(bytes(data)).header
        for k in ms3gen.HEADER:
            ctx.check(getattr(h, k) == want[k] or want[k] != want[k], f"byte {off} of {v}: {k}", getattr(h, k), want[k])
        ctx.eq(bytes(h.pack()), bytes(data[:40]), f"byte {off} of {v}: header packed")
        ctx.count("header bytes tried")
    ctx.seen("layout", off)


def checksum(rng, ctx):
    """CRC-32C itself: of the empty string, a test vector, and any bytes in any split, through records"""
    import simplemseed as s
    ctx.eq(ref.crc32c(b"123456789"), 0xE3069283, "test vector")
    m = ms3gen.model(rng, opaque=1)
    data = bytearray(ms3gen.to_ref(rng, m))
    rec = s.unpackMSeed3Record(data)
    ctx.eq(rec.header.crc, int.from_bytes(data[28:32], "little"), "crc read")
    ctx.eq(rec.header.crcAsHex(), "0x" + format(rec.header.crc, "08X"), "crcAsHex")
    ctx.eq(s.crcAsHex(rec.header.crc), rec.header.crcAsHex(), "crcAsHex of a number")
    rec.header.crc = rng.getrandbits(32)  # stale value must not matter
    ctx.eq(bytes(rec.pack()), bytes(data), "packed with a stale crc in the header")
    ctx.count("checksums compared")
    ctx.seen("crc", bytes(data))


KINDS = [
    Kind("ours", ours, 10000, 400000, need=("records parsed independently",)),
    Kind("theirs", theirs, 10000, 400000, need=("independent records read",)),
    Kind("layout", layout, 31, 31, exhaustive=True),
    Kind("checksum", checksum, 1000, 50000),
]
