"""Corrupt or truncated miniSEED 3 records are detected"""
import io
import os
import tempfile

from ..core import Kind
from .. import ms3gen, ref

LEVEL = "fault_enumeration"
FILES = ["mseed3.py"]
RULE = "a case is one record and a set of changes to its bytes; each change is a distinct fault whose outcome was judged"


def small(rng):
    m = ms3gen.model(rng, n=rng.choice([1, 3, 10]))
    if len(m["eh"]) and "big" in m["eh"]:
        m["eh"] = {"a": 1}
    if len(m["identifier"]) > 100:
        m["identifier"] = m["identifier"][:20]
    return m, ms3gen.to_ref(rng, m)


def must_fail(ctx, data, what):
    import simplemseed as s
    try:
        rec = s.unpackMSeed3Record(data)
    except Exception:  # pylint: disable=broad-except
        return
    ctx.check(False, f"{what} unpacked as a valid record", rec.header.crc, len(data))


def stream_must_stop(ctx, before, damaged, after, what):
    """records before the damage are yielded, nothing of or after it"""
    import simplemseed as s
    f = io.BytesIO(b"".join(before) + damaged + b"".join(after))
    got = 0
    try:
        for rec in s.readMSeed3Records(f):
            ctx.check(got < len(before), f"{what}: damaged record was yielded", rec.header.crc)
            ctx.eq(bytes(rec.pack()), before[got], f"{what}: record {got} before the damage")
            got += 1
    except s.Miniseed3Exception:
        pass
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ == "Violation":
            raise
    else:
        ctx.check(False, f"{what}: no error was raised", got)
    ctx.eq(got, len(before), f"{what}: records before the damage that were yielded")


def bits(rng, ctx):
    """every single bit of a record"""
    _m, data = small(rng)
    step = 1 if len(data) <= 300 else len(data) // 300 + 1
    lo = rng.randrange(step)
    for i in range(lo if step > 1 else 0, len(data), step):
        for b in range(8):
            d = bytearray(data)
            d[i] ^= 1 << b
            must_fail(ctx, d, f"bit {b} of byte {i} changed")
            ctx.count("single bit faults")
    for i in range(40):
        for b in range(8):
            d = bytearray(data)
            d[i] ^= 1 << b
            must_fail(ctx, bytes(d), f"header bit {b} of byte {i} changed")
            ctx.count("header bit faults")
    ctx.seen("bits", data)
    ctx.sample(f"record of {len(data)} bytes, every {step}th byte, all 8 bits: all refused")


def bursts(rng, ctx):
    _m, data = small(rng)
    for _ in range(60):
        length = rng.randint(1, 32)
        start = rng.randrange(len(data) * 8 - length + 1)
        if rng.random() < 0.3:
            start = rng.randrange(0, max(1, min(len(data), 44) * 8 - length))
        pattern = 1 | rng.getrandbits(length) | 1 << (length - 1)
        v = int.from_bytes(data, "little") ^ pattern << start
        d = v.to_bytes(len(data), "little")
        must_fail(ctx, d, f"burst of {length} bits at bit {start}")
        ctx.count("burst faults")
        ctx.seen("burst", data, start, pattern)


def cuts(rng, ctx):
    """every length shorter than the record"""
    _m, data = small(rng)
    others = [small(rng)[1] for _ in range(rng.randint(0, 3))]
    lengths = range(len(data)) if len(data) < 400 else sorted(rng.sample(range(len(data)), 400))
    for n in lengths:
        must_fail(ctx, data[:n], f"cut to {n} of {len(data)}")
        ctx.count("cut faults")
        if n:
            stream_must_stop(ctx, others, data[:n], [], f"cut to {n} of {len(data)}")
            ctx.count("cut stream faults")
    ctx.seen("cuts", data)


def streams(rng, ctx):
    before = [small(rng)[1] for _ in range(rng.randint(0, 4))]
    after = [small(rng)[1] for _ in range(rng.randint(0, 3))]
    _m, data = small(rng)
    for _ in range(25):
        d = bytearray(data)
        how = rng.choice(["bit", "bit", "byte", "lost", "extra", "swap", "head", "zero", "text", "crc", "length"])
        i = rng.randrange(len(d))
        if how == "bit":
            d[i] ^= 1 << rng.randrange(8)
        elif how == "byte":
            d[i] ^= rng.randrange(1, 256)
        elif how == "lost":
            del d[i]
        elif how == "extra":
            d.insert(rng.randrange(1, len(d)), rng.randrange(256))
        elif how == "swap":
            j = rng.randrange(len(d))
            d[i], d[j] = d[j], d[i]
        elif how == "head":
            d[rng.randrange(40)] ^= rng.randrange(1, 256)
        elif how == "zero":
            n = rng.randint(1, len(d))
            d[i:i + n] = bytes(len(d[i:i + n]))
        elif how == "text":
            d = bytearray(rng.choice([b"MS", b"MS\x03", b"hello, this is not a record at all, only some text" * 3, b"\0" * 40, b"MS\x02" + bytes(60)]))
        elif how == "crc":
            d[28:32] = rng.choice([bytes(4), b"\xff" * 4, rng.randbytes(4)])
        elif how == "length":
            o = rng.choice([33, 34, 35, 36, 37, 38, 39])
            d[o] = rng.choice([0, 255, d[o] ^ 1, rng.randrange(256)])
        if bytes(d) == data:
            continue
        if how in ("lost", "extra", "swap") and (bytes(d) + b"".join(after)).startswith(data):
            continue
        stream_must_stop(ctx, before, bytes(d), after if how != "text" else [], f"{how} at {i}")
        ctx.count(f"stream fault {how}")
        ctx.seen("stream", bytes(d), len(before))


def files(rng, ctx):
    """the same on a real file, with crc checking off reading still ends"""
    import simplemseed as s
    recs = [small(rng)[1] for _ in range(3)]
    d = bytearray(b"".join(recs))
    for _ in range(rng.randint(1, 5)):
        d[rng.randrange(len(d))] ^= rng.randrange(1, 256)
    if rng.random() < 0.5:
        d = d[:rng.randrange(len(d))]
    with tempfile.NamedTemporaryFile(dir=os.environ.get("RV_SCRATCH")) as f:
        f.write(d)
        f.flush()
        good = 0
        while b"".join(recs[:good + 1]) == bytes(d[:len(b"".join(recs[:good + 1]))]) and good < 3:
            good += 1
        got = 0
        with open(f.name, "rb") as inp:
            try:
                for rec in s.readMSeed3Records(inp):
                    ctx.check(got < good, "altered record was yielded from a file")
                    ctx.eq(bytes(rec.pack()), recs[got], "record from a file")
                    got += 1
            except Exception as e:  # pylint: disable=broad-except
                if type(e).__name__ == "Violation":
                    raise
            else:
                ctx.eq(len(d), sum(len(r) for r in recs[:good]), "no error although there are more bytes")
        ctx.eq(got, good, "intact records from a file")
        with open(f.name, "rb") as inp:
            n = 0
            try:
                for rec in s.readMSeed3Records(inp, check_crc=False):
                    n += 1
                    ctx.check(n <= len(d) // 40 + 1, "more records than the bytes can hold")
            except Exception as e:  # pylint: disable=broad-except
                if type(e).__name__ == "Violation":
                    raise
            ctx.count("read to the end without crc")
    ctx.seen("file", bytes(d))


def foreign(rng, ctx):
    """what does not start as a record of this format and version is refused, also with a checksum that fits and with none checked"""
    import simplemseed as s
    _m, data = small(rng)
    i, v = divmod(rng.index, 256)
    if data[i] == v:
        return
    d = bytearray(data)
    d[i] = v
    if i == 1 and rng.random() < 0.3:
        d[0] = rng.randrange(256)
    d[28:32] = bytes(4)
    d[28:32] = ref.crc32c(bytes(d)).to_bytes(4, "little")
    d = rng.choice([bytes, bytearray])(d)
    calls = {
        "unpackMSeed3FixedHeader": lambda: s.unpackMSeed3FixedHeader(d[:40] if rng.random() < 0.5 else d),
        "unpackMSeed3Record": lambda: s.unpackMSeed3Record(d),
        "unpackMSeed3Record without crc": lambda: s.unpackMSeed3Record(d, check_crc=False),
        "readMSeed3Records": lambda: list(s.readMSeed3Records(io.BytesIO(bytes(d)))),
        "readMSeed3Records without crc": lambda: list(s.readMSeed3Records(io.BytesIO(bytes(d)), check_crc=False)),
        "readMSeed3Records skipping": lambda: list(s.readMSeed3Records(io.BytesIO(bytes(d)), matchsid="^nothing$")),
        "readMSeed3Records merging": lambda: list(s.readMSeed3Records(io.BytesIO(bytes(d)), check_crc=False, merge=True)),
    }
    for name, f in calls.items():
        try:
            got = f()
        except Exception:  # pylint: disable=broad-except
            ctx.count("foreign starts refused")
        else:
            ctx.check(False, f"{name} took {bytes(d[:3])} for the start of a record", got)
    ctx.seen("foreign", d)


KINDS = [
    Kind("foreign", foreign, 3 * 256, 3 * 256, need=("foreign starts refused",), exhaustive=True),
    Kind("bits", bits, 200, 8000, need=("single bit faults",)),
    Kind("bursts", bursts, 1500, 60000, need=("burst faults",)),
    Kind("cuts", cuts, 200, 8000, need=("cut faults", "cut stream faults")),
    Kind("streams", streams, 2500, 80000),
    Kind("files", files, 1500, 30000),
]
