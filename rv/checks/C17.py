"""Malformed or truncated miniSEED 2 never hangs or yields false samples"""
import io
import struct

from ..core import Kind
from .. import gen, ms2gen, ref
from .C04 import lenient

LEVEL = "fault_enumeration"
FILES = ["miniseed.py", "seedcodec.py", "steim1.py", "steim2.py"]
RULE = "a case is one stream with one or more injected faults (cut, flipped bits, hostile field values); each fault is distinct and its outcome judged"


class Watched(io.BytesIO):
    """stream that counts calls, so a loop that makes no progress is seen"""

    def __init__(self, data):
        super().__init__(data)
        self.size = len(data)
        self.calls = 0
        self.limit = 2000 + 4 * len(data)

    def _called(self):
        self.calls += 1
        if self.calls > self.limit:
            raise Runaway()

    def read(self, *args):
        self._called()
        return super().read(*args)

    def seek(self, *args):
        self._called()
        return super().seek(*args)


class Runaway(BaseException):
    pass


def judge_samples(ctx, rec, data, start, what):
    """samples of a yielded record are its own bytes or refused"""
    h = rec.header
    end = min(start + h.recordLength, len(data))
    raw = rec.encodedDataBytes
    if raw is not None:
        ctx.eq(bytes(raw), data[start + h.dataOffset:end], f"{what}: payload is not the bytes from the data offset to the end of the record")
    n, enc = h.numSamples, h.encoding
    try:
        got = rec.decompress()
    except Exception as e:  # pylint: disable=broad-except
        ctx.count("samples refused")
        width = {1: 2, 32: 2, 3: 4, 4: 4, 5: 8}.get(enc)
        ctx.check(not (n >= 0 and width and raw is not None and len(raw) >= n * width), f"{what}: samples that are there are refused: {e}", enc, n)
        return
    if got is None:
        ctx.check(raw is None, f"{what}: no samples although there is a payload")
        ctx.count("no payload")
        return
    ctx.eq(len(got), n, f"{what}: number of samples")
    if n == 0:
        ctx.count("no samples")
        return
    ctx.check(raw is not None, f"{what}: samples from nowhere", n)
    raw = bytes(raw)
    if enc in (10, 11):
        diffs, x0, legal, constants = lenient(enc - 9, raw)
        ctx.check(len(raw) % 64 == 0 or legal, f"{what}: samples from partial frames")
        if constants:
            ctx.check(n <= len(diffs), f"{what}: more samples than differences in the payload", n, len(diffs))
            ctx.eq(gen.tolist(got), ref.integrate(diffs, x0, n), f"{what}: samples are not those of the payload")
    else:
        e = 1 if enc == 32 else enc
        ctx.check(e in ref.PRIM, f"{what}: samples of unknown encoding {enc}")
        try:
            want = ref.prim_decode(e, raw, n, h.byteorder == 0)
        except ref.RefError:
            ctx.check(False, f"{what}: more samples than payload", n, len(raw))
        ctx.eq(gen.bits(e, gen.tolist(got)), gen.bits(e, want), f"{what}: samples are not those of the payload")
    ctx.count("samples backed")


def run(ctx, data, before, what, after_ok=0):
    """before: list of intact (model, bytes) the damage comes after"""
    import simplemseed as s
    f = Watched(data)
    it = s.readMiniseed2Records(f)
    k, at = 0, 0
    try:
        while True:
            try:
                rec = next(it)
            except StopIteration:
                ctx.count("ended")
                break
            except Runaway:
                raise
            except Exception as e:  # pylint: disable=broad-except
                ctx.check(not isinstance(e, (RecursionError, MemoryError)), f"{what}: {type(e).__name__}")
                ctx.count("raised")
                break
            if k < len(before):
                r, b = before[k]
                ctx.eq(f.tell(), at + len(b), f"{what}: position after intact record {k}")
                ms2gen.judge_record(ctx, rec, r["parsed"], r["samples"], f"{what}: intact record {k}", known=False)
            else:
                left = len(data) - at
                took = f.tell() - at
                ctx.eq(took, min(rec.header.recordLength, left), f"{what}: bytes taken for record of length {rec.header.recordLength}, {left} left")
                judge_samples(ctx, rec, data, at, what)
                ctx.count("records after damage judged")
            at = f.tell()
            k += 1
            ctx.check(k <= len(data) // 48 + 1, f"{what}: more records than there is room for", k)
    except Runaway:
        ctx.check(False, f"{what}: reads without end, {f.calls} calls for {len(data)} bytes")
    ctx.check(k >= len(before), f"{what}: only {k} of {len(before)} intact records before the damage were yielded")


def parts(rng, exps=(7, 8, 8, 9, 9)):
    recs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        r = ms2gen.model(rng, exps=exps)
        recs.append((r, ms2gen.build(r)))
    return recs


def cuts(rng, ctx):
    """every length of a stream"""
    recs = parts(rng, (7, 8))[:2]
    data = b"".join(b for _r, b in recs)
    ends, at = [], 0
    for _r, b in recs:
        at += len(b)
        ends.append(at)
    for n in range(len(data)):
        run(ctx, data[:n], [x for x, e in zip(recs, ends) if e <= n], f"cut at {n}")
        ctx.count("cuts")
    ctx.seen("cuts", data)


def flips(rng, ctx):
    """bits and bytes of one record, header and blockettes most"""
    recs = parts(rng)
    i = rng.randrange(len(recs))
    clean = recs[i][1]
    head = recs[i][0]["parsed"]["dataOffset"] or 64
    for _ in range(30):
        d = bytearray(clean)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            at = rng.randrange(min(len(d), head + 8)) if rng.random() < 0.8 else rng.randrange(len(d))
            if rng.random() < 0.5:
                d[at] ^= 1 << rng.randrange(8)
            else:
                d[at] = rng.choice([0, 255, rng.randrange(256)])
        if any(b["num"] == 1000 and d[b["offset"] + 6] > 24 for b in recs[i][0]["parsed"]["blockettes"]):
            continue  # asks for more memory than there is
        data = b"".join(b for _r, b in recs[:i]) + bytes(d) + b"".join(b for _r, b in recs[i + 1:])
        run(ctx, data, recs[:i], f"record {i} damaged")
        ctx.count("damaged records")
        ctx.seen(data)
    ctx.sample(f"{len(recs)} records, number {i} damaged 30 ways: {ms2gen.describe(recs[i][0])}")


def hostile(rng, ctx):
    """fields that control the parser set to nasty values: counts, offsets, chains, lengths, encodings"""
    recs = parts(rng)
    i = rng.randrange(len(recs))
    r, clean = recs[i]
    p = r["parsed"]
    c = ">" if p["order"] == "big" else "<"
    size = len(clean)
    for _ in range(30):
        d = bytearray(clean)
        offs = [b["offset"] for b in p["blockettes"]]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(9)
            anyoff = rng.choice([0, 1, 2, 4, 47, 48, 49, 52, 56, 60, 63, 64, 65, 128, size - 4, size - 1, size, size + 1, size * 2, 32768, 65535]
                                + offs + [o + 4 for o in offs] + [o - 4 for o in offs])
            anyoff = max(0, min(65535, anyoff))
            if k == 0:
                struct.pack_into(c + "H", d, 44, anyoff)
            elif k == 1:
                struct.pack_into(c + "H", d, 46, anyoff)
            elif k == 2:
                d[39] = rng.choice([0, 1, 2, len(offs) + 1, max(0, len(offs) - 1), 255])
            elif k == 3:
                struct.pack_into(c + "H", d, rng.choice(offs) + 2, anyoff)
            elif k == 4:
                struct.pack_into(c + "H", d, rng.choice(offs), rng.choice([0, 100, 1000, 1001, 500, 2000, 65535]))
            elif k == 5:
                b = [b for b in p["blockettes"] if b["num"] == 1000][0]["offset"]
                at, v = rng.choice([(4, rng.choice([0, 1, 2, 3, 4, 5, 10, 11, 16, 19, 30, 32, 33, 99, 255])), (5, rng.choice([0, 1, 2, 255])),
                                    (6, rng.choice([0, 1, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20]))])
                d[b + at] = v
            elif k == 6:
                struct.pack_into(c + "H", d, 30, rng.choice([0, 1, p["numSamples"] + 1, p["numSamples"] * 2 + 1, 65535, 32768, size]) & 65535)
            elif k == 7:
                struct.pack_into(c + "hh", d, 32, rng.choice([0, 1, -1, 32767, -32768]), rng.choice([0, 1, -1, 32767, -32768]))
            else:
                struct.pack_into(c + "HHBBBxH", d, 20, rng.choice([1801, 2024, 2054, 1800, 2055, 2056, 2303]), rng.choice([0, 1, 366, 367, 65535]), rng.choice([0, 23, 24, 255]),
                                 rng.choice([0, 59, 60, 255]), rng.choice([0, 60, 61, 255]), rng.choice([0, 9999, 10000, 65535]))
        tail = b"".join(b for _r, b in recs[i + 1:]) if rng.random() < 0.7 else b""
        if rng.random() < 0.2:
            d = d[:rng.randrange(len(d))]
        data = b"".join(b for _r, b in recs[:i]) + bytes(d) + tail
        run(ctx, data, recs[:i], f"record {i} hostile")
        ctx.count("hostile records")
        ctx.seen(data)


def junk(rng, ctx):
    """bytes that are no records, after some that are"""
    recs = parts(rng, (7, 8))[:rng.choice([0, 1, 2])]
    k = rng.randrange(5)
    n = rng.choice([1, 47, 48, 49, 64, 200, 1000])
    if k == 0:
        tail = rng.randbytes(n)
    elif k == 1:
        tail = bytes(n)
    elif k == 2:
        tail = b"\xff" * n
    elif k == 3:
        tail = b"000001D " + b"ABCDE00BHZXX" + struct.pack(">HH", 2024, 5) + rng.randbytes(n)
    else:
        tail = bytes(rng.choice(b"\x07\x08\xe8\x00\x01\x03\xe8 0") for _ in range(n))
    data = b"".join(b for _r, b in recs) + tail
    # record length exponent of 1000s found in random bytes may be large
    run(ctx, data, recs, "junk after records")
    ctx.count("junk tails")
    ctx.seen(data)


KINDS = [
    Kind("cuts", cuts, 200, 6000, need=("cuts", "raised")),
    Kind("flips", flips, 1500, 60000, need=("damaged records", "samples backed", "samples refused")),
    Kind("hostile", hostile, 2500, 100000, need=("hostile records", "samples backed", "samples refused")),
    Kind("junk", junk, 2000, 50000, need=("junk tails",)),
]
