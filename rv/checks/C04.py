"""Steim decoding of damaged payloads gives exact count or an error"""
import struct

from ..core import Kind
from .. import gen, ref, steimcheck

LEVEL = "exploration"
FILES = ["steim1.py", "steim2.py", "seedcodec.py"]
RULE = "a case is one distinct (payload bytes, requested count) given to each decoding entry point, outcome judged by an independent parse"


def lenient(version, data):
    """
    (differences up to the first illegal code, x0, legal, constants ok) of whole frames;
    legal is False if an illegal code ends the parse
    """
    diffs, x0, ok = [], 0, True
    for f in range(len(data) // 64):
        words = struct.unpack(">16I", data[f * 64:f * 64 + 64])
        nibs = [words[0] >> (30 - 2 * i) & 3 for i in range(16)]
        if nibs[0]:
            return diffs, x0, False, ok
        for i in range(1, 16):
            if f == 0 and i < 3:
                ok = ok and nibs[i] == 0
                if i == 1:
                    x0 = ref.sext(words[1], 32)
                if nibs[i] == 0:
                    continue
            try:
                diffs += ref.word_diffs(version, nibs[i], words[i])
            except ref.RefError:
                return diffs, x0, False, ok
    return diffs, x0, True, ok


def judge(ctx, version, data, n, how):
    s = steimcheck.lib()
    buf = bytearray(data)
    diffs, x0, legal, constants = lenient(version, data)
    whole = len(data) % 64 == 0
    try:
        if how == 0:
            got = steimcheck.decode(version, buf, n)
        elif how == 1:
            got = s.decompress(9 + version, bytes(data), n, True)
        elif how == 2:
            got = s.EncodedDataSegment(9 + version, buf, n, False).decode()
        else:
            h = s.MSeed3Header()
            h.encoding = 9 + version
            h.numSamples = n
            got = s.MSeed3Record(h, "FDSN:XX_A__H_H_Z", buf).decompress()
    except s.CodecException as e:
        ctx.check(buf == data, "input was changed")
        # first frame without any difference may be refused
        first = len(lenient(version, data[:64])[0])
        ctx.check(not (whole and legal and constants and first and 0 < n <= len(diffs)), f"refused although all samples are there: {e}", n,
                  len(diffs))
        ctx.count("errors")
        return
    # any other exception is a violation, reported by the runner
    ctx.check(buf == data, "input was changed")
    ctx.eq(len(got), n, "number of samples returned")
    if n == 0:
        ctx.count("empty")
        return
    ctx.check(whole or legal, "samples from partial frames")
    if constants:
        ctx.check(n <= len(diffs), "more samples returned than differences in payload", n, len(diffs))
        ctx.eq(gen.tolist(got), ref.integrate(diffs, x0, n), "samples are not the integrated differences")
        ctx.count("exact")
    else:
        # codes of the constants say they are differences: only the count is defined
        ctx.check(n <= len(diffs) + 2, "more samples returned than words hold", n, len(diffs))
        ctx.count("constants marked as differences")


def damaged(rng, ctx):
    version = rng.choice([1, 2])
    n = gen.nsamples(rng, 300)
    vals = gen.ints(rng, n, 32 if version == 1 else 30)
    data = bytearray(ref.steim_encode(version, vals, rng, 0, rng.choice([0, 0.5, 1]), rng.choice([0, 0, 0.2]), rng.choice([0, 0, 1])))
    how = rng.choice(["bit", "bits", "nibble", "cut", "cutframe", "zero", "dup", "byte", "ctrl", "none", "ext", "dnib", "swap"])
    frame = rng.randrange(len(data) // 64) * 64
    if how == "bit":
        data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    elif how == "bits":
        for _ in range(rng.randint(2, 30)):
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    elif how == "nibble":
        k = rng.randrange(16)
        w = int.from_bytes(data[frame:frame + 4], "big")
        w = w & ~(3 << 30 - 2 * k) | rng.randrange(4) << 30 - 2 * k
        data[frame:frame + 4] = w.to_bytes(4, "big")
    elif how == "cut":
        data = data[:rng.randrange(len(data))]
    elif how == "cutframe":
        data = data[:64 * rng.randrange(len(data) // 64 + 1)]
    elif how == "zero":
        lo = rng.randrange(len(data))
        hi = rng.randint(lo, len(data))
        data[lo:hi] = bytes(hi - lo)
    elif how == "dup":
        data += data[frame:frame + 64]
    elif how == "byte":
        data[rng.randrange(len(data))] = rng.choice([0, 0xFF, 0x80, rng.randrange(256)])
    elif how == "ctrl":
        data[frame:frame + 4] = rng.choice([bytes(4), b"\xff" * 4, b"\x3f\xff\xff\xff", b"\x15\x55\x55\x55", rng.randbytes(4),
                                            b"\x00" + rng.randbytes(3)])
    elif how == "ext":
        data += bytes(rng.choice([1, 63, 64, 65]))
    elif how == "dnib":
        k = rng.randrange(1, 16)
        data[frame + 4 * k] ^= rng.choice([0x40, 0x80, 0xC0])
    elif how == "swap":
        for i in range(0, len(data), 4):
            data[i:i + 4] = data[i:i + 4][::-1]
    want = rng.choice([n, n, n, n + 1, n - 1, n + 7, max(0, n // 2), 1, 0, n * 2, 100000])
    want = max(0, want)
    judge(ctx, version, bytes(data), want, rng.randrange(4))
    ctx.count(f"damage {how}")
    ctx.seen(version, bytes(data), want)


def long(rng, ctx):
    """more frames than a miniseed2 record has room for, one or some samples more or fewer asked for than are there"""
    version = rng.choice([1, 2])
    n = rng.choice([rng.randint(900, 1100), rng.randint(1000, 4000)])
    vals = gen.ints(rng, n, 32 if version == 1 else 30)
    data = bytearray(ref.steim_encode(version, vals, rng, 0, rng.choice([0, 0.5, 1]), 0, 0))
    if rng.random() < 0.3:
        data = data[:64 * rng.randint(1, len(data) // 64)]
    have = len(lenient(version, bytes(data))[0])
    for more in (0, 1, -1, rng.randint(2, 2000), -rng.randint(1, have)):
        judge(ctx, version, bytes(data), have + more, rng.randrange(4))
    ctx.count("long payloads")
    ctx.seen("long", bytes(data))


def noise(rng, ctx):
    version = rng.choice([1, 2])
    frames = rng.randint(0, 4)
    data = bytearray(rng.randbytes(frames * 64))
    for f in range(frames):
        r = rng.random()
        if r < 0.7:
            data[f * 64] &= 0x3F
            if f == 0 and r < 0.6:
                data[0] &= 0x03
        if rng.random() < 0.1:
            data[f * 64:f * 64 + 64] = rng.choice([bytes(64), b"\xff" * 64, b"\x3f" + b"\xff" * 63])
    if rng.random() < 0.05:
        data = data[:-rng.randint(1, 63)]
    diffs = lenient(version, bytes(data))[0]
    want = max(0, rng.choice([len(diffs), len(diffs), len(diffs) + 1, len(diffs) - 1, rng.randint(0, 500), 1]))
    judge(ctx, version, bytes(data), want, rng.randrange(4))
    ctx.seen(version, bytes(data), want)


def codes(rng, ctx):
    """every control word that marks only one word other than 00, and every second-level code"""
    i = rng.index
    version, i = 1 + i % 2, i // 2
    slot, i = 1 + i % 15, i // 15
    nib, i = 1 + i % 3, i // 3
    dnib = i % 4
    data = bytearray(64)
    data[0:4] = (nib << (30 - 2 * slot)).to_bytes(4, "big")
    data[4:8] = (77).to_bytes(4, "big")
    data[4 * slot:4 * slot + 4] = (dnib << 30 | 0x01010101).to_bytes(4, "big")
    for want in (0, 1, 2, 3, 4, 5, 6, 7, 8):
        for how in range(4):
            judge(ctx, version, bytes(data), want, how)
    ctx.seen("codes", rng.index)


KINDS = [
    Kind("long", long, 60, 6000, need=("long payloads",)),
    Kind("damaged", damaged, 40000, 2500000, need=("errors", "exact")),
    Kind("noise", noise, 20000, 1200000, need=("errors", "exact")),
    Kind("codes", codes, 2 * 15 * 3 * 4, 2 * 15 * 3 * 4, exhaustive=True),
]
