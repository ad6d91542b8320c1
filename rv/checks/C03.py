"""Steim payloads interoperate with independent codecs"""
import numpy as np

from ..core import Kind
from .. import gen, ref, steimcheck

LEVEL = "exploration"
FILES = ["steim1.py", "steim2.py", "steimframeblock.py", "seedcodec.py"]
RULE = "a case is one payload with distinct samples and word layout, decoded by the other side and compared"


def ours(rng, ctx):
    """library writes, independent decoder reads"""
    version = rng.choice([1, 2])
    vals = gen.ints(rng, gen.nsamples(rng), 32 if version == 1 else 30)
    frames = rng.choice([0, 0, 1, 2, 5])
    bias = vals[0] if version == 2 else rng.choice([0, vals[0]])
    label, samples = gen.container(rng, vals)
    block, packed = steimcheck.encode_block(version, samples, frames, bias, 0)
    n = int(block.getNumSamples())
    judge_payload(ctx, version, packed, vals[:n], n)
    ctx.seen("ours", version, bytes(packed))
    ctx.sample(f"library steim{version} from {label}, {n} samples, {len(packed) // 64} frames, independent decoder equal")


def judge_payload(ctx, version, packed, want, n):
    ctx.check(len(packed) % 64 == 0, "not whole frames", len(packed))
    try:
        diffs, x0, xn, layout = ref.steim_parse(version, bytes(packed))
        got = ref.integrate(diffs, x0, n)
    except ref.RefError as e:
        ctx.check(False, f"independent decoder refuses the payload: {e}")
    ctx.eq(got, want, "independent decoder's samples")
    ctx.eq((x0, xn), (want[0], want[-1]), "integration constants")
    # unused words have code 00: differences end in the last word that is used
    counts = []
    for f, lay in enumerate(layout):
        for i, nib in enumerate(lay):
            if nib:
                w = int.from_bytes(packed[f * 64 + i * 4:f * 64 + i * 4 + 4], "big")
                counts.append(len(ref.word_diffs(version, nib, w)))
                ctx.count(f"steim{version} packing {counts[-1]}")
    ctx.check(sum(counts[:-1]) < n <= sum(counts), "words beyond the last sample are not marked unused", sum(counts), n)
    ctx.count("payloads read by independent decoder")


def theirs(rng, ctx):
    """independent encoder writes with any legal packings, library reads"""
    version = rng.choice([1, 2])
    n = gen.nsamples(rng, 400)
    vals = gen.ints(rng, n, 32 if version == 1 else 30)
    bias = rng.choice([0, 0, rng.randint(-100, 100), vals[0]])
    d0 = ref.wrap32(vals[0] - bias) if bias else rng.choice([0, vals[0], rng.randint(-2**29, 2**29 - 1), 7, -8])
    if version == 2 and not ref.fits(d0, 30):
        d0, bias = 0, vals[0]
    filler = rng.choice([0, 0, 0.2])
    data = ref.steim_encode(version, vals, rng, d0, rng.choice([0, 0.5, 0.9, 1]), filler,
                            rng.choice([0, 0, 0, 1, 3]))
    kind = rng.random()
    buf = data if kind < 0.4 else bytearray(data) if kind < 0.8 else memoryview(data)
    got = steimcheck.decode(version, buf, n)
    ctx.eq(gen.tolist(got), vals, "library's samples of an independent payload")
    if bias:
        ctx.eq(gen.tolist(steimcheck.decode(version, buf, n, bias)), vals, "library's samples decoded from the bias")
        ctx.count("decoded from bias")
    s = steimcheck.lib()
    ctx.eq(gen.tolist(s.decompress(9 + version, buf, n, rng.random() < 0.5)), vals, "decompress() of an independent payload")
    ctx.eq(gen.tolist(s.EncodedDataSegment(9 + version, buf, n, False).decode()), vals, "EncodedDataSegment.decode()")
    if n > 1:
        m = rng.randint(1, n)
        ctx.eq(gen.tolist(steimcheck.decode(version, buf, m)), vals[:m], "first samples only")
    _, _, _, layout = ref.steim_parse(version, data)
    for f, lay in enumerate(layout):
        for i, nib in enumerate(lay):
            if nib:
                w = int.from_bytes(data[f * 64 + i * 4:f * 64 + i * 4 + 4], "big")
                ctx.count(f"steim{version} read packing {len(ref.word_diffs(version, nib, w))}")
    ctx.count("payloads read by library")
    ctx.seen("theirs", version, data)


def word(rng, ctx):
    """each packing, each position in the word, each edge value, through the library's decoder"""
    i = rng.index
    table = [(1, p) for p in ref.PACKINGS[1]] + [(2, p) for p in ref.PACKINGS[2]]
    version, p = table[i % len(table)]
    i //= len(table)
    bits, count = p[3], p[2]
    h = 1 << bits - 1
    edge = [h - 1, -h, -1, 1, h // 2, -h // 2 - 1][i % 6]
    i //= 6
    slot = 3 + i % 13
    for pos in range(count):
        diffs = [0] * count
        diffs[pos] = edge
        words = [(0, 0)] * 16
        words[1] = (0, 1000)
        # first word, so that the tested one is never the first difference
        words[3] = ref.pack_word(ref.PACKINGS[version][0], [0, 1, 2, 3])
        n = 4
        want = [1000, 1001, 1003, 1006]
        if slot > 3:
            words[slot] = ref.pack_word(p, diffs)
            n += count
            for d in diffs:
                want.append(ref.wrap32(want[-1] + d))
        ctrl = 0
        for k in range(16):
            ctrl |= words[k][0] << (30 - 2 * k)
        data = b"".join(w.to_bytes(4, "big") for w in [ctrl] + [w for _x, w in words[1:]])
        ctx.eq(gen.tolist(steimcheck.decode(version, data, n)), want, f"steim{version} packing {p} position {pos} of {edge}")
        # and as the second frame, where no constants are
        data2 = data + b"\0" * 64
        ctrl2 = p[0] << (30 - 2 * (slot - 2))
        second = bytearray(64)
        second[0:4] = ctrl2.to_bytes(4, "big")
        second[4 * (slot - 2):4 * (slot - 1)] = ref.pack_word(p, diffs)[1].to_bytes(4, "big")
        for d in diffs:
            want.append(ref.wrap32(want[-1] + d))
        ctx.eq(gen.tolist(steimcheck.decode(version, data + bytes(second), n + count)), want, "in the second frame")
        ctx.eq(gen.tolist(steimcheck.decode(version, data2, n)), want[:n], "with a spare frame")
        ctx.count("word layouts")
    ctx.seen("word", rng.index)


def record(rng, ctx):
    """Steim inside records of both formats, written by the library"""
    s = steimcheck.lib()
    version = rng.choice([1, 2])
    vals = gen.ints(rng, gen.nsamples(rng, 300), 32 if version == 1 else 30)
    if version == 2 and not ref.fits(vals[0], 30):
        vals = [v - vals[0] if -2**31 <= v - vals[0] < 2**31 else 0 for v in vals]
        if any(not ref.fits(b - a, 30) for a, b in zip(vals, vals[1:])):
            vals = [0]
    packed = (s.encodeSteim1 if version == 1 else s.encodeSteim2)(np.array(vals, dtype=">i4"))
    seg = s.EncodedDataSegment(9 + version, packed, len(vals), rng.random() < 0.5)
    h = s.MSeed3Header()
    h.starttime = "2024-01-01T00:00:00Z"
    rec = s.MSeed3Record(h, "FDSN:XX_A__H_H_Z", seg)
    r = ref.ms3_parse(bytes(rec.pack()))
    ctx.eq(ref.ms3_samples(r), vals, "independent reading of steim in a miniSEED 3 record")
    judge_payload(ctx, version, r["payload"], vals, len(vals))
    ctx.seen("record", version, bytes(packed))


def huge(rng, ctx):
    long(rng, ctx, steimcheck.huge_case)


def long(rng, ctx, case=steimcheck.long_case):
    version = rng.choice([1, 2])

    def judge(rng, ctx, vals, frames):
        block, packed = steimcheck.encode_block(version, vals, frames, vals[0], 0)
        n = int(block.getNumSamples())
        judge_payload(ctx, version, packed, vals[:n], n)
        data = ref.steim_encode(version, vals, rng, 0, rng.choice([0, 0.5]), rng.choice([0, 0.1]), rng.choice([0, 1]))
        ctx.eq(gen.tolist(steimcheck.decode(version, data, len(vals))), vals, "library's samples of a long independent payload")
    case(version, judge)(rng, ctx)


KINDS = [
    Kind("huge", huge, 4, 300, need=("huge payloads",)),
    Kind("long", long, 40, 3000, need=("long payloads",)),
    Kind("ours", ours, 9000, 600000, need=("payloads read by independent decoder",)),
    Kind("theirs", theirs, 14000, 900000, need=("payloads read by library", "decoded from bias")),
    Kind("word", word, 10 * 6 * 13, 10 * 6 * 13, exhaustive=True),
    Kind("record", record, 2000, 60000),
]
