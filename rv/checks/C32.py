"""Steim compression packs as tightly as the format allows"""
import numpy as np

from ..core import Kind
from .. import gen, ref, steimcheck

LEVEL = "exploration"
FILES = ["steim1.py", "steim2.py", "steimframeblock.py"]
RULE = ("a case is one encode of a distinct (samples, frame limit); counted when the words and frames used were compared with those of a "
        "packer that puts into each word as many of the following differences as a packing of the format holds")


def greedy(version, diffs):
    """count in each word, None at the first difference that does not fit"""
    out, i = [], 0
    table = sorted(ref.PACKINGS[version], key=lambda p: -p[2])
    while i < len(diffs):
        k = next((p[2] for p in table if i + p[2] <= len(diffs) and all(ref.fits(d, p[3]) for d in diffs[i:i + p[2]])), None)
        if k is None:
            return None
        out.append(k)
        i += k
    return out


def frames_of(words):
    return (words + 2 + 14) // 15


def judge(ctx, version, vals, frames, bias=0, samples=None):
    import simplemseed as s
    diffs = [ref.wrap32(vals[0] - bias)] + [ref.wrap32(b - a) for a, b in zip(vals, vals[1:])]
    words = greedy(version, diffs)
    if words is None:
        ctx.count("not for this encoding")
        return
    f = s.encodeSteim1FrameBlock if version == 1 else s.encodeSteim2FrameBlock
    block = f(vals if samples is None else samples, frames, bias)
    n = int(block.getNumSamples())
    data = bytes(block.pack())
    try:
        _d, _a, _b, layout = ref.steim_parse(version, data)
    except ref.RefError as e:
        ctx.check(False, f"payload is not legal: {e}")
    used = sum(1 for lay in layout for k in lay[1:] if k)
    if frames == 0:
        ctx.eq(n, len(vals), "samples in block without limit")
        ctx.check(used <= len(words), f"Steim{version} words used for {n} samples", used, len(words))
        ctx.check(len(data) <= 64 * frames_of(len(words)), f"Steim{version} frames used for {n} samples", len(data) // 64, frames_of(len(words)))
    else:
        fit = sum(words[:15 * frames - 2])
        ctx.check(n >= fit, f"Steim{version} samples that a block of {frames} frames holds", n, fit)
        ctx.check(len(data) <= 64 * frames, "frame limit", len(data) // 64, frames)
        if fit < len(vals):
            ctx.count("blocks filled")
    for k in words:
        ctx.count(f"Steim{version} words of {k}")
    ctx.count(f"Steim{version} samples", n)
    ctx.count(f"Steim{version} bytes", len(data))


def series(rng, ctx):
    version = rng.choice([1, 2])
    n = gen.nsamples(rng)
    vals = gen.ints(rng, n, 32 if version == 1 else 30)
    bias = 0
    if version == 2 and not ref.fits(vals[0], 30) or rng.random() < 0.1:
        bias = vals[0]
    samples = rng.choice([None, None, np.array(vals, dtype=np.int32), np.array(vals, dtype=np.int64)])
    frames = rng.choice([0, 0, 0, 1, 2, 3, rng.randint(1, 12)])
    judge(ctx, version, vals, frames, bias, samples)
    ctx.seen(version, frames, bias, tuple(vals))
    ctx.sample(f"Steim{version} n={n} limit={frames} first={vals[:6]}")


W = {1: [127, 128, -128, -129, 32767, 32768, -32768, -32769],
     2: [7, 8, -8, -9, 15, 16, -16, -17, 31, 32, -32, -33, 127, 128, -128, -129, 511, 512, -512, -513, 16383, 16384, -16384, -16385, 2**29 - 1, -2**29]}
RUNS = [(v, a, n, at) for v in (1, 2) for a in W[v] for n in range(1, 16) for at in (0, 1, 5)]


def runs(rng, ctx):
    """n differences of the same size at the edge of a width, after none, one and five of zero"""
    v, a, n, at = RUNS[rng.index]
    x, vals = 3, [3] * (1 + at)
    for k in range(n):
        x += a
        if not gen.LO <= x <= gen.HI:
            break
        vals.append(x)
    judge(ctx, v, vals, 0, 3)
    # one such in the middle of small ones
    small = [1, -1, 2, -3, 0, 3, -2, 1, 1, -1, 2, -2, 0, 1, 2]
    x, vals = 0, [0]
    for k in range(15):
        x += a if k == n - 1 else small[k]
        vals.append(x)
    judge(ctx, v, vals, 0)
    ctx.count("edges of widths")
    ctx.seen("runs", rng.index)


def ordinary(rng, ctx):
    """noise, ramps and steps as instruments have them; also that a quiet series takes about what its differences take"""
    version = 1 + rng.index % 2
    n = rng.choice([100, 500, 1500, rng.randint(50, 3000)])
    amp = rng.choice([0, 1, 3, 6, 12, 28, 110, 450, 15000, 30000, 10**6])
    x = rng.randint(-10**5, 10**5)
    vals = []
    for _ in range(n):
        vals.append(x)
        x += rng.randint(-amp, amp)
        if rng.random() < 0.003:
            x += rng.randint(-10**6, 10**6)
    frames = rng.choice([0, 0, 7, 63])
    judge(ctx, version, vals, frames, rng.choice([0, vals[0]]))
    ctx.seen("ordinary", version, frames, tuple(vals))


KINDS = [
    Kind("series", series, 8000, 600000, need=("blocks filled",) + tuple(f"Steim2 words of {k}" for k in range(1, 8)) + tuple(f"Steim1 words of {k}" for k in (1, 2, 4))),
    Kind("ordinary", ordinary, 160, 20000, need=("blocks filled",)),
    Kind("runs", runs, len(RUNS), len(RUNS), need=("edges of widths",), exhaustive=True),
]
