"""Steim2 compression is lossless or refused"""
from ..core import Kind
from .. import steimcheck

LEVEL = "exploration"
FILES = ["steim2.py", "steimframeblock.py"]
RULE = ("a case is one encode of a distinct (container type, samples, frame limit, bias); counted when the block was "
        "decompressed and compared, or the refusal was judged")
# largest and smallest of each width, and one beyond
W = [7, 8, -8, -9, 15, 16, -16, -17, 31, 32, -32, -33, 127, 128, -128, -129, 511, 512, -512, -513, 16383, 16384, -16384, -16385,
     2**29 - 1, -2**29, 2**29, -2**29 - 1]


def runs(rng, ctx):
    """c1 differences of one edge, then c2 of another, limits of each packing and of each count"""
    i = rng.index
    a, i = W[i % 28], i // 28
    b, i = W[i % 28], i // 28
    c1, i = i % 8, i // 8
    c2 = i % 8 + 1
    v, vals = 0, [0]
    for d in [a] * c1 + [b] * c2:
        if not -2**31 <= v + d < 2**31:
            d = 0
        v += d
        vals.append(v)
    steimcheck.judge_encode(ctx, 2, vals, vals, 0, 0, 0)
    ctx.seen("runs", rng.index)


def one(rng, ctx):
    """one edge difference at each place among small ones, at each place in a limited block"""
    i = rng.index
    e, i = W[i % 28], i // 28
    at, i = i % 9, i // 9
    lead = i % 16 * 7
    small = [1, -1, 2, -3, 0, 3, -2]
    v, vals = 0, [0]
    for k in range(lead + 9):
        d = e if k == lead + at else small[k % 7]
        v += d
        vals.append(v)
    for frames in (0, 1):
        steimcheck.judge_encode(ctx, 2, vals, vals, frames, 0, 0)
    ctx.seen("one", rng.index)


def long(rng, ctx, vals, frames):
    steimcheck.judge_encode(ctx, 2, vals, vals, frames, vals[0], 0)


KINDS = [
    Kind("huge", steimcheck.huge_case(2, long), 4, 300, need=("huge payloads",)),
    Kind("long", steimcheck.long_case(2, long), 24, 2000, need=("long payloads",)),
    Kind("refused", steimcheck.bad_case(2), 1500, 50000, need=("negative frames", "empty")),
    Kind("random", steimcheck.random_case(2), 24000, 1500000, need=("block filled", "with bias", "refused")),
    Kind("one", one, 28 * 9 * 16, 28 * 9 * 16, exhaustive=True),
    # every 8th of the products of edges and counts in quick, all in thorough
    Kind("runs", lambda rng, ctx: _runs(rng, ctx, 8), 28 * 28 * 64 // 8, 1, exhaustive=True),
    Kind("allruns", runs, 1, 28 * 28 * 64, exhaustive=True),
]


def _runs(rng, ctx, step):
    rng.index = rng.index * step + rng.index % step
    runs(rng, ctx)
