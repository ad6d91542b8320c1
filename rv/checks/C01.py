"""Steim1 compression is lossless"""
from ..core import Kind
from .. import steimcheck

LEVEL = "exploration"
FILES = ["steim1.py", "steimframeblock.py"]
RULE = ("a case is one encode of a distinct (container type, samples, frame limit, bias, offset); counted when the block was "
        "decompressed and compared")
EDGES = [0, 127, 128, -128, -129, 32767, 32768, -32768, -32769]


def edges(rng, ctx):
    """all sequences of four edge differences after a first sample of zero"""
    i = rng.index
    v, vals = 0, [0]
    for _ in range(4):
        v += EDGES[i % 9]
        i //= 9
        vals.append(v)
    steimcheck.judge_encode(ctx, 1, vals, vals, 0, 0, 0)
    ctx.seen("edges", rng.index)


def tails(rng, ctx):
    """a run of one width, then n samples left of another, at each position in the frame"""
    i = rng.index
    pad, i = i % 16, i // 16
    left, i = i % 8 + 1, i // 8
    wide = [1, 300, 70000][i % 3]
    narrow = [1, 300, 70000][i // 3]
    v, vals = 5, [5]
    for k in range(pad * (4 if wide == 1 else 2 if wide == 300 else 1)):
        v += wide if k % 2 else -wide
        vals.append(v)
    for k in range(left):
        v += narrow
        vals.append(v)
    for frames in (0, 1, 2):
        steimcheck.judge_encode(ctx, 1, vals, vals, frames, 0, 0)
    ctx.seen("tails", rng.index)


def long(rng, ctx, vals, frames):
    steimcheck.judge_encode(ctx, 1, vals, vals, frames, vals[0], 0)


KINDS = [
    Kind("huge", steimcheck.huge_case(1, long), 4, 300, need=("huge payloads",)),
    Kind("long", steimcheck.long_case(1, long), 24, 2000, need=("long payloads",)),
    Kind("refused", steimcheck.bad_case(1), 1500, 50000, need=("negative frames", "empty", "negative offset", "offset beyond")),
    Kind("random", steimcheck.random_case(1), 24000, 1500000, need=("block filled", "with bias", "with offset")),
    Kind("edges", edges, 9**4, 9**4, exhaustive=True),
    Kind("tails", tails, 16 * 8 * 9, 16 * 8 * 9, exhaustive=True),
]
