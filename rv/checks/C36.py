"""Objects survive copying, pickling and going to another process"""
import os
import pickle
import random
import subprocess
import sys

from .. import copies, core
from ..core import Inconclusive, Kind

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "steimframeblock.py", "seedcodec.py", "fdsnsourceid.py", "exceptions.py"]
RULE = "a case is one distinct object in one state, copied in one way; counted with all that can be seen of it compared"


def twins(rng):
    """(kind, object, a second one made the same way)"""
    seed = rng.randrange(1 << 60)
    kind, a = copies.make(random.Random(seed))
    _kind, b = copies.make(random.Random(seed))
    return kind, a, b


def compare(ctx, got, want, what):
    for a, b in zip(got, want):
        ctx.check(a == b, what, a, b)
    ctx.eq(len(got), len(want), what)
    ctx.count("lines compared", len(want))


def objects(rng, ctx):
    """copies made in one process"""
    kind, o, twin = twins(rng)
    way, fn = rng.choice(copies.WAYS)
    what = f"{type(o).__name__} after {way}"
    try:
        c = fn(o)
    except Exception as e:  # pylint: disable=broad-except
        ctx.check(False, f"{what}: cannot be copied", e)
    ctx.check(type(c) is type(o) and c is not o, f"{what}: type", type(c), type(o))
    if kind == "identifier":
        ctx.check(c == o and not c != o, f"{what}: not equal", c, o)
    apart = way != "copy"
    seed = rng.randrange(1 << 60)
    r = rng.random()
    if apart and r < 0.4:
        # the copy goes its own way
        copies.change(random.Random(seed), c)
        compare(ctx, copies.seen(o), copies.seen(twin), f"{what}: changing the copy changes the original")
        ctx.count("copies changed")
    elif apart and r < 0.7:
        copies.change(random.Random(seed), o)
        compare(ctx, copies.seen(c), copies.seen(twin), f"{what}: changing the original changes the copy")
        ctx.count("originals changed")
    elif apart and r < 0.85:
        # both go the same way
        copies.change(random.Random(seed), c)
        copies.change(random.Random(seed), twin)
        compare(ctx, copies.seen(c), copies.seen(twin), f"{what}: going on with the copy")
        ctx.count("gone on with")
    else:
        want = copies.seen(twin)
        compare(ctx, copies.seen(c), want, f"{what}: what is seen of the copy")
        if apart:  # a shallow copy shares its parts, which packing brings up to date
            compare(ctx, copies.seen(o), want, f"{what}: what is seen of the original")
    ctx.count(kind)
    ctx.seen(way, repr(copies.seen(twin)))
    ctx.sample(what)


def process(rng, ctx):
    """objects sent to another process and back"""
    batch = [twins(rng) for _ in range(40)]
    send = []
    for _kind, o, _t in batch:
        p = rng.choice([0, 1, 2, 3, 4, 4, 4, 5, 5])
        try:
            send.append((pickle.dumps(o, p), p))
        except Exception as e:  # pylint: disable=broad-except
            ctx.check(False, f"{type(o).__name__}: cannot be pickled", e)
    boot = f"import sys; sys.path[:0] = {[core.SRC, core.VERIF]!r}; sys.dont_write_bytecode = True; from rv import copies; copies.main()"
    try:
        res = subprocess.run([sys.executable, "-B", "-c", boot], input=pickle.dumps(send), capture_output=True, timeout=100, check=False,
                             env={k: v for k, v in os.environ.items() if not k.startswith("PYTHON")})
    except subprocess.TimeoutExpired as t:
        raise Inconclusive("no answer of the other process within 100 s") from t
    ctx.check(res.returncode == 0, "the other process cannot read the objects", res.stderr.decode("utf-8", "replace")[-1500:])
    back = pickle.loads(res.stdout)
    ctx.eq(len(back), len(batch), "objects that came back")
    for (kind, o, twin), (b, lines) in zip(batch, back):
        want = copies.seen(twin)
        compare(ctx, lines, want, f"{type(o).__name__} seen in another process")
        compare(ctx, copies.seen(pickle.loads(b)), want, f"{type(o).__name__} back from another process")
        ctx.count(kind)
        ctx.seen("process", repr(want))


NEED = ("ms3", "header", "ms2", "ms2 header", "identifier", "block", "segment", "error", "lines compared")
KINDS = [Kind("process", process, 60, 4000, need=NEED), Kind("objects", objects, 8000, 300000, need=NEED + ("copies changed", "originals changed", "gone on with"))]
