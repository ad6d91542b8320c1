"""Reading a miniSEED 3 stream yields every record once, in order"""
import io
import os
import re
import tempfile
import threading

from ..core import Kind
from .. import gen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py"]
RULE = "a case is one distinct stream of records read with one pattern; counted with the records yielded and compared"


def stream(rng):
    n = rng.choice([0, 1, 2, 3, 5, rng.randint(1, 15)])
    ids = [gen.ident(rng) for _ in range(rng.randint(1, 4))] + ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_H_H_Z"]
    out = []
    for _ in range(n):
        m = ms3gen.model(rng, n=rng.choice([1, 2, 5, 40]))
        if rng.random() < 0.005:
            m.update(encoding=100, samples=None, numSamples=0, payload=rng.randbytes(ms3gen.big_size(rng)))
        m["identifier"] = rng.choice(ids)
        if m["eh"] and "big" in m["eh"] and rng.random() < 0.7:
            m["eh"] = {}
        if rng.random() < 0.15:
            # payload that looks like a record
            m.update(encoding=100, samples=None, numSamples=0, payload=b"MS\x03" + bytes(37))
        if rng.random() < 0.1:
            # nothing, or next to nothing, in it
            m.update(encoding=rng.choice([0, 3, 100]), samples=None, numSamples=0, payload=b"", eh={})
            for k, v in (("identifier", ""), ("publicationVersion", 0), ("flags", 0)):
                if rng.random() < 0.75:
                    m[k] = v
        ms3gen.keep_in_range(m)
        out.append((m, ms3gen.to_ref(rng, m)))
    if out and rng.random() < 0.3:
        out.insert(rng.randrange(len(out)), rng.choice(out))  # the very same record twice
    return out


def pattern(rng, recs):
    r = rng.random()
    if r < 0.25 or not recs:
        return rng.choice([None, None, "", ".", "nothing", ".*", "^FDSN:", "$"])
    ident = rng.choice(recs)[0]["identifier"]
    if r < 0.4:
        return re.escape(ident)
    if r < 0.5:
        return "^" + re.escape(ident) + "$"
    if r < 0.7:
        a = rng.randint(0, len(ident))
        return re.escape(ident[a:a + rng.randint(0, 8)])
    if r < 0.8:
        return "|".join(re.escape(rng.choice(recs)[0]["identifier"]) for _ in range(2))
    if r < 0.9:
        return rng.choice(["BIRD.*Z$", "_[ZN]$", "(?i)bird", "CO_(BIRD|JSC)_", "^(?!FDSN)", r"\d\d", "H_H_Z", "^FDSN:CO_BIRD_00_H_H_[NE]"])
    return re.escape(ident[-rng.randint(1, 6):]) + "$" if ident else "^$"


def huge(rng, ctx):
    """some of the records are of megabytes"""
    recs = stream(rng)[:4]
    for _ in range(rng.choice([1, 1, 2])):
        m = ms3gen.model(rng, n=2)
        size = rng.choice([1 << 20, 1 << 21, rng.randint(1 << 20, 5 << 20)]) + rng.choice([0, 1, -1, 40])
        m.update(encoding=100, samples=None, numSamples=0, payload=rng.randbytes(size))
        ms3gen.keep_in_range(m)
        recs.insert(rng.randint(0, len(recs)), (m, ms3gen.to_ref(rng, m)))
    case(rng, ctx, recs)
    ctx.count("records of megabytes")


def case(rng, ctx, recs=None):
    import simplemseed as s
    recs = stream(rng) if recs is None else recs
    pat = pattern(rng, recs)
    want = [(i, m, b) for i, (m, b) in enumerate(recs) if pat is None or re.search(pat, m["identifier"])]
    ends = []
    pos = 0
    for _m, b in recs:
        pos += len(b)
        ends.append(pos)
    data = b"".join(b for _m, b in recs)
    tmp = None
    if rng.random() < 0.4:
        tmp = tempfile.NamedTemporaryFile(dir=os.environ.get("RV_SCRATCH"))
        tmp.write(data)
        tmp.flush()
    try:
        for crc in (True, False):
            skip = rng.choice([0, 0, rng.randint(1, 9)])
            verbose = rng.random() < 0.15
            if tmp is not None:
                f = open(tmp.name, "rb", buffering=rng.choice([-1, 0, 16]))
                skip = 0
            else:
                f = io.BytesIO(bytes(skip) + data)
                f.seek(skip)
            with f:
                got = 0
                for rec in s.readMSeed3Records(f, check_crc=crc, matchsid=pat, verbose=verbose):
                    ctx.check(got < len(want), "more records than match", got, len(want))
                    i, m, b = want[got]
                    ctx.eq(str(rec.identifier), m["identifier"], f"identifier of record {got}")
                    ctx.eq(bytes(rec.pack()), b, f"record {got} bytes")
                    ctx.eq(f.tell() - skip, ends[i], f"position after record {got}")
                    if rng.random() < 0.2:
                        ms3gen.judge_record(ctx, rec, m, "streamed record")
                    got += 1
                    ctx.count("records yielded")
                ctx.eq(got, len(want), "number of records")
                ctx.eq(f.tell() - skip, len(data), "position at the end")
        ctx.count("records skipped", len(recs) - len(want))
        # all kept until the end are still as they were
        held = list(s.readMSeed3Records(io.BytesIO(data), matchsid=pat))
        for rec, (_i, m, b) in zip(held, want):
            ctx.eq(bytes(rec.pack()), b, "record kept until the stream was read")
        # one at a time from several readers on the same file object
        f = io.BytesIO(data)
        for k, (m, b) in enumerate(recs):
            rec = next(s.readMSeed3Records(f))
            ctx.eq(bytes(rec.pack()), b, f"record {k} by its own reader")
            ctx.count("fresh readers")
    finally:
        if tmp is not None:
            tmp.close()
    ctx.seen(data, pat)
    ctx.sample(f"{len(recs)} records, {len(data)} bytes, pattern {pat!r}: {len(want)} yielded")


def piped(rng, ctx):
    """streams that can only be read: a pipe whose writer delivers in pieces, and bare readers"""
    import simplemseed as s
    recs = stream(rng)
    pat = pattern(rng, recs)
    want = [(m, b) for m, b in recs if pat is None or re.search(pat, m["identifier"])]
    data = b"".join(b for _m, b in recs)
    more = rng.randbytes(rng.choice([0, 5]))  # what follows is not for a reader that has its records
    how = rng.choice(["pipe", "raw pipe", "bare", "short"])
    crc = rng.random() < 0.6
    verbose = rng.random() < 0.15
    if how == "bare":

        class Bare:
            """no more than read()"""

            def __init__(self, b):
                self.read = io.BytesIO(b).read
        got = list(s.readMSeed3Records(Bare(data), matchsid=pat, verbose=verbose, check_crc=crc))
    elif how == "short":
        src = gen.Short(rng, data + more)
        it = s.readMSeed3Records(src, matchsid=pat, verbose=verbose, check_crc=crc)
        got, at = [next(it) for _ in want], src.at
        if want and want[-1][1] is recs[-1][1]:
            ctx.eq(at, len(data), "position after the last record")
        if not more:
            ctx.eq([str(x) for x in it], [], "more records than match")
    else:
        r, w = os.pipe()
        cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.choice([0, 1, 3, 10])))

        def writer():
            with open(w, "wb", buffering=0) as out:
                for a, b in zip([0] + cuts, cuts + [len(data)]):
                    out.write(data[a:b])
                out.write(more)
        t = threading.Thread(target=writer)
        t.start()
        with open(r, "rb", buffering=0 if how == "raw pipe" else -1) as f:
            try:
                it = s.readMSeed3Records(f, matchsid=pat, verbose=verbose, check_crc=crc)
                got = [next(it) for _ in want]
                if want and recs and want[-1][1] is recs[-1][1]:
                    ctx.eq(f.read(), more, "what follows the last record taken")
                    ctx.count("rest compared")
                elif not more:
                    ctx.eq([str(x) for x in it], [], "more records than match")
            finally:
                f.read()
                t.join()
    ctx.eq(len(got), len(want), "number of records")
    for k, (rec, (m, b)) in enumerate(zip(got, want)):
        ctx.eq(str(rec.identifier), m["identifier"], f"identifier of record {k}")
        ctx.eq(bytes(rec.pack()), b, f"record {k} bytes")
        ctx.count("records yielded")
    ctx.count(how)
    if len(want) < len(recs):
        ctx.count("records skipped")
    ctx.seen(how, data, pat)


KINDS = [Kind("huge", huge, 30, 600, need=("records of megabytes",)),
         Kind("piped", piped, 2000, 80000, need=("pipe", "raw pipe", "bare", "short", "records yielded", "records skipped", "rest compared")),
         Kind("streams", case, 10000, 300000, need=("records yielded", "records skipped", "fresh readers"))]
