"""Merging miniSEED 3 records conserves samples and order"""
import io

from ..core import Kind
from .. import gen, mergegen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py"]
RULE = "a case is one distinct stream of records merged by the reader and pairwise; counted with the samples accounted for"


def padded(rng, m):
    """independent bytes, sometimes with a payload longer than the samples need"""
    data = ms3gen.to_ref(rng, m)
    if m["samples"] is not None and m["encoding"] < 10 and rng.random() < 0.1:
        r = ref.ms3_parse(data)
        r["payload"] += rng.randbytes(rng.choice([1, 4, 8, 64]))
        data = ref.ms3_build(r)
    return data


def case(rng, ctx):
    import simplemseed as s
    recs = mergegen.stream(rng)
    inputs = [m for m, _j in recs]
    blobs = [padded(rng, m) for m in inputs]
    outs = list(s.readMSeed3Records(io.BytesIO(b"".join(blobs)), merge=True, verbose=rng.random() < 0.1))
    sizes = mergegen.judge_outputs(ctx, inputs, outs, "read with merge")
    # pairwise, as a user would fold
    folded = []
    for b in blobs:
        rec = s.unpackMSeed3Record(b)
        if s.canDecompress(rec.header.encoding):
            rec = rec.decompressedRecord()
        folded += s.mseed3merge(folded.pop() if folded else None, rec)
    mergegen.judge_outputs(ctx, inputs, folded, "pairwise merge")
    # compressed records as they are
    raw = []
    for b in blobs:
        raw += s.mseed3merge(raw.pop() if raw else None, s.unpackMSeed3Record(b))
    mergegen.judge_outputs(ctx, inputs, raw, "pairwise merge without decompressing")
    # only one identifier, by pattern
    pick = rng.choice(inputs)["identifier"]
    some = [m for m in inputs if m["identifier"] == pick]
    import re
    outs = list(s.readMSeed3Records(io.BytesIO(b"".join(blobs)), merge=True, matchsid="^" + re.escape(pick) + "$",
                                   check_crc=rng.random() < 0.5, verbose=rng.random() < 0.2))
    mergegen.judge_outputs(ctx, some, outs, "read with merge and pattern")
    ctx.count("merged records", sum(1 for n in sizes if n > 1))
    ctx.count("outputs", len(sizes))
    ctx.seen(b"".join(blobs))
    ctx.sample(f"{len(inputs)} records -> groups of {sizes}, {sum(m['numSamples'] for m in inputs)} samples")


def long(rng, ctx):
    """many adjacent records of one channel, in memory types that are not bytes"""
    import simplemseed as s
    m = mergegen.first(rng)
    while m["sampleRatePeriod"] == 0:
        m = mergegen.first(rng)
    inputs, g, gn = [m], m, m["numSamples"]
    for _ in range(rng.randint(5, 40)):
        nxt, _ok = mergegen.follow(rng, m, g, gn, "none")
        inputs.append(nxt)
        gn += nxt["numSamples"]
    objs = [ms3gen.build(rng, dict(x))[1] for x in inputs]
    folded = []
    for o in objs:
        if s.canDecompress(o.header.encoding):
            o = o.decompressedRecord()
        folded += s.mseed3merge(folded.pop() if folded else None, o)
    sizes = mergegen.judge_outputs(ctx, inputs, folded, "fold of records made by the library")
    ctx.count("long merges")
    ctx.count("longest", max(sizes))
    ctx.seen(ms3gen.key(dict(enumerate(inputs))))


def empties(rng, ctx):
    """records without samples among others: samples and order of the others are kept"""
    import simplemseed as s
    recs = [m for m, _j in mergegen.stream(rng) if m["samples"] is not None]
    for _ in range(rng.randint(1, 3)):
        m = dict(rng.choice(recs))
        m.update(samples=None, payload=b"", numSamples=0, encoding=rng.choice([0, 1, 3, 4, 5, 10, 11]))
        recs.insert(rng.randint(0, len(recs)), m)
    data = b"".join(ms3gen.to_ref(rng, m) for m in recs)
    got, want = [], []
    for rec in s.readMSeed3Records(io.BytesIO(data), merge=True):
        r = ref.ms3_parse(bytes(rec.pack()))
        vals = ref.ms3_samples(r)
        ctx.eq(len(vals), r["numSamples"], "sample count of output")
        got += [(r["identifier"], ms3gen.samples_bits(r["encoding"], [v])) for v in vals]
    for m in recs:
        if m["samples"] is not None:
            want += [(m["identifier"], ms3gen.samples_bits(m["encoding"], [v])) for v in m["samples"]]
    ctx.check(got == want, "samples with empty records among them", len(got), len(want))
    # a record without samples that belongs to no other comes out as well
    lone = dict(rng.choice(recs))
    lone.update(samples=None, payload=b"", numSamples=0, encoding=rng.choice([0, 1, 3, 4, 5, 10, 11]), identifier="FDSN:LO_NE__L_O_G",
                eh={"lone": rng.randrange(10**9)})
    at = rng.randint(0, len(recs))
    mixed = recs[:at] + [lone] + recs[at:]
    data = b"".join(ms3gen.to_ref(rng, m) for m in mixed)
    outs = [r for r in s.readMSeed3Records(io.BytesIO(data), merge=True) if str(r.identifier) == lone["identifier"]]
    ctx.eq([r.eh for r in outs], [lone["eh"]], f"record without samples, encoding {lone['encoding']}, of its own identifier")
    ctx.eq(outs[0].header.numSamples, 0, "number of samples")
    ctx.count("streams with empty records")
    ctx.seen("empty", data)


KINDS = [
    Kind("streams", case, 4000, 200000, need=("samples conserved", "merged records")),
    Kind("long", long, 300, 15000, need=("long merges",)),
    Kind("empties", empties, 1500, 60000),
]
