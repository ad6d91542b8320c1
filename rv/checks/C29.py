"""What a record prints about itself is what it holds"""
from datetime import datetime, timedelta, timezone

import numpy as np

from ..core import Kind
from .. import gen, ms2gen, ms3gen, ref
from . import C14, C26

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "seedcodec.py", "util.py"]
RULE = "a case is one distinct record, built, read or edited, whose texts were read back and compared with its content at several moments"


def judge3(rng, ctx, rec, m, data, what):
    show, eh = rng.random() < 0.6, rng.random() < 0.6
    text = rec.details(showExtraHeaders=eh, showData=show) if rng.random() < 0.8 else rec.details(eh, show)
    if eh and not show and rng.random() < 0.5:
        text = rec.details()
    blocks = C26.split_blocks(ctx, text, 3, what)
    ctx.eq(len(blocks), 1, f"{what}: first lines")
    C26.judge_block3(ctx, blocks[0], m, data, eh, show, what)
    line = rng.choice([rec.summary, rec.__str__, lambda: f"{rec}"])()
    C26.judge_summary3(ctx, line, m, what)
    ctx.eq(rec.encodingName().lower().startswith("unknown"), m["encoding"] not in C26.ENCODINGS, f"{what}: name of encoding")
    ctx.count("descriptions")


def edit3(rng, ctx, rec, m):
    import simplemseed as s
    h = rec.header
    k = rng.choice(["flags", "version", "start", "rate", "eh", "identifier"])
    if k == "flags":
        h.flags = m["flags"] = rng.choice([1 << rng.randrange(8), rng.randrange(256)])
    elif k == "version":
        h.publicationVersion = m["publicationVersion"] = rng.randrange(256)
    elif k == "start":
        f = ms3gen.start_fields(rng)
        y, d = gen.year_day(rng, 1900, 2100)
        m.update(year=y, dayOfYear=d, hour=f[2], minute=f[3], second=f[4], nanosecond=f[5])
        ms3gen.set_start(rng, h, m)
    elif k == "rate":
        m["sampleRatePeriod"] = rng.choice([20.0, 1.0, -1.0, -10.0, 0.5, 100.0, -0.01, 33.3, rng.uniform(0.01, 1000)])
        if m["sampleRatePeriod"] < 0 and rng.random() < 0.5:
            h.samplePeriod = -m["sampleRatePeriod"]
        else:
            h.sampleRatePeriod = m["sampleRatePeriod"]
    elif k == "eh":
        m["eh"] = gen.jobject(rng, 2)
        rec.eh = m["eh"] if rng.random() < 0.5 else gen.jtext(rng, m["eh"])
    else:
        m["identifier"] = gen.fdsn_id(rng)
        try:
            rec.identifier = s.FDSNSourceId.parse(m["identifier"]) if rng.random() < 0.5 else m["identifier"]
        except s.fdsnsourceid.FDSNSourceIdException:
            rec.identifier = m["identifier"]
    ctx.count(f"edited {k}")


def three(rng, ctx):
    import simplemseed as s
    m = C14.start_model(rng)
    m["identifier"] = rng.choice([m["identifier"].replace("\n", " "), gen.fdsn_id(rng)])
    if rng.random() < 0.6:
        label, rec = ms3gen.build(rng, m)
        data, how = None, "built"
    else:
        how = "read"
        label, data = "read", ms3gen.to_ref(rng, m)
        rec = s.unpackMSeed3Record(data)
    judge3(rng, ctx, rec, m, data, label)
    ctx.count(how)
    for _ in range(rng.choice([0, 1, 2, 3])):
        edit3(rng, ctx, rec, m)
        judge3(rng, ctx, rec, m, None, f"{label}, edited")
        if rng.random() < 0.3:
            judge3(rng, ctx, rec, m, bytes(rec.pack()), f"{label}, edited and packed")
            ctx.count("packed")
    if m["samples"] is not None and rng.random() < 0.3:
        rec = rec.decompressedRecord()
        m = dict(m, encoding={10: 3, 11: 3}.get(m["encoding"], m["encoding"]))
        judge3(rng, ctx, rec, m, None, f"{label}, decompressed")
        ctx.count("decompressed")
    c = rec.clone()
    judge3(rng, ctx, c, m, bytes(rec.pack()), f"{label}, clone")
    ctx.seen(label, ms3gen.key(m))
    ctx.sample(ms3gen.describe(m))


def judge2(rng, ctx, rec, r, what):
    show = rng.random() < 0.6
    text = rec.details(showData=show) if rng.random() < 0.8 else rec.details(show)
    if not show and rng.random() < 0.5:
        text = rec.details()
    blocks = C26.split_blocks(ctx, text, 2, what)
    ctx.eq(len(blocks), 1, f"{what}: first lines")
    C26.judge_block2(ctx, blocks[0], r, show, what)
    line = rng.choice([rec.summary, rec.__str__, lambda: f"{rec}"])()
    p = r["parsed"]
    C26.judge_summary2(ctx, line, p, what)
    sep = rng.choice([".", "_", "", " - "])
    for o in (rec, rec.header):
        ctx.eq(o.codes(sep), sep.join([p["net"], p["sta"], p["loc"], p["chan"]]), f"{what}: codes")
        ctx.eq(o.codes(), ".".join([p["net"], p["sta"], p["loc"], p["chan"]]), f"{what}: codes")
    ctx.eq((str(rec.identifier), str(rec.header.fdsnSourceId())), (ms2gen.sid(p),) * 2, f"{what}: identifier")
    ctx.count("descriptions")


def built2(rng):
    """record made by the library, with what it is expected to hold"""
    import simplemseed as s
    enc = rng.choice([1, 3, 4, 5])
    vals = gen.typed(rng, enc, rng.randint(1, 50))
    c = ms2gen.codes(rng)
    y, d = gen.year_day(rng, 1802, 2053)
    us = ref.micros(y, d, *gen.clock(rng), rng.choice([0, 999999, rng.randrange(1000000)]))
    rate = rng.choice([20.0, 100, 1.0, 0.1, 40, 0.01, rng.uniform(0.01, 500)])
    tz = rng.choice([timezone.utc, timezone(timedelta(hours=5, minutes=45)), None])
    dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    p = dict(c, quality=rng.choice("DRQM"), size=512, yday=d, year=y, numSamples=len(vals), rate=rate, actFlag=rng.randrange(256),
             ioFlag=rng.randrange(256), qualFlag=rng.randrange(256), encoding=enc, blockettes=[], btime=us)
    h = s.MiniseedHeader(c["net"], c["sta"], c["loc"], c["chan"], dt.astimezone(tz) if tz else dt.replace(tzinfo=None), 0, rate,
                         actFlag=p["actFlag"], ioFlag=p["ioFlag"], qualFlag=p["qualFlag"], dataquality=p["quality"])
    rec = s.MiniseedRecord(h, np.array(vals, dtype=gen.NPTYPE[enc]))
    return rec, dict(parsed=p, samples=vals)


def two(rng, ctx):
    import simplemseed as s
    if rng.random() < 0.3:
        rec, r = built2(rng)
        what = "built"
    else:
        (r, data), = C26.ms2models(rng, 1)
        rec = s.unpackMiniseedRecord(data)
        r = dict(r, parsed=dict(r["parsed"]))
        what = "read"
    judge2(rng, ctx, rec, r, what)
    h, p = rec.header, r["parsed"]
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice(["sta", "net", "loc", "chan", "quality", "actFlag", "ioFlag", "qualFlag", "start", "rate"])
        if k in ("sta", "net", "loc", "chan"):
            p[k] = ms2gen.codes(rng)[k]
            setattr(h, dict(sta="station", net="network", loc="location", chan="channel")[k], p[k])
        elif k == "quality":
            p[k] = h.dataquality = rng.choice("DRQM")
        elif k == "start":
            y, d = gen.year_day(rng, 1802, 2053)
            us = ref.micros(y, d, *gen.clock(rng), rng.choice([0, 999999, rng.randrange(1000000)]))
            p.update(btime=us - sum(b["micro"] for b in p["blockettes"] if b["num"] == 1001), yday=d)
            h.setStartTime(ref.micros_dt(us))
        elif k == "rate":
            if not p["rate"]:
                continue
            p["rate"] = rng.choice([20.0, 0.1, 1.0, 50.0, rng.uniform(0.01, 500)])
            h.setSampleRate(p["rate"])
        else:
            p[k] = rng.randrange(256)
            setattr(h, k, p[k])
        judge2(rng, ctx, rec, r, f"{what}, edited {k}")
        ctx.count(f"edited {k}")
    ctx.count("miniSEED 2 " + what)
    ctx.seen(what, repr(p))


def many(rng, ctx):
    """records with tens of thousands of samples"""
    import simplemseed as s
    if rng.random() < 0.5:
        while True:
            r = ms2gen.model(rng, exps=(14, 15, 16), encodings=(1, 3, 4, 5), empty=0)
            if len(r["samples"]) < 1500:
                continue
            for b in r["blockettes"]:
                if b["num"] == 1001:
                    b["micro"] = min(b["micro"], 99)
            data = ms2gen.build(r)
            if not r["parsed"]["rate"] or r["numSamples"] / r["parsed"]["rate"] < 1e10:
                break
        judge2(rng, ctx, s.unpackMiniseedRecord(data), r, "read, many samples")
        n = r["numSamples"]
    else:
        m = C14.start_model(rng)
        big = ms3gen.model(rng, n=rng.choice([3000, 12000, 70000]), encodings=(1, 3, 4, 5), opaque=0)
        m.update((k, big[k]) for k in ("samples", "encoding", "payload", "numSamples") if k in big)
        ms3gen.keep_in_range(m)
        rec = s.unpackMSeed3Record(ms3gen.to_ref(rng, m))
        judge3(rng, ctx, rec, m, None, "many samples")
        n = m["numSamples"]
    ctx.count("long records")
    ctx.seen(n, rng.random())


KINDS = [
    Kind("many", many, 60, 1500, need=("long records",)),
    Kind("three", three, 4000, 120000, need=("descriptions", "edited flags", "samples printed", "extra headers shown", "packed", "decompressed", "built", "read")),
    Kind("two", two, 4000, 120000, need=("edited start", "edited rate", "miniSEED 2 built", "miniSEED 2 read")),
]
