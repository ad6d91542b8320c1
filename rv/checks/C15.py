"""miniSEED 2 records survive writing, reading and rewriting"""
import io
import struct
from datetime import datetime, timedelta, timezone

import numpy as np

from ..core import Kind
from .. import gen, ms2gen, ref

LEVEL = "exploration"
FILES = ["miniseed.py", "seedcodec.py"]
RULE = "a case is one distinct record: built with the library and parsed independently, or made independently, read, packed and parsed again"

ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=45)), timezone(timedelta(hours=-11)), None]


def payload(rng, m, cap):
    """(label, data argument, values, header keyword arguments)"""
    import simplemseed as s
    enc = m["encoding"]
    vals = ms2gen.samples_fit(rng, enc, cap, full=rng.random() < 0.15)
    kw = {}
    if enc in (10, 11):
        while vals:
            data = bytes((s.encodeSteim1 if enc == 10 else s.encodeSteim2)(np.array(vals, dtype="i4")))
            if len(data) <= cap // 64 * 64:
                break
            vals = vals[:len(vals) // 2]
        if not vals:
            return None
        if rng.random() < 0.6:
            return "segment", s.EncodedDataSegment(enc, rng.choice([bytes, bytearray])(data), len(vals), False), vals, kw
        kw.update(encoding=enc, numSamples=len(vals))
        return "bytes", data, vals, kw
    if not vals:
        return None
    k = rng.random()
    if k < 0.2:
        little = rng.random() < 0.5
        return "segment", s.EncodedDataSegment(enc, ref.prim_encode(enc, vals, little), len(vals), little), vals, kw
    if k < 0.3:
        kw.update(encoding=enc, numSamples=len(vals))
        return "bytes", ref.prim_encode(enc, vals, m["order"] == "little"), vals, kw
    if k < 0.5:
        if enc != 4 or rng.random() < 0.5:
            kw.update(encoding=enc)  # floats if left out
        return "list", list(vals), vals, kw
    if rng.random() < 0.4:
        kw.update(encoding=enc, numSamples=len(vals))
    label, a = gen.np_typed(rng, enc, vals)
    return label.split("/")[0], a, vals, kw


def ours(rng, ctx):
    import simplemseed as s
    from simplemseed.miniseed import Blockette100, Blockette1001, BlocketteUnknown
    m = ms2gen.model(rng, empty=0, encodings=(1, 3, 4, 5, 10, 11))
    m.update(ms2gen.codes(rng), encoding=rng.choice([1, 3, 4, 5, 10, 11]))
    size = 1 << m["exp"]
    rate = rng.choice([20.0, 100, 1.0, 0.1, 40, 200.0, 1 / 60, 33.333, 1000, rng.uniform(0.01, 500), ms2gen.written_rate(rng)])
    us = ref.micros(m["year"], m["yday"], m["hour"], m["minute"], min(m["second"], 59), rng.choice([0, 999999, 99, rng.randrange(1000000)]))
    us = max(us, ref.micros(1801, 1, 0, 1, 0, 0))
    bl, want_bl, b1001 = [], [], False
    length = 48 + 8
    for k in rng.sample(["100", "1001", "other", "1000"], rng.choice([0, 1, 2, 3, 4])):
        want_bl.append(k)
        length += {"100": 12, "1001": 8, "other": 0, "1000": 0}[k]
        if k == "other":
            body = rng.randbytes(rng.choice([4, 8, 20]))
            want_bl[-1] = ("other", body)
            length += 4 + len(body)
    if length > size:
        return
    if m["encoding"] in (10, 11):
        length = (length + 63) // 64 * 64
    got = payload(rng, m, size - length)
    if got is None:
        return
    label, data, vals, kw = got
    dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    tz = rng.choice(ZONES)
    given = dt.replace(tzinfo=None) if tz is None else dt.astimezone(tz)
    if rng.random() < 0.3:
        given = given.isoformat()
    n = kw.pop("numSamples", 0)
    h = s.MiniseedHeader(m["net"], m["sta"], m["loc"], m["chan"], given, n, rate, byteorder=1 if m["order"] == "big" else 0,
                         actFlag=m["actFlag"], ioFlag=m["ioFlag"], qualFlag=m["qualFlag"], timeCorr=m["timeCorr"],
                         sequence_number=int(m["seq"]), dataquality=m["quality"], **kw)
    h.recordLengthExp, h.recordLength = m["exp"], size
    rec = s.MiniseedRecord(h, data)
    quality, frames = rng.randrange(256), rng.randrange(256)
    rate100 = rate
    for k in want_bl:
        if k == "100":
            if rng.random() < 0.5:
                bl.append(rec.createB100())
            else:
                # may be more exact than header
                rate100 = rate * rng.choice([1, 1.0001, 0.999])
                bl.append(Blockette100(100, 0, rate100))
        elif k == "1001":
            b1001 = True
            bl.append(rec.createB1001()._replace(timeQuality=quality, frameCount=frames) if rng.random() < 0.7 else
                      Blockette1001(1001, 0, quality, us % 100, frames))
        elif k == "1000":
            b = rec.createB1000()
            if rng.random() < 0.3:
                # made for something else, what is packed is said by the header
                b = b._replace(encoding=rng.choice([1, 3, 4, 11]), byteorder=rng.choice([0, 1]), recLength=rng.choice([8, 9, 12]))
                ctx.count("stale blockettes 1000")
            bl.append(b)
        else:
            bl.append(BlocketteUnknown(400, 0, bytes(4) + k[1]))
    rec.blockettes.extend(bl)
    packed = bytes(rec.pack())
    ctx.eq(len(packed), size, "packed length is not the record length")
    try:
        p = ref.ms2_parse(packed)
    except ref.RefError as e:
        ctx.check(False, f"packed record is not valid: {e}")
    for k in ("sta", "net", "loc", "chan", "quality", "actFlag", "ioFlag", "qualFlag", "timeCorr", "order", "encoding"):
        ctx.eq(p[k], m[k], f"packed {k}")
    ctx.eq(int(p["seq"]), int(m["seq"]), "packed sequence number")
    ctx.eq(p["numSamples"], len(vals), "packed number of samples")
    start = sum(b["micro"] for b in p["blockettes"] if b["num"] == 1001) + p["btime"]
    ctx.eq(start, us if b1001 else us - us % 100, "packed start time")
    ctx.check(ms2gen.near(ref.ms2_rate(p["factor"], p["mult"]), rate, 1e-4), "packed rate", p["factor"], p["mult"], rate)
    want = [k[0] if isinstance(k, tuple) else k for k in want_bl]
    if "1000" not in want:
        want.insert(0, "1000")
    ctx.eq([{400: "other"}.get(b["num"], str(b["num"])) for b in p["blockettes"]], want, "packed blockettes")
    for b in p["blockettes"]:
        if b["num"] == 100:
            ctx.eq(b["rate"], ms2gen.f32(rate100), "packed blockette 100")
        elif b["num"] == 1001:
            ctx.eq((b["quality"], b["frames"], b["micro"]), (quality, frames, us % 100), "packed blockette 1001")
        elif b["num"] == 400:
            body = [k[1] for k in want_bl if isinstance(k, tuple)][0]
            ctx.check(b["body"].startswith(body), "packed other blockette", b["body"], body)
    ctx.eq(ms2gen.bits(p["encoding"], ref.ms2_samples(p)), ms2gen.bits(m["encoding"], vals), "packed samples")
    back = list(s.readMiniseed2Records(io.BytesIO(packed)))
    ctx.eq(len(back), 1, "records read back")
    ms2gen.judge_record(ctx, back[0], p, vals, "read back")
    ctx.eq(bytes(rec.pack()), packed, "packing again")
    c = rec.clone()
    ms2gen.judge_record(ctx, c, p, vals, "clone")
    rewrite(rng, ctx, back[0], p, vals)
    ctx.count("data from " + label)
    ctx.count(f"encoding {m['encoding']}")
    ctx.count("blockettes", len(want))
    ctx.count("full records" if len(vals) * {1: 2, 3: 4, 4: 4, 5: 8}.get(m["encoding"], 99) > size - length - 8 else "partly filled records")
    ctx.seen(label, packed)
    ctx.sample(f"{label}: {ms2gen.describe(m)} n {len(vals)} {want}")


def rewrite(rng, ctx, rec, p, samples):
    """read, decompress or not, pack, any number of times"""
    import simplemseed as s
    for k in range(rng.choice([1, 1, 2, 4])):
        if rng.random() < 0.5:
            rec.decompress()
            ctx.count("decompressed before packing")
        if rng.random() < 0.2 and p["rate"] > 1e-3:  # the end is a date
            rec.summary()
            rec.details(showData=samples is not None and rng.random() < 0.3)
        data = bytes(rec.pack())
        ms2gen.judge_rewritten(ctx, data, p, samples, f"rewrite {k}")
        ctx.count("rewrites")
        k = rng.random()
        if k < 0.5:
            rec = s.unpackMiniseedRecord(data)
        elif k < 0.7:
            rec = rec.clone()


def theirs(rng, ctx):
    import simplemseed as s
    r = ms2gen.model(rng, neg=rng.random() < 0.05)
    if r["payload"] is None and r["factor"] == 0:
        r["factor"], r["mult"] = 20, 1
    data = ms2gen.build(r)
    rec = s.unpackMiniseedRecord(data)
    rewrite(rng, ctx, rec, r["parsed"], r["samples"])
    ctx.count(f"{r['order']} headers, {'little' if r['little'] else 'big'} data")
    ctx.count(f"encoding {r['encoding']}")
    ctx.seen(data)
    ctx.sample(ms2gen.describe(r))


def edited(rng, ctx):
    """read, change header fields, pack: exactly those fields are changed"""
    import simplemseed as s
    r = ms2gen.model(rng)
    if r["payload"] is None and r["factor"] == 0:
        r["factor"], r["mult"] = 20, 1
    rec = s.unpackMiniseedRecord(ms2gen.build(r))
    p = dict(r["parsed"])
    h = rec.header
    for k in rng.sample(["sta", "net", "loc", "chan", "quality", "actFlag", "ioFlag", "qualFlag", "timeCorr", "seq", "start"], rng.choice([1, 2, 4])):
        if k in ("sta", "net", "loc", "chan"):
            p[k] = ms2gen.codes(rng)[k]
            if k == "chan" and rng.random() < 0.3:
                p[k] = gen.code(rng, 1, 2)
            setattr(h, dict(sta="station", net="network", loc="location", chan="channel")[k], p[k])
        elif k == "quality":
            p[k] = h.dataquality = rng.choice("DRQM")
        elif k == "timeCorr":
            p[k] = h.timeCorr = rng.randint(-2**31, 2**31 - 1)
        elif k == "seq":
            h.sequence_number = rng.randint(0, 999999)
            p["seq"] = b"%06d" % h.sequence_number
        elif k == "start":
            micro = sum(b.microseconds for b in rec.blockettes if b.blocketteNum == 1001)
            y, d = gen.year_day(rng, 1802, 2053)
            hh, mi, ss = gen.clock(rng)
            tenth = rng.randint(0, 9999)
            p.update(year=y, yday=d, hour=hh, minute=mi, second=ss, tenthMilli=tenth)
            h.setStartTime(ref.micros_dt(ref.micros(y, d, hh, mi, ss, tenth * 100) + micro))
        else:
            v = rng.randrange(256)
            p[k] = v
            setattr(h, k, v)
        ctx.count(f"edited {k}")
    ms2gen.judge_rewritten(ctx, bytes(rec.pack()), p, r["samples"], "edited record")
    if len(p["chan"]) == 3:  # a shorter one has no source identifier
        rec2 = s.unpackMiniseedRecord(rec.pack())
        ms2gen.judge_rewritten(ctx, bytes(rec2.pack()), p, r["samples"], "edited record, read and packed")
    else:
        ctx.count("short channel codes")
    ctx.seen(ms2gen.key(r), repr(p))


def misfit(rng, ctx):
    """what does not fit raises, what just fits does not"""
    import simplemseed as s
    from simplemseed.miniseed import BlocketteUnknown
    exp = rng.choice([7, 8, 9, 9, 10, 12])
    size = 1 << exp
    kw = dict(net="CO", sta="BIRD", loc="00", chan="HHZ")
    enc = rng.choice([1, 3, 4, 5, 10, 11])
    start = 64 if enc in (10, 11) else 56
    width = {1: 2, 3: 4, 4: 4, 5: 8}.get(enc, 64)
    cap = (size - start) // width
    over = rng.random() < 0.5
    what = rng.choice(["data", "data", "blockette", "code", "seq", "timeCorr", "flag", "count"])
    n = cap + (rng.choice([1, 1, 2, cap]) if over else rng.choice([0, 0, 0, -1])) if what == "data" else 1
    n = max(n, 1)
    if enc in (10, 11):
        nbytes = n * 64
        vals = [0] * (n * 20)
        data = s.EncodedDataSegment(enc, bytes(nbytes), 0, False)
        n = 0
    else:
        data = np.arange(n).astype(gen.NPTYPE[enc])
    extra, body = dict(seq=1, timeCorr=0, flag=0), 0
    bl = []
    if what == "blockette":
        room = size - 56 - (64 if enc in (10, 11) else n * width)
        body = max(4, room - 4 + (rng.choice([1, 4, 64, 5000]) if over else -rng.choice([0, 1, 8])))
        if enc in (10, 11):
            # data start is aligned
            body = size - 56 - 4 - 63 + rng.choice([0, 10]) if over else max(4, size - 64 - 56 - 4)
        if 56 + 4 + body > size - (64 if enc in (10, 11) else n * width):
            over = True
        bl = [BlocketteUnknown(400, 0, bytes(4 + body))]
    elif what == "code":
        k = rng.choice(list(kw))
        kw[k] = kw[k].ljust(dict(net=2, sta=5, loc=2, chan=3)[k], "A") + ("X" if over else "")
    elif what == "seq":
        extra["seq"] = rng.choice([1000000, 9999999]) if over else 999999
    elif what == "timeCorr":
        extra["timeCorr"] = rng.choice([2**31, -2**31 - 1]) if over else rng.choice([2**31 - 1, -2**31])
    elif what == "flag":
        extra["flag"] = rng.choice([256, -1, 1000]) if over else 255
    elif what == "count":
        if not over:
            return
        enc, n = 1, rng.choice([65536, 70000, 131072])
        exp, size = 18, 1 << 18
        data = np.zeros(n, dtype="i2")
    # what is too much may be refused when the record is made, or packed
    try:
        h = s.MiniseedHeader(kw["net"], kw["sta"], kw["loc"], kw["chan"], "2024-02-29T12:00:00Z", 0, 20.0, timeCorr=extra["timeCorr"],
                             actFlag=extra["flag"], sequence_number=extra["seq"])
        h.recordLengthExp, h.recordLength = exp, size
        rec = s.MiniseedRecord(h, data, blockettes=bl)
        packed = bytes(rec.pack())
    except (s.MiniseedException, struct.error, s.CodecException, ValueError) as e:
        ctx.check(over, f"{what} that fits is refused: {e}", enc, n, size)
        ctx.count(f"refused {what}")
        ctx.seen(what, over, enc, n, exp, body)
        return
    ctx.check(not over, f"{what} that does not fit is accepted", enc, n, size, kw, extra)
    ctx.eq(len(packed), size, f"packed length, {what}")
    p = ref.ms2_parse(packed)
    ctx.eq(p["numSamples"], n, f"{what}: samples")
    if n:
        ctx.eq(ms2gen.bits(enc, ref.ms2_samples(p)), ms2gen.bits(enc, gen.tolist(data)), f"{what}: samples")
    for k in kw:
        ctx.eq(p[k], kw[k], f"{what}: {k}")
    ctx.eq((int(p["seq"]), p["timeCorr"], p["actFlag"]), (extra["seq"], extra["timeCorr"], extra["flag"]), f"{what}: values")
    ctx.count(f"fits {what}")
    ctx.seen(what, over, enc, n, exp, body)


KINDS = [
    Kind("ours", ours, 6000, 300000, need=("rewrites", "encoding 10", "encoding 1", "data from segment")),
    Kind("theirs", theirs, 4000, 200000, need=("rewrites", "decompressed before packing")),
    Kind("edited", edited, 3000, 100000, need=("edited start", "edited sta", "short channel codes")),
    Kind("misfit", misfit, 4000, 100000, need=("refused data", "fits data", "refused blockette", "refused code", "refused count")),
]
