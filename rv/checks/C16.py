"""Valid miniSEED 2 from any writer is read correctly"""
import io
import re

from ..core import Kind
from .. import gen, ms2gen, ref

LEVEL = "exploration"
FILES = ["miniseed.py", "seedcodec.py"]
RULE = "a case is one distinct stream of records by the independent writer, all fields of each record read compared"


def note(ctx, r):
    ctx.count(f"{r['order']} endian headers")
    ctx.count(f"{'little' if r['little'] else 'big'} endian data")
    ctx.count(f"encoding {r['encoding']}")
    ctx.count(f"record length {1 << r['exp']}")
    ctx.count("blockettes", len(r["blockettes"]))
    if r["blockettes"][0]["num"] != 1000:
        ctx.count("blockette 1000 not first")
    if any("gap" in b for b in r["blockettes"]):
        ctx.count("gaps between blockettes")
    if r["second"] == 60:
        ctx.count("leap seconds")
    if not r["numSamples"]:
        ctx.count("records without samples")


class ReadOnly:
    """no more than read()"""

    def __init__(self, f):
        self.read = f.read


def long(rng, ctx):
    """records longer than 65536 bytes"""
    stream(rng, ctx, exps=(17, 17, 18, 19, 20), num=rng.choice([1, 1, 2]))
    ctx.count("long records")


def stream(rng, ctx, exps=None, num=None):
    import simplemseed as s
    recs, parts = [], []
    same = rng.random() < 0.3
    first = None
    for _ in range(num or rng.choice([1, 1, 2, 3, 5, 8])):
        r = ms2gen.model(rng, neg=rng.random() < 0.03, **({"exps": exps} if exps else {}))
        if same and first is not None:
            r.update({k: first[k] for k in ("net", "sta", "loc", "chan")} if rng.random() < 0.4 else ms2gen.near_codes(rng, first))
        if not same or first is None:
            first = r
        if recs and rng.random() < 0.05:
            # the very same record again
            r = dict(rng.choice(recs))
            ctx.count("repeated records")
        parts.append(ms2gen.build(r))
        recs.append(r)
        note(ctx, r)
    data = b"".join(parts)
    f = io.BytesIO(data)
    got = list(s.readMiniseed2Records(f))
    ctx.eq(len(got), len(recs), "number of records read")
    ctx.eq(f.tell(), len(data), "position after reading")
    for i, (rec, r) in enumerate(zip(got, recs)):
        ms2gen.judge_record(ctx, rec, r["parsed"], r["samples"], f"record {i}", known=True)
        ctx.eq(str(rec.identifier), ms2gen.sid(r["parsed"]), f"record {i}: identifier")
        ctx.eq(rec.codes(), ".".join((r["net"], r["sta"], r["loc"], r["chan"])), f"record {i}: codes")
    # one at a time, position at the end of each
    f = io.BytesIO(data)
    it = s.readMiniseed2Records(f)
    at = 0
    for i, r in enumerate(recs):
        rec = next(it)
        at += len(parts[i])
        ctx.eq(f.tell(), at, "position after record")
        ctx.eq(str(rec.identifier), ms2gen.sid(r["parsed"]), "identifier in order")
    # a single record from bytes
    i = rng.randrange(len(recs))
    one = s.unpackMiniseedRecord(rng.choice([bytes, bytearray])(parts[i]))
    ms2gen.judge_record(ctx, one, recs[i]["parsed"], recs[i]["samples"], "unpackMiniseedRecord", known=True)
    # filter
    pats = [".*", "FDSN:", recs[0]["sta"], "_" + recs[-1]["net"], "^" + recs[0]["net"], recs[0]["chan"][2] + "$", "^FDSN:[A-M]", "B_H_Z",
            "nosuch", recs[0]["loc"] + "_" + recs[0]["chan"][0], "|".join([recs[0]["sta"], recs[-1]["sta"]]), "_._._[ZNE]$", "^$"]
    a = rng.choice(recs)
    pats += [f"_{a['sta']}_", f"^FDSN:{a['net']}_", f"_{a['loc']}_._", re.escape(ms2gen.sid(a["parsed"])) + "$"]
    pat = rng.choice(pats)
    src = io.BytesIO(data)
    if rng.random() < 0.3:
        src = ReadOnly(src)  # such as a pipe
        ctx.count("read-only sources")
    elif rng.random() < 0.4:
        src = gen.Short(rng, data)
        ctx.count("short reads", 1)
    got = list(s.readMiniseed2Records(src, matchsid=pat))
    want = [r for r in recs if re.search(pat, ms2gen.sid(r["parsed"]))]
    ctx.eq(len(got), len(want), f"number of records matching {pat}")
    for rec, r in zip(got, want):
        ms2gen.judge_record(ctx, rec, r["parsed"], r["samples"], f"record matching {pat}", known=True)
    ctx.count("records", len(recs))
    ctx.count("matched", len(want))
    ctx.count("not matched", len(recs) - len(want))
    ctx.seen(data)
    ctx.sample("; ".join(ms2gen.describe(r) for r in recs))


def fields(rng, ctx):
    """each header field at the limits of its range, in each byte order, all else plain"""
    import simplemseed as s
    order = ["big", "little"][rng.index % 2]
    name, values = LIMITS[rng.index // 2 % len(LIMITS)]
    for v in values:
        r = dict(order=order, seq=b"000001", quality="D", sta="A", loc="", chan="BHZ", net="XX", year=2024, yday=60, hour=1, minute=2, second=3,
                 tenthMilli=4, numSamples=3, factor=20, mult=1, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0,
                 blockettes=[dict(num=1000), dict(num=1001, quality=9, micro=0, frames=0)], encoding=3, little=order == "little",
                 exp=9, samples=[7, -8, 9])
        if name in ("micro", "tq", "frames"):
            r["blockettes"][1][{"tq": "quality"}.get(name, name)] = v
        elif name == "b100":
            r["blockettes"].append(dict(num=100, rate=ms2gen.f32(v)))
        else:
            r[name] = v
        r["payload"] = ref.prim_encode(3, r["samples"], r["little"])
        data = ms2gen.build(r)
        rec = s.unpackMiniseedRecord(data)
        ms2gen.judge_record(ctx, rec, r["parsed"], r["samples"], f"{name} {v}", known=True)
        ctx.count("limits tried")
        ctx.seen(order, name, v)


def years(rng, ctx):
    """the byte order comes from the year: every year, each order; four years are the same either way and may be refused, not taken for another"""
    import simplemseed as s
    y = 1799 + rng.index // 2
    order = ["big", "little"][rng.index % 2]
    r = dict(order=order, seq=b"000001", quality="D", sta="A", loc="", chan="BHZ", net="XX", year=2024, yday=60, hour=1, minute=2, second=3,
             tenthMilli=4, numSamples=3, factor=20, mult=1, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0,
             blockettes=[dict(num=1000)], encoding=3, little=order == "little", exp=9, samples=[7, -8, 9])
    r["payload"] = ref.prim_encode(3, r["samples"], r["little"])
    data = bytearray(ms2gen.build(r))
    data[20:22] = y.to_bytes(2, order)
    # as old SEED has them, without blockettes and samples, the length not known
    bare = bytearray(data[:48])
    bare[39] = 0
    bare[30:32] = bare[44:46] = bytes(2)
    bare[46:48] = bytes(2)
    try:
        rec = next(s.readMiniseed2Records(io.BytesIO(bytes(bare) + bytes(4096 - 48))))
    except Exception:  # pylint: disable=broad-except
        ctx.count("bare headers refused")
    else:
        ctx.eq(tuple(rec.header.btime), (y, 60, 1, 2, 3, 4), f"year {y} {order} endian, bare header: time")
        ctx.count("bare headers read")
    try:
        recs = list(s.readMiniseed2Records(io.BytesIO(bytes(data))))
    except Exception as e:  # pylint: disable=broad-except
        ctx.check(y in ms2gen.NO_ORDER, f"year {y} {order} endian refused: {e}")
        ctx.count("years refused")
        return
    ctx.eq(len(recs), 1, "number of records")
    ctx.check(y not in ms2gen.NO_ORDER or recs[0].header.btime.year == y, f"year {y} {order} endian taken for another", recs[0].header.btime)
    p = dict(r["parsed"], year=y)
    p["btime"] = ref.micros(y, 60, 1, 2, 3, 400)
    ms2gen.judge_record(ctx, recs[0], p, r["samples"], f"year {y} {order} endian")
    ctx.count("years read")
    ctx.seen(y, order)


def parts(rng, ctx):
    """header and blockettes of a record taken one by one with the functions for them"""
    import simplemseed as s
    r = ms2gen.model(rng)
    data = ms2gen.build(r)
    p = r["parsed"]
    e = ">" if r["order"] == "big" else "<"
    form = rng.choice([bytes, bytearray])
    whole = rng.random() < 0.5
    h = s.unpackMiniseedHeader(form(data if whole else data[:48]), *([] if e == ">" and rng.random() < 0.5 else [e]))
    for a, b in ms2gen.FIELDS:
        if a == "encoding":  # is in blockette 1000 only
            continue
        got = getattr(h, b)
        ctx.eq(got.strip() if isinstance(got, str) else got, p[a], f"header alone: {b}")
    for a, b in (("numBlockettes",) * 2, ("dataOffset",) * 2, ("blocketteOffset",) * 2, ("factor", "sampRateFactor"), ("mult", "sampRateMult")):
        ctx.eq(getattr(h, b), p[a], f"header alone: {b}")
    ctx.eq(h.sequence_number, int(p["seq"]), "header alone: sequence number")
    ctx.eq(h.byteorder, s.BIG_ENDIAN if e == ">" else s.LITTLE_ENDIAN, "header alone: byte order")
    ctx.eq(tuple(h.btime), (p["year"], p["yday"], p["hour"], p["minute"], p["second"], p["tenthMilli"]), "header alone: btime")
    ctx.eq(ref.dt_micros(h.starttime), p["btime"], "header alone: start time")
    if p["factor"] and p["mult"]:
        ctx.check(ms2gen.near(h.sampleRate, ref.ms2_rate(p["factor"], p["mult"])), "header alone: sample rate", h.sampleRate, ref.ms2_rate(p["factor"], p["mult"]))
    ctx.eq(h.codes(), ".".join((p["net"], p["sta"], p["loc"], p["chan"])), "header alone: codes")
    order = list(p["blockettes"])
    rng.shuffle(order)
    for w in order:
        end = p["dataOffset"] or p["size"]
        if rng.random() < 0.5:
            b = s.unpackBlockette(form(data), w["offset"], e, end)
        else:
            # only the bytes of this blockette, as a reader has them
            own = data[w["offset"]:w["next"] or end]
            b = s.unpackBlockette(form(own[:2] + bytes(2) + own[4:]), 0, e, len(own))
            ctx.count("blockettes on their own")
        ctx.eq(b.blocketteNum, w["num"], "blockette alone: type")
        if w["num"] == 100:
            ctx.eq(ms2gen.f32(b.sampleRate), w["rate"], "blockette alone: rate")
        elif w["num"] == 1000:
            ctx.eq((b.encoding, b.byteorder, b.recLength), (w["encoding"], w["byteorder"], w["reclen"]), "blockette 1000 alone")
        elif w["num"] == 1001:
            ctx.eq((b.timeQuality, b.microseconds % 256, b.frameCount), (w["quality"], w["micro"], w["frames"]), "blockette 1001 alone")
        else:
            ctx.eq(bytes(b.rawBytes[4:]), w["body"], f"blockette {w['num']} alone: content")
        ctx.count("blockettes taken alone")
    ctx.count("headers taken alone")
    ctx.seen(data)


LIMITS = [
    ("seq", [b"000000", b"999999", b"100000", b"     1", b"1     ", b"012345"]),
    ("quality", list("DRQM")),
    ("year", [1801, 1899, 1900, 1970, 1999, 2000, 2038, 2039, 2047, 2048, 2054] + list(range(1802, 2054, 7))),
    ("yday", [1, 31, 32, 59, 60, 61, 365, 366, 255, 256, 257]),
    ("hour", list(range(24))), ("minute", [0, 1, 58, 59]), ("second", [0, 1, 59, 60]),
    ("tenthMilli", [0, 1, 255, 256, 9999, 5000, 32]),
    ("factor", [1, -1, 255, 256, -256, 32767, -32768, 2, 100]),
    ("mult", [1, -1, 255, 256, -256, 32767, -32768, 2, -10]),
    ("actFlag", [0, 1, 2, 4, 8, 16, 32, 64, 127, 128, 255]), ("ioFlag", [0, 1, 2, 4, 8, 16, 32, 64, 128, 255]),
    ("qualFlag", [0, 1, 2, 4, 8, 16, 32, 64, 128, 255]),
    ("timeCorr", [0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, -2**31, -32768, -65536]),
    ("micro", list(range(0, 128)) + list(range(206, 256))), ("tq", [0, 1, 99, 100, 127, 128, 255]), ("frames", [0, 1, 63, 127, 128, 255]),
    ("b100", [1, 20, 0.1, 1e-6, 1e6, 33.3333, 1 / 3, 1e9, 1e-9]),
    ("sta", ["A", "AB", "ABC", "ABCD", "ABCDE", "12345", "Z9"]), ("net", ["A", "1", "XX", "9Z"]), ("loc", ["", "0", "00", "A1"]),
    ("chan", ["BHZ", "123", "ZZZ", "LH1", "V00"]),
]

KINDS = [
    Kind("long", long, 60, 1500, need=("long records",)),
    Kind("stream", stream, 2500, 100000, need=("blockette 1000 not first", "gaps between blockettes", "little endian headers", "matched", "not matched")),
    Kind("parts", parts, 1500, 30000, need=("headers taken alone", "blockettes taken alone", "blockettes on their own")),
    Kind("years", years, 2 * 505, 2 * 505, need=("years read", "bare headers read"), exhaustive=True),
    Kind("fields", fields, 2 * len(LIMITS), 2 * len(LIMITS), need=("limits tried",), exhaustive=True),
]
