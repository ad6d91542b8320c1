"""Random miniSEED 3 records, made through the library's API or by the independent writer, with a model of their content."""
import json
import struct
from datetime import datetime, timedelta, timezone

import numpy as np

from . import gen, ref

OPAQUE = (0, 100, 19, 2, 30, 33)


def start_fields(rng):
    """(year, yday, hour, minute, second, nanosecond)"""
    y, d = gen.year_day(rng, 1, 9998)
    h, m, s = gen.clock(rng)
    if rng.random() < 0.05:
        h, m, s = 23, 59, 60
    ns = rng.choice([0, 0, 999999999, 1, 1000, 500000000, rng.randint(0, 999999999), rng.randint(0, 999999) * 1000])
    return y, d, h, m, s, ns


def start_micros(f):
    return ref.micros(*f[:5], 0) + f[5] // 1000


def payload_samples(rng, n=None, encodings=(1, 3, 4, 5, 10, 11)):
    """(encoding, values)"""
    encoding = rng.choice(encodings)
    if n is None:
        n = rng.choice([1, 2, 3, rng.randint(1, 60), rng.randint(1, 300)])
    if encoding in (10, 11):
        vals = gen.ints(rng, n, 32 if encoding == 10 else 30)
        if encoding == 11 and not ref.fits(vals[0], 30):
            vals = gen.ints(rng, n, 29, -2**28, 2**28)
    else:
        vals = gen.typed(rng, encoding, n)
    return encoding, vals


def keep_in_range(m):
    """another year if start or end is not in the years 1 to 9999, as then they cannot be shown"""
    rate = m["sampleRatePeriod"]
    period = -rate if rate < 0 else 1 / rate if rate else 0
    start = start_micros(tuple(m[k] for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")))
    end = start + int(1e6 * period * (m["numSamples"] - 1))
    if not all(LOWEST <= us < HIGHEST for us in (start, end)):
        m["year"] = 5000
        m["dayOfYear"] = min(m["dayOfYear"], 365)


LOWEST, HIGHEST = ref.micros(1, 1, 0, 0, 0, 0), ref.micros(9999, 365, 23, 59, 58, 0)


def big_size(rng):
    """a payload size in bytes around multiples of 2^16, or well beyond"""
    return max(0, 65536 * rng.choice([1, 1, 1, 2, 3, 4]) + rng.choice([0, -4, 4, -40, -100, rng.randint(-70, 70), rng.randint(-65000, 65000)]))


def model(rng, n=None, encodings=(1, 3, 4, 5, 10, 11), opaque=0.08, big=0.004):
    """dict of all content of a record"""
    f = start_fields(rng)
    m = dict(
        identifier=gen.ident(rng),
        year=f[0], dayOfYear=f[1], hour=f[2], minute=f[3], second=f[4], nanosecond=f[5],
        sampleRatePeriod=float(gen.rate_period(rng)), flags=rng.choice([0, 0, 1, 2, 4, 7, 255, rng.randrange(256)]),
        publicationVersion=rng.choice([0, 1, 1, 4, 255, rng.randrange(256)]),
    )
    r = rng.random()
    m["eh"] = {} if r < 0.3 else gen.jobject(rng, 3)
    if r > 0.97:
        m["eh"] = {"big": rng.choice(["é" * 100, "x" * 60000, "é" * 9000]), "n": list(range(50))}
    if n is None and rng.random() < big:
        size = big_size(rng)
        enc = rng.choice([e for e in encodings if e in (1, 3)] or [100])
        if enc == 100 or rng.random() < opaque * 5:
            m.update(encoding=100, samples=None, payload=rng.randbytes(size), numSamples=rng.choice([0, size]))
        else:
            code, width = ref.PRIM[enc]
            size //= width
            m.update(encoding=enc, samples=list(struct.unpack(f"<{size}{code}", rng.randbytes(size * width))), payload=None, numSamples=size)
    elif rng.random() < opaque:
        m["encoding"] = rng.choice(OPAQUE)
        m["samples"] = None
        m["payload"] = rng.randbytes(rng.choice([0, 1, 5, 64, 200]))
        m["numSamples"] = rng.choice([0, 1, len(m["payload"]), 1000])
    else:
        m["encoding"], m["samples"] = payload_samples(rng, n, encodings)
        m["numSamples"] = len(m["samples"])
        m["payload"] = None
    keep_in_range(m)
    return m


def library_payload(rng, m):
    """(label, data argument for MSeed3Record, whether it sets encoding and count itself)"""
    import simplemseed as s
    enc, vals = m["encoding"], m["samples"]
    if vals is None:
        if enc == 0 and m["numSamples"] == 0 and not m["payload"] and rng.random() < 0.5:
            return "None", None, True
        return "bytes", rng.choice([bytes, bytearray])(m["payload"]), False
    if enc in (10, 11):
        packed = (s.encodeSteim1 if enc == 10 else s.encodeSteim2)(np.array(vals, dtype="i4"))
        if rng.random() < 0.5:
            return "segment", s.EncodedDataSegment(enc, packed, len(vals), rng.random() < 0.5), True
        return "bytes", rng.choice([bytes, bytearray])(packed), False
    k = rng.random()
    if k < 0.2:
        little = rng.random() < 0.5
        return "segment", s.EncodedDataSegment(enc, ref.prim_encode(enc, vals, little), len(vals), little), True
    if k < 0.35:
        return "bytes", ref.prim_encode(enc, vals, True), False
    if k < 0.55:
        # floats unless the header has an encoding
        return "list", list(vals), True if enc == 4 else None
    if k < 0.65 and enc == 3:
        return "int64", np.array(vals, dtype=rng.choice(["<i8", ">i8"])), True
    label, a = gen.np_typed(rng, enc, vals)
    return label, a, True


def build(rng, m):
    """(label, MSeed3Record) with the content of m"""
    import simplemseed as s
    h = s.MSeed3Header()
    how = set_start(rng, h, m, True)
    for k in ("flags", "publicationVersion"):
        if m[k] or rng.random() < 0.5:
            setattr(h, k, m[k])
    if m["sampleRatePeriod"] < 0 and rng.random() < 0.3:
        h.samplePeriod = -m["sampleRatePeriod"]
    elif rng.random() < 0.3:
        h.sampleRate = m["sampleRatePeriod"]
    else:
        h.sampleRatePeriod = m["sampleRatePeriod"]
    label, data, auto = library_payload(rng, m)
    r = rng.random()
    # what can be seen in the data may be left out of the header
    if not auto or r < 0.35:
        h.encoding = m["encoding"]
    if auto is False or r < 0.25 or 0.35 <= r < 0.45:
        h.numSamples = m["numSamples"]
    ident = m["identifier"]
    if ident.startswith("FDSN:") and rng.random() < 0.3:
        try:
            sid = s.FDSNSourceId.parse(ident)
            # abbreviated ids, of a network or station, are another class and not for records
            if isinstance(sid, s.FDSNSourceId):
                ident = sid
                how += " sid object"
        except s.fdsnsourceid.FDSNSourceIdException:
            pass
    eh = m["eh"]
    if not eh:
        eh = rng.choice([None, None, "", {}, "{}"])
    elif rng.random() < 0.5:
        eh = gen.jtext(rng, m["eh"])
        if len(eh.encode("utf-8")) > 65535:
            eh = json.dumps(m["eh"], ensure_ascii=False)
        how += " json text"
    else:
        eh = json.loads(json.dumps(m["eh"]))
        how += " dict"
    if isinstance(eh, dict) and len(json.dumps(eh).encode("utf-8")) > 65535:
        eh = json.dumps(eh, ensure_ascii=False)
    if eh and rng.random() < 0.2:
        rec = s.MSeed3Record(h, ident, data)
        rec.eh = eh
        how += " eh set later"
    else:
        rec = s.MSeed3Record(h, ident, data, eh)
    return f"{label} {how}", rec


ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=45)), timezone(timedelta(hours=-11)), timezone(timedelta(hours=14)), None]


def set_start(rng, h, m, fresh=False):
    """give header the start time of m in one of the ways there are; zeros need not be set in a fresh one"""
    f = tuple(m[k] for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond"))
    if f[4] == 60 or f[5] % 1000 or rng.random() < 0.3 or not 2 <= f[0] <= 9997:
        h.year, h.dayOfYear = f[:2]
        for k, v in zip(("hour", "minute", "second", "nanosecond"), f[2:]):
            if v or not fresh:
                setattr(h, k, v)
        return "fields"
    us = start_micros(f)
    tz = rng.choice(ZONES)
    dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    dt = dt.astimezone(tz) if tz is not None else dt.replace(tzinfo=None)
    if rng.random() < 0.5:
        h.starttime = dt
        return f"datetime {tz}"
    text = dt.isoformat()
    if tz is timezone.utc and rng.random() < 0.6:
        text = text.replace("+00:00", "Z")
    h.starttime = text
    return f"text {tz}"


def to_ref(rng, m, ehtext=None, pad=True):
    """bytes of the record by the independent writer"""
    r = dict(m)
    if m["samples"] is not None:
        enc = m["encoding"]
        if enc in (10, 11):
            d0 = rng.choice([0, rng.randint(-2**20, 2**20)])
            r["payload"] = ref.steim_encode(enc - 9, m["samples"], rng, d0, rng.choice([0.3, 1]), 0, rng.choice([0, 0, 0, 1]))
        else:
            r["payload"] = ref.prim_encode(enc, m["samples"], True)
            if pad and rng.random() < 0.08:
                # payload may be longer than the samples
                r["payload"] += rng.choice([bytes(8), rng.randbytes(rng.choice([1, 2, 3, 4, 8, 40]))])
    if ehtext is None:
        ehtext = gen.jtext(rng, m["eh"]) if m["eh"] else rng.choice(["", "", "{}", " {} "])
        if len(ehtext.encode("utf-8")) > 65535:
            ehtext = json.dumps(m["eh"], ensure_ascii=False)
    r["ehbytes"] = ehtext.encode("utf-8")
    return ref.ms3_build(r)


HEADER = ("year", "dayOfYear", "hour", "minute", "second", "nanosecond", "sampleRatePeriod", "flags", "encoding",
          "publicationVersion", "numSamples")


def judge_bytes(ctx, data, m, what="packed record"):
    """independent parse of data gives exactly m"""
    try:
        r = ref.ms3_parse(data)
    except (ref.RefError, ValueError, UnicodeDecodeError) as e:
        ctx.check(False, f"{what}: independent parser fails: {e}", bytes(data[:80]))
    ctx.eq(r["size"], len(data), f"{what}: size")
    ctx.check(r["crcok"], f"{what}: CRC is wrong")
    for k in HEADER:
        ctx.eq(r[k], m[k], f"{what}: {k}")
    ctx.check(bytes(data[16:24]) == struct.pack("<d", m["sampleRatePeriod"]), f"{what}: rate bits")
    ctx.eq(r["identifier"], m["identifier"], f"{what}: identifier")
    ctx.check(gen.jsame(r["eh"], m["eh"]), f"{what}: extra headers", r["eh"], m["eh"])
    if m["samples"] is None:
        ctx.eq(r["payload"], bytes(m["payload"]), f"{what}: payload")
    else:
        ctx.eq(samples_bits(r["encoding"], ref.ms3_samples(r)), samples_bits(m["encoding"], m["samples"]), f"{what}: samples")
    return r


def samples_bits(encoding, vals):
    return gen.bits(3 if encoding in (10, 11) else encoding, vals)


def judge_record(ctx, rec, m, what="record"):
    """a library record object has exactly the content m, by its public view"""
    h = rec.header
    for k in HEADER:
        ctx.eq(getattr(h, k), m[k], f"{what}: header {k}")
    ctx.eq(str(rec.identifier), m["identifier"], f"{what}: identifier")
    if m["samples"] is None:
        if m["payload"]:  # record made without data has no encoded bytes
            ctx.eq(bytes(rec.encodedDataBytes()), bytes(m["payload"]), f"{what}: payload")
    else:
        got = rec.decompress()
        ctx.eq(len(got), m["numSamples"], f"{what}: number of samples")
        ctx.eq(samples_bits(m["encoding"], gen.tolist(got)), samples_bits(m["encoding"], m["samples"]), f"{what}: samples")
    if m["year"] < 9999:
        us = start_micros(tuple(m[k] for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")))
        ctx.eq(ref.dt_micros(rec.starttime), us, f"{what}: starttime")


def judge_eh(ctx, rec, m, what="record"):
    eh = rec.eh
    ctx.check(gen.jsame(eh or {}, m["eh"]), f"{what}: extra headers", eh, m["eh"])


def describe(m):
    return (f"{m['identifier'][:30]} {m['year']},{m['dayOfYear']} {m['hour']}:{m['minute']}:{m['second']} ns {m['nanosecond']} "
            f"enc {m['encoding']} n {m['numSamples']} rate {m['sampleRatePeriod']} eh {len(m['eh'])}")


def key(m):
    return repr({k: v for k, v in m.items()})
