"""Start, end, rate and period are consistent, in both formats"""


import struct
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np

from ..core import Kind
from .. import gen, ms2gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py"]
RULE = "a case is one distinct start time with its form, rate value, month of the calendar or factor and multiplier"

# none of them a whole number of hours only; some with seconds, as historical local times have
OFFSETS = [0, 0, 0, 345 * 60, -660 * 60, 840 * 60, -720 * 60, 60, -60, 30 * 60, 3208, -17762]


def aware(us, tz):
    dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    return dt.replace(tzinfo=None) if tz is None else dt.astimezone(tz)


def pick_us(rng, lo, hi):
    y, yday = gen.year_day(rng, lo, hi)
    h, mi, s = gen.clock(rng)
    micro = rng.choice([0, 999999, 500, 1, 99, 100, 999900, rng.randrange(1000000), rng.randrange(1000000)])
    return ref.micros(y, yday, h, mi, s, micro)


def text_of(rng, dt, us):
    """(form, text) for this instant"""
    if dt.tzinfo is None:
        z = ""
    elif dt.utcoffset() == timedelta(0) and rng.random() < 0.7:
        z = "Z"
    else:
        z = dt.isoformat()[len(dt.replace(tzinfo=None).isoformat()):]
    naive = dt.replace(tzinfo=None)
    forms = [("T", naive.isoformat()), ("space", naive.isoformat(" ")), ("micros", naive.isoformat(timespec="microseconds"))]
    if us % 1000 == 0:
        forms.append(("millis", naive.isoformat(timespec="milliseconds")))
    if us % 1000000 == 0:
        forms.append(("basic", naive.strftime("%Y%m%dT%H%M%S").rjust(15, "0")))
        if naive.second == 0:
            forms.append(("minutes", naive.isoformat(timespec="minutes")))
    if dt.tzinfo is None and naive.time() == datetime.min.time():
        forms.append(("date", naive.date().isoformat()))
    f, t = rng.choice(forms)
    if f == "basic" and z and z != "Z":
        z = z.replace(":", "")
    return f, t + z


def judge_fields3(ctx, h, us, what):
    y, d, hh, mi, s, micro = ref.fields_of(us)
    ctx.eq((h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond), (y, d, hh, mi, s, micro * 1000), f"{what}: fields")
    ctx.check(h.starttime.utcoffset() == timedelta(0), f"{what}: start time is in UTC")
    ctx.eq(ref.dt_micros(h.starttime), us, f"{what}: starttime")
    p = bytes(h.pack())
    got = (int.from_bytes(p[8:10], "little"), int.from_bytes(p[10:12], "little"), p[12], p[13], p[14], int.from_bytes(p[4:8], "little"))
    ctx.eq(got, (y, d, hh, mi, s, micro * 1000), f"{what}: packed fields")


def judge_fields2(ctx, h, us, what):
    y, d, hh, mi, s, micro = ref.fields_of(us)
    ctx.eq(tuple(h.btime), (y, d, hh, mi, s, micro // 100), f"{what}: btime")
    ctx.check(h.starttime.utcoffset() == timedelta(0), f"{what}: start time is in UTC")
    ctx.eq(ref.dt_micros(h.starttime), us, f"{what}: starttime")
    p = bytes(h.pack())
    c = ">" if h.byteorder == 1 else "<"
    ctx.eq(struct.unpack(c + "HHBBBxH", p[20:30]), (y, d, hh, mi, s, micro // 100), f"{what}: packed btime")


def starts(rng, ctx):
    """start given as text or datetime in any zone"""
    import simplemseed as s
    two = rng.random() < 0.5
    us = pick_us(rng, 1801 if two else 2, 2054 if two else 9997)
    off = rng.choice(OFFSETS + [None, None])
    tz = None if off is None else timezone(timedelta(seconds=off))
    dt = aware(us, tz)
    if rng.random() < 0.5:
        form, given = "datetime", dt
    else:
        form, given = text_of(rng, dt, us)
    zone = "naive" if off is None else "utc" if off == 0 else "offset"
    ctx.count(f"{form} {zone}")
    if two:
        h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", given, 0, 20.0, byteorder=rng.randrange(2))
        judge_fields2(ctx, h, us, f"miniseed2 {given!r}")
        if rng.random() < 0.3:
            us = pick_us(rng, 1801, 2054)
            h.setStartTime(aware(us, tz))
            judge_fields2(ctx, h, us, f"miniseed2 start set again {given!r}")
        if rng.random() < 0.3:
            y, d, hh, mi, sec, micro = ref.fields_of(us)
            us -= us % 100
            h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", type(h.btime)(y, d, hh, mi, sec, micro // 100), 0, 20.0)
            judge_fields2(ctx, h, us, "miniseed2 BTime")
            ctx.count("BTime")
    else:
        h = s.MSeed3Header()
        h.encoding = 0
        h.starttime = given
        judge_fields3(ctx, h, us, f"miniseed3 {given!r}")
        rec = s.MSeed3Record(h, "x", None)
        ctx.eq(ref.dt_micros(rec.starttime), us, "miniseed3 record starttime")
        ctx.eq(ref.dt_micros(s.unpackMSeed3Record(bytes(rec.pack())).starttime), us, "miniseed3 unpacked starttime")
        if rng.random() < 0.3:
            us = pick_us(rng, 2, 9997)
            h.starttime = aware(us, tz)
            judge_fields3(ctx, h, us, "miniseed3 start set again")
    ctx.seen(two, str(given))
    ctx.sample(f"{form} {zone} {given}")


def fields(rng, ctx):
    """start as stored fields, all nanoseconds, leap seconds"""
    import simplemseed as s
    y, d = gen.year_day(rng, 2, 9997)
    hh, mi, sec = gen.clock(rng)
    if rng.random() < 0.4:
        hh, mi, sec = rng.choice([(23, 59, 60), (hh, mi, 60)])
    ns = rng.choice([0, 1, 999, 1000, 999999999, 999999000, rng.randrange(10**9)])
    us = ref.micros(y, d, hh, mi, sec, ns // 1000)
    m = dict(flags=0, nanosecond=ns, year=y, dayOfYear=d, hour=hh, minute=mi, second=sec, encoding=3, sampleRatePeriod=1.0,
             numSamples=1, publicationVersion=0, identifier="a", ehbytes=b"", payload=b"\0\0\0\0")
    rec = s.unpackMSeed3Record(ref.ms3_build(m))
    ctx.eq(ref.dt_micros(rec.starttime), us, "miniseed3 starttime of stored fields")
    ctx.eq(ref.dt_micros(rec.endtime), us, "miniseed3 endtime of one sample")
    ctx.eq((rec.header.second, rec.header.nanosecond), (sec, ns), "miniseed3 second and nanosecond")
    y = max(1801, min(2054, y))
    d = min(d, 366 if ref.leap(y) else 365)
    tenth = ns // 100000
    r = dict(order=rng.choice(["big", "little"]), seq=b"000001", quality="D", sta="A", loc="", chan="BHZ", net="XX", year=y, yday=d,
             hour=hh, minute=mi, second=sec, tenthMilli=tenth, numSamples=1, factor=20, mult=1, actFlag=0, ioFlag=0, qualFlag=0,
             timeCorr=0, blockettes=[dict(num=1000)], encoding=3, little=False, exp=9, payload=b"\0\0\0\0")
    rec = s.unpackMiniseedRecord(ref.ms2_build(r))
    ctx.eq(ref.dt_micros(rec.starttime()), ref.micros(y, d, hh, mi, sec, tenth * 100), "miniseed2 starttime of stored fields")
    ctx.eq(tuple(rec.header.btime), (y, d, hh, mi, sec, tenth), "miniseed2 btime of stored fields")
    ctx.count("leap second" if sec == 60 else "normal second")
    ctx.seen(y, d, hh, mi, sec, ns)


def sanity(rng, ctx):
    """a header says whether its time fields are a legal time: all legal, or just one of them outside its range"""
    import simplemseed as s
    h = s.MSeed3Header()
    y, d = gen.year_day(rng, 1, 2999)
    fields = dict(year=y, dayOfYear=d)
    fields["hour"], fields["minute"], fields["second"] = rng.choice([gen.clock(rng), (23, 59, 60), (0, 0, 0)])
    bad = rng.choice([None, "year", "dayOfYear", "hour", "minute", "second"])
    if bad == "dayOfYear" or bad is None and rng.random() < 0.2:
        fields["year"] = rng.choice([2023, 2024])
        fields["dayOfYear"] = {2023: 365, 2024: 366}[fields["year"]]
    if bad:
        fields[bad] = rng.choice({"year": [-1, -2024, 65536], "dayOfYear": [0, -1, 367, 1000, 65535], "hour": [24, 25, 255, -1],
                                  "minute": [60, 61, 255, -1], "second": [61, 62, 255, -1]}[bad])
    for k, v in fields.items():
        setattr(h, k, v)
    h.nanosecond = rng.choice([0, 999999999])
    ctx.check(bool(h.sanityCheck()) == (bad is None), f"sanityCheck() of {fields}", h.sanityCheck())
    ctx.count("illegal time" if bad else "legal time")
    ctx.seen(repr(fields), bad)
    ctx.sample(f"sanityCheck {fields}")


def month(rng, ctx):
    """every day of the 254 years that miniSEED 2 can hold, and the rest of the 400 year cycle for miniSEED 3"""
    import simplemseed as s
    year, mon = 1801 + rng.index // 12, 1 + rng.index % 12
    h3, h2 = s.MSeed3Header(), None
    if year <= 2054:
        h2 = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", datetime(2020, 1, 1), 0, 20.0)
    day = datetime(year, mon, 1, tzinfo=timezone.utc)
    n = 0
    while day.month == mon:
        for hour, mi, sec, micro, off in ((0, 0, 0, 0, -60), (23, 59, 59, 999900, 60)):
            t = day.replace(hour=hour, minute=mi, second=sec, microsecond=micro)
            us = ref.dt_micros(t)
            y, d, hh, mm, ss, _ = ref.fields_of(us)
            ctx.eq((y, hh, mm, ss), (year, hour, mi, sec), "own calendar")
            # the other side of midnight in local time
            given = t.astimezone(timezone(timedelta(minutes=off)))
            h3.starttime = given
            ctx.eq((h3.year, h3.dayOfYear, h3.hour, h3.minute, h3.second, h3.nanosecond), (y, d, hour, mi, sec, micro * 1000),
                   f"miniseed3 fields of {given}")
            ctx.eq(h3.starttime, t, "miniseed3 starttime")
            if h2 is not None:
                h2.setStartTime(given)
                ctx.eq(tuple(h2.btime), (y, d, hour, mi, sec, micro // 100), f"miniseed2 btime of {given}")
                ctx.eq(h2.starttime, t, "miniseed2 starttime")
                ctx.eq(struct.unpack(">HHBBBxH", h2.pack()[20:30]), (y, d, hour, mi, sec, micro // 100), f"miniseed2 packed {given}")
                h2.setStartTime(type(h2.btime)(y, d, hour, mi, sec, micro // 100))
                ctx.eq(h2.starttime, t, "miniseed2 starttime of BTime")
            n += 1
        day += timedelta(days=1)
    ctx.count("calendar instants", n)
    ctx.seen("month", year, mon)


def near(a, b, tol):
    return abs(a - b) <= tol * abs(b)


def rate_value(rng):
    return rng.choice([
        lambda: gen.rate_period(rng), lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6),
        lambda: float(rng.randint(-5000, 5000)), lambda: 0.0, lambda: -1.0, lambda: 1 / 3])()


def judge_end(ctx, got_us, start_us, period, n, what):
    """within the microsecond, and the precision of a double"""
    want = start_us + Fraction(period) * 1000000 * (n - 1)
    tol = 2 + abs(want - start_us) * Fraction(1, 10**13)
    ctx.check(abs(got_us - want) <= tol, what, got_us, float(want), n, period)


def rates3(rng, ctx):
    import simplemseed as s
    rp = rate_value(rng)
    n = rng.choice([0, 1, 1, 2, 3, 100, rng.randint(1, 100000)])
    h = s.MSeed3Header()
    us = pick_us(rng, 1000, 2500)
    h.starttime = aware(us, timezone.utc)
    how = rng.choice(["value", "rate", "period"])
    if how == "rate" and rp > 0:
        h.sampleRate = rp
    elif how == "period" and rp < 0:
        h.samplePeriod = -rp
    else:
        h.sampleRatePeriod = rp
    h.numSamples = n
    h.encoding = 100
    rec = s.MSeed3Record(h, "x", b"")
    back = s.unpackMSeed3Record(bytes(rec.pack()))
    for hd in (h, back.header, h.clone()):
        ctx.eq(hd.sampleRatePeriod, rp, "stored rate or period")
        if rp > 0:
            ctx.eq(hd.sampleRate, rp, "rate")
            ctx.check(near(hd.samplePeriod, 1 / rp, 1e-14), "period of rate", hd.samplePeriod, rp)
        elif rp < 0:
            ctx.eq(hd.samplePeriod, -rp, "period")
            ctx.check(near(hd.sampleRate, 1 / -rp, 1e-14), "rate of period", hd.sampleRate, rp)
        else:
            ctx.eq((hd.sampleRate, hd.samplePeriod), (0, 0), "rate and period of no rate")
        if rp:
            ctx.check(near(hd.sampleRate * hd.samplePeriod, 1.0, 1e-14), "rate times period", hd.sampleRate, hd.samplePeriod)
    period = 0 if rp == 0 else -Fraction(rp) if rp < 0 else 1 / Fraction(rp)
    if n == 1:
        ctx.eq(rec.endtime, rec.starttime, "end of one sample")
    if abs(period) * n < 10**11:
        for r in (rec, back):
            judge_end(ctx, ref.dt_micros(r.endtime), us, period, n, "miniseed3 end time")
            judge_end(ctx, ref.dt_micros(r.header.endtime), us, period, n, "miniseed3 header end time")
        ctx.count("end times")
    ctx.count("no rate" if rp == 0 else "period" if rp < 0 else "rate")
    ctx.seen(rp, n, how)


def rates2(rng, ctx):
    """a rate that is written, in factor and multiplier, and blockette 100"""
    import simplemseed as s
    rate = ms2gen.written_rate(rng)
    n = rng.choice([0, 1, 2, 50, rng.randint(1, 100)])
    us = pick_us(rng, 1850, 2000)
    us -= us % 100
    h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", aware(us, timezone.utc), 0, rate)
    rec = s.MiniseedRecord(h, np.arange(n, dtype=">i4"))
    b100 = rng.random() < 0.3
    if b100:
        rec.blockettes.append(rec.createB100())
    data = bytes(rec.pack())
    r = ref.ms2_parse(data)
    ctx.check(r["factor"] != 0 and r["mult"] != 0, "factor and multiplier are zero", rate)
    fm = ref.ms2_rate(r["factor"], r["mult"])
    ctx.check(near(fm, rate, 1e-4), "rate of written factor and multiplier", rate, fm, r["factor"], r["mult"])
    back = s.unpackMiniseedRecord(data)
    want = struct.unpack(">f", struct.pack(">f", rate))[0] if b100 else fm
    ctx.check(near(back.header.sampleRate, want, 1e-12), "rate read back", back.header.sampleRate, want)
    ctx.check(near(back.header.sampleRate, rate, 1e-4), "rate read back against written", back.header.sampleRate, rate)
    for x in (rec, back):
        hr = x.header.sampleRate
        if n / hr < 10**9:
            judge_end(ctx, ref.dt_micros(x.endtime()), us, 1 / Fraction(hr), n, "miniseed2 end time")
            judge_end(ctx, ref.dt_micros(x.next_starttime()), us, 1 / Fraction(hr), n + 1, "miniseed2 next start time")
            ctx.count("end times")
    ctx.count("blockette 100" if b100 else "factor and multiplier")
    ctx.count("rate above one" if rate >= 1 else "rate below one")
    ctx.seen(rate, n, b100)


def factors(rng, ctx):
    """factor and multiplier as found in a record of some other writer"""
    import simplemseed as s
    def short():
        return rng.choice([-1, 1]) * rng.choice([1, 2, 10, 100, 32767, rng.randint(1, 32767), rng.randint(1, 400)])
    f, m = short(), short()
    if rng.random() < 0.05:
        f = -32768
    n = rng.choice([1, 2, 100])
    order = rng.choice(["big", "little"])
    us = pick_us(rng, 1850, 2000)
    y, d, hh, mi, sec, micro = ref.fields_of(us)
    us -= us % 100
    r = dict(order=order, seq=b"000001", quality="D", sta="A", loc="", chan="BHZ", net="XX", year=y, yday=d,
             hour=hh, minute=mi, second=sec, tenthMilli=micro // 100, numSamples=n, factor=f, mult=m, actFlag=0, ioFlag=0, qualFlag=0,
             timeCorr=0, blockettes=[dict(num=1000)], encoding=1, little=False, exp=9, payload=bytes(2 * n))
    want = ref.ms2_rate(f, m)
    rec = s.unpackMiniseedRecord(ref.ms2_build(r))
    ctx.check(near(rec.header.sampleRate, want, 1e-12), "rate of factor and multiplier", f, m, rec.header.sampleRate, want)
    if n / want < 10**9:
        judge_end(ctx, ref.dt_micros(rec.endtime()), us, 1 / Fraction(rec.header.sampleRate), n, "end time of factor and multiplier")
    # same from the constructor
    h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", aware(us, timezone.utc), n, 0, sampRateFactor=f, sampRateMult=m)
    ctx.check(near(h.sampleRate, want, 1e-12), "rate of factor and multiplier given to header", f, m, h.sampleRate, want)
    again = ref.ms2_parse(bytes(rec.pack()))
    ctx.check(near(ref.ms2_rate(again["factor"], again["mult"]), want, 1e-4), "rate written again", again["factor"], again["mult"], want)
    ctx.count(f"factor {'+' if f > 0 else '-'} multiplier {'+' if m > 0 else '-'}")
    ctx.seen(f, m, n)


KINDS = [
    Kind("starts", starts, 16000, 600000, need=("datetime naive", "datetime offset", "T offset", "BTime")),
    Kind("fields", fields, 6000, 200000, need=("leap second",)),
    Kind("sanity", sanity, 2000, 50000, need=("illegal time", "legal time")),
    Kind("month", month, 400 * 12, 400 * 12, exhaustive=True, need=("calendar instants",)),
    Kind("rates3", rates3, 8000, 400000, need=("end times", "period", "rate", "no rate")),
    Kind("rates2", rates2, 8000, 400000, need=("end times", "blockette 100")),
    Kind("factors", factors, 8000, 400000, need=("factor - multiplier -",)),
]
