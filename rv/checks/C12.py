"""Merging happens exactly when records are adjacent and compatible"""
import io
from fractions import Fraction


from ..core import Kind
from .. import mergegen, ms3gen, ref

LEVEL = "exploration"
FILES = ["mseed3.py"]
RULE = "a case is one distinct pair or stream of records with known relation; counted with the merge decisions observed"


def pairs(rng, ctx):
    import simplemseed as s
    from simplemseed.mseed3 import areCompatible
    a = mergegen.first(rng)
    if a["encoding"] in (10, 11):
        a["encoding"], a["samples"] = 3, a["samples"]
    change = rng.choice([c for c in mergegen.CHANGES if c not in ("opaque", "same")])
    b, ok = mergegen.follow(rng, a, a, a["numSamples"], change)
    if change == "encoding" and b["encoding"] in (10, 11):
        b["encoding"] = 3
    ra, rb = (s.unpackMSeed3Record(ms3gen.to_ref(rng, m)) for m in (a, b))
    if rng.random() < 0.3:
        ra, rb = ms3gen.build(rng, a)[1], ms3gen.build(rng, b)[1]
    ctx.eq(bool(areCompatible(ra, rb)), ok, f"areCompatible, {change}")
    got = s.mseed3merge(ra, rb)
    ctx.eq(len(got), 1 if ok else 2, f"mseed3merge, {change}")
    if not ok:
        ctx.check(got[0] is ra and got[1] is rb, "records that cannot be merged are returned as they were")
    ctx.count(f"{change} {'merged' if ok else 'kept apart'}")
    ctx.seen(ms3gen.key(a), ms3gen.key(b))
    ctx.sample(f"{change}: merged={ok}; {ms3gen.describe(a)} / {ms3gen.describe(b)}")


def streams(rng, ctx):
    import simplemseed as s
    recs = mergegen.stream(rng)
    data = b"".join(ms3gen.to_ref(rng, m) for m, _j in recs)
    outs = list(s.readMSeed3Records(io.BytesIO(data), merge=True))
    sizes = mergegen.judge_outputs(ctx, [m for m, _j in recs], outs, "read with merge")
    ctx.eq(sizes, [len(g) for g in mergegen.groups(recs)], "records in each output")
    ctx.count("stream joins", sum(1 for _m, j in recs if j))
    ctx.count("stream breaks", sum(1 for _m, j in recs if not j) - 1)
    ctx.seen(data)


ATTR = ["identifier", "rate", "encoding", "version", "gap"]


def product(rng, ctx):
    """all combinations of attributes that differ or not, all gaps, for rates and periods"""
    import simplemseed as s
    from simplemseed.mseed3 import areCompatible
    i = rng.index
    differ = [bool(i >> k & 1) for k in range(4)]
    i >>= 4
    gaps = [Fraction(g, 100) for g in (-1000, -200, -150, -101, -100, -99, -60, -55, -45, -40, -10, 0, 10, 40, 45, 55, 60, 100, 200, 1000)]
    gap = gaps[i % len(gaps)]
    i //= len(gaps)
    rp = [20.0, -5.0, 0.1, -0.02, 250.0, 20000.0, -86400.0, -1e6][i % 8]
    i //= 8
    na = [1, 2, 7, 100][i % 4]
    base = dict(identifier="FDSN:XX_A__H_H_Z", flags=0, publicationVersion=1, encoding=3, eh={}, samples=[1] * na, numSamples=na,
                payload=None, sampleRatePeriod=rp)
    a, b = dict(base), dict(base, samples=[5, 6], numSamples=2)
    mergegen.put_start(a, 1704067199000000)
    if differ[0]:
        b["identifier"] = "FDSN:XX_A_00_H_H_Z"
    if differ[1]:
        b["sampleRatePeriod"] = rp * 1.001
    if differ[2]:
        b["encoding"] = 5
        b["samples"] = [5.0, 6.0]
    if differ[3]:
        b["publicationVersion"] = 2
    mergegen.put_start(b, round(1704067199000000 + mergegen.period(rp) * (na + gap) * 1000000))
    ok = not any(differ) and abs(gap) < Fraction(1, 2)
    ra, rb = (s.unpackMSeed3Record(ms3gen.to_ref(rng, m)) for m in (a, b))
    ctx.eq(bool(areCompatible(ra, rb)), ok, f"areCompatible, differ {differ} gap {gap} rate {rp} n {na}")
    ctx.eq(len(s.mseed3merge(ra, rb)), 1 if ok else 2, f"mseed3merge, differ {differ} gap {gap} rate {rp} n {na}")
    outs = list(s.readMSeed3Records(io.BytesIO(bytes(ra.pack()) + bytes(rb.pack())), merge=True))
    ctx.eq(len(outs), 1 if ok else 2, f"read with merge, differ {differ} gap {gap} rate {rp} n {na}")
    ctx.count("product merged" if ok else "product kept apart")
    ctx.seen("product", rng.index)


def factor(rng, ctx):
    """the tolerance is what areCompatible is asked for"""
    import simplemseed as s
    from simplemseed.mseed3 import areCompatible
    a = mergegen.first(rng)
    while a["sampleRatePeriod"] == 0 or mergegen.period(a["sampleRatePeriod"]) < Fraction(1, 1000):
        a = mergegen.first(rng)
    if a["encoding"] in (10, 11):
        a["encoding"] = 3
    b = dict(a)
    p = mergegen.period(a["sampleRatePeriod"])
    tol = rng.choice([Fraction(1, 10), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(9, 10), Fraction(rng.randint(5, 95), 100)])
    gap = rng.choice([Fraction(rng.randint(-99, 99), 100), tol - Fraction(1, 50), tol + Fraction(1, 50), Fraction(1, 50) - tol, -tol - Fraction(1, 50)])
    if abs(abs(gap) - tol) < Fraction(1, 100) or abs(gap) > Fraction(98, 100):
        gap = Fraction(0)
    mergegen.put_start(a, 946684799000000)
    mergegen.put_start(b, 946684799000000 + round(p * (a["numSamples"] + gap) * 1000000))
    ok = abs(gap) < tol
    ra, rb = (s.unpackMSeed3Record(ms3gen.to_ref(rng, m)) for m in (a, b))
    got = areCompatible(ra, rb, timeTolFactor=float(tol)) if rng.random() < 0.5 else areCompatible(ra, rb, float(tol))
    ctx.eq(bool(got), ok, f"areCompatible with a tolerance of {tol}, gap {gap} of {p} s")
    ctx.count("factor merged" if ok else "factor kept apart")
    ctx.seen("factor", tol, gap, p, a["numSamples"])


def large(rng, ctx):
    """adjacent or not at sample counts and byte counts around powers of two"""
    import simplemseed as s
    from simplemseed.mseed3 import areCompatible
    m = mergegen.first(rng)
    while m["sampleRatePeriod"] == 0 or mergegen.period(m["sampleRatePeriod"]) > 4000:  # ends within datetime's range
        m = mergegen.first(rng)
    m["encoding"] = rng.choice([1, 3, 4, 5])
    total = rng.choice([2**15, 2**16, 2**16, 2**17, 2**18]) + rng.choice([-1, 0, 1, rng.randint(-3000, 3000)])
    na = rng.choice([total // 2, total - 1, 1, rng.randint(1, total - 1)])
    gap = rng.choice([Fraction(0), Fraction(0), Fraction(1), Fraction(-1)])
    m.update(eh={}, nanosecond=0)
    mergegen.put_start(m, 946684799000000)
    p = mergegen.period(m["sampleRatePeriod"])
    recs, raw = [], rng.randbytes(8 * total)
    width = {1: 2, 3: 4, 4: 4, 5: 8}[m["encoding"]]
    for at, n in ((Fraction(0), na), (na + gap, total - na)):
        b = dict(m, numSamples=n, samples=None, payload=raw[int(at - gap if at else 0) * width:][:n * width])
        mergegen.put_start(b, 946684799000000 + round(at * p * 1000000))
        recs.append(s.unpackMSeed3Record(ms3gen.to_ref(rng, b)))
    ok = gap == 0
    what = f"encoding {m['encoding']} of {na} and {total - na} samples, gap {gap}"
    ctx.eq(bool(areCompatible(*recs)), ok, f"areCompatible, {what}")
    got = s.mseed3merge(*recs)
    ctx.eq(len(got), 1 if ok else 2, f"mseed3merge, {what}")
    if ok:
        r = ref.ms3_parse(bytes(got[0].pack()))
        ctx.eq(r["numSamples"], total, f"samples, {what}")
        ctx.check(r["payload"] == raw[:total * width], f"payload, {what}")
    data = b"".join(bytes(r.pack()) for r in recs)
    outs = [o.header.numSamples for o in s.readMSeed3Records(io.BytesIO(data), merge=True)]
    ctx.eq(outs, [total] if ok else [na, total - na], f"read with merge, {what}")
    ctx.count("large merged" if ok else "large kept apart")
    ctx.seen("large", m["encoding"], na, total, gap, m["sampleRatePeriod"])


KINDS = [
    Kind("factor", factor, 2000, 60000, need=("factor merged", "factor kept apart")),
    Kind("large", large, 60, 4000, need=("large merged",)),
    Kind("pairs", pairs, 6000, 300000, need=("none merged", "gap kept apart", "overlap kept apart")),
    Kind("streams", streams, 4000, 200000, need=("stream joins", "stream breaks")),
    Kind("product", product, 16 * 20 * 8 * 4, 16 * 20 * 8 * 4, need=("product merged",), exhaustive=True),
]
