"""Streams of records in which neighbours are adjacent, or not in exactly one way, with the groups that have to come out"""
from fractions import Fraction

from . import gen, ms3gen, ref

DEC = {10: 3, 11: 3}


def period(rp):
    if rp == 0:
        return Fraction(0)
    return Fraction(-rp) if rp < 0 else 1 / Fraction(rp)


def put_start(m, us, ns=0):
    y, d, h, mi, s, micro = ref.fields_of(us)
    m.update(year=y, dayOfYear=d, hour=h, minute=mi, second=s, nanosecond=micro * 1000 + ns)


def start_us(m):
    return ref.micros(m["year"], m["dayOfYear"], m["hour"], m["minute"], m["second"], 0) + m["nanosecond"] // 1000


RATES = [1.0, 20.0, 100.0, 40.0, 0.5, 200.0, 33.333333, 1000.0, -0.05, -10.0, -60.0, -3600.0, -0.3333, 7.7, 20000.0, -86400.0,
         -864000.0, 1e-6, -3155760.0, -31557600.0]
CHANGES = ["none", "none", "none", "none", "gap", "overlap", "identifier", "rate", "encoding", "version", "otherrate",
           "far", "back", "same", "flags", "eh", "opaque"]


def first(rng):
    m = ms3gen.model(rng, n=rng.choice([1, 2, 5, 20, rng.randint(1, 80)]), opaque=0)
    m["identifier"] = rng.choice(["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_JSC__B_H_Z", gen.fdsn_id(rng), "any text"])
    if m["eh"] and "big" in m["eh"]:
        m["eh"] = {"big": 1}
    m["sampleRatePeriod"] = rng.choice(RATES) if rng.random() < 0.97 else 0.0
    # far from the ends of what datetime can say
    put_start(m, rng.choice([0, 946684799000000, 1709164799999999, rng.randint(-10**15, 2 * 10**15)]), rng.choice([0, 0, 0, 500]))
    return m


def follow(rng, m, gfirst, gn, change):
    """
    (next record, whether it has to be merged with the group that starts with gfirst and has gn samples of m's kind)
    gap is from the predicted next sample, clear of the half sample boundary
    """
    p = period(m["sampleRatePeriod"])
    out = dict(m)
    out["encoding"], out["samples"] = ms3gen.payload_samples(rng, rng.choice([1, 2, 3, 10, rng.randint(1, 60)]), [m["encoding"]])
    out["numSamples"] = len(out["samples"])
    gap = rng.choice([Fraction(0), Fraction(0), Fraction(0), Fraction(rng.randint(-40, 40), 100), Fraction(2, 5), Fraction(-2, 5)])
    ok = True
    if change == "gap":
        gap, ok = rng.choice([Fraction(6, 10), Fraction(1), Fraction(2), Fraction(rng.randint(60, 1000), 100), Fraction(100000)]), False
    elif change == "overlap":
        # starts before the last sample of the group, or just more than half a sample early
        gap, ok = -rng.choice([Fraction(6, 10), Fraction(99, 100), Fraction(1), Fraction(101, 100), Fraction(2), Fraction(gn),
                               Fraction(gn) + 10, Fraction(rng.randint(60, 1000), 100)]), False
    elif change == "far":
        gap, ok = Fraction(86400 * 400), False
    elif change == "back":
        gap, ok = -Fraction(86400 * 400), False
    elif change == "identifier":
        s = out["identifier"]
        out["identifier"] = rng.choice([s + "X", s[:-1], s.lower() if s.lower() != s else s + "1", "FDSN:CO_BIRD_10_H_H_Z", s + " "])
        ok = out["identifier"] == s
    elif change == "rate":
        out["sampleRatePeriod"] = m["sampleRatePeriod"] * rng.choice([1.0001, 2, 0.5, 1.01, 10])
        if 0 < period(out["sampleRatePeriod"]) < Fraction(1, 40001):  # microseconds would be a large part of the period
            out["sampleRatePeriod"] = m["sampleRatePeriod"] * 0.5
        ok = out["sampleRatePeriod"] == m["sampleRatePeriod"]
    elif change == "otherrate":
        out["sampleRatePeriod"] = -m["sampleRatePeriod"]
        ok = abs(m["sampleRatePeriod"]) == 0
        if abs(m["sampleRatePeriod"]) == 1:  # one sample per second and one second per sample are the same rate
            out["sampleRatePeriod"] = 2.0
        if 0 < period(out["sampleRatePeriod"]) < Fraction(1, 40001):
            out["sampleRatePeriod"] = 20000.0
    elif change == "encoding":
        others = [e for e in (1, 3, 4, 5, 10, 11) if DEC.get(e, e) != DEC.get(m["encoding"], m["encoding"])]
        out["encoding"], out["samples"] = ms3gen.payload_samples(rng, rng.choice([1, 5, 20]), others)
        out["numSamples"] = len(out["samples"])
        ok = False
    elif change == "same":
        # other encoding of the same decompressed type
        if m["encoding"] in (3, 10, 11):
            out["encoding"], out["samples"] = ms3gen.payload_samples(rng, rng.choice([1, 5, 20]), [3, 10, 11])
            out["numSamples"] = len(out["samples"])
    elif change == "version":
        out["publicationVersion"] = (m["publicationVersion"] + rng.choice([1, 2, 255])) % 256
        ok = False
    elif change == "flags":
        out["flags"] = rng.randrange(256)
    elif change == "eh":
        out["eh"] = gen.jobject(rng, 2)
    us = Fraction(start_us(gfirst)) + (p * (gn + gap)) * 1000000
    us = round(us)
    if not -30 * 10**15 < us < 200 * 10**15:
        # far from the ends of what datetime can say: at the start of the group, never adjacent
        us, ok = start_us(gfirst), False
    put_start(out, us, m["nanosecond"] % 1000)
    if p == 0:
        ok = False
    return out, ok


def opaque(rng, m):
    out = dict(m)
    out.update(encoding=rng.choice([0, 100, 19]), samples=None, payload=rng.randbytes(rng.choice([0, 8, 64])), numSamples=rng.choice([0, 3]))
    return out


def stream(rng, n=None):
    """list of (model, joins) where joins tells if it is merged into the group before it when read with merge"""
    n = n if n is not None else rng.choice([1, 2, 3, 4, 6, rng.randint(1, 12)])
    m = first(rng)
    out = [(m, False)]
    g, gn = m, m["numSamples"]
    calm = rng.random() < 0.4
    while len(out) < n:
        change = "none" if calm and rng.random() < 0.9 else rng.choice(CHANGES)
        if change == "opaque" or g is None:
            if g is None and rng.random() < 0.8:
                m = first(rng)
                out.append((m, False))
                g, gn = m, m["numSamples"]
                continue
            out.append((opaque(rng, m), False))
            g = None
            continue
        nxt, joins = follow(rng, m, g, gn, change)
        out.append((nxt, joins))
        if joins:
            gn += nxt["numSamples"]
        else:
            g, gn = nxt, nxt["numSamples"]
        # header of next is compared with that of the group's first
        m = dict(nxt)
        for k in ("identifier", "sampleRatePeriod", "publicationVersion"):
            m[k] = g[k]
    return out


def groups(recs):
    out = []
    for m, joins in recs:
        if joins:
            out[-1].append(m)
        else:
            out.append([m])
    return out


def judge_outputs(ctx, inputs, outputs, what):
    """
    Conservation, whatever the grouping: outputs in order take up consecutive inputs,
    all of them, with samples, start and header of the first. Returns the sizes of groups.
    """
    i, sizes = 0, []
    for k, rec in enumerate(outputs):
        ctx.check(i < len(inputs), f"{what}: output {k} beyond the last input")
        f = inputs[i]
        data = bytes(rec.pack())
        try:
            r = ref.ms3_parse(data)
        except ref.RefError as e:
            ctx.check(False, f"{what}: output {k} is not valid: {e}")
        ctx.eq(r["size"], len(data), f"{what}: output {k} size")
        ctx.check(r["crcok"], f"{what}: output {k} crc")
        for field in ("identifier", "year", "dayOfYear", "hour", "minute", "second", "nanosecond", "sampleRatePeriod",
                      "publicationVersion"):
            ctx.eq(r[field], f[field], f"{what}: output {k} {field} is not that of its first input {i}")
        ctx.check(gen.jsame(r["eh"], f["eh"]), f"{what}: output {k} extra headers", r["eh"], f["eh"])
        if f["samples"] is None:
            ctx.eq((r["encoding"], r["numSamples"], r["payload"]), (f["encoding"], f["numSamples"], f["payload"]),
                   f"{what}: record that cannot be decompressed")
            i += 1
            sizes.append(1)
            continue
        n, want, took = 0, b"", 0
        while n < r["numSamples"] and i < len(inputs) and inputs[i]["samples"] is not None:
            g = inputs[i]
            ctx.eq(g["identifier"], f["identifier"], f"{what}: output {k} has samples of another identifier")
            want += ms3gen.samples_bits(g["encoding"], g["samples"])
            n += g["numSamples"]
            i += 1
            took += 1
        ctx.eq(r["numSamples"], n, f"{what}: samples of output {k}")
        got = ref.ms3_samples(r)
        ctx.eq(len(got), n, f"{what}: samples in payload of output {k}")
        ctx.check(ms3gen.samples_bits(r["encoding"], got) == want, f"{what}: samples of output {k} are not those of inputs", i - took, i)
        back = rec.decompress()
        ctx.check(ms3gen.samples_bits(r["encoding"], gen.tolist(back)) == want, f"{what}: decompressed samples of output {k}")
        ctx.count("samples conserved", n)
        sizes.append(took)
    ctx.eq(i, len(inputs), f"{what}: inputs that are in the output")
    return sizes
