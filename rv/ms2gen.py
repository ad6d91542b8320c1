"""Random miniSEED 2 records by the independent writer, and the comparison of what the library makes of them."""
import struct

from . import gen, ref

CODE = ref.UP + ref.DIG
OTHER = (200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 2000)
PRIMS = (1, 3, 4, 5)
QUAL = "DRQM"
NO_ORDER = (1799, 1800, 2055, 2056)


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def code(rng, lo, hi):
    return gen.word(rng, CODE, lo, hi)


def codes(rng):
    if rng.random() < 0.5:
        return dict(net=rng.choice(["CO", "XX", "IU", "XD"]), sta=rng.choice(["BIRD", "JSC", "PET"]), loc=rng.choice(["", "00", "10"]),
                    chan=rng.choice("BHL") + rng.choice("HN") + rng.choice("ZNE12"))
    return dict(net=code(rng, 1, 2), sta=code(rng, 1, 5), loc=code(rng, 0, 2), chan=code(rng, 3, 3))


def start(rng):
    # the years that tell the byte order
    y, d = gen.year_day(rng, 1801, rng.choice([2054, 2054, 2054, 2303]))
    if y in NO_ORDER:
        y, d = rng.choice([2054, 2057]), min(d, 365)
    h, m, s = gen.clock(rng)
    if rng.random() < 0.05 and y not in (2054, 2303):  # the year of the next minute has to be one that tells the byte order too
        h, m, s = 23, 59, 60
    return dict(year=y, yday=d, hour=h, minute=m, second=s, tenthMilli=rng.choice([0, 0, 9999, 1, rng.randint(0, 9999)]))


def written_rate(rng):
    """a rate that a user gives, also about the limits of factor and multiplier"""
    k = rng.random()
    if k < 0.4:
        return 10 ** rng.uniform(-8.5, 8.5)
    if k < 0.6:
        return float(rng.choice([rng.randint(1, 70000), rng.randint(32760, 32770), rng.randint(65525, 65545), rng.randint(2000, 2200) * 16]))
    if k < 0.8:
        return rng.choice([1, 20, 100, 0.1, 0.01, 1 / 60, 1 / 3600, 1 / 86400, 32765.5, 32766, 32766.5, 32767, 32767.5, 32768, 32768.5, 1 / 32765,
                           1 / 32766, 1 / 32767, 1 / 32768, 16383.5, 1e6, 0.99999, 1.00001, 5000.5])
    return rng.uniform(0.001, 500)


def factor_mult(rng):
    return rng.choice([(20, 1), (100, 1), (1, 1), (-10, 1), (1, -10), (1000, -3), (-1, 1), (-60, -60), (200, 5), (32767, -32767),
                       (rng.choice([-1, 1]) * rng.randint(1, 32767), rng.choice([-1, 1]) * rng.randint(1, 32767)), (rng.randint(1, 500), 1)])


def blockettes(rng, n_other=None, b1001=None, neg=False):
    """in any order; values as the independent writer wants them"""
    out = [dict(num=1000)]
    if rng.random() < 0.4:
        out.append(dict(num=100, rate=f32(rng.choice([20.0, 100.0, 0.1, 1.0, 33.3333, rng.uniform(1e-3, 1e4)]))))
    if rng.random() < 0.5 if b1001 is None else b1001:
        micro = rng.choice([0, 0, 1, 50, 99, rng.randint(0, 99), rng.randint(0, 127)])
        if neg:
            micro = rng.randint(206, 255)
        out.append(dict(num=1001, quality=rng.choice([0, 100, 50, 255, rng.randrange(256)]), micro=micro, frames=rng.choice([0, 7, 63, 255])))
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5]) if n_other is None else n_other):
        out.append(dict(num=rng.choice(OTHER), body=rng.randbytes(rng.choice([4, 8, 16, 28, 48, rng.randint(1, 60)]))))
    if rng.random() < 0.04:
        out.append(dict(num=rng.choice(OTHER), body=rng.randbytes(rng.choice([200, 400, 508, 600, 1500, 5000, 30000, rng.randint(100, 60000)]))))
    k = rng.random()
    if k < 0.5:
        rng.shuffle(out)
    elif k < 0.7:
        out = out[1:] + out[:1]
    for b in out:
        if rng.random() < 0.1:
            b["gap"] = rng.choice([4, 8, 64, rng.randint(1, 30)])
    return out


def laid_out(bl):
    return 48 + sum(b.get("gap", 0) + {100: 12, 1000: 8, 1001: 8}.get(b["num"], 4 + len(b.get("body", b""))) for b in bl)


def samples_fit(rng, enc, cap, full=False, d0=True):
    """(values, payload maker) of an encoding in cap bytes"""
    if enc in (10, 11):
        if cap < 64:
            return []
        n = rng.choice([1, 2, rng.randint(1, 30), rng.randint(1, 100), rng.randint(1, min(cap * 2, 2000))])
        vals = gen.ints(rng, n, 32 if enc == 10 else 30)
        if enc == 11 and not ref.fits(vals[0], 30):
            vals = gen.ints(rng, n, 29, -2**28, 2**28)
        return vals
    size = 2 if enc == 32 else ref.PRIM[enc][1]
    most = min(cap // size, 65535)
    if most == 0:
        return []
    n = most if full or rng.random() < 0.2 else rng.randint(1, min(most, 200))
    return gen.typed(rng, 1 if enc == 32 else enc, n)


def model(rng, exps=(7, 8, 8, 9, 9, 9, 9, 10, 12, 12, 13, 16), encodings=(1, 3, 4, 5, 10, 11, 10, 11, 32), empty=0.08, neg=False, order=None, bl=None):
    """dict for ref.ms2_build, with samples"""
    while True:
        r = dict(order=order or rng.choice(["big", "little"]), seq=b"%06d" % rng.choice([0, 1, 999999, rng.randint(0, 999999)]),
                 quality=rng.choice(QUAL), actFlag=rng.choice([0, 0, 1, 255, rng.randrange(256)]),
                 ioFlag=rng.choice([0, 0, 32, 255, rng.randrange(256)]), qualFlag=rng.choice([0, 0, 128, 255, rng.randrange(256)]),
                 timeCorr=rng.choice([0, 0, 1, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)]))
        r.update(codes(rng))
        r.update(start(rng))
        r["factor"], r["mult"] = factor_mult(rng)
        r["exp"] = rng.choice(exps)
        size = 1 << r["exp"]
        r["blockettes"] = blockettes(rng, neg=neg) if bl is None else bl(rng)
        r["encoding"] = enc = rng.choice(encodings)
        r["little"] = False if enc in (10, 11) else rng.random() < 0.5
        r["align"] = 64 if enc in (10, 11) else rng.choice([64, 64, 8, 4, 1])
        end = laid_out(r["blockettes"])
        if end > size:
            continue
        doff = (end + r["align"] - 1) // r["align"] * r["align"]
        if rng.random() < empty or doff >= size:
            r["samples"], r["numSamples"] = [], 0
            r["payload"] = None if rng.random() < 0.7 or doff >= size else b""
            if r["payload"] is None and rng.random() < 0.3:
                r["factor"] = r["mult"] = 0
                r["encoding"] = 0
                for b in r["blockettes"]:
                    if b["num"] == 100:
                        b["rate"] = 0.0
            return r
        vals = samples_fit(rng, enc, size - doff)
        while vals:
            if enc in (10, 11):
                p = ref.steim_encode(enc - 9, vals, rng, rng.choice([0, rng.randint(-100, 100)]), rng.choice([0.3, 1, 1]), rng.choice([0, 0, 0.05]), 0)
                if len(p) > size - doff:
                    vals = vals[:len(vals) // 2]
                    continue
            else:
                p = ref.prim_encode(1 if enc == 32 else enc, vals, r["little"])
            r["samples"], r["numSamples"], r["payload"] = vals, len(vals), p
            return r


def near_codes(rng, r):
    """codes that are easily taken for those of r"""
    c = {k: r[k] for k in ("net", "sta", "loc", "chan")}
    if rng.random() < 0.5:
        # same characters, cut in other places
        t = c["net"] + c["sta"] + c["loc"]
        cuts = [(a, b) for a in (1, 2) for b in range(a + 1, a + 6) if b <= len(t) <= b + 2]
        if cuts:
            a, b = rng.choice(cuts)
            c.update(net=t[:a], sta=t[a:b], loc=t[b:])
        return c
    k = rng.choice(["net", "sta", "chan", "loc"])
    if not c[k]:
        c[k] = rng.choice(["0", "00"])
    elif rng.random() < 0.2 and k == "loc":
        c[k] = ""
    else:
        i = rng.randrange(len(c[k]))
        c[k] = c[k][:i] + rng.choice("ABCNEZ0129") + c[k][i + 1:]
    return c


def bits(enc, vals):
    return gen.bits({10: 3, 11: 3, 32: 1}.get(enc, enc), vals)


def build(r):
    """bytes; r is left with what ms2_parse reads from them under 'parsed'"""
    data = ref.ms2_build(r)
    p = ref.ms2_parse(data)
    r["parsed"] = p
    return data


def signed(byte):
    return byte - 256 if byte > 127 else byte


def start_us(p):
    """start of a parsed record with the microseconds of blockette 1001"""
    return p["btime"] + sum(signed(b["micro"]) for b in p["blockettes"] if b["num"] == 1001)


FIELDS = (("sta", "station"), ("net", "network"), ("loc", "location"), ("chan", "channel"), ("quality", "dataquality"),
          ("actFlag", "actFlag"), ("ioFlag", "ioFlag"), ("qualFlag", "qualFlag"), ("timeCorr", "timeCorr"), ("numSamples", "numSamples"),
          ("encoding", "encoding"))


def rate_of(p):
    return p["rate"]


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * abs(b)


def judge_record(ctx, rec, p, samples, what, known=False):
    """library record shows what the independent parser found"""
    h = rec.header
    for a, b in FIELDS:
        got = getattr(h, b)
        ctx.eq(got.strip() if isinstance(got, str) else got, p[a], f"{what}: {b}")
    ctx.eq(h.sequence_number, int(p["seq"]), f"{what}: sequence number")
    ctx.eq(h.recordLength, p["size"], f"{what}: record length")
    ctx.eq(tuple(h.btime), (p["year"], p["yday"], p["hour"], p["minute"], p["second"], p["tenthMilli"]), f"{what}: btime")
    got, want = ref.dt_micros(rec.starttime()), start_us(p)
    if got != want:
        bytes1001 = [b["micro"] for b in p["blockettes"] if b["num"] == 1001]
        if not (known and got == p["btime"] + sum(bytes1001) and ctx.knownFinding("b1001-unsigned")):
            ctx.eq(got, want, f"{what}: start time")
    if p["numSamples"] and rate_of(p):
        ctx.check(near(h.sampleRate, rate_of(p)), f"{what}: sample rate", h.sampleRate, rate_of(p))
    ctx.eq(len(rec.blockettes), len(p["blockettes"]), f"{what}: number of blockettes")
    for k, (b, w) in enumerate(zip(rec.blockettes, p["blockettes"])):
        ctx.eq(b.blocketteNum, w["num"], f"{what}: blockette {k} type")
        if w["num"] == 100:
            ctx.eq(f32(b.sampleRate), w["rate"], f"{what}: blockette 100 rate")
        elif w["num"] == 1000:
            ctx.eq((b.encoding, b.byteorder, b.recLength), (w["encoding"], w["byteorder"], w["reclen"]), f"{what}: blockette 1000")
        elif w["num"] == 1001:
            ctx.eq((b.timeQuality, b.microseconds % 256, b.frameCount), (w["quality"], w["micro"], w["frames"]), f"{what}: blockette 1001")
        else:
            ctx.eq(bytes(b.rawBytes[4:]), w["body"], f"{what}: blockette {w['num']} content")
    if samples is not None:
        got = rec.decompress()
        ctx.eq(0 if got is None else len(got), p["numSamples"], f"{what}: number of decompressed samples")
        if p["numSamples"]:
            ctx.check(bits(p["encoding"], gen.tolist(got)) == bits(p["encoding"], samples), f"{what}: samples",
                      gen.tolist(got)[:5], samples[:5])


def judge_rewritten(ctx, data, p, samples, what):
    """data packed again has everything of the parsed original p"""
    try:
        q = ref.ms2_parse(data)
    except ref.RefError as e:
        ctx.check(False, f"{what}: not valid: {e}")
    ctx.eq(len(data), p["size"], f"{what}: length")
    # a leap second comes out as the first of the next minute, the same instant
    when = ("year", "yday", "hour", "minute", "second", "tenthMilli") if p["second"] != 60 else ()
    ctx.eq(q["btime"], ref.micros(p["year"], p["yday"], p["hour"], p["minute"], p["second"], p["tenthMilli"] * 100), f"{what}: start")
    for k in when + ("order", "sta", "net", "loc", "chan", "quality", "numSamples", "factor", "mult", "actFlag", "ioFlag", "qualFlag", "timeCorr", "size", "encoding", "little", "numBlockettes"):
        ctx.eq(q[k], p[k], f"{what}: {k}")
    ctx.eq(int(q["seq"]), int(p["seq"]), f"{what}: sequence number")
    for k, (b, w) in enumerate(zip(q["blockettes"], p["blockettes"])):
        for f in ("num", "rate", "quality", "micro", "frames", "encoding", "byteorder", "reclen"):
            ctx.eq(b.get(f), w.get(f), f"{what}: blockette {k} {f}")
        if "body" in w:
            ctx.check(b["body"].startswith(w["body"]) and not b["body"][len(w["body"]):].strip(b"\0"),
                      f"{what}: blockette {k} content", b["body"], w["body"])
    ctx.eq(bits(q["encoding"], ref_samples(q)) if q["numSamples"] else b"", bits(p["encoding"], samples) if samples else b"",
           f"{what}: samples")
    return q


def ref_samples(p):
    if p["encoding"] == 32:
        return ref.payload_decode(1, p["payload"], p["numSamples"], p["little"])
    return ref.ms2_samples(p)


def sid(p):
    c = p["chan"]
    return f"FDSN:{p['net']}_{p['sta']}_{p['loc']}_{c[0]}_{c[1]}_{c[2]}"


def describe(r):
    return (f"{r['net']}.{r['sta']}.{r['loc']}.{r['chan']} {r['order']} exp {r['exp']} enc {r['encoding']} n {r['numSamples']} "
            f"blockettes {[b['num'] for b in r['blockettes']]} {r['year']},{r['yday']}")


def key(r):
    return repr({k: v for k, v in r.items() if k != "parsed"})
