"""Band codes follow the specification's rate table"""
import math
import re
from fractions import Fraction

import numpy as np

from ..core import Kind

LEVEL = "exploration"
FILES = ["fdsnsourceid.py"]
RULE = "a case is one distinct pair of rate or period and response lower bound, or one table entry"

F = Fraction
# from the FDSN source identifier specification, rate in [lo, hi): code with long and with short response
TABLE = [
    (F(5000), None, "J", "J"), (F(1000), F(5000), "F", "G"), (F(250), F(1000), "C", "D"), (F(80), F(250), "H", "E"),
    (F(10), F(80), "B", "S"), (F(1), F(10), "M", "M"), (F(1, 10), F(1), "V", "V"), (F(1, 100), F(1, 10), "U", "U"),
    (F(1, 1000), F(1, 100), "W", "W"), (F(1, 10**4), F(1, 1000), "R", "R"), (F(1, 10**5), F(1, 10**4), "P", "P"),
    (F(1, 10**6), F(1, 10**5), "T", "T"), (F(0), F(1, 10**6), "Q", "Q"),
]
BOUNDS = [5000, 1000, 250, 80, 10, 1, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001]
TYPES = {"J": "", "F": "", "G": "", "D": "", "C": "", "E": "Extremely Short Period", "S": "Short Period", "H": "High Broadband", "B": "Broadband",
         "M": "Mid Period", "L": "Long Period", "V": "Very Long Period", "U": "Ultra Long Period", "W": "Ultra-ultra Long Period",
         "R": "Extremely Long Period", "P": "order of 0.1 to 1 day", "T": "order of 1 to 10 days", "Q": "Greater than 10 days",
         "I": "Irregular", "A": "Administrative", "O": "Opaque"}
SOURCES = {"H": "High Gain Seismometer", "L": "Low Gain Seismometer", "M": "Mass Position", "N": "Accelerometer", "P": "Geophone", "A": "Tilt Meter",
           "B": "Creep Meter", "C": "Calibration", "D": "Pressure", "E": "Electronic Test", "F": "Magnetometer", "I": "Humidity",
           "J": "Rotational", "K": "Temperature", "O": "Water Current", "G": "Gravimeter", "Q": "Electric Potential", "R": "Rainfall",
           "S": "Linear Strain", "T": "Tide", "U": "Bolometer", "V": "Volumetric Strain", "W": "Wind", "X": "Derived", "Y": "Non-specific",
           "Z": "Synthesized Beam"}


def hz(v):
    """value, or negative period, as exact and as nearest double frequency"""
    v = int(v) if isinstance(v, (int, np.integer)) else float(v)
    if v >= 0:
        x = F(v) if math.isfinite(v) else None
        return {x}
    if v == -math.inf:
        return {F(0)}
    exact = F(-1) / F(v)
    try:
        return {exact, F(1.0 / -v)}
    except OverflowError:
        return {exact}


def bound(x):
    """the decimal boundary that a double near it stands for"""
    for b in BOUNDS:
        if x == F(b):
            return F(str(b))
    return x


def allowed(rate, resp):
    if rate is None or rate == 0:
        return {"I"}
    out = set()
    for r in hz(rate):
        if r is None:
            out.add("J")
            continue
        r = bound(r)
        if r == 1:
            out.add("L")
            continue
        if F(1, 2) < r < F(3, 2):
            out.add("L")
        for lo, hi, broad, short in TABLE:
            if lo <= r and (hi is None or r < hi):
                if resp is None:
                    out.add(short)
                else:
                    for q in hz(resp):
                        out.add(broad if q is not None and bound(q) <= F(1, 10) else short)
    return out


def judge(ctx, rate, resp):
    import simplemseed as s
    want = allowed(rate, resp)
    got = s.bandCodeForRate(rate, resp)
    ctx.check(got in want, "band code", rate, resp, got, sorted(want))
    if resp is None:
        ctx.eq(s.bandCodeForRate(rate), got, f"band code of {rate} without response")
    from simplemseed.fdsnsourceid import BAND_CODE_JSON, bandCodeInfo
    ctx.check(got in BAND_CODE_JSON and bandCodeInfo(got)["code"] == got, "band code not in table", got)
    ctx.count(f"code {got}")
    return got


def near(rng, b):
    """at or beside a boundary"""
    r = rng.random()
    if r < 0.3:
        return b
    if r < 0.5:
        return math.nextafter(b, math.inf)
    if r < 0.7:
        return math.nextafter(b, 0)
    return b * (1 + rng.choice([-1, 1]) * 10.0 ** rng.randint(-14, -1))


def rate_of(rng):
    r = rng.random()
    if r < 0.4:
        v = near(rng, rng.choice(BOUNDS + [0.5, 1.5]))
    elif r < 0.8:
        v = 10 ** rng.uniform(-9, 6)
    elif r < 0.9:
        v = rng.choice([1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 79, 80, 81, 100, 125, 200, 249, 250, 251, 500, 999, 1000, 1001, 4000, 4999, 5000, 5001, 10**5])
    else:
        v = rng.choice([1e-300, 5e-324, 1e300, 1.7e308, 2.0**-30, math.inf, 1e-7, 1e9])
    return v


def resp_of(rng):
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.6:
        v = near(rng, 0.1)
    elif r < 0.8:
        v = 10 ** rng.uniform(-4, 2)
    else:
        v = rng.choice([0, 0.0, 1, 10, 0.01, 0.1, 5, 1e-9, 100])
    return v


def codes(rng, ctx):
    rate, resp = rate_of(rng), resp_of(rng)
    if rng.random() < 0.4 and rate > 1e-300 and rate < 1e300:
        p = rng.choice([-1 / rate, -float(round(1 / rate)) if rate < 1 else -1 / rate])
        rate = p or rate
        ctx.count("periods")
    if resp and rng.random() < 0.4:
        resp = -1 / resp
        ctx.count("response periods")
    if rng.random() < 0.2 and math.isfinite(rate):
        rate = rng.choice([np.float64(rate), int(rate) or rate, np.int64(int(rate)) if 1 <= abs(rate) < 1e15 else rate])
    got = judge(ctx, rate, resp)
    if rng.random() < 0.2:
        import simplemseed as s
        u = s.FDSNSourceId.createUnknown(rate, "H", resp)
        ctx.eq(str(u), f"FDSN:XX_ABC__{got}_H_U", f"created unknown identifier of {rate} from {resp}")
        ctx.count("created unknown")
    ctx.seen(repr(rate), repr(resp))
    ctx.sample(repr((rate, resp)))


PAIRS = [(0.1, -10), (0.01, -100), (0.001, -1000), (0.0001, -10000), (0.00001, -100000), (0.000001, -1000000), (1, -1), (1.0, -1.0),
         (10, -0.1), (80, -0.0125), (250, -0.004), (1000, -0.001), (5000, -0.0002), (100, -0.01), (200, -0.005), (20, -0.05), (40, -0.025),
         (0.5, -2), (0.25, -4), (0.2, -5), (2, -0.5), (4, -0.25), (1 / 3, -3), (1 / 60, -60), (1 / 3600, -3600), (1 / 86400, -86400)]


def pairs(rng, ctx):
    """equivalent rate and period"""
    import simplemseed as s
    if rng.index < len(PAIRS):
        rate, period = PAIRS[rng.index]
    else:
        k = rng.randint(1, 10**7)
        rate, period = 1 / k, -k
        if abs(math.log10(k) - round(math.log10(k))) < 1e-12:
            return
    for q, qp in [(None, None), (0.1, -10), (0.1, -10.0), (1, -1), (0.01, -100), (10, -0.1), (0.008, -125), (1 / 120, -120), (0.2, -5)]:
        got = {s.bandCodeForRate(r, x) for r in (rate, period) for x in (q, qp)}
        ctx.check(len(got) == 1, "rate and period give different codes", rate, period, q, got)
        judge(ctx, rate, q)
        judge(ctx, period, qp)
        u = s.FDSNSourceId.createUnknown(period, "N", qp)
        ctx.eq(str(u), f"FDSN:XX_ABC__{got.pop()}_N_U", "created unknown identifier")
        ctx.count("pairs")
    ctx.seen("pair", rate)


def irregular(rng, ctx):
    for r in (None, 0, 0.0, -0.0, np.float64(0)):
        for q in (None, 0.1, -10, 1):
            judge(ctx, r, q)
    import simplemseed as s
    ctx.eq(s.bandCodeForRate(), "I", "band code of nothing")
    ctx.eq(s.FDSNSourceId.createUnknown().bandCode, "I", "band code of unknown")
    ctx.count("irregular")
    ctx.seen("irregular")


def table(rng, ctx):
    """published tables"""
    import json
    import os
    from simplemseed.fdsnsourceid import BAND_CODE_JSON, SOURCE_CODE_JSON, bandCodeInfo, bandCodeDescribe, sourceCodeInfo, sourceCodeDescribe
    import simplemseed
    here = os.path.dirname(simplemseed.__file__)
    with open(os.path.join(here, "bandcode.json"), encoding="utf-8") as f:
        bands = json.load(f)
    with open(os.path.join(here, "sourcecode.json"), encoding="utf-8") as f:
        sources = json.load(f)
    ctx.eq(sorted(BAND_CODE_JSON), sorted(TYPES), "band codes listed")
    ctx.eq(sorted(SOURCE_CODE_JSON), sorted(SOURCES), "source codes listed")
    ctx.eq(sorted(b["code"] for b in bands), sorted(TYPES), "band codes published")
    ctx.eq(sorted(b["code"] for b in sources), sorted(SOURCES), "source codes published")
    for b in bands:
        c = b["code"]
        ctx.eq(bandCodeInfo(c), b, f"entry of band {c}")
        ctx.check(TYPES[c].lower() in b["type"].lower() and bool(TYPES[c]) == bool(b["type"]), f"type of band {c}", b["type"])
        d = bandCodeDescribe(c)
        for _ in range(3):
            ctx.eq(bandCodeDescribe(c), d, f"description of band {c} once more")
        ctx.eq(bandCodeInfo(c), b, f"entry of band {c} after it was described")
        for k in ("type", "rate", "response_lb"):
            ctx.check(b[k].strip() in d, f"description of band {c} lacks {k}", d, b[k])
        ctx.eq("respon" in d.lower(), bool(b["response_lb"]), f"description of band {c} tells of a response bound")
        rows = [t for t in TABLE if c in t[2:]]
        nums = [F(x) for x in re.findall(r"[\d.]+", b["rate"])]
        if rows:
            lo, hi, broad, short = rows[0]
            want = [x for x in (lo, hi) if x]
            ctx.eq(nums, want, f"rate of band {c} in table")
            if broad != short:
                ctx.check(re.sub(r"\s", "", b["response_lb"]) == (">=10sec" if c == broad else "<10sec"), f"response of band {c}", b["response_lb"])
            else:
                ctx.eq(b["response_lb"], "", f"response of band {c}")
        ctx.count("band entries")
    for b in sources:
        c = b["code"]
        ctx.eq(sourceCodeInfo(c), b, f"entry of source {c}")
        ctx.check(SOURCES[c].lower() in b["type"].lower(), f"type of source {c}", b["type"])
        d = sourceCodeDescribe(c)
        ctx.check(b["type"] in d, f"description of source {c}", d)
        for _ in range(3):
            ctx.eq(sourceCodeDescribe(c), d, f"description of source {c} once more")
        ctx.eq(sourceCodeInfo(c), b, f"entry of source {c} after it was described")
        ctx.count("source entries")
    ctx.seen("table")


KINDS = [
    Kind("codes", codes, 100000, 5000000, need=tuple(f"code {c}" for c in "JFGDCESHBMLVUWRPTQ") + ("periods", "response periods", "created unknown")),
    Kind("pairs", pairs, 3000, 100000, need=("pairs",)),
    Kind("irregular", irregular, 1, 1, need=("irregular",), exhaustive=True),
    Kind("table", table, 1, 1, need=("band entries", "source entries"), exhaustive=True),
]
