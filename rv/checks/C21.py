"""Source identifier validation accepts exactly the legal codes"""
from ..core import Kind
from .. import ref, sidgen

LEVEL = "exploration"
FILES = ["fdsnsourceid.py"]
RULE = "a case is one distinct tuple of codes at one of the four levels, or one block of code points at one level"

LEVELS = ("network", "station", "location", "band", "source", "subsource")


def level_named(reason, codes):
    """levels that the reason names, ignoring the echoed codes"""
    text = reason.replace("\n", " ")
    for c in sorted(codes, key=len, reverse=True):
        if len(c) > 3:
            text = text.replace(c, " ")
    text = text.lower()
    out = set()
    if "subsource" in text:
        out.add("subsource")
        text = text.replace("subsource", "")
    for lv in ("network", "station", "location", "source"):
        if lv in text:
            out.add(lv)
    return out


def judge(ctx, codes):
    import simplemseed as s
    n = len(codes)
    cls = {1: s.NetworkSourceId, 2: s.StationSourceId, 3: s.LocationSourceId, 6: s.FDSNSourceId}[n]
    sid = cls(*codes)
    before = dict(vars(sid))
    res = sid.validate()
    ctx.check(isinstance(res, tuple) and len(res) == 2, "result of validate", res)
    ok, reason = res
    args = list(codes[:3]) + list(codes[4:])
    bad = ref.sid_level_errors(*args)
    ctx.check(bool(ok) == (not bad), "validate", codes, res, bad)
    ctx.check(vars(sid) == before, "identifier changed by validate", vars(sid), before)
    if bad:
        named = level_named(str(reason), codes)
        ctx.check(reason and bool(named & set(bad)), "reason does not name an offending level", codes, reason, bad)
        ctx.check(not named - set(bad), "reason names a level that is legal", codes, reason, bad)
        for b in bad:
            ctx.count(f"illegal {b}")
    else:
        ctx.count(f"legal at level {n}")
    ctx.eq(sid.validate(), res, "validated again")
    return not bad


def mixed(rng, ctx):
    n = rng.choice([1, 2, 3, 6, 6])
    codes = list(sidgen.codes(rng))[:n]
    r = rng.random()
    if r < 0.55:
        i = rng.randrange(n)
        codes[i] = sidgen.hostile(rng, codes[i])
    elif r < 0.7:
        codes = [sidgen.hostile(rng, c) for c in codes]
    if n == 6 and codes[3] not in ref.UP and rng.random() < 0.5:
        codes[3] = "B"  # legal band; the band code itself is not judged
    judge(ctx, codes)
    ctx.seen(*codes)
    ctx.sample(repr(codes))


def lengths(rng, ctx):
    """every length of every level, up to beyond the limit"""
    for n in (1, 2, 3, 6):
        base = ["CO", "BIRD", "00", "B", "H", "Z"][:n]
        for i in range(n):
            if i == 3:
                continue
            for size in list(range(0, 20)) + [100, 1000]:
                for ch in "A0-" + "Z9":
                    codes = list(base)
                    codes[i] = ch * size
                    judge(ctx, codes)
                    ctx.count("lengths")
    ctx.seen("lengths")


BLOCK = 0x800


def points(rng, ctx):
    """every code point of a block as code, and at each end and in the middle of a legal one, at each level"""
    lo = rng.index * BLOCK
    full = lo < 0x3000 or 0xfe00 <= lo < 0x10000
    for cp in range(lo, lo + BLOCK):
        if cp > 0x10FFFF:
            break
        ch = chr(cp)
        digitlike = ch.isdigit() or ch.isdecimal() or ch.isalpha() and ch.upper() != ch
        if not full and not digitlike and cp % 97:
            continue
        for i, n in ((0, 1), (1, 2), (2, 3), (4, 6), (5, 6)):
            base = ["CO", "BIRD", "00", "B", "H", "Z"][:n]
            forms = [ch, "A" + ch, ch + "A", "A" + ch + "A"] if cp < 0x300 else [ch, "A" + ch]
            for form in forms:
                codes = list(base)
                codes[i] = form
                judge(ctx, codes)
                ctx.count("code points")
    ctx.seen("points", rng.index)


KINDS = [
    Kind("mixed", mixed, 80000, 4000000, need=tuple(f"illegal {x}" for x in ("network", "station", "location", "source", "subsource"))
         + tuple(f"legal at level {n}" for n in (1, 2, 3, 6))),
    Kind("lengths", lengths, 1, 1, need=("lengths",), exhaustive=True),
    Kind("points", points, 40, 0x110000 // BLOCK, need=("code points",), exhaustive=True),
]
