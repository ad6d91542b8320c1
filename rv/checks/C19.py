"""Source identifiers parse and print losslessly"""
from ..core import Kind
from .. import sidgen

LEVEL = "exploration"
FILES = ["fdsnsourceid.py"]
RULE = "a case is one distinct tuple of codes, or text given to parse, at one of the four levels"

CODES = ("networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode")
SIZE = {"NetworkSourceId": 1, "StationSourceId": 2, "LocationSourceId": 3, "FDSNSourceId": 6}


def classes():
    import simplemseed as s
    return {1: s.NetworkSourceId, 2: s.StationSourceId, 3: s.LocationSourceId, 6: s.FDSNSourceId}


def judge(ctx, sid, codes, what):
    """kind, codes and text"""
    n = len(codes)
    ctx.check(type(sid) is classes()[n], f"{what}: kind of {n} codes", type(sid).__name__)
    for name, c in zip(CODES, codes):
        ctx.check(getattr(sid, name) == c and isinstance(getattr(sid, name), str), f"{what}: {name}", getattr(sid, name), c)
    ctx.eq(str(sid), "FDSN:" + "_".join(codes), f"{what}: text")


def some_codes(rng):
    n = rng.choice([1, 2, 3, 6, 6])
    codes = list(sidgen.codes(rng))[:n]
    if rng.random() < 0.3:  # no separator, else anything
        codes = [sidgen.hostile(rng, c).replace("_", "") for c in codes]
    return codes


def roundtrip(rng, ctx):
    import simplemseed as s
    codes = some_codes(rng)
    n = len(codes)
    cls = classes()[n]
    sid = cls(*codes)
    judge(ctx, sid, codes, "created")
    text = str(sid)
    back = s.FDSNSourceId.parse(text)
    judge(ctx, back, codes, "parsed")
    ctx.check(back == sid and sid == back and not back != sid, "parsed identifier is not equal to the printed one", text)
    ctx.eq(str(back), text, "printed again")
    if n == 6:
        rec = s.MSeed3Record(s.MSeed3Header(), text, [1, 2, 3])
        judge(ctx, rec.parseIdentifier(), codes, "parseIdentifier of text")
        rec = s.MSeed3Record(s.MSeed3Header(), sid, [1, 2, 3])
        judge(ctx, rec.parseIdentifier(), codes, "parseIdentifier of object")
    # absent location is the empty one
    if n in (3, 6) and codes[2] == "":
        c = [None if i == 2 else x for i, x in enumerate(codes)]
        judge(ctx, cls(*c), codes, "location None")
        ctx.check(cls(*c) == sid, "location None is not equal to empty location")
        ctx.count("empty location")
    ctx.count(f"level {n}")
    ctx.seen(*codes)
    ctx.sample(repr(text))


def derived(rng, ctx):
    import simplemseed as s
    codes = list(sidgen.codes(rng))
    if rng.random() < 0.2:
        codes = [sidgen.hostile(rng, c).replace("_", "") for c in codes]
    net, sta, loc = codes[:3]
    chan = s.FDSNSourceId(*codes)
    judge(ctx, chan.networkSourceId(), [net], "network of channel")
    judge(ctx, chan.stationSourceId(), [net, sta], "station of channel")
    judge(ctx, chan.locationSourceId(), [net, sta, loc], "location of channel")
    judge(ctx, chan.locationSourceId().stationSourceId(), [net, sta], "station of location")
    judge(ctx, chan.locationSourceId().networkSourceId(), [net], "network of location")
    judge(ctx, chan.stationSourceId().networkSourceId(), [net], "network of station")
    judge(ctx, chan, codes, "channel afterwards")
    n = s.NetworkSourceId(net)
    st = n.createStationSourceId(sta)
    judge(ctx, st, [net, sta], "station from network")
    lo = st.createLocationSourceId(loc)
    judge(ctx, lo, [net, sta, loc], "location from station")
    ch = lo.createFDSNSourceId(*codes[3:])
    judge(ctx, ch, codes, "channel from location")
    ctx.check(ch == chan, "created down to the channel is not equal")
    # a network object in place of its code
    judge(ctx, s.StationSourceId(n, sta), [net, sta], "station with network object")
    judge(ctx, s.LocationSourceId(n, sta, loc), [net, sta, loc], "location with network object")
    judge(ctx, s.FDSNSourceId(n, *codes[1:]), codes, "channel with network object")
    for obj, c in ((n, 1), (st, 2), (lo, 3)):
        judge(ctx, obj, codes[:c], "afterwards")
    # the derived ones are separate objects
    d = chan.locationSourceId()
    d.stationCode = "OTHER"
    judge(ctx, chan, codes, "channel after its location was changed")
    net = codes[0] or "XX"
    sta = codes[1] or "ABC"
    u = s.FDSNSourceId.createUnknown(100, codes[4], networkCode=codes[0], stationCode=codes[1], locationCode=codes[2], subsourceCode=codes[5])
    judge(ctx, u, [net, sta, loc, u.bandCode, codes[4], codes[5]], "createUnknown")
    ctx.count("derived")
    ctx.seen("derived", *codes)


def equality(rng, ctx):
    a = some_codes(rng)
    b = list(a)
    r = rng.random()
    if r < 0.5:
        i = rng.randrange(len(b))
        b[i] = rng.choice([b[i] + "0", b[i][:-1], b[i].lower(), "", b[i] + " ", "X"])
    elif r < 0.6 and len(b) > 1:
        i = rng.randrange(len(b) - 1)
        b[i], b[i + 1] = b[i + 1], b[i]
    elif r < 0.75:
        b = some_codes(rng)
    elif r < 0.85:
        b = (b + ["", "", ""])[: rng.choice([1, 2, 3])] if len(b) < 3 or rng.random() < 0.5 else b[:3]
    b = [c.replace("_", "") for c in b]
    x, y = classes()[len(a)](*a), classes()[len(b)](*b)
    want = a == b
    ctx.eq((x == y, y == x, x != y, y != x), (want, want, not want, not want), f"equality of {a} and {b}")
    ctx.check(x == x and not x != x, "not equal to itself")  # pylint: disable=comparison-with-itself
    for other in (None, str(x), 5, a, tuple(a), object()):
        ctx.check(not x == other and x != other, "equal to something else", other)
    import simplemseed as s
    p, q = s.NslcId(*(a + ["A"] * 4)[:4]), s.NslcId(*(b + ["A"] * 4)[:4])
    ctx.eq(p == q, (a + ["A"] * 4)[:4] == (b + ["A"] * 4)[:4], "equality of nslc ids")
    ctx.check(p != x and x != p, "nslc id equal to source id")
    ctx.count("equal" if want else "different")
    ctx.seen("eq", *a, *b)


def texts(rng, ctx):
    """anything given to parse: the text back, or refused"""
    import simplemseed as s
    from simplemseed.fdsnsourceid import FDSNSourceIdException
    codes = list(sidgen.codes(rng))[: rng.choice([0, 1, 2, 3, 4, 5, 6])]
    if rng.random() < 0.3:
        codes += [sidgen.word(rng, 0, 2, "ABC") for _ in range(rng.choice([1, 1, 2, 5]))]
    body = "_".join(sidgen.hostile(rng, c) if rng.random() < 0.2 else c for c in codes)
    prefix = "FDSN:" if rng.random() < 0.75 else rng.choice(
        ["", "FDSN", "fdsn:", "FDS:", " FDSN:", "XFDSN:", "FDSN;", "\ufeffFDSN:", "XX:", "FDSNN:", "Fdsn:", "NSLC:"])
    text = prefix + body
    if rng.random() < 0.05:
        text = rng.choice(["", "FDSN:", "FDSN", "FDSN:_____", "FDSN:__", "FDSN:_", "FDSN:FDSN:CO", "FDSN:CO FDSN:", "FDSN:______"])
    parts = text[5:].split("_")
    if not text.startswith("FDSN:") or len(parts) not in (1, 2, 3, 6):
        try:
            got = s.FDSNSourceId.parse(text)
        except FDSNSourceIdException:
            ctx.count("refused for prefix" if not text.startswith("FDSN:") else "refused for number of parts")
        else:
            ctx.check(False, "parsed", text, vars(got))
    else:
        sid = s.FDSNSourceId.parse(text)
        ctx.eq(str(sid), text, "text back")
        judge(ctx, sid, parts, "parsed")
        ctx.count("accepted")
    ctx.seen("text", text)


KINDS = [
    Kind("roundtrip", roundtrip, 40000, 2000000, need=("empty location", "level 1", "level 2", "level 3", "level 6")),
    Kind("derived", derived, 20000, 1000000, need=("derived",)),
    Kind("equality", equality, 40000, 2000000, need=("equal", "different")),
    Kind("texts", texts, 40000, 2000000, need=("refused for prefix", "refused for number of parts", "accepted")),
]
