"""SEED codes map to source identifiers and back"""
import itertools

from ..core import Kind
from .. import ref, sidgen

LEVEL = "exploration"
FILES = ["fdsnsourceid.py", "miniseed.py"]
RULE = "a case is one distinct tuple of network, station, location and channel code, separator and start year, or network code"

CHARS = ref.UP + ref.DIG


def judge(ctx, sid, net, sta, loc, chan, want, what):
    import simplemseed as s
    band, source, sub = want
    ctx.check(type(sid) is s.FDSNSourceId, f"{what}: kind", type(sid).__name__)
    ctx.eq((sid.networkCode, sid.stationCode, sid.locationCode, sid.bandCode, sid.sourceCode, sid.subsourceCode),
           (net, sta, loc, band, source, sub), f"{what}: codes of {chan!r}")
    ctx.eq(str(sid), f"FDSN:{net}_{sta}_{loc}_{band}_{source}_{sub}", f"{what}: text")
    ctx.eq(sid.shortChannelCode(), chan, f"{what}: short channel code")
    n = sid.asNslc()
    ctx.eq((n.networkCode, n.stationCode, n.locationCode, n.channelCode), (net, sta, loc, chan), f"{what}: nslc")
    ctx.eq(str(n), f"{net}_{sta}_{loc}_{chan}", f"{what}: text of nslc")
    ctx.check(n == s.NslcId(net, sta, loc, chan), f"{what}: nslc not equal")


def channels(rng, ctx):
    """every three character channel, and all lengths of the three parts"""
    import simplemseed as s
    first = CHARS[rng.index % 36]
    for b, c in itertools.product(CHARS, CHARS):
        chan = first + b + c
        sid = s.FDSNSourceId.fromNslc("CO", "BIRD", "00", chan)
        ctx.check((sid.bandCode, sid.sourceCode, sid.subsourceCode) == (first, b, c) and sid.shortChannelCode() == chan
                  and sid.asNslc().channelCode == chan, "three character channel", chan, vars(sid))
        ctx.count("three character channels")
    ctx.seen("channels", first)


def pick(rng):
    net, sta, loc, band, source, sub = sidgen.codes(rng)
    if rng.random() < 0.5:
        band, source, sub = (rng.choice(CHARS) for _ in range(3))
    if rng.random() < 0.1:
        source = rng.choice([source.lower(), source[:1].lower() or "a", "\u00c9", "aB"])
    if rng.random() < 0.3:
        net = net[:2]
    if len(band) == len(source) == len(sub) == 1:
        chan = band + source + sub
    else:
        chan = f"{band}_{source}_{sub}"
    return net, sta, loc, chan, (band, source, sub)


def roundtrip(rng, ctx):
    import simplemseed as s
    net, sta, loc, chan, want = pick(rng)
    judge(ctx, s.FDSNSourceId.fromNslc(net, sta, loc, chan), net, sta, loc, chan, want, "fromNslc")
    judge(ctx, s.FDSNSourceId.fromNslc(net, sta, loc, chan, startYear=None), net, sta, loc, chan, want, "fromNslc without year")
    sep = rng.choice([".", "_", " ", ":", "..", "/", "|", "--", "*", "\t", ", ", "+", "(", "\\", "_"])
    if not any(sep in c for c in (net, sta, loc)) and not any((a + sep + b).count(sep) > 1 or sep[0] in a[-1:] or sep[0] in b[:1]
                                                             for a, b in ((net, sta), (sta, loc), (loc, ""))):
        nslc = sep.join((net, sta, loc, chan))
        judge(ctx, s.FDSNSourceId.parseNslc(nslc, sep), net, sta, loc, chan, want, f"parseNslc {nslc!r}")
        if sep == ".":
            judge(ctx, s.FDSNSourceId.parseNslc(nslc), net, sta, loc, chan, want, "parseNslc")
        ctx.count(f"separator {sep!r}")
    # text of nslc id is itself an nslc
    n = s.FDSNSourceId.fromNslc(net, sta, loc, chan).asNslc()
    judge(ctx, s.FDSNSourceId.parseNslc(str(n), "_"), net, sta, loc, chan, want, "text of nslc")
    full = s.FDSNSourceId(net, sta, loc, *want)
    n = full.asNslc()
    ctx.check(s.FDSNSourceId.fromNslc(n.networkCode, n.stationCode, n.locationCode, n.channelCode) == full, "source id to nslc and back", str(full))
    ctx.count("three characters" if len(chan) == 3 else "with separators")
    if want[0] == "":
        ctx.count("band missing")
    if want[2] == "":
        ctx.count("subsource missing")
    ctx.seen(net, sta, loc, chan, sep)
    ctx.sample(repr((net, sta, loc, chan, sep)))


def header(rng, ctx):
    """codes in a miniSEED 2 header"""
    import simplemseed as s
    net, sta, loc = rng.choice(sidgen.NETS)[:2], sidgen.sta(rng)[:5], rng.choice(["", "00", "10", "A1"])
    chan = "".join(rng.choice(CHARS) for _ in range(3))
    h = s.MiniseedHeader(net, sta, loc, chan, "2024-01-01T00:00:00Z", 0, 20.0)
    judge(ctx, h.fdsnSourceId(), net, sta, loc, chan, tuple(chan), "fdsnSourceId of header")
    rec = s.MiniseedRecord(h, [1, 2, 3])
    back = s.unpackMiniseedRecord(bytes(rec.pack()))
    judge(ctx, back.header.fdsnSourceId(), net, sta, loc, chan, tuple(chan), "fdsnSourceId of header read")
    ctx.eq(str(back.identifier), f"FDSN:{net}_{sta}_{loc}_{chan[0]}_{chan[1]}_{chan[2]}", "identifier of record read")
    ctx.count("headers")
    ctx.seen("header", net, sta, loc, chan)


def refused(rng, ctx):
    """channel codes that are neither"""
    import simplemseed as s
    from simplemseed.fdsnsourceid import FDSNSourceIdException
    net, sta, loc, chan, want = pick(rng)
    bad = rng.choice(["", "B", "BH", "BHZZ", "BHZ_", "_BHZ", "B_H_Z_Z", "BB_H_Z", "B__Z", "___", "__", "__Z", "B_H", "BH_Z1", "B_H_Z ", " B_H_Z",
                      "B_H_Z\n", "B-H-Z", "B.H.Z", "B_H.1_Z", "B_H_Z.1", "BHZ 00", "B_AA_QW_R", "BHZBHZ"])
    try:
        sid = s.FDSNSourceId.fromNslc(net, sta, loc, bad)
    except FDSNSourceIdException:
        ctx.count("channel refused")
    else:
        ctx.check(False, "channel accepted", bad, vars(sid))
    few = ".".join((net, sta, loc, chan)[: rng.choice([0, 1, 2, 3])])
    if few.count(".") < 3:
        try:
            sid = s.FDSNSourceId.parseNslc(few)
        except FDSNSourceIdException:
            ctx.count("too few items refused")
        else:
            ctx.check(False, "too few items accepted", few, vars(sid))
    ctx.seen("refused", bad, few)


def judge_net(ctx, net):
    import simplemseed as s
    n = s.NetworkSourceId(net)
    seed, hist, conv = ref.is_seed_temp(net), ref.is_temp_historical(net), ref.is_temp_convention(net)
    got = (n.isSeedTempNet(), n.isTempNetHistorical(), n.isTempNetConvention(), n.isTemporary())
    ctx.check(got == (seed, hist, conv, seed or hist or conv), "temporary network tests (seed, historical, convention, any)", net, got,
              (seed, hist, conv))
    ctx.check(n.networkCode == net, "network code changed", net, n.networkCode)
    return seed, hist, conv


def temporary(rng, ctx):
    """every code of up to two characters, with every year form"""
    nets = ["".join(t) for t in itertools.product(CHARS, repeat=2)] + list(CHARS) + [""]
    for net in nets[rng.index::8]:
        seed, _h, _c = judge_net(ctx, net)
        judge_year(ctx, rng, net, seed)
        ctx.count("short codes, temporary" if seed else "short codes, not temporary")
    ctx.seen("temporary", rng.index)


def judge_year(ctx, rng, net, seed):
    import simplemseed as s
    from simplemseed.fdsnsourceid import FDSNSourceIdException
    y = rng.choice([1880, 2100, 1994, 2024, 1900, 1999, 2000, 2099, rng.randint(1880, 2100)])
    for year in (y, str(y)):
        want = net + str(y) if seed else net
        ctx.check(s.NetworkSourceId(net, year).networkCode == want, "network with start year", net, year)
        sid = s.FDSNSourceId.fromNslc(net, "BIRD", "00", "BHZ", year)
        ctx.check(str(sid) == f"FDSN:{want}_BIRD_00_B_H_Z", "fromNslc with start year", net, year, str(sid))
        sid = s.FDSNSourceId.parseNslc(f"{net}.BIRD..BHZ", startYear=year)
        ctx.check(str(sid) == f"FDSN:{want}_BIRD__B_H_Z", "parseNslc with start year", net, year, str(sid))
    ctx.check(s.NetworkSourceId(net, None).networkCode == net, "network without start year", net)
    if seed:
        n = s.NetworkSourceId(net, y)
        ctx.check(n.isTempNetHistorical() and n.isTemporary() and not n.isSeedTempNet(), "mapped network is not a historical temporary one", net, y)
        bad = rng.choice([0, -1, 94, 99999, 999, 10000, 20240, -2024, -999, "94", "", "20245", "0", "19944", "abcd", "2O24", "-994", " 994", "199 ",
                          "1e10", "19.4", "+994", "1994\n", "\u0661\u0669\u0669\u0664", "199\u00b2", "1_94", "year"])
        for f in (lambda: s.NetworkSourceId(net, bad), lambda: s.FDSNSourceId.fromNslc(net, "BIRD", "00", "BHZ", bad),
                  lambda: s.FDSNSourceId.parseNslc(f"{net}.BIRD.00.BHZ", startYear=bad)):
            try:
                got = f()
            except FDSNSourceIdException:
                ctx.count("year refused")
            else:
                ctx.check(False, "start year accepted", net, bad, vars(got))


def networks(rng, ctx):
    net = sidgen.net(rng)
    r = rng.random()
    if r < 0.3:
        net = sidgen.word(rng, 0, 4, CHARS) + sidgen.word(rng, 2, 5, ref.DIG)
    elif r < 0.5:
        net = rng.choice("XYZ09AW") + rng.choice(CHARS + "X") + sidgen.word(rng, 3, 4, ref.DIG) + rng.choice(["", "", "", "A", "1", "\n"])
    elif r < 0.7:
        net = sidgen.hostile(rng, net)
    seed, hist, conv = judge_net(ctx, net)
    if len(net) != 2 or seed:
        judge_year(ctx, rng, net, seed) if "_" not in net and "." not in net else None
    ctx.count("historical" if hist else "convention" if conv else "seed temporary" if seed else "permanent")
    ctx.seen("net", net)


KINDS = [
    Kind("channels", channels, 36, 36, need=("three character channels",), exhaustive=True),
    Kind("temporary", temporary, 8, 8, need=("short codes, temporary", "year refused"), exhaustive=True),
    Kind("roundtrip", roundtrip, 20000, 1000000, need=("three characters", "with separators", "band missing", "subsource missing")),
    Kind("header", header, 3000, 100000, need=("headers",)),
    Kind("refused", refused, 8000, 400000, need=("channel refused", "too few items refused")),
    Kind("networks", networks, 20000, 1000000, need=("historical", "convention", "seed temporary", "permanent")),
]
