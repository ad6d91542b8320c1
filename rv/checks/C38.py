"""An operation that failed or was interrupted can be repeated"""
import random
import sys

from .. import copies, core, gen, ms3gen
from ..core import Kind

LEVEL = "fault_enumeration"
FILES = ["mseed3.py", "miniseed.py", "mseed2to3.py", "seedcodec.py", "steim1.py", "steim2.py", "steimframeblock.py", "fdsnsourceid.py", "util.py"]
RULE = "a case is one distinct object with one operation and the places at which it was interrupted, or one failure and what mended it"
PLACES = 14


class Stop(BaseException):
    """as a handler of a signal raises"""


class At:
    """raises at the n-th line of the library that is executed, or counts them"""

    def __init__(self, n=None, error=Stop):
        self.n, self.error, self.lines, self.raised = n, error, 0, False

    def __enter__(self):
        mon = sys.monitoring

        def line(code, _n):
            if not code.co_filename.startswith(core.PKG):
                return mon.DISABLE
            self.lines += 1
            if self.lines == self.n:
                self.raised = True
                raise self.error()
            return None
        mon.use_tool_id(mon.DEBUGGER_ID, "rvstop")
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, line)
        mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(mon.DEBUGGER_ID, 0)
        mon.free_tool_id(mon.DEBUGGER_ID)


LIBRARY = ("MSeed3Record", "MSeed3Header", "MiniseedRecord", "MiniseedHeader", "SteimFrameBlock", "EncodedDataSegment", "FDSNSourceId", "NslcId", "NetworkSourceId",
           "StationSourceId", "LocationSourceId")


def result(fn):
    """what an operation gives, as text"""
    try:
        r = fn()
    except Exception as e:  # pylint: disable=broad-except
        return [f"{type(e).__name__}: {e}"]
    if isinstance(r, list) and r and type(r[0]).__name__ in LIBRARY:
        return [line for x in r for line in stable(x)]
    return stable(r) if type(r).__name__ in LIBRARY else [copies.text(r)]


def stable(o):
    """what is seen of an object, with lengths and the like brought up to date by looking once before"""
    copies.seen(o)
    return copies.seen(o)


def merge(o):
    """with a record that comes next; the result and what the record says of itself afterwards"""
    from datetime import timedelta
    from simplemseed import mseed3 as m3
    after = o.clone()
    after.header.starttime = o.starttime + timedelta(seconds=o.header.samplePeriod * o.header.numSamples)
    out = m3.mseed3merge(o, after)
    return [*out, o]


def operations(kind, o, rng):
    """name, operation on an object of this kind"""
    import simplemseed as s
    from simplemseed import mseed3 as m3
    from simplemseed import seedcodec
    if kind == "ms3":
        start = f"20{rng.randint(10, 60)}-0{rng.randint(1, 9)}-11T01:02:03.{rng.randint(0, 999999):06d}Z"
        return [("pack", lambda o: bytes(o.pack())), ("pack", lambda o: bytes(o.pack())), ("decompress", lambda o: o.decompress()), ("details", lambda o: o.details(showData=True)),
                ("eh", lambda o: o.eh), ("clone", lambda o: o.clone()), ("decompressedRecord", lambda o: o.decompressedRecord()), ("str", str),
                ("endtime", lambda o: o.endtime), ("bytes", lambda o: bytes(o.encodedDataBytes())), ("hasExtraHeaders", lambda o: o.hasExtraHeaders()),
                ("set eh", lambda o: setattr(o, "eh", {"new": [1, 2]})), ("set starttime", lambda o: setattr(o.header, "starttime", start)),
                ("merge with itself", lambda o: m3.mseed3merge(o, o)), ("merge", merge), ("merge", merge), ("parseIdentifier", lambda o: o.parseIdentifier()), ("size", lambda o: (o.pack(), o.getSize())[1])]
    if kind == "header":
        return [("pack", lambda o: bytes(o.pack())), ("clone", lambda o: o.clone()), ("endtime", lambda o: o.endtime), ("starttime", lambda o: o.starttime),
                ("set starttime", lambda o: setattr(o, "starttime", "2031-02-03T04:05:06.789Z")), ("crcAsHex", lambda o: o.crcAsHex()), ("sampleRate", lambda o: o.sampleRate)]
    if kind == "ms2":
        return [("pack", lambda o: bytes(o.pack())), ("pack", lambda o: bytes(o.pack())), ("decompress", lambda o: o.decompress()), ("details", lambda o: o.details(showData=True)),
                ("clone", lambda o: o.clone()), ("endtime", lambda o: o.endtime()), ("next", lambda o: o.next_starttime()), ("codes", lambda o: [o.codes(), str(o.identifier)]),
                ("convert", s.mseed2to3), ("convert", s.mseed2to3), ("rate", lambda o: o.header.setSampleRate(37.5)), ("header", lambda o: bytes(o.header.pack())),
                ("b1000", lambda o: o.createB1000())]
    if kind == "ms2 header":
        return [("pack", lambda o: bytes(o.pack())), ("rate", lambda o: o.setSampleRate(0.3)), ("id", lambda o: str(o.fdsnSourceId())), ("codes", lambda o: o.codes())]
    if kind == "block":
        return [("pack", lambda o: bytes(o.pack())), ("data", lambda o: bytes(o.getEncodedData()))]
    if kind == "segment":
        return [("decode", lambda o: o.decode()), ("record", lambda o: bytes(s.MSeed3Record(s.MSeed3Header(), "FDSN:A_B_C_D_E_F", o).pack())),
                ("decompress", lambda o: seedcodec.decompress(o.compressionType, o.dataBytes, o.numSamples, o.littleEndian))]
    if kind == "identifier":
        return [(k, lambda o, k=k: getattr(o, k)()) for k in ("validate", "asNslc", "networkSourceId", "stationSourceId", "locationSourceId", "shortChannelCode", "__str__")
                if hasattr(o, k)] or [("text", str)]
    return []


def interrupted(rng, ctx):
    """the same object and operation, interrupted at many places, then done again"""
    while True:
        seed = rng.randrange(1 << 60)
        kind, o = copies.make(random.Random(seed))
        ops = operations(kind, o, rng)
        if ops:
            break
    name, op = rng.choice(ops)
    error = rng.choice([KeyboardInterrupt, MemoryError, Stop])
    what = f"{type(o).__name__}, {name}, {error.__name__}"

    def again():
        return copies.make(random.Random(seed))[1]
    with At() as at:
        want = result(lambda: op(o))
    after = stable(o)
    places = range(1, at.lines + 1)
    if at.lines > PLACES:
        places = sorted(rng.sample(places, PLACES))
    for k in places:
        x = again()
        times = 1 + (rng.random() < 0.2)
        hit = False
        for _ in range(times):
            with At(k, error) as stop:
                try:
                    got = result(lambda: op(x))
                except error:
                    got = None
            hit = hit or stop.raised
            if got is not None and not stop.raised:
                ctx.check(got == want, f"{what}: result", got, want)
            # an error the library makes of the interruption is one too, any other result has to be right
            if got is not None and stop.raised and error is not MemoryError:
                ctx.check(got == want, f"{what}: interrupted at line {k} of {at.lines}, goes on as if not, result", got, want)
        got = result(lambda: op(x))
        same(ctx, got, want, f"{what}: done again after being interrupted at line {k} of {at.lines}")
        same(ctx, stable(x), after, f"{what}: what is seen after that, interrupted at line {k} of {at.lines}")
        if hit:
            ctx.count("interruptions")
    ctx.count(kind)
    ctx.seen(name, error.__name__, tuple(want), tuple(places))
    ctx.sample(f"{what}: {len(places)} of {at.lines} lines")


def same(ctx, got, want, what):
    for a, b in zip(got, want):
        ctx.check(a == b, what, a, b)
    ctx.eq(len(got), len(want), what)
    ctx.count("lines compared", len(want))


def finish(o):
    if hasattr(o, "pack"):
        copies.attempt(o.pack)


def functions(rng, ctx):
    """codecs interrupted: neither their inputs nor what they give later are touched"""
    import numpy as np
    import simplemseed as s
    from simplemseed import seedcodec
    enc, vals = ms3gen.payload_samples(rng, n=rng.choice([2, 20, 150]), encodings=(1, 3, 4, 5, 10, 11))
    if enc in (10, 11):
        vals = gen.ints(rng, len(vals), 20, -2**20, 2**20)
        arr = np.array(vals, dtype="i4")
        data = bytes((s.encodeSteim1, s.encodeSteim2)[enc - 10](arr))
        bias = rng.choice([0, 0, 5])
        todo = [("encode", lambda: (s.encodeSteim1, s.encodeSteim2)[enc - 10](arr, bias=np.int32(bias))), ("list", lambda: (s.encodeSteim1, s.encodeSteim2)[enc - 10](vals)),
                ("decode", lambda: seedcodec.decompress(enc, data, len(vals), False))]
    else:
        vals, arr = gen.np_typed(rng, enc, vals)[:2]
        data = bytes(seedcodec.encode(arr, enc, True).dataBytes)
        todo = [("encode", lambda: seedcodec.encode(arr, enc, False)), ("decode", lambda: seedcodec.decompress(enc, data, len(arr), True)),
                ("list", lambda: seedcodec.encode(arr.tolist(), enc, True))]
    name, op = rng.choice(todo)
    before = copies.text(arr)
    state = dict(np.geterr())
    with At() as at:
        want = result(op)
    places = sorted(rng.sample(range(1, at.lines + 1), min(PLACES, at.lines)))
    for k in places:
        error = rng.choice([KeyboardInterrupt, MemoryError, Stop])
        with At(k, error):
            try:
                op()
            except error:
                ctx.count("interruptions")
            except Exception:  # pylint: disable=broad-except
                ctx.count("interruptions turned into errors")
        ctx.eq(copies.text(arr), before, f"{name} {enc}: input after interruption at line {k}")
        ctx.check(dict(np.geterr()) == state, f"{name} {enc}: numpy error state after interruption at line {k}", np.geterr(), state)
        same(ctx, result(op), want, f"{name} {enc}: after interruption at line {k} of {at.lines}")
    ctx.count("functions interrupted")
    ctx.seen(name, enc, before, tuple(places))


class Unknown:
    """a value no format can hold"""
    blocketteNum = 5


def mended(rng, ctx):
    """operations that the library refuses, and the same once the cause is gone"""
    while True:
        seed = rng.randrange(1 << 60)
        kind, o = copies.make(random.Random(seed))
        if kind in ("ms3", "ms2"):
            break
    twin = copies.make(random.Random(seed))[1]
    if rng.random() < 0.5:
        # one that is packed before
        finish(o)
        finish(twin)
    for x in (o, twin):
        # printing reads the extra headers, which are written out anew from then on
        copies.attempt(lambda x=x: x.details(showData=True))
    faults = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        faults.append(fault(rng, kind, o, ctx))
    # the twin goes through what was mended in the same way, without any refusal
    for _f, mend in faults:
        mend(twin)
    what = f"{type(o).__name__} after {', '.join(f for f, _m in faults)}"
    same(ctx, result(lambda: bytes(o.pack())), result(lambda: bytes(twin.pack())), f"{what}: packed")
    same(ctx, stable(o), stable(twin), f"{what}: what is seen")
    ctx.count("mended " + kind)
    ctx.seen(what, repr(copies.seen(twin)))


def fault(rng, kind, o, ctx):
    """makes something fail, and mends it: (name, what mends it)"""
    def refused(fn, name):
        try:
            fn()
        except Exception:  # pylint: disable=broad-except
            ctx.count("refusals")
            return
        ctx.count(f"not refused: {name}")
    h = o.header
    if kind == "ms3":
        name = rng.choice(["long identifier", "headers not for JSON", "version", "flags", "start", "long headers", "samples", "encoding"])
        if name == "long identifier":
            was = o.identifier
            o.identifier = "FDSN:" + "x" * 300

            def mend(x, was=was):
                x.identifier = was
        elif name in ("headers not for JSON", "long headers"):
            was = "" if o.eh is None else dict(o.eh) if isinstance(o.eh, dict) else o.eh
            o.eh = {"a": Unknown()} if name.startswith("headers") else {"a": "x" * 70000}

            def mend(x, was=was):
                x.eh = dict(was) if isinstance(was, dict) else was
        elif name == "start":
            bad = rng.choice(["2024-13-45", "yesterday", 5, None, "2024-01-01T25:00:00Z", ""])
            refused(lambda: setattr(h, "starttime", bad), name)

            def mend(_x):
                # a time that is refused was never set
                pass
        else:
            field = {"version": "publicationVersion", "flags": "flags", "samples": "numSamples", "encoding": "encoding"}[name]
            was = getattr(h, field)
            setattr(h, field, rng.choice([-1, 300, "x", None, 1 << 40]) if name != "encoding" else rng.choice([300, "x"]))

            def mend(x, was=was, field=field):
                setattr(x.header, field, was)
    else:
        name = rng.choice(["samples", "blockette", "no room", "time correction", "quality flags", "sequence"])
        if name == "blockette":
            bad = Unknown()
            o.blockettes.insert(rng.randint(0, len(o.blockettes)), bad)

            def mend(x):
                x.blockettes = [b for b in x.blockettes if b is not bad]
        elif name == "no room":
            many = o.createB1001()
            o.blockettes.extend([many] * 2000)

            def mend(x):
                x.blockettes = [b for b in x.blockettes if b is not many]
        else:
            field = {"samples": "numSamples", "time correction": "timeCorr", "quality flags": "qualFlag", "sequence": "sequence_number"}[name]
            was = getattr(h, field)
            setattr(h, field, rng.choice([1 << 40, None, "x"]) if name != "sequence" else 5.5)

            def mend(x, was=was, field=field):
                setattr(x.header, field, was)
    for _ in range(rng.choice([1, 2])):
        refused(rng.choice([o.pack, o.pack, o.clone, lambda: o.details(showData=True), lambda: str(o)]), name)
    mend(o)
    return name, mend


KINDS = [Kind("interrupted", interrupted, 1500, 80000, need=("interruptions", "ms3", "ms2", "header", "ms2 header", "block", "segment", "identifier")),
         Kind("functions", functions, 400, 20000, need=("interruptions", "functions interrupted")),
         Kind("mended", mended, 2500, 100000, need=("refusals", "mended ms3", "mended ms2"))]
