"""Library calls leave inputs alone and are independent of each other"""
import copy
import io
import random
import sys
import threading

import numpy as np

from ..core import PKG, Inconclusive, Kind
from .. import gen, jobs, mergegen, ms2gen, ms3gen, ref
from ..jobs import plain

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "steim1.py", "steim2.py", "steimframeblock.py", "seedcodec.py", "mseed2to3.py", "fdsnsourceid.py"]
RULE = ("a case is one distinct call with a snapshot of its inputs before and after, or one distinct order or interleaving of calls, readers "
        "or threads, whose results are compared with those of the same work alone")


# ---------------------------------------------------------------- inputs are left alone

class Watch:
    """inputs as they were, each with the way to look at it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def add(self, name, obj, look=plain):
        self.items.append((name, obj, look, look(obj)))
        return obj

    def same(self, what):
        for name, obj, look, before in self.items:
            self.ctx.check(look(obj) == before, f"{what} changed {name}", before, look(obj))
            self.ctx.count("inputs compared")


def codecs(rng, ctx):
    import simplemseed as s
    w = Watch(ctx)
    k = rng.randrange(6)
    if k < 3:
        v = rng.choice([1, 2])
        vals = gen.ints(rng, gen.nsamples(rng, 200), 32 if v == 1 else 30)
        label, data = gen.container(rng, vals)
        w.add("samples", data)
        if k == 0:
            f, args = (s.encodeSteim1, s.encodeSteim2)[v - 1], (rng.choice([0, 1, 5, 63]), rng.choice([0, 7, -2**20]))
        elif k == 1:
            f, args = (s.encodeSteim1FrameBlock, s.encodeSteim2FrameBlock)[v - 1], (rng.choice([1, 3, 63]), 0)
        else:
            packed = ref.steim_encode(v, vals if v == 1 or ref.fits(vals[0], 30) else vals, rng)
            data = w.add("payload", rng.choice([bytes, bytearray, memoryview])(packed))
            f, args = (s.decodeSteim1, s.decodeSteim2)[v - 1], (len(vals), rng.choice([0, 0, 3]))
        what = f"{f.__name__} of {label}"
        first = jobs.guarded(lambda: plain(f(data, *args)))
        w.same(what)
        ctx.check(jobs.guarded(lambda: plain(f(data, *args))) == first, f"{what}: second result differs")
    elif k < 5:
        e = rng.choice([1, 3, 4, 5])
        vals = gen.typed(rng, e, gen.nsamples(rng, 100))
        little = rng.random() < 0.5
        if k == 3:
            label, data = gen.np_typed(rng, e, vals)
            if rng.random() < 0.2:
                label, data = "list", list(vals)
            w.add("samples", data)
            what = f"encode of {label}"
            first = jobs.guarded(lambda: plain(s.encode(data, e, little)))
            w.same(what)
            ctx.check(jobs.guarded(lambda: plain(s.encode(data, e, little))) == first, f"{what}: second result differs")
        else:
            data = w.add("payload", rng.choice([bytes, bytearray])(ref.prim_encode(e, vals, little)))
            what = f"decompress of encoding {e}"
            first = plain(np.array(s.decompress(e, data, len(vals), little)))
            w.same(what)
            ctx.check(plain(np.array(s.decompress(e, data, len(vals), little))) == first, f"{what}: second result differs")
    else:
        e = rng.choice([1, 3, 4, 5, 10, 11])
        vals = ms2gen.samples_fit(rng, e, 2000)
        little = rng.random() < 0.5
        raw = ref.prim_encode(e, vals, little) if e < 10 else ref.steim_encode(e - 9, vals, rng)
        seg = s.EncodedDataSegment(e, rng.choice([bytes, bytearray])(raw), len(vals), little)
        w.add("segment", seg)
        what = f"decode of segment {e}"
        first = jobs.guarded(lambda: plain(np.array(seg.decode())))
        w.same(what)
        ctx.check(jobs.guarded(lambda: plain(np.array(seg.decode()))) == first, f"{what}: second result differs")
    ctx.count(what.split(" ")[0])
    ctx.seen(what, w.items[0][3])
    ctx.sample(what)


LOOKS3 = {
    "decompress": lambda r: r.decompress(), "decompressedRecord": lambda r: r.decompressedRecord(), "details": lambda r: r.details(True, True),
    "summary": lambda r: r.summary(), "str": str, "eh": lambda r: r.eh, "hasExtraHeaders": lambda r: r.hasExtraHeaders(),
    "encodedDataBytes": lambda r: r.encodedDataBytes(), "getSize": lambda r: r.getSize(), "endtime": lambda r: r.endtime,
    "parseIdentifier": lambda r: r.parseIdentifier(), "encodingName": lambda r: r.encodingName(), "header.clone": lambda r: r.header.clone(),
    "header.pack": lambda r: r.header.pack(), "recordSize": lambda r: r.header.recordSize(), "samplePeriod": lambda r: r.header.samplePeriod,
    "crcAsHex": lambda r: r.header.crcAsHex(), "sanityCheck": lambda r: r.header.sanityCheck(),
}


def make3(rng, m):
    import simplemseed as s
    if rng.random() < 0.5:
        return ms3gen.build(rng, m)[1]
    return s.unpackMSeed3Record(rng.choice([bytes, bytearray])(ms3gen.to_ref(rng, m)))


def model3(rng):
    m = ms3gen.model(rng, n=rng.choice([1, 3, 20, 60]))
    m["year"] = min(max(m["year"], 10), 9000)
    if abs(m["sampleRatePeriod"]) < 1e-3:
        m["sampleRatePeriod"] = 20.0
    return m


def spoil3(rec):
    """change all of a record, its parts in place where they can be"""
    eh = rec.eh
    if isinstance(eh, dict):
        for v in list(eh.values()):
            if isinstance(v, dict):
                v["spoilt"] = 1
            if isinstance(v, list):
                v.append("spoilt")
        eh["spoilt"] = 1
    h = rec.header
    h.year, h.flags, h.numSamples, h.publicationVersion, h.sampleRatePeriod = 1, 255, 12345, 99, 0.5
    rec.identifier = "spoilt"
    for v in vars(rec).values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[:] = 77
        elif isinstance(v, bytearray):
            v[:] = b"\xff" * len(v)


def records3(rng, ctx):
    """calls on a record that only look, and new records made from it"""
    import simplemseed as s
    m = model3(rng)
    rec = make3(rng, m)
    w = Watch(ctx)
    w.add("record", rec, jobs.record3)
    names = rng.sample(sorted(LOOKS3), rng.randint(1, 6))
    for n in names:
        got = jobs.guarded(lambda: LOOKS3[n](rec))
        w.same(n)
        if n == "decompressedRecord" and not isinstance(got, tuple):
            got.pack()
            spoil3(got)
            w.same("use of " + n)
        if n == "header.clone":
            got.year, got.encoding = 3, 77
            w.same("use of " + n)
        if n == "header.pack" and not isinstance(got, tuple):
            got[:] = bytes(len(got))
            w.same("use of " + n)
        ctx.count(n)
    # packing sets only its own lengths and checksum
    w = Watch(ctx)
    w.add("record", rec, lambda r: jobs.record3(r, True))
    data = rec.pack()
    w.same("pack")
    first = bytes(data)
    data[:] = b"\0" * len(data)
    w.same("use of packed bytes")
    ctx.check(bytes(rec.pack()) == first, "packed again after the bytes were changed", first)
    c = rec.clone()
    w.same("clone")
    spoil3(c)
    w.same("use of clone")
    ctx.check(bytes(rec.pack()) == first, "packed again after the clone was changed", first)
    # reading leaves what is read alone
    src = bytearray(first)
    w.add("bytes", src)
    back = s.unpackMSeed3Record(src)
    hdr = s.unpackMSeed3FixedHeader(src)
    hdr.year = 1
    w.same("unpackMSeed3Record")
    spoil3(back)
    w.same("use of unpacked record")
    ctx.count("records")
    ctx.seen(names, first)
    ctx.sample(f"{names} {ms3gen.describe(m)}")


def inputs3(rng, ctx):
    """what a record is made of"""
    import simplemseed as s
    m = model3(rng)
    while m["samples"] is None:
        m = model3(rng)
    e, vals = m["encoding"], m["samples"]
    h = s.MSeed3Header()
    ms3gen.set_start(rng, h, m)
    w = Watch(ctx)
    if e in (10, 11):
        data = rng.choice([bytes, bytearray])(ref.steim_encode(e - 9, vals, rng))
        h.encoding, h.numSamples = e, len(vals)
        if rng.random() < 0.5:
            data = s.EncodedDataSegment(e, data, len(vals), False)
    else:
        k = rng.random()
        if k < 0.2:
            data = list(vals)
            h.encoding = e
        elif k < 0.4:
            data = s.EncodedDataSegment(e, bytearray(ref.prim_encode(e, vals, k < 0.3)), len(vals), k < 0.3)
        elif k < 0.5:
            data = bytearray(ref.prim_encode(e, vals, True))
            h.encoding, h.numSamples = e, len(vals)
        else:
            data = gen.np_typed(rng, e, vals)[1]
    w.add("samples", data)
    eh = w.add("extra headers", rng.choice([{}, gen.jobject(rng, 3), '{"a": [1]}', None]))
    w.add("header", h, lambda x: [(k, plain(v)) for k, v in jobs.public(x)
                                  if k not in ("encoding", "numSamples", "crc", "identifierLength", "extraHeadersLength", "dataLength")])
    rec = s.MSeed3Record(h, m["identifier"], data, eh)
    w.same("MSeed3Record()")
    for n in rng.sample(["pack", "clone", "decompress", "decompressedRecord", "encodedDataBytes", "details", "summary", "eh"], 4):
        jobs.guarded(lambda: getattr(rec, n)() if n != "eh" else rec.eh)
        w.same(n)
        ctx.count("made: " + n)
    d = rec.decompressedRecord()
    spoil3(d)
    w.same("use of decompressed record")
    # other or no extra headers for the record: the ones it was made with remain as they are for who holds them
    for _ in range(rng.choice([1, 2])):
        how = rng.choice(["replace", "none", "delete", "delete", "text"])
        if how == "delete":
            del rec.eh
        else:
            rec.eh = {"replace": w.add("second extra headers", gen.jobject(rng, 2)), "none": None, "text": '{"t": 1}'}[how]
        w.same(f"extra headers of record, {how}")
        rec.pack()
        w.same(f"pack after extra headers, {how}")
        ctx.count(f"extra headers {how}")
    ctx.seen(e, plain(data), plain(eh))


def merged(rng, ctx):
    import simplemseed as s
    recs = mergegen.stream(rng, rng.choice([2, 2, 3]))
    objs = []
    for m, _j in recs:
        r = make3(rng, m)
        if m["samples"] is not None and rng.random() < 0.9:
            r = r.decompressedRecord()
        objs.append(r)
    w = Watch(ctx)
    for i, r in enumerate(objs):
        w.add(f"record {i}", r, lambda x: jobs.record3(x, True))
    from simplemseed.mseed3 import areCompatible
    jobs.guarded(lambda: areCompatible(objs[0], objs[1]))
    w.same("areCompatible")
    out = s.mseed3merge(objs[0], objs[1])
    w.same("mseed3merge")
    packed = [bytes(r.pack()) for r in out]
    w.same("packing of merged")
    if len(out) == 1 and len(objs) > 2:
        more = s.mseed3merge(out[0], objs[2])
        w.same("second merge")
        ctx.check(bytes(out[0].pack()) == packed[0], "second merge changed its first input")
        if len(more) == 1:
            spoil3(more[0])
            w.same("use of twice merged record")
            ctx.check(bytes(out[0].pack()) == packed[0], "use of the second merge changed its first input")
            ctx.count("merged twice")
    if len(out) == 1:
        spoil3(out[0])
        w.same("use of merged record")
        ctx.count("merged")
    else:
        ctx.count("not merged")
    for x, y in ((None, objs[0]), (objs[0], None), (None, None)):
        s.mseed3merge(x, y)
    w.same("merge with None")
    ctx.seen(packed)


def records2(rng, ctx):
    import simplemseed as s
    r = ms2gen.model(rng)
    raw = ms2gen.build(r)
    w = Watch(ctx)
    src = w.add("bytes", bytearray(raw))
    rec = s.unpackMiniseedRecord(src)
    w.same("unpackMiniseedRecord")
    w = Watch(ctx)
    w.add("record", rec, jobs.record2)
    looks = {"decompress": lambda x: x.decompress(), "details": lambda x: x.details(True), "summary": lambda x: x.summary(), "starttime": lambda x: x.starttime(),
             "endtime": lambda x: x.endtime(), "next_starttime": lambda x: x.next_starttime(), "codes": lambda x: x.codes("_"),
             "identifier": lambda x: x.identifier, "mseed2to3": s.mseed2to3, "createB100": lambda x: x.createB100(),
             "createB1000": lambda x: x.createB1000(), "createB1001": lambda x: x.createB1001()}
    names = rng.sample(sorted(looks), rng.randint(1, 6))
    for n in names:
        got = jobs.guarded(lambda: looks[n](rec))
        w.same(n)
        if n == "mseed2to3" and not isinstance(got, tuple):
            got.pack()
            d = jobs.guarded(got.decompressedRecord)
            if not isinstance(d, tuple):
                spoil3(d)
            got.eh = {"x": 1}
            got.header.year = 4
            w.same("use of converted record")
        ctx.count(n)
    w = Watch(ctx)
    w.add("record", rec, jobs.record2)
    first = bytes(rec.pack())
    w.same("pack")
    ctx.check(bytes(rec.pack()) == first, "packed again")
    c = rec.clone()
    c.header.station, c.header.numSamples, c.header.actFlag = "ZZZ", 3, 9
    c.blockettes.clear()
    w.same("use of clone")
    ctx.count("records")
    ctx.seen(names, raw)


def inputs2(rng, ctx):
    import simplemseed as s
    e = rng.choice([1, 3, 4, 5])
    vals = ms2gen.samples_fit(rng, e, 400)
    label, data = gen.np_typed(rng, e, vals)
    h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", "2024-02-29T23:59:59.123456Z", 0, rng.choice([20.0, 0.1]))
    if rng.random() < 0.3:
        label, data = "list", list(vals)
        h.encoding = e
    w = Watch(ctx)
    w.add("samples", data)
    w.add("header", h, lambda x: [(k, plain(v)) for k, v in jobs.public(x) if k not in ("encoding", "numSamples", "byteorder", "endianChar")])
    blks = None
    if rng.random() < 0.5:
        from simplemseed.miniseed import Blockette100, Blockette1001, BlocketteUnknown
        blks = [b for b in (Blockette100(100, 0, h.sampleRate), Blockette1001(1001, 0, 50, 0, 1),
                            BlocketteUnknown(500, 0, b"\x01\xf4\0\0" + rng.randbytes(8))) if rng.random() < 0.5]
        w.add("blockettes", blks)
    rec = s.MiniseedRecord(h, data, blockettes=blks)
    w.same(f"MiniseedRecord() of {label}")
    first = bytes(rec.pack())
    if blks is not None and rng.random() < 0.5:
        # another record from the same list is another record
        h2 = s.MiniseedHeader("CO", "JSC", "00", "HHZ", "2024-02-29T23:59:59.123456Z", 0, h.sampleRate)
        other = s.MiniseedRecord(h2, np.array([1, 2], dtype=rng.choice(["<i2", ">i4", "f8"])), blockettes=blks)
        was = list(other.blockettes)
        rec.blockettes.append(Blockette1001(1001, 0, 1, 0, 0))
        ctx.check(list(other.blockettes) == was, "blockette added to one record is in another")
        rec.blockettes.pop()
        other.pack()
        w.same("pack of another record with the same blockettes")
        ctx.check(bytes(rec.pack()) == first, "pack after another record with the same blockettes was packed")
        ctx.count("blockettes shared")
    w.same(f"pack of {label}")
    for n in rng.sample(["pack", "clone", "decompress", "details", "summary", "endtime"], 3):
        getattr(rec, n)()
        w.same(f"{n} of {label}")
    s.mseed2to3(rec).pack()
    w.same(f"mseed2to3 of {label}")
    ctx.eq(bytes(rec.pack()), first, "packed again")
    ctx.count("made")
    ctx.seen(e, plain(data))


def identifiers(rng, ctx):
    import simplemseed as s
    from .. import sidgen
    net, sta, loc, band, source, sub = sidgen.codes(rng)
    if not band and (not source or not sub):
        band = "B"
    sid = s.FDSNSourceId(net, sta, loc, band, source, sub)
    w = Watch(ctx)
    w.add("identifier", sid)
    for n in ("validate", "stationSourceId", "networkSourceId", "locationSourceId", "shortChannelCode", "asNslc", "isTempNetConvention", "isTempNetHistorical",
              "isSeedTempNet", "__str__", "__repr__", "__hash__"):
        f = getattr(sid, n, None)
        if f is not None:
            got = jobs.guarded(f)
            w.same(n)
            for k in list(vars(got)) if hasattr(got, "__dict__") else []:
                setattr(got, k, "spoilt")
            w.same("use of " + n)
            ctx.count(n)
    jobs.guarded(lambda: sid == s.FDSNSourceId.parse(str(sid)))
    w.same("comparison")
    ctx.seen(str(sid))


# ---------------------------------------------------------------- independence

def run_job(name, seed):
    fn = [f for f in jobs.JOBS if f.__name__ == name][0]
    return plain(jobs.guarded(lambda: fn(random.Random(seed))))


def pick(rng, n):
    same_kind = rng.random() < 0.4
    one = rng.choice(jobs.JOBS).__name__
    return [(one if same_kind else rng.choice(jobs.JOBS).__name__, rng.getrandbits(40)) for _ in range(n)]


def order(rng, ctx):
    """the same work in another order, and repeated"""
    work = pick(rng, rng.choice([2, 3, 5, 8]))
    first = [run_job(*j) for j in work]
    later = list(range(len(work))) * 2
    rng.shuffle(later)
    for i in later:
        ctx.check(run_job(*work[i]) == first[i], f"{work[i][0]} gives another result after other calls", work, later)
        ctx.count("repeated calls")
    for n, _s in work:
        ctx.count("job " + n)
    ctx.seen(work)
    ctx.sample(f"{[n for n, _s in work]} again as {later}")


class Reader:
    """one stream, read alone and read among others"""

    def __init__(self, rng):
        import simplemseed as s
        self.three = rng.random() < 0.65
        self.data, self.opts = jobs.stream3(rng) if self.three else jobs.stream2(rng)
        self.read = s.readMSeed3Records if self.three else s.readMiniseed2Records
        self.view = jobs.view3 if self.three else jobs.view2
        self.alone = []
        g = self.start()
        while self.step(g, self.alone):
            pass
        self.got = []

    def start(self):
        return self.read(io.BytesIO(self.data), **self.opts)

    def step(self, g, out):
        """False at the end"""
        try:
            rec = next(g)
        except StopIteration:
            out.append("end")
            return False
        except Exception as e:  # pylint: disable=broad-except
            out.append(("raises", type(e).__name__, str(e)))
            return False
        out.append(self.view(rec))
        self.last = rec
        return True


def readers(rng, ctx):
    rs = [Reader(rng) for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.3:
        rs.append(copy.copy(rs[0]))  # the same bytes twice
        rs[-1].got = []
    gens = [r.start() for r in rs]
    live = list(range(len(rs)))
    schedule = []
    while live:
        i = rng.choice(live)
        schedule.append(i)
        if not rs[i].step(gens[i], rs[i].got):
            live.remove(i)
        elif rs[i].three and rng.random() < 0.3:
            jobs.guarded(lambda: spoil3(rs[i].last))
            schedule.append("changed")
        k = rng.random()
        if k < 0.1:
            run_job(*pick(rng, 1)[0])
            schedule.append("call")
        elif k < 0.2:
            g = rng.choice(rs).start()
            jobs.guarded(lambda: next(g, None))
            g.close()
            schedule.append("abandoned")
            ctx.count("abandoned readers")
    for i, r in enumerate(rs):
        ctx.check(r.got == r.alone, f"reader {i} of {len(rs)} gives other records than alone", schedule, r.opts, r.got[:1], r.alone[:1])
        ctx.count("readers compared")
        ctx.count("records compared", len(r.got))
    ctx.seen(schedule, [r.data for r in rs])
    ctx.sample(f"schedule {schedule[:20]}")


class Baton:
    """
    Lets one thread run at a time and hands on at randomly chosen lines of the code under
    test, so the interleaving is decided by the seed and can be run again.
    """

    def __init__(self, seed, n, chance):
        self.rng = random.Random(seed)
        self.chance = chance
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        self.done = threading.Semaphore(0)
        self.who = {}
        self.trace = []
        self.lines = 0

    def enter(self, me):
        self.who[threading.get_ident()] = me
        self.sems[me].acquire()

    def leave(self, me):
        del self.who[threading.get_ident()]
        self.live.remove(me)
        if self.live:
            self.sems[self.rng.choice(self.live)].release()
        else:
            self.done.release()

    def line(self, code, n):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        me = self.who.get(threading.get_ident())
        if me is None:
            return None
        self.lines += 1
        if self.rng.random() < self.chance:
            to = self.rng.choice(self.live)
            if to != me:
                self.trace.append((me, to, n))
                self.sems[to].release()
                self.sems[me].acquire()
        return None


def threads(rng, ctx):
    n = rng.choice([2, 2, 3, 4])
    work = [pick(rng, rng.choice([1, 2])) for _ in range(n)]
    if rng.random() < 0.5:
        one = rng.choice(jobs.JOBS).__name__  # all in the same code
        work = [[(one, rng.getrandbits(40))] for _ in range(n)]
    alone = [[run_job(*j) for j in w] for w in work]
    got = [[] for _ in work]
    b = Baton(rng.getrandbits(40), n, rng.choice([0.005, 0.05, 0.3]))
    mon = sys.monitoring
    mon.use_tool_id(mon.OPTIMIZER_ID, "rvbaton")
    mon.register_callback(mon.OPTIMIZER_ID, mon.events.LINE, b.line)

    def body(i):
        b.enter(i)
        try:
            for j in work[i]:
                got[i].append(run_job(*j))
        finally:
            b.leave(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    mon.set_events(mon.OPTIMIZER_ID, mon.events.LINE)
    try:
        for t in ts:
            t.start()
        b.sems[b.rng.choice(b.live)].release()
        if not b.done.acquire(timeout=100):
            raise Inconclusive("threads do not end")
    finally:
        mon.set_events(mon.OPTIMIZER_ID, 0)
        mon.register_callback(mon.OPTIMIZER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.OPTIMIZER_ID)
    for t in ts:
        t.join(20)
    for i in range(n):
        ctx.check(got[i] == alone[i], f"thread {i} of {n} gives another result than alone", [j[0] for j in work[i]], b.trace[:50])
        ctx.count("threads compared")
    ctx.count("switches", len(b.trace))
    ctx.count("lines run in threads", b.lines)
    for w in work:
        for j in w:
            ctx.count("job " + j[0])
    if b.trace:
        ctx.seen(b.trace, work)
    ctx.sample(f"{[[j[0] for j in w] for w in work]} {len(b.trace)} switches in {b.lines} lines")


def free(rng, ctx):
    """the interpreter's own scheduling, with short turns, many threads at once"""
    work = [pick(rng, 4) for _ in range(6)]
    alone = [[run_job(*j) for j in w] for w in work]
    got = [[] for _ in work]
    start = threading.Barrier(len(work))

    def body(i):
        start.wait()
        for _ in range(2):
            for j in work[i]:
                got[i].append(run_job(*j))
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(work))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Inconclusive("threads do not end")
    for i, w in enumerate(work):
        ctx.check(got[i] == alone[i] * 2, f"thread {i} of {len(work)} gives another result than alone", [j[0] for j in w])
        ctx.count("threads compared")
    ctx.seen(work)


def thing(rng):
    """(name, function that tells what the object holds now) of something made by the library"""
    import simplemseed as s
    k = rng.randrange(9)
    if k < 3:
        v = rng.choice([1, 2])
        vals = gen.ints(rng, rng.choice([1, 3, 20, 100, 300]), 29)
        vals = [x - vals[0] for x in vals] if all(abs(x - vals[0]) < 2**29 for x in vals) else [0, 5, -9]
        frames = rng.choice([0, 0, 1, 2, 7, 63, 64, 255, 256, 1000, 1025, 5000, 65536])
        b = (s.encodeSteim1FrameBlock, s.encodeSteim2FrameBlock)[v - 1](vals, frames)
        return "frame block", lambda: (bytes(b.pack()), int(b.getNumSamples()), len(b.getSteimFrames()), int(b.getNumFrames()))
    if k == 3:
        v = rng.choice([1, 2])
        vals = [x % 100000 for x in gen.ints(rng, rng.choice([1, 3, 20, 100, 300]), 20)]
        p = (s.encodeSteim1, s.encodeSteim2)[v - 1](vals)
        a = (s.decodeSteim1, s.decodeSteim2)[v - 1](p, len(vals))
        return "steim", lambda: (bytes(p), a.tobytes(), str(a.dtype))
    if k == 4:
        e = rng.choice([1, 3, 4, 5])
        vals = gen.typed(rng, e, rng.choice([0, 1, 5, 50, 500]))
        seg = s.encode(gen.np_typed(rng, e, vals)[1], e, rng.random() < 0.5)
        a = seg.decode()
        return "segment", lambda: (bytes(seg.dataBytes), seg.compressionType, seg.numSamples, seg.littleEndian, a.tobytes(), str(a.dtype))
    if k in (5, 6):
        m = ms3gen.model(rng, n=rng.choice([1, 5, 40]))
        rec = ms3gen.build(rng, m)[1]
        p = rec.pack()
        back = s.unpackMSeed3Record(p)
        if k == 6:
            rec = rng.choice([back, rec.clone()])
        return "record", lambda: (bytes(p), bytes(rec.pack()), jobs.view3(back))
    if k == 7:
        h = s.MSeed3Header()
        if rng.random() < 0.5:
            h.starttime = "2024-02-03T04:05:06Z"
            h.flags = rng.randrange(256)
        return "header", lambda: jobs.plain(vars(h))
    sid = s.FDSNSourceId.createUnknown(rng.choice([1, 20, 100, -10]), stationCode=rng.choice(["STA", "A1", "ABCDEFGH"]))
    return "source id", lambda: (str(sid), jobs.plain(vars(sid)), sid.validate(), str(sid.asNslc()))


def objects(rng, ctx):
    """things made one after the other stay as they were made"""
    made = []
    for _ in range(rng.randint(2, 9)):
        name, look = thing(rng)
        look()  # lengths and checksum are set by the first pack
        made.append((name, look, look()))
    rng.shuffle(made)
    for name, look, was in made:
        ctx.check(look() == was, f"{name} changed when others were made", [m[0] for m in made])
        ctx.count(f"kept {name}")
    ctx.seen([m[2] for m in made])


ALL = tuple("job " + f.__name__ for f in jobs.JOBS)
KINDS = [
    Kind("codecs", codecs, 12000, 500000, need=("encodeSteim1", "encodeSteim2", "decodeSteim1", "decodeSteim2", "encode", "decompress", "decode",
                                                "encodeSteim1FrameBlock", "encodeSteim2FrameBlock", "inputs compared")),
    Kind("records3", records3, 5000, 200000, need=tuple(LOOKS3)),
    Kind("inputs3", inputs3, 5000, 200000, need=("made: pack", "made: eh", "made: decompressedRecord")),
    Kind("merged", merged, 3000, 100000, need=("merged", "not merged", "merged twice")),
    Kind("records2", records2, 5000, 200000, need=("mseed2to3", "decompress", "details", "records")),
    Kind("inputs2", inputs2, 3000, 100000, need=("made",)),
    Kind("identifiers", identifiers, 2000, 50000, need=("asNslc", "validate")),
    Kind("order", order, 1500, 60000, need=ALL + ("repeated calls",)),
    Kind("objects", objects, 3000, 100000, need=("kept frame block", "kept steim", "kept segment", "kept record", "kept header", "kept source id")),
    Kind("readers", readers, 1500, 60000, need=("readers compared", "abandoned readers")),
    Kind("threads", threads, 2500, 40000, need=ALL + ("threads compared", "switches")),
    Kind("free", free, 60, 2000, need=("threads compared",)),
]
