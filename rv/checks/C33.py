"""Memory, open files and work stay in proportion to the data"""
import gc
import os
import resource
import subprocess
import sys
import time
import tracemalloc
import weakref

import crc32c
import numpy as np

from .. import cli, core, gen, ms2gen, ms3gen, ref
from ..core import Inconclusive, Kind

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "mseed2to3.py", "seedcodec.py", "steim1.py", "steim2.py", "steimframeblock.py",
         "mseed3merge.py", "mseed3details.py", "mseed2details.py"]
RULE = ("a case is one distinct stream, tool run or series handled at two sizes; counted when memory, live records, bytes taken from the source, "
        "open files or steps at the larger size were compared with the smaller")


class Source:
    """A stream that makes its bytes as they are asked for and can only be read on."""

    def __init__(self, records):
        self.records = iter(records)
        self.left = b""
        self.taken = 0
        self.largest = 0

    def read(self, n=-1):
        if n is None or n < 0:
            parts = [self.left, *self.records]
            self.left = b""
            out = b"".join(parts)
        else:
            parts, have = [self.left], len(self.left)
            while have < n:
                r = next(self.records, None)
                if r is None:
                    break
                parts.append(r)
                have += len(r)
            whole = b"".join(parts)
            out, self.left = whole[:n], whole[n:]
        self.taken += len(out)
        self.largest = max(self.largest, len(out))
        return out


def ms3_record(rng, size=None):
    """bytes of one record by the reference"""
    m = ms3gen.model(rng, n=size, big=0)
    return m, bytes(ms3gen.to_ref(rng, m))


def ms2_record(rng):
    r = ms2gen.model(rng, exps=(9, 10, 12))
    return r, bytes(ms2gen.build(r))


def vary(form, data, k):
    """the record as the k-th of its stream: other sequence number, or other time, so that no two are the same"""
    if form == 2:
        return b"%06d" % (k % 1000000) + data[6:]
    b = bytearray(data)
    b[4:8] = (k * 1000).to_bytes(4, "little")
    b[28:32] = bytes(4)
    b[28:32] = crc32c.crc32c(bytes(b)).to_bytes(4, "little")
    return bytes(b)


def walked(make, call):
    """(peak of traced memory, largest number of records alive after being let go) while going through a stream"""
    src = make()
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        alive, live_max, n = [], 0, 0
        for rec in call(src):
            n += 1
            alive.append(weakref.ref(rec))
            del rec
            if n % 16 == 0:
                gc.collect()
                alive = [a for a in alive if a() is not None]
                live_max = max(live_max, len(alive))
        peak = tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()
    gc.collect()
    left = sum(1 for a in alive if a() is not None)
    return src, n, peak, live_max, left


def streams(rng, ctx):
    """going through a stream needs memory for a record, whatever its length"""
    import simplemseed as s
    form = rng.choice([2, 3, 3])
    recs = [ms3_record(rng, size=rng.choice([None, 50, 900])) if form == 3 else ms2_record(rng) for _ in range(rng.randint(1, 3))]
    data = [d for _m, d in recs]
    big = max(len(d) for d in data)
    if form == 3:
        how = rng.choice(["plain", "nocrc", "match", "skip", "merge"])
        kw = {"plain": {}, "nocrc": {"check_crc": False}, "match": {"matchsid": ""}, "skip": {"matchsid": "(?!)"},
              "merge": {"merge": True}}[how]
        if how == "merge":
            # neighbours that never join: the same times again
            if any(m["numSamples"] == 0 or m["samples"] is None for m, _d in recs):
                how, kw = "plain", {}

        def call(src):
            return s.readMSeed3Records(src, **kw)
    else:
        how = rng.choice(["plain", "match", "skip"])
        kw = {"plain": {}, "match": {"matchsid": ""}, "skip": {"matchsid": "(?!)"}}[how]

        def call(src):
            return s.readMiniseed2Records(src, **kw)
    each = rng.choice(["read", "decode", "details"])

    def use(src):
        for rec in call(src):
            if each == "decode":
                try:
                    rec.decompress()
                except Exception:  # pylint: disable=broad-except
                    pass           # an encoding without a decoder
            elif each == "details":
                str(rec)
            yield rec
    short, long = 160, 640
    if how == "merge":
        short, long = 48, 192
    use(Source(data * 2))
    list(use(Source(data)))  # whatever is set up once
    _src, n1, peak1, _l, _k = walked(lambda: Source(vary(form, data[k % len(data)], k) for k in range(short)), use)
    src, n2, peak2, live, left = walked(lambda: Source(vary(form, data[k % len(data)], k) for k in range(long)), use)
    total = sum(len(data[k % len(data)]) for k in range(long))
    ctx.eq(src.taken, total, f"bytes taken from the source, {how}")
    if how == "merge":
        # joined or not, samples of a merged run are in memory: judge only what the same records at the same times give
        if n2 < long:
            return
        big *= 40  # decompressed
    elif how != "skip":
        ctx.eq((n1, n2), (short, long), f"records read, {how}")
    else:
        ctx.eq((n1, n2), (0, 0), "records read that do not match")
    ctx.check(live <= 3, f"records that were handed out and let go are still alive, {how} {each}", live)
    # each of the records not read in one piece would add at least a header and an object
    room = big + 24 * (long - short)
    ctx.check(peak2 - peak1 <= room, f"memory grows with the number of records read, miniSEED {form} {how} {each}", peak1, peak2, room)
    ctx.check(src.largest <= max(65536, 4 * big), f"source asked for more than a record at once, {how}", src.largest, big)
    ctx.count("streams gone through")
    ctx.count("records read", n1 + n2)
    ctx.count(f"stream {form} {how}")
    ctx.seen(form, how, each, data[0])


def runs(rng, ctx):
    """merging holds the run being joined and the record after it"""
    import simplemseed as s
    rate = rng.choice([1, 10, 100])
    per = rng.randint(5, 400)
    k_runs, length = rng.randint(20, 30), rng.randint(1, 6)
    out, ends = [], []
    enc = rng.choice([1, 3, 4, 5, 10, 11])
    us = 1_600_000_000_000_000
    ident = "FDSN:CO_BIRD_00_H_H_Z"
    for _r in range(k_runs):
        for _k in range(length):
            vals = gen.typed(rng, enc, per) if enc in (1, 3, 4, 5) else gen.ints(rng, per, 12, -2**20, 2**20)
            arr = np.array(vals, dtype=gen.NPTYPE[3 if enc in (10, 11) else enc])
            h = s.MSeed3Header()
            h.starttime = ref.micros_dt(us)
            h.sampleRatePeriod = rate
            if enc in (10, 11):
                h.encoding = enc
                h.numSamples = per
                payload = bytes((s.encodeSteim1 if enc == 10 else s.encodeSteim2)(arr))
                rec = s.MSeed3Record(h, ident, payload)
            else:
                rec = s.MSeed3Record(h, ident, arr)
            out.append(bytes(rec.pack()))
            us += per * 1_000_000 // rate
        ends.append(sum(len(d) for d in out))
        us += 3_600_000_000
    src = Source(out)
    n = 0
    live = []
    for rec in s.readMSeed3Records(src, merge=True):
        ctx.eq(rec.header.numSamples, per * length, "samples of a merged run")
        # the run, and the first record of the next to see that it does not go on
        far = ends[n] + (len(out[(n + 1) * length]) if n + 1 < k_runs else 0)
        ctx.check(src.taken <= far, "source read further than merging needs", n, src.taken, far)
        live.append(weakref.ref(rec))
        del rec
        gc.collect()
        live = [x for x in live if x() is not None]
        ctx.check(len(live) <= 2, "merged records that were let go are still alive", len(live))
        n += 1
    ctx.eq(n, k_runs, "merged runs")
    ctx.count("merged runs", n)
    ctx.seen(enc, per, length)


PEAK = """
import sys, tracemalloc, gc
sys.argv[0] = sys.argv[2]
mod, peakfile = sys.argv[1], sys.argv[3]
del sys.argv[1:4]
import importlib
main = importlib.import_module("simplemseed." + mod).main
code = 0
gc.collect()
tracemalloc.start()
try:
    code = main() or 0
except SystemExit as e:
    code = e.code or 0
peak = tracemalloc.get_traced_memory()[1]
tracemalloc.stop()
with open(peakfile, "w") as f:
    f.write(str(peak))
sys.stdout.flush()
sys.exit(code)
"""


def run_tool(d, mod, args, nofile=None):
    """exit code, peak of memory, standard error of a tool run as a process of its own"""
    env = dict(os.environ, PYTHONPATH=core.SRC, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONWARNINGS="ignore")

    def limits():
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
    with open(d.file("out.txt"), "wb") as out:
        try:
            p = subprocess.run([sys.executable, "-B", "-c", PEAK, mod, mod, d.file("peak.txt")] + args, stdout=out, stderr=subprocess.PIPE,
                               cwd=d.work, env=env, timeout=200, preexec_fn=limits, check=False)  # pylint: disable=subprocess-popen-preexec-fn
        except subprocess.TimeoutExpired as e:
            raise Inconclusive(f"{mod} took more than 200 s") from e
    peak = int(d.read("peak.txt") or 0) if os.path.exists(d.file("peak.txt")) else None
    return p.returncode, peak, p.stderr.decode("utf-8", "replace")[-500:]


TOOLS = [("mseed3details", ["--summary"], 3), ("mseed3details", [], 3), ("mseed3details", ["--data"], 3), ("mseed3details", ["--get", "/a"], 3),
         ("mseed3details", ["--getall", "/a"], 3), ("mseed3details", ["--set", "/a", "5"], 3), ("mseed3details", ["--setall", "/a", "[1]"], 3),
         ("mseed3merge", None, 3), ("mseed3merge", None, 3), ("mseed2to3", None, 2), ("mseed2details", ["--summary"], 2), ("mseed2details", [], 2)]


def tools(rng, ctx):
    """a tool goes through a file of any length in the same memory"""
    # a rewrite may well put the new file together in memory
    mod, args, form = [t for t in TOOLS if t[1] is None or not t[1] or "set" not in t[1][0]][rng.index]
    size = 2000
    rows = []
    for k in range(4):
        vals = [rng.randint(-2**31, 2**31 - 1) for _ in range(size)]
        if form == 3:
            rows.append(ref.ms3_build(dict(
                flags=0, nanosecond=0, year=2001 + 3 * k, dayOfYear=1, hour=1, minute=2, second=3, encoding=3, sampleRatePeriod=20.0,
                numSamples=size, publicationVersion=1, identifier="FDSN:CO_BIRD_00_H_H_Z", ehbytes=b'{"a": 1}',
                payload=ref.prim_encode(3, vals, True))))
    if form == 2:
        for k in range(4):
            r = ms2gen.model(rng, exps=(13,), encodings=(3, 10, 11), empty=0)
            rows.append(bytes(ms2gen.build(r)))
    peaks = []
    for n in (12, 120):
        with cli.Dir() as d:
            f = d.write("in.ms", b"".join(bytes(rows[k % 4]) for k in range(n)))
            if mod == "mseed3merge":
                a = ["-o", "out.ms3", f]
            elif mod == "mseed2to3":
                a = ["-2", f, "-3", "out.ms3"]
            else:
                a = args + [f]
            code, peak, err = run_tool(d, mod, a)
            ctx.check(code == 0 and peak, f"{mod} {args} on {n} records", code, err)
            peaks.append(peak)
    each = max(len(r) for r in rows)
    ctx.check(peaks[1] - peaks[0] <= 6 * each, f"memory of {mod} {args} grows with the number of records", peaks, each)
    ctx.count("tool runs compared")
    ctx.seen(mod, args)


def many(rng, ctx):
    """a tool goes through more files than may be open at once"""
    mod, args, form = [t for t in TOOLS if t[1] is not None][rng.index]
    with cli.Dir() as d:
        files, rec = [], None
        for k in range(60):
            if rec is None or k % 7 == 0:
                rec = ms3_record(rng, size=20)[1] if form == 3 else ms2_record(rng)[1]
            files.append(d.write(f"f{k:02d}.ms", rec))
        code, _peak, err = run_tool(d, mod, args + files, nofile=24)
        ctx.check(code == 0, f"{mod} {args} on 60 files with 24 open at most", code, err)
        ctx.check(len(d.listing()) == 62, f"{mod} {args} leaves files behind", d.listing()[:70])
    ctx.count("files given to a tool", 60)
    ctx.seen(mod, args)


class Steps:
    """lines of the library executed"""

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, "rvwork")
        self.n = 0
        prefix = core.PKG + os.sep

        def line(code, _n):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.n += 1
            return None
        mon.register_callback(mon.PROFILER_ID, mon.events.LINE, line)
        mon.set_events(mon.PROFILER_ID, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(mon.PROFILER_ID, 0)
        mon.register_callback(mon.PROFILER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.PROFILER_ID)
        mon.restart_events()


def payload(version, arr):
    """(Steim payload, number of samples): made of one of the first 8000 samples by repeating its frames, as the library takes long to encode"""
    import simplemseed as s
    enc = s.encodeSteim1 if version == 1 else s.encodeSteim2
    if len(arr) <= 8000:
        return bytes(enc(arr)), len(arr)
    one = bytes(enc(arr[:8000]))
    n = ref.steim_parse(version, one[:64])[0]
    again = (len(arr) - 8000) // (8000 - len(n))
    return one + again * one[64:], 8000 + again * (8000 - len(n))


def rec3(arr, enc):
    import simplemseed as s
    h = s.MSeed3Header()
    h.sampleRatePeriod = 20
    if enc in (10, 11):
        h.encoding = enc
        arr, h.numSamples = payload(enc - 9, arr)
    return s.MSeed3Record(h, "FDSN:CO_BIRD_00_H_H_Z", arr)


def jobs():
    """name, prepare(array of samples) -> argument, work(argument)"""
    import simplemseed as s
    from simplemseed import seedcodec, steim1, steim2
    out = []

    def job(name, prepare, work):
        out.append((name, prepare, work))
    for v, enc in ((1, s.encodeSteim1), (2, s.encodeSteim2)):
        dec = (steim1.decodeSteim1, steim2.decodeSteim2)[v - 1]
        job(f"encode steim{v}", lambda a: a, enc)
        job(f"encode steim{v} list", lambda a: a.tolist(), enc)
        job(f"decode steim{v}", lambda a, v=v: payload(v, a), lambda x, dec=dec: dec(x[0], x[1], np.int32(0)))
    for code in (1, 3, 4, 5):
        t = gen.NPTYPE[code]
        job(f"encode {code}", lambda a, t=t: (a % 1000).astype(t), lambda a, code=code: seedcodec.encode(a, code, True))
        job(f"encode {code} list", lambda a, t=t: (a % 1000).astype(t).tolist(), lambda a, code=code: seedcodec.encode(a, code, True))
        job(f"decode {code}", lambda a, t=t, code=code: (bytes((a % 1000).astype(t)), len(a), code),
            lambda x: seedcodec.decompress(x[2], x[0], x[1], False))
        job(f"record {code}", lambda a, t=t: (a % 1000).astype(t), lambda a, code=code: rec3(a, code).pack())
        job(f"record {code} list", lambda a, t=t: (a % 1000).astype(t).tolist(), lambda a, code=code: rec3(a, code).pack())
    for code in (1, 10, 11):
        job(f"unpack {code}", lambda a, code=code: bytes(rec3((a % 1000).astype("i2" if code == 1 else "i4"), code).pack()),
            lambda b: s.unpackMSeed3Record(b).decompress())
        job(f"clone {code}", lambda a, code=code: rec3((a % 1000).astype("i2" if code == 1 else "i4"), code),
            lambda r: r.clone().decompressedRecord().pack())
    for v in (1, 2):
        job(f"pack frames {v}", lambda a, v=v: frames(v, a), lambda b: b.pack())
        job(f"data of frames {v}", lambda a, v=v: frames(v, a), lambda b: b.getEncodedData())
    job("details", lambda a: rec3((a % 1000).astype("i4"), 3), lambda r: (r.pack(), r.details(showData=True)))
    return out


NJOBS = 6 + 4 * 5 + 3 * 2 + 5


def frames(version, arr):
    """a block with a word for every sample"""
    import simplemseed as s
    b = s.SteimFrameBlock(0, version)
    for x in arr.view(np.int32):
        b.addEncodedWord(x, 1, 3)
    return b


def work(rng, ctx):
    """lines executed and time taken for eight times the samples are about eight times as many"""
    name, prepare, do = jobs()[rng.index % NJOBS]
    tile = np.array(gen.ints(rng, rng.randint(40, 80), rng.choice([4, 7, 9, 12, 19]), -2**19, 2**19), dtype="i4")
    tile = np.concatenate([tile, tile[::-1]])  # no large step where it is repeated

    def series(n):
        return np.resize(tile, n)
    do(prepare(series(300)))
    steps = []
    for n in (600, 4800):
        x = prepare(series(n))
        with Steps() as st:
            do(x)
        steps.append(st.n)
    ctx.check(steps[1] <= 12 * steps[0] + 200, f"{name}: steps grow faster than the samples, 600 and 4800 samples", steps)
    ctx.count("steps compared")
    ctx.count("steps seen", sum(steps))
    # copying that grows with what was done already is out of sight of steps: processor time, many samples
    if name.startswith("encode steim"):
        small, large = 16000, 192000
    elif "frames" in name:
        small, large = 16000, 480000
    elif name.endswith(("steim1", "steim2", " 10", " 11")):
        small, large = 16000, 1600000
    else:
        small, large = 64000, 1600000
    def cpu(x):
        t = time.process_time()
        do(x)
        return time.process_time() - t
    xs = prepare(series(small))
    ts = min(cpu(xs), cpu(xs))
    for n in (large // 4, large):
        x = prepare(series(n))
        tl = 1e9
        for _try in range(5):
            ts, tl = min(ts, cpu(xs), cpu(xs)), min(tl, cpu(x))
            # three times of what is linear; quadratic is 4 to 13 times that; shorter times are noise
            limit = 3 * n / small * max(ts, 0.002)
            if tl <= limit:
                break
        ctx.check(tl <= limit, f"{name}: time grows faster than the samples, {small} and {n} samples", ts, tl)
    ctx.count("times compared")
    ctx.seen(name, tile.tobytes())


def counted(rng, ctx):
    """reading and merging: work per record does not depend on how many came before"""
    import simplemseed as s
    from datetime import datetime, timedelta, timezone
    what = rng.choice(["read", "read2", "merge", "match", "convert"])
    size = rng.randint(1, 60)
    t0 = datetime(2020, 1, 2, tzinfo=timezone.utc)

    def stream(k):
        out = []
        for i in range(k):
            if what in ("read2", "convert"):
                out.append(one2)
                continue
            h = s.MSeed3Header()
            h.sampleRatePeriod = 10
            h.starttime = t0 + timedelta(microseconds=i * size * 100000)
            out.append(bytes(s.MSeed3Record(h, "FDSN:CO_BIRD_00_H_H_Z", np.arange(size, dtype="i4")).pack()))
        return out
    one2 = bytes(ms2gen.build(ms2gen.model(rng, exps=(9,), encodings=(3, 10, 11), empty=0)))
    steps = []
    for k in (20, 160):
        recs = stream(k)
        src = Source(recs)
        with Steps() as st:
            if what in ("read2", "convert"):
                got = 0
                for r in s.readMiniseed2Records(src):
                    got += 1
                    if what == "convert":
                        s.mseed2to3(r).pack()
            else:
                got = len(list(s.readMSeed3Records(src, merge=what == "merge", matchsid="CO_B" if what == "match" else None)))
        ctx.eq(got, 1 if what == "merge" else k, f"records out of {what}")
        steps.append(st.n)
    ctx.check(steps[1] <= 12 * steps[0] + 200, f"{what}: steps grow faster than the number of records, 20 and 160", steps)
    ctx.count("record steps compared")
    ctx.seen(what, size, one2)


KINDS = [
    Kind("work", work, NJOBS, 6 * NJOBS, need=("steps compared", "times compared")),
    Kind("tools", tools, len(TOOLS) - 2, len(TOOLS) - 2, need=("tool runs compared",)),
    Kind("many", many, 9, 9, need=("files given to a tool",)),
    Kind("streams", streams, 80, 4000, need=("streams gone through", "stream 3 plain", "stream 3 skip", "stream 2 plain", "stream 3 merge")),
    Kind("runs", runs, 60, 3000, need=("merged runs",)),
    Kind("counted", counted, 60, 3000, need=("record steps compared",)),
]
