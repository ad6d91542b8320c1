"""A long series cut into records is recovered whole"""
import io
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np

from ..core import Kind
from .. import cli, gen, ms2gen, ref

LEVEL = "exploration"
FILES = ["miniseed.py", "mseed3.py", "mseed2to3.py", "steim1.py", "steim2.py", "steimframeblock.py", "mseed3merge.py"]
RULE = ("a case is one distinct set of series, cut into records with the library, written, read back and joined; counted when the joined "
        "samples and times were compared with the series")

INT_RATES = [1, 2, 10, 20, 40, 50, 100, 125, 200, 250, 500, 1000, 3, 7, 33, 1024, 2000]
SLOW = [0.5, 0.1, 0.2, 1 / 60, 1 / 3, 1 / 7, 1 / 30, 1 / 3600]


def series(rng, n, enc):
    if enc in (10, 11):
        k = rng.random()
        if k < 0.5:
            # parts of different liveliness, so that blocks take up different numbers of samples
            out, v = [], rng.choice([0, 5, -100000, 2**28])
            while len(out) < n:
                w = 1 << rng.choice([1, 3, 5, 7, 9, 14, 16, 20])
                for _ in range(rng.randint(1, 300)):
                    out.append(v)
                    v += rng.randint(-w, w)
                    if abs(v) > 2**29:
                        v //= 2
            out = out[:n]
            if all(ref.fits(b - a, 30) for a, b in zip(out, out[1:])):
                return out
        vals = gen.ints(rng, n, 32 if enc == 10 else 30)
        if enc == 11 and not ref.fits(vals[0], 30):
            vals = gen.ints(rng, n, 29, -2**28, 2**28)
        return vals
    return gen.typed(rng, enc, n)


def held(rng, enc, vals):
    """the whole series as a user has it"""
    t = gen.NPTYPE[3 if enc in (10, 11) else enc]
    k = rng.random()
    if k < 0.6:
        return np.array(vals, dtype=t)
    if k < 0.8 and enc in (10, 11):
        return list(vals)
    return np.array(vals, dtype=rng.choice("<>") + t)


def cut(rng, ctx, enc, vals, whole, frames):
    """[(first sample, number, data argument)], Steim blocks filled up as long as samples remain"""
    import simplemseed as s
    out, at, fill = [], 0, rng.choice(["given", "own"])
    while at < len(vals):
        if enc in (10, 11):
            last = vals[at - 1] if at else rng.choice([0, 0, vals[0]])
            if not ref.fits(vals[at] - last, 30):
                last = vals[at]
            if enc == 10 and rng.random() < 0.5:
                block = s.encodeSteim1FrameBlock(whole, frames, last, at)
            else:
                block = (s.encodeSteim1FrameBlock if enc == 10 else s.encodeSteim2FrameBlock)(whole[at:], frames, last)
            n = int(block.getNumSamples())
            ctx.check(n > 0, "a block without samples", at)
            data = bytes(block.pack())
            ctx.check(len(data) <= 64 * frames, "block larger than its limit", len(data), frames)
            ctx.check(len(data) == 64 * frames or at + n == len(vals), "block not full while samples remain", at, n, len(data))
            diffs, x0, xn, _lay = ref.steim_parse(enc - 9, data)
            ctx.eq((ref.wrap32(x0 - diffs[0]), x0, xn), (ref.wrap32(last), vals[at], vals[at + n - 1]), "constants and first difference join blocks")
            seg = s.EncodedDataSegment(enc, block.pack() if fill == "own" else data, n, False)
            out.append((at, n, seg))
        else:
            size = ref.PRIM[enc][1]
            n = min(len(vals) - at, frames * 64 // size if rng.random() < 0.9 else rng.randint(1, frames * 64 // size))
            out.append((at, n, whole[at:at + n]))
        at += n
    return out


def when(us0, at, rate):
    return us0 + round(Fraction(at) * 1000000 / rate)


def dt(us):
    return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)


class Channel:
    """one series with its records"""

    def __init__(self, rng, ctx, fmt, taken):
        self.enc = rng.choice([10, 11, 10, 11, 10, 11, 1, 3, 4, 5])
        exp = rng.choice([9, 9, 9, 8, 10, 12]) if fmt == 2 else None
        frames = {8: 1, 9: 6, 10: 14, 12: 62}[exp] - rng.choice([0, 0, 1 if exp != 8 else 0]) if exp else rng.choice([1, 2, 7, 63, 5])
        n = rng.choice([1, 2, rng.randint(1, 300), rng.randint(300, 3000), rng.randint(300, 6000)])
        self.vals = series(rng, n, self.enc)
        slow = rng.random() < 0.3
        rate = rng.choice(SLOW if slow else INT_RATES)
        self.rate = Fraction(1, round(1 / rate)) if slow else Fraction(rate)
        y, d = gen.year_day(rng, 1972, 2040)
        self.us0 = ref.micros(y, d, *gen.clock(rng), rng.choice([0, 999999, rng.randrange(1000000)]))
        while True:
            c = ms2gen.codes(rng)
            self.codes = (c["net"], c["sta"], c["loc"], c["chan"])
            self.sid = ms2gen.sid(c)
            if self.sid not in taken:
                break
        taken.add(self.sid)
        whole = held(rng, self.enc, self.vals)
        self.chain = rng.random() < 0.3   # start of each record from the one before, as the library says
        self.records = []
        nxt = None
        b1001 = self.b1001 = rng.random() < 0.6
        if fmt == 2 and not b1001:
            self.us0 -= self.us0 % 100
        self.fuzz = 0
        for k, (at, n, data) in enumerate(cut(rng, ctx, self.enc, self.vals, whole, frames)):
            start = when(self.us0, at, self.rate)
            rec = self.ms2(rng, dt(start) if nxt is None else nxt, n, data, exp, k, b1001) if fmt == 2 else self.ms3(rng, dt(start) if nxt is None else nxt, n, data)
            if self.chain:
                # a microsecond or, without blockette 1001, a tenth of a millisecond may be lost in each
                nxt = rec.next_starttime() if fmt == 2 else rec.endtime + timedelta(seconds=rec.header.samplePeriod)
                self.fuzz += 2
            self.records.append((at, n, bytes(rec.pack())))
        ctx.count("records written", len(self.records))
        ctx.count(f"series of encoding {self.enc}")

    def ms2(self, rng, start, n, data, exp, k, b1001):
        import simplemseed as s
        h = s.MiniseedHeader(*self.codes, start, n if rng.random() < 0.5 else 0, float(self.rate), sequence_number=k + 1,
                             encoding=self.enc if rng.random() < 0.5 else -1)
        h.recordLengthExp, h.recordLength = exp, 1 << exp
        rec = s.MiniseedRecord(h, data)
        if b1001:
            rec.blockettes.append(rec.createB1001())
        return rec

    def ms3(self, rng, start, n, data):
        import simplemseed as s
        h = s.MSeed3Header()
        h.starttime = start
        if self.rate >= 1:
            h.sampleRate = float(self.rate)
        else:
            h.samplePeriod = float(1 / self.rate)
        if rng.random() < 0.5:
            h.encoding, h.numSamples = self.enc, n
        return s.MSeed3Record(h, self.sid, data)

    def bits(self):
        return ms2gen.bits(self.enc, self.vals)


def judge_read(ctx, ch, recs, what, tol):
    """the records are the series, in order, each sample at its time"""
    ctx.eq(len(recs), len(ch.records), f"{what}: number of records")
    got = []
    for (at, n, _b), rec in zip(ch.records, recs):
        ctx.eq(rec.header.numSamples, n, f"{what}: samples in record")
        start = rec.starttime() if callable(rec.starttime) else rec.starttime
        off = ref.dt_micros(start) - when(ch.us0, at, ch.rate)
        ctx.check(abs(off) <= tol, f"{what}: time of sample {at} is off by {off} us")
        end = rec.endtime() if callable(rec.endtime) else rec.endtime
        off = ref.dt_micros(end) - when(ch.us0, at + n - 1, ch.rate)
        ctx.check(abs(off) <= tol + 1, f"{what}: time of sample {at + n - 1} is off by {off} us")
        got += gen.tolist(rec.decompress())
        ctx.count("records read")
    ctx.eq(len(got), len(ch.vals), f"{what}: samples of series")
    ctx.check(ms2gen.bits(ch.enc, got) == ch.bits(), f"{what}: series is not recovered")


def fold(recs):
    from simplemseed.mseed3 import mseed3merge  # the command's module, once imported, hides the function of the package
    out = []
    for r in recs:
        out += mseed3merge(out.pop() if out else None, r.decompressedRecord())
    return out


def judge_joined(ctx, ch, recs, what, tol):
    ctx.eq(len(recs), 1, f"{what}: records after merge")
    r = recs[0]
    ctx.eq(r.header.numSamples, len(ch.vals), f"{what}: number of samples")
    ctx.eq(str(r.identifier), ch.sid, f"{what}: identifier")
    ctx.check(abs(ref.dt_micros(r.starttime) - ch.us0) <= tol, f"{what}: start", r.starttime)
    off = ref.dt_micros(r.endtime) - when(ch.us0, len(ch.vals) - 1, ch.rate)
    ctx.check(abs(off) <= tol + 1 + len(ch.vals) / ch.rate * 1000000 * Fraction(1, 10**9), f"{what}: end is off by {off} us")
    ctx.check(ms2gen.bits(ch.enc, gen.tolist(r.decompress())) == ch.bits(), f"{what}: series is not recovered")
    ctx.count("series joined")


def judge_hole(rng, ctx, ch, recs, what):
    """without one record the samples before and after it remain, apart"""
    if len(recs) < 3:
        return
    k = rng.randrange(1, len(recs) - 1)
    at, n, _b = ch.records[k]
    out = fold(recs[:k] + recs[k + 1:])
    ctx.eq([r.header.numSamples for r in out], [at, len(ch.vals) - at - n], f"{what}: parts around a missing record")
    ctx.check(ms2gen.bits(ch.enc, [v for r in out for v in gen.tolist(r.decompress())]) ==
              ms2gen.bits(ch.enc, ch.vals[:at] + ch.vals[at + n:]), f"{what}: samples around a missing record")
    ctx.count("holes")


def channels(rng, ctx, fmt):
    taken = set()
    chs = [Channel(rng, ctx, fmt, taken) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    # records of all channels, each in its order
    todo, stream = [list(c.records) for c in chs], []
    turn = rng.random() < 0.5
    while any(todo):
        k = rng.choice([i for i, t in enumerate(todo) if t])
        stream += [todo[k].pop(0)[2]] if turn else [todo[k].pop(0)[2] for _ in range(len(todo[k]))]
    return chs, b"".join(stream)


def tolerance(ch, fmt):
    one = 1 if fmt == 3 or ch.b1001 else 100
    return one + (one + 1) * (len(ch.records) if ch.chain else 0)


def mergeable(ch, fmt):
    """times kept well enough for the half sample limit"""
    return tolerance(ch, fmt) * 4 < 1000000 / ch.rate


def mseed2(rng, ctx):
    import simplemseed as s
    import re
    chs, data = channels(rng, ctx, 2)
    everything = list(s.readMiniseed2Records(io.BytesIO(data)))
    for ch in chs:
        tol = tolerance(ch, 2)
        judge_read(ctx, ch, [r for r in everything if str(r.identifier) == ch.sid], "miniSEED 2 read", tol)
        mine = list(s.readMiniseed2Records(io.BytesIO(data), matchsid="^" + re.escape(ch.sid) + "$"))
        judge_read(ctx, ch, mine, "miniSEED 2 read with pattern", tol)
        conv = [s.mseed2to3(r) for r in rng.choice([mine, [r for r in everything if str(r.identifier) == ch.sid]])]
        judge_read(ctx, ch, conv, "converted", tol)
        if mergeable(ch, 2):
            judge_joined(ctx, ch, fold(conv), "converted and merged", tol)
            judge_hole(rng, ctx, ch, conv, "converted")
        ctx.seen(data)
    ctx.sample(f"miniSEED 2: {[(c.sid, c.enc, len(c.vals), len(c.records), str(c.rate)) for c in chs]}")


def mseed3(rng, ctx):
    import simplemseed as s
    import re
    chs, data = channels(rng, ctx, 3)
    everything = list(s.readMSeed3Records(io.BytesIO(data)))
    for ch in chs:
        tol = tolerance(ch, 3)
        mine = [r for r in everything if str(r.identifier) == ch.sid]
        judge_read(ctx, ch, mine, "miniSEED 3 read", tol)
        if mergeable(ch, 3):
            joined = list(s.readMSeed3Records(io.BytesIO(data), matchsid="^" + re.escape(ch.sid) + "$", merge=True))
            judge_joined(ctx, ch, joined, "read with merge", tol)
            judge_joined(ctx, ch, list(s.readMSeed3Records(io.BytesIO(joined[0].pack()))), "merged and read again", tol)
            judge_joined(ctx, ch, fold(mine), "folded", tol)
            judge_hole(rng, ctx, ch, mine, "miniSEED 3")
        ctx.seen(data)
    ctx.sample(f"miniSEED 3: {[(c.sid, c.enc, len(c.vals), len(c.records), str(c.rate)) for c in chs]}")


def tools(rng, ctx):
    """the same by the installed commands, on files"""
    import simplemseed as s
    chs, data = channels(rng, ctx, 2)
    if not all(mergeable(c, 2) for c in chs):
        return
    # one channel after the other, as the merge command wants it
    data = b"".join(b for c in chs for _at, _n, b in c.records)
    with cli.Dir() as d:
        d.write("in.ms2", data)
        r = cli.run("mseed2to3", ["--ms2", "in.ms2", "--ms3", "all.ms3"], d)
        ctx.eq(r.code, 0, f"mseed2to3 {r}")
        r = cli.run("mseed3merge", (["--decomp"] if rng.random() < 0.8 else []) + ["-o", "out.ms3", "all.ms3"], d)
        ctx.eq(r.code, 0, f"mseed3merge {r}")
        ctx.eq(d.read("in.ms2"), data, "input file")
        out = list(s.readMSeed3Records(io.BytesIO(d.read("out.ms3"))))
        ctx.eq(len(out), len(chs), "records in merged file")
        for ch, rec in zip(chs, out):
            judge_joined(ctx, ch, [rec], "by the commands", tolerance(ch, 2))
    ctx.count("files through the commands")
    ctx.seen("tools", data)


KINDS = [
    Kind("mseed2", mseed2, 500, 15000, need=("records written", "records read", "series joined", "holes")),
    Kind("mseed3", mseed3, 500, 15000, need=("series joined",)),
    Kind("tools", tools, 80, 2000, need=("files through the commands",)),
]
