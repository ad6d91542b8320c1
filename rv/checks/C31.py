"""miniSEED 2 record objects agree with a model over any history of operations"""
import copy
import io

import numpy as np

from ..core import Kind, Violation
from .. import gen, ms2gen, ref

LEVEL = "exploration"
FILES = ["miniseed.py", "seedcodec.py", "mseed2to3.py"]
RULE = "a case is one distinct history of operations on up to three miniSEED 2 records, the bytes of each compared with its model"

RATES = [20.0, 100.0, 1.0, 0.1, 40.0, 0.5, 1 / 60, 33.3, 250.0]
ATTR = dict(sta="station", net="network", loc="location", chan="channel")


def copy_model(m):
    return copy.deepcopy(m)


def from_parsed(p, samples):
    m = {k: p[k] for k in ("sta", "net", "loc", "chan", "quality", "actFlag", "ioFlag", "qualFlag", "timeCorr", "order", "encoding", "size",
                           "factor", "mult", "numSamples")}
    m["seq"] = int(p["seq"])
    m["samples"] = list(samples)
    m["us"] = ms2gen.start_us(p)
    m["rate"] = p["rate"]
    m["bl"] = []
    for b in p["blockettes"]:
        m["bl"].append(dict(num=b["num"], **{k: b[k] for k in ("rate", "quality", "micro", "frames", "body") if k in b}))
    return m


def read(rng):
    import simplemseed as s
    while True:
        r = ms2gen.model(rng, exps=(8, 9, 9, 9, 10, 12), empty=0)
        if r["payload"] is None or r["second"] == 60 or not r["samples"]:
            continue
        r["blockettes"] = [b for b in r["blockettes"] if len(b.get("body", b"")) < 100]
        seen = set()
        for b in list(r["blockettes"]):
            if b["num"] == 1001:
                b["micro"] = min(b["micro"], 99)
            if b["num"] in (100, 1001) and b["num"] in seen:
                r["blockettes"].remove(b)
            seen.add(b["num"])
        data = ms2gen.build(r)
        p = r["parsed"]
        if not p["rate"] or not 1e-3 < p["rate"] < 1e6:
            continue
        break
    rec = s.unpackMiniseedRecord(data) if rng.random() < 0.5 else list(s.readMiniseed2Records(io.BytesIO(data)))[0]
    return "read", rec, from_parsed(p, r["samples"])


def built(rng):
    import simplemseed as s
    enc = rng.choice([1, 3, 4, 5, 10, 11])
    c = ms2gen.codes(rng)
    y, d = gen.year_day(rng, 1802, 2053)
    us = ref.micros(y, d, *gen.clock(rng), rng.choice([0, 99, rng.randrange(1000000)]))
    rate = rng.choice(RATES)
    n = rng.randint(1, 20)
    vals = gen.typed(rng, enc, n) if enc < 10 else [rng.randint(-1000, 1000) for _ in range(n)]
    order = "big"
    if enc >= 10:
        data = s.EncodedDataSegment(enc, bytes((s.encodeSteim1 if enc == 10 else s.encodeSteim2)(vals)), n, rng.random() < 0.5)
        order = None
    else:
        data = np.array(vals, dtype=rng.choice("<>") + gen.NPTYPE[enc])
    h = s.MiniseedHeader(c["net"], c["sta"], c["loc"], c["chan"], ref.micros_dt(us), 0, rate, dataquality=rng.choice("DRQM"), sequence_number=rng.randrange(1000))
    h.recordLengthExp, h.recordLength = 9, 512
    rec = s.MiniseedRecord(h, data)
    m = dict(c, quality=h.dataquality, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0, order="big" if order is None else order, encoding=enc, size=512,
             factor=None, mult=None, numSamples=n, seq=h.sequence_number, samples=vals, us=us, rate=rate, bl=[])
    return "built", rec, m


def judge_packed(ctx, data, m, what):
    try:
        p = ref.ms2_parse(data)
    except ref.RefError as e:
        ctx.check(False, f"{what}: not valid: {e}")
    ctx.eq(len(data), m["size"], f"{what}: length")
    for k in ("sta", "net", "loc", "chan", "quality", "actFlag", "ioFlag", "qualFlag", "timeCorr", "order", "encoding", "size", "numSamples"):
        ctx.eq(p[k], m[k], f"{what}: {k}")
    ctx.eq(int(p["seq"]), m["seq"], f"{what}: sequence number")
    micro = sum(ms2gen.signed(b["micro"]) for b in m["bl"] if b["num"] == 1001)
    ctx.eq(p["btime"] + micro, m["us"] - (m["us"] - micro) % 100, f"{what}: start")
    if m["factor"] is None:
        ctx.check(ms2gen.near(ref.ms2_rate(p["factor"], p["mult"]) if p["factor"] and p["mult"] else 0, m["rate"], 1e-4), f"{what}: rate",
                  p["factor"], p["mult"], m["rate"])
    else:
        ctx.eq((p["factor"], p["mult"]), (m["factor"], m["mult"]), f"{what}: rate factor and multiplier")
    want = list(m["bl"])
    if not any(b["num"] == 1000 for b in want):
        want.insert(0, dict(num=1000))
    ctx.eq([b["num"] for b in p["blockettes"]], [b["num"] for b in want], f"{what}: blockettes")
    for b, w in zip(p["blockettes"], want):
        for k in ("quality", "micro", "frames"):
            if k in w:
                ctx.eq(b[k], w[k], f"{what}: {k} of blockette {w['num']}")
        if "rate" in w:
            ctx.eq(b["rate"], ms2gen.f32(w["rate"]), f"{what}: rate of blockette 100")
        if "body" in w:
            ctx.check(b["body"].startswith(w["body"]) and not b["body"][len(w["body"]):].strip(b"\0"), f"{what}: body", b["body"], w["body"])
    ctx.check(ms2gen.bits(m["encoding"], ms2gen.ref_samples(p)) == ms2gen.bits(m["encoding"], m["samples"]), f"{what}: samples")
    return p


class History:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.live, self.log = [], []

    def add(self, rec, m, how):
        self.live.append([rec, m])
        self.log.append(how)

    # --- operations that change

    def op_code(self, rec, m):
        k = self.rng.choice(list(ATTR))
        m[k] = ms2gen.codes(self.rng)[k]
        setattr(rec.header, ATTR[k], m[k] if self.rng.random() < 0.8 else m[k].ljust(dict(net=2, sta=5, loc=2, chan=3)[k]))

    def op_quality(self, rec, m):
        m["quality"] = rec.header.dataquality = self.rng.choice("DRQM")

    def op_flag(self, rec, m):
        k = self.rng.choice(["actFlag", "ioFlag", "qualFlag"])
        m[k] = self.rng.randrange(256)
        setattr(rec.header, k, m[k])

    def op_seq(self, rec, m):
        m["seq"] = rec.header.sequence_number = self.rng.randint(0, 999999)

    def op_corr(self, rec, m):
        m["timeCorr"] = rec.header.timeCorr = self.rng.randint(-2**31, 2**31 - 1)

    def op_start(self, rec, m):
        y, d = gen.year_day(self.rng, 1802, 2053)
        m["us"] = ref.micros(y, d, *gen.clock(self.rng), self.rng.choice([0, 999999, self.rng.randrange(1000000)]))
        for b in m["bl"]:
            if b["num"] == 1001:
                m["us"] += b["micro"] - m["us"] % 100
        dt = ref.micros_dt(m["us"])
        ways = [dt, dt.isoformat(), dt.replace(tzinfo=None)]
        if self.rng.random() < 0.4 and not any(b["num"] == 1001 for b in m["bl"]):
            from simplemseed.miniseed import BTime
            t = dt.timetuple()
            bt = BTime(t.tm_year, t.tm_yday, t.tm_hour, t.tm_min, t.tm_sec, dt.microsecond // 100)
            if self.rng.random() < 0.3:
                # leap second is same as start of next minute
                bt = bt._replace(second=60)
                m["us"] += (60 - t.tm_sec) * 1000000
            m["us"] -= m["us"] % 100
            ways = [bt]
        rec.header.setStartTime(self.rng.choice(ways))

    def op_rate(self, rec, m):
        v = self.rng.choice(RATES)
        rec.header.setSampleRate(v)
        m.update(rate=v, factor=None, mult=None)
        for i, b in enumerate(m["bl"]):
            if b["num"] == 100:
                b["rate"] = v
                rec.blockettes[i] = rec.createB100() if self.rng.random() < 0.5 else rec.blockettes[i]._replace(sampleRate=v)

    def op_blockette(self, rec, m):
        from simplemseed.miniseed import Blockette100, Blockette1001, BlocketteUnknown
        if self.end(m) + 32 > m["size"]:
            return
        have = {b["num"] for b in m["bl"]}
        num = self.rng.choice([n for n in (100, 1001, 1000, 400, 400) if n not in have or n == 400])
        i = self.rng.choice([0, len(m["bl"])])
        if num == 400:
            body = self.rng.randbytes(self.rng.choice([4, 8, 20]))
            b, w = BlocketteUnknown(400, self.rng.choice([0, 77]), bytes(4) + body), dict(num=400, body=body)
        elif num == 100:
            b, w = rec.createB100(), dict(num=100, rate=m["rate"])
            if self.rng.random() < 0.5:
                # more exact than header
                w["rate"] = m["rate"] * self.rng.choice([1, 1.001, 0.999])
                b = Blockette100(100, 0, w["rate"])
        elif num == 1001:
            b, w = rec.createB1001(), dict(num=1001, quality=0, micro=m["us"] % 100, frames=0)
            if self.rng.random() < 0.5:
                w.update(quality=self.rng.randrange(256), frames=self.rng.randrange(256))
                b = Blockette1001(1001, 0, w["quality"], m["us"] % 100, w["frames"])
        else:
            b, w = rec.createB1000(), dict(num=1000)
        rec.blockettes.insert(i, b)
        m["bl"].insert(i, w)

    def op_remove(self, rec, m):
        some = [i for i, b in enumerate(m["bl"]) if b["num"] not in (1000, 1001, 100)]
        if some:
            i = self.rng.choice(some)
            del rec.blockettes[i]
            del m["bl"][i]

    def op_replace(self, rec, m):
        for i, b in enumerate(m["bl"]):
            if b["num"] == 1001:
                b["quality"] = self.rng.randrange(256)
                rec.blockettes[i] = rec.blockettes[i]._replace(timeQuality=b["quality"])

    def op_larger(self, rec, m):
        h = rec.header
        if h.recordLengthExp < 13:
            h.recordLengthExp += 1
            h.recordLength = 1 << h.recordLengthExp
            m["size"] *= 2

    # --- operations that only look

    def op_pack(self, rec, m):
        data = self.pack(rec, m)
        if data is None:
            return
        for i in range(len(data)):
            data[i] ^= 0xFF
        if not any(b["num"] == 1000 for b in m["bl"]):
            m["bl"].insert(0, dict(num=1000))

    def op_header_pack(self, rec, m):
        b = rec.header.pack()
        self.ctx.eq(len(b), 48, "header length")
        self.ctx.eq(bytes(b[8:20]), (m["sta"].ljust(5) + m["loc"].ljust(2) + m["chan"].ljust(3) + m["net"].ljust(2)).encode(), "codes in packed header")

    def op_decompress(self, rec, m):
        got = (rec.decompress if self.rng.random() < 0.7 else rec.decompressed)()
        self.ctx.check(ms2gen.bits(m["encoding"], gen.tolist(got)) == ms2gen.bits(m["encoding"], m["samples"]), "decompressed samples")

    def op_text(self, rec, m):
        self.ctx.check(f"{m['net']}.{m['sta']}.{m['loc']}.{m['chan']} " in rec.summary(), "codes in summary", rec.summary())
        self.ctx.check(f"quality {m['quality']}," in rec.details(showData=self.rng.random() < 0.3), "quality in details")

    def op_view(self, rec, m):
        h = rec.header
        for k, a in list(ATTR.items()) + [("quality", "dataquality"), ("actFlag",) * 2, ("ioFlag",) * 2, ("qualFlag",) * 2, ("timeCorr",) * 2,
                                          ("numSamples",) * 2, ("seq", "sequence_number")]:
            got = getattr(h, a)
            self.ctx.eq(got.strip() if isinstance(got, str) else got, m[k], f"header {a}")
        self.ctx.eq(rec.codes(), ".".join(m[k] for k in ("net", "sta", "loc", "chan")), "codes()")
        self.ctx.eq(str(rec.identifier), ms2gen.sid(m), "identifier")

    def op_times(self, rec, m):
        us = ref.dt_micros(rec.starttime())
        self.ctx.check(abs(us - m["us"]) <= 0, "start time", us, m["us"])
        rate = rec.header.sampleRate
        self.ctx.check(ms2gen.near(rate, m["rate"], 1e-6), "sample rate", rate, m["rate"])
        for got, n in ((rec.endtime(), m["numSamples"] - 1), (rec.next_starttime(), m["numSamples"])):
            off = ref.dt_micros(got) - us - n / rate * 1e6
            self.ctx.check(abs(off) <= 1 + 1e-9 * n / rate * 1e6, f"time of sample {n} is off by {off} us")
        off = rec.header.sampPeriod.total_seconds() * 1e6 - 1e6 / rate
        self.ctx.check(abs(off) <= 1 + 1e-9 / rate * 1e6, "sample period", rec.header.sampPeriod, rate)

    def op_convert(self, rec, m):
        import simplemseed as s
        if not any(b["num"] == 1000 for b in m["bl"]):
            return
        r3 = s.mseed2to3(rec)
        self.ctx.eq(ref.dt_micros(r3.starttime), m["us"], "start of converted record")
        self.ctx.eq(str(r3.identifier), ms2gen.sid(m), "identifier of converted record")
        rate = ([b["rate"] for b in m["bl"] if b["num"] == 100] or [m["rate"]])[-1]
        self.ctx.check(ms2gen.near(r3.header.sampleRate, rate, 1e-6), "rate of converted record", r3.header.sampleRate, m["rate"])
        self.ctx.check(ms2gen.bits(m["encoding"], gen.tolist(r3.decompress())) == ms2gen.bits(m["encoding"], m["samples"]), "samples of converted record")
        self.ctx.eq((r3.eh or {}).get("FDSN", {}).get("DataQuality", "D"), m["quality"], "quality of converted record")

    # --- operations that make another record

    def end(self, m):
        end = 48 + sum({100: 12, 1000: 8, 1001: 8}.get(b["num"], 4 + len(b.get("body", b""))) for b in m["bl"])
        if not any(b["num"] == 1000 for b in m["bl"]):
            end += 8
        return end  # of blockettes

    def pack(self, rec, m):
        import simplemseed as s
        try:
            return rec.pack()
        except s.MiniseedException as e:
            # the payload of a read record goes to the end of the record
            self.ctx.check("not enough bytes" in str(e), "refused", e)
            self.ctx.count("full")
            return None

    def settle(self, m):
        """what a record read from the bytes of m has"""
        m = copy_model(m)
        if not any(b["num"] == 1000 for b in m["bl"]):
            m["bl"].insert(0, dict(num=1000))
        micro = sum(b["micro"] for b in m["bl"] if b["num"] == 1001)
        m["us"] -= (m["us"] - micro) % 100
        for b in m["bl"]:
            if "rate" in b:
                m["rate"] = b["rate"] = ms2gen.f32(b["rate"])
        return m

    def reread(self, make, rec, m, how):
        data = self.pack(rec, m)
        if data is None:
            return
        if not any(b["num"] == 1000 for b in m["bl"]):
            m["bl"].insert(0, dict(num=1000))
        p = judge_packed(self.ctx, bytes(data), m, how)
        new = self.settle(m)
        new["factor"], new["mult"] = p["factor"], p["mult"]
        new["rate"] = p["rate"]
        for b, w in zip(p["blockettes"], new["bl"]):
            if "body" in w:
                w["body"] = b["body"]  # may have taken up to the next
        self.add(make(data), new, how)

    def op_clone(self, rec, m):
        self.reread(lambda _d: rec.clone(), rec, m, "clone")

    def op_reread(self, rec, m):
        import simplemseed as s
        self.reread(lambda d: s.unpackMiniseedRecord(bytes(d)), rec, m, "packed and read")

    def op_spoil(self, _rec, _m):
        """change a record and forget it, no other may notice"""
        if len(self.live) < 2:
            return
        rec, m = self.live.pop(self.rng.randrange(len(self.live)))
        a = rec.decompress()
        if a is not None and a.flags.writeable:
            a[0] = 0 if a[0] else 1
        if isinstance(rec.encodedDataBytes, bytearray):
            rec.encodedDataBytes[0] ^= 255
        rec.blockettes.clear()
        rec.header.station, rec.header.numSamples, rec.header.recordLength = "SPOIL", 3, 128

    def judge(self):
        for rec, m in self.live:
            c = copy.deepcopy(rec)
            data = self.pack(c, m)
            if data is not None:
                judge_packed(self.ctx, bytes(data), m, "packed after history")
                self.ctx.count("states compared")
            self.op_view(rec, m)
            self.op_times(rec, m)


OPS = [n for n in dir(History) if n.startswith("op_")]
CHANGING = [f"op_{n}" for n in ("code", "quality", "flag", "seq", "corr", "start", "rate", "blockette", "remove", "replace", "larger")]
LOOKING = [n for n in OPS if n not in CHANGING]


def history(rng, ctx):
    how, rec, m = (read if rng.random() < 0.6 else built)(rng)
    start = repr(m)
    h = History(rng, ctx)
    h.add(rec, m, how)
    always = rng.random() < 0.5
    try:
        if rng.random() < 0.5:
            h.judge()
        for _ in range(rng.choice([2, 4, 8, 12, 25])):
            op = rng.choice(CHANGING if rng.random() < 0.5 else LOOKING)
            if len(h.live) >= 3:
                h.live.pop(rng.randrange(3))
            r, mm = rng.choice(h.live)
            getattr(h, op)(r, mm)
            h.log.append(op[3:])
            ctx.count(op)
            if always:
                h.judge()
        h.judge()
    except Violation as e:
        raise Violation(f"{e}; history: {', '.join(h.log)}") from None
    ctx.count("histories of a record " + how)
    ctx.seen(h.log, start)
    ctx.sample(", ".join(h.log))


KINDS = [
    Kind("history", history, 6000, 250000, need=("states compared", "op_clone", "op_rate", "op_start", "op_spoil", "op_blockette")),
]
