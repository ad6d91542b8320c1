"""miniSEED 3 record objects agree with a model over any history of operations"""
import io
import json
import struct

from ..core import Kind, Violation
from .. import gen, mergegen, ms3gen

LEVEL = "exploration"
FILES = ["mseed3.py"]
RULE = "a case is one distinct history of operations on up to four records, each compared with its model after every operation"
HEADER = ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")


def start_model(rng):
    m = ms3gen.model(rng, n=rng.choice([1, 2, 3, rng.randint(1, 25)]))
    y, d = gen.year_day(rng, 1900, 2100)
    m["year"], m["dayOfYear"] = y, d
    rp = m["sampleRatePeriod"]
    m["sampleRatePeriod"] = rp if abs(rp) > 1e-3 and abs(rp) < 1e6 else 20.0
    if "big" in m["eh"] and rng.random() < 0.7:
        m["eh"] = {}
    return m


def copy_model(m):
    out = dict(m)
    out["eh"] = json.loads(json.dumps(m["eh"]))
    if m["samples"] is not None:
        out["samples"] = list(m["samples"])
    return out


def make(rng, m):
    import simplemseed as s
    k = rng.random()
    if k < 0.5:
        label, rec = ms3gen.build(rng, m)
        return "built " + label.split()[0], rec
    data = ms3gen.to_ref(rng, m)
    if k < 0.75:
        return "unpacked", s.unpackMSeed3Record(rng.choice([bytes, bytearray])(data))
    return "read", list(s.readMSeed3Records(io.BytesIO(data)))[0]


class History:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.live = []   # (record, model)
        self.log = []
        self.kept = {}   # id of record: what its eh once returned

    def add(self, rec, m, how):
        self.live.append([rec, m])
        self.log.append(how)

    # --- operations that change

    def sizes_known(self, rec):
        """at times, all lengths as of a pack before extra headers are replaced"""
        if self.rng.random() < 0.3:
            rec.pack()
            return True
        return False

    def judge_size(self, rec, sized):
        """size of a record whose extra headers were replaced after a pack: not known, or right"""
        if sized:
            size = rec.getSize()
            self.ctx.check(size in (None, len(rec.pack())), "size after extra headers were replaced", size, len(rec.pack()))
            self.ctx.count("sizes after extra headers were replaced")

    def op_eh_dict(self, rec, m):
        self.kept.pop(id(rec), None)
        sized = self.sizes_known(rec)
        m["eh"] = gen.jobject(self.rng, 3)
        rec.eh = json.loads(json.dumps(m["eh"]))
        self.judge_size(rec, sized)

    def op_eh_text(self, rec, m):
        self.kept.pop(id(rec), None)
        sized = self.sizes_known(rec)
        m["eh"] = gen.jobject(self.rng, 3)
        rec.eh = gen.jtext(self.rng, m["eh"]) if m["eh"] else self.rng.choice(["", "{}"])
        self.judge_size(rec, sized)

    def op_eh_none(self, rec, m):
        self.kept.pop(id(rec), None)
        sized = self.sizes_known(rec)
        m["eh"] = {}
        rec.eh = None
        self.judge_size(rec, sized)

    def op_eh_del(self, rec, m):
        self.kept.pop(id(rec), None)
        sized = self.sizes_known(rec)
        m["eh"] = {}
        del rec.eh
        self.judge_size(rec, sized)

    def op_eh_edit(self, rec, m):
        if rec.eh is None:
            return
        k, v = gen.jkey(self.rng), gen.jvalue(self.rng, 2)
        m["eh"][k] = v
        rec.eh[k] = json.loads(json.dumps(v))

    def op_eh_edit_deep(self, rec, m):
        inner = [k for k, v in m["eh"].items() if isinstance(v, dict)]
        if not inner:
            return
        k = self.rng.choice(inner)
        m["eh"][k]["deep"] = self.rng.randint(0, 9)
        rec.eh[k]["deep"] = m["eh"][k]["deep"]

    def op_eh_keep(self, rec, _m):
        """hold on to the extra headers of a record, to edit them later"""
        if rec.eh is not None:
            self.kept[id(rec)] = (rec, rec.eh)

    def op_eh_edit_kept(self, _rec, _m):
        for rec, m in self.live:
            if id(rec) in self.kept:
                k, v = gen.jkey(self.rng), gen.jvalue(self.rng, 2)
                m["eh"][k] = v
                self.kept[id(rec)][1][k] = json.loads(json.dumps(v))
                self.ctx.count("edits of extra headers held")

    def op_eh_drop(self, rec, m):
        if not m["eh"]:
            return
        k = self.rng.choice(sorted(m["eh"]))
        del m["eh"][k]
        del rec.eh[k]

    def op_start(self, rec, m):
        f = list(ms3gen.start_fields(self.rng))
        f[:2] = gen.year_day(self.rng, 1900, 2100)
        m.update(zip(HEADER, f))
        ms3gen.set_start(self.rng, rec.header, m)

    def op_rate(self, rec, m):
        v = self.rng.choice([1.0, 20.0, 0.5, -10.0, 100.0, -0.25, 7.3])
        m["sampleRatePeriod"] = v
        if v < 0:
            rec.header.samplePeriod = -v
        elif self.rng.random() < 0.5:
            rec.header.sampleRate = v
        else:
            rec.header.sampleRatePeriod = v

    def op_flags(self, rec, m):
        m["flags"] = rec.header.flags = self.rng.randrange(256)

    def op_version(self, rec, m):
        m["publicationVersion"] = rec.header.publicationVersion = self.rng.randrange(256)

    def op_identifier(self, rec, m):
        import simplemseed as s
        m["identifier"] = gen.ident(self.rng)
        rec.identifier = m["identifier"]
        if m["identifier"].startswith("FDSN:") and self.rng.random() < 0.5:
            try:
                rec.identifier = s.FDSNSourceId.parse(m["identifier"])
            except s.fdsnsourceid.FDSNSourceIdException:
                pass

    # --- operations that only look

    def op_pack(self, rec, m):
        data = rec.pack()
        self.ctx.eq(rec.header.recordSize(), len(data), "header size after pack")
        if rec.header.dataLength or rec.header.identifierLength:
            self.ctx.eq(rec.getSize(), len(data), "getSize() after pack")
        # what the caller does with the bytes is no concern of the record
        for i in range(len(data)):
            data[i] ^= 0xFF

    def op_size(self, rec, _m):
        rec.getSize()
        rec.header.recordSize() if rec.header.extraHeadersLength is not None else None

    def op_summary(self, rec, m):
        self.ctx.check(m["identifier"] in rec.summary() and m["identifier"] in str(rec), "summary has no identifier")

    def op_details(self, rec, m):
        show = self.rng.random() < 0.5 and m["samples"] is not None
        text = rec.details(showExtraHeaders=self.rng.random() < 0.7, showData=show)
        self.ctx.check(m["identifier"] in text, "details have no identifier")

    def op_read_eh(self, rec, m):
        ms3gen.judge_eh(self.ctx, rec, m, "extra headers read")

    def op_has_eh(self, rec, m):
        self.ctx.check(rec.hasExtraHeaders() is bool(m["eh"]), "hasExtraHeaders()", m["eh"])

    def op_view(self, rec, m):
        ms3gen.judge_record(self.ctx, rec, m, "record view")
        rec.endtime
        rec.encodingName()
        rec.header.crcAsHex()
        rec.header.sanityCheck()
        rec.header.sampleRate
        rec.header.samplePeriod

    def op_encoded(self, rec, m):
        if m["samples"] is not None and m["encoding"] not in (10, 11):
            want = ms3gen.samples_bits(m["encoding"], m["samples"])
            # payload may be longer than the samples
            self.ctx.eq(bytes(rec.encodedDataBytes())[:len(want)], want, "encodedDataBytes()")

    def op_header_clone(self, rec, _m):
        h = rec.header.clone()
        h.year, h.flags, h.numSamples, h.sampleRatePeriod, h.encoding = 1, 99, 12345, 3.25, 33

    def op_merge(self, rec, m):
        import simplemseed as s
        other = self.rng.choice(self.live)[0]
        if m["samples"] is not None and m["sampleRatePeriod"]:
            s.mseed3merge(rec, other)
            s.mseed3merge(rec, None)

    def op_parse_id(self, rec, m):
        import simplemseed as s
        try:
            self.ctx.eq(str(rec.parseIdentifier()), m["identifier"], "parseIdentifier()")
        except (s.fdsnsourceid.FDSNSourceIdException, s.Miniseed3Exception):
            pass

    # --- operations that make another record

    def op_clone(self, rec, m):
        self.add(rec.clone(), copy_model(m), "clone made")

    def op_decompressed(self, rec, m):
        if m["samples"] is None:
            return
        new = rec.decompressedRecord()
        nm = copy_model(m)
        nm["encoding"] = {10: 3, 11: 3}.get(m["encoding"], m["encoding"])
        self.add(new, nm, "decompressed made")

    def op_reread(self, rec, m):
        import simplemseed as s
        self.add(s.unpackMSeed3Record(bytes(rec.pack())), copy_model(m), "packed and unpacked")

    def op_merged_record(self, rec, m):
        """record made by merge shares nothing with the first"""
        import simplemseed as s
        if m["samples"] is None or m["encoding"] in (10, 11):
            return
        m2 = copy_model(m)
        us = mergegen.start_us(m) + round(mergegen.period(m["sampleRatePeriod"]) * m["numSamples"] * 1000000)
        mergegen.put_start(m2, us)
        nxt = s.unpackMSeed3Record(ms3gen.to_ref(self.rng, m2))
        out = s.mseed3merge(rec, nxt)
        if len(out) == 1:
            nm = copy_model(m)
            nm["samples"] = m["samples"] + m["samples"]
            nm["numSamples"] *= 2
            self.add(out[0], nm, "merged made")

    def op_spoil(self, _rec, _m):
        """change the samples and extra headers of a record and forget it, no other may notice"""
        if len(self.live) < 2:
            return
        i = self.rng.randrange(len(self.live))
        rec, m = self.live.pop(i)
        if m["samples"] is not None and m["numSamples"]:
            a = rec.decompress()
            if a.flags.writeable:
                a[0] = 0 if a[0] else 1
        if rec.eh:
            for v in list(rec.eh.values()):
                if isinstance(v, dict):
                    v["spoilt"] = True
                if isinstance(v, list):
                    v.append("spoilt")
            rec.eh.clear()
        rec.header.year, rec.header.flags, rec.header.numSamples = 1, 0x55, 77
        rec.identifier = "spoilt"

    def judge(self):
        for rec, m in self.live:
            ms3gen.judge_bytes(self.ctx, bytes(rec.pack()), m, "packed after history")
        self.ctx.count("states compared", len(self.live))


OPS = [n for n in dir(History) if n.startswith("op_")]
CHANGING = [n for n in OPS if n.startswith("op_eh") or n in ("op_start", "op_rate", "op_flags", "op_version", "op_identifier")]
LOOKING = [n for n in OPS if n not in CHANGING]


def history(rng, ctx):
    m = start_model(rng)
    how, rec = make(rng, m)
    h = History(rng, ctx)
    h.add(rec, m, how)
    # pack is itself an operation: some histories look at the bytes only at the end
    always = rng.random() < 0.5
    if rng.random() < 0.5:
        h.judge()
    try:
        for _ in range(rng.choice([2, 4, 8, 12, 25])):
            op = rng.choice(CHANGING if rng.random() < 0.5 else LOOKING)
            if len(h.live) >= 4:
                h.live.pop(rng.randrange(4))
            r, mm = rng.choice(h.live)
            getattr(h, op)(r, mm)
            h.log.append(op[3:])
            ctx.count(op)
            if always:
                h.judge()
        h.judge()
        for r, mm in h.live:
            ms3gen.judge_record(ctx, r, mm, "record at end of history")
            ms3gen.judge_eh(ctx, r, mm, "record at end of history")
    except Violation as e:
        raise Violation(f"{e}; history: {', '.join(h.log)}") from None
    ctx.count("edits of extra headers held", 0)
    ctx.seen(h.log, ms3gen.key(m))
    ctx.sample(", ".join(h.log))


def readonly(rng, ctx):
    """each operation that only looks, on one record never packed before: packs the same as its twin that was left alone"""
    m = start_model(rng)
    state = rng.getstate()
    how, rec = make(rng, m)
    rng.setstate(state)
    _how, twin = make(rng, m)
    want = bytes(twin.pack())
    h = History(rng, ctx)
    h.add(rec, m, how)
    op = LOOKING[rng.index % len(LOOKING)]
    if op in ("op_spoil",):
        return
    reads_eh = op in ("op_details", "op_read_eh", "op_merged_record", "op_merge", "op_decompressed")
    getattr(h, op)(rec, m)
    got = bytes(rec.pack())
    if reads_eh:
        # reading parses the text, which may be written in another way
        ms3gen.judge_bytes(ctx, got, m, f"packed after {op[3:]}")
    else:
        ctx.eq(got, want, f"packed after {op[3:]}")
    ctx.count("twins compared")
    ctx.seen(op, how, ms3gen.key(m))


def shapes(rng, ctx):
    """extra headers of other writers, white space in an empty object or not an object at all: looking at them changes nothing"""
    import simplemseed as s
    m = start_model(rng)
    if rng.random() < 0.4:
        text = rng.choice(["{ }", "{\n}", " {} ", "{\t }\n", " { } ", "{}", ""])
        m["eh"] = {}
        ctx.count("empty object")
    else:
        m["eh"] = [gen.jobject(rng, 2) if rng.random() < 0.5 else rng.choice([1, -2.5, "text", None, True, [], [1, 2]])
                   for _ in range(rng.randint(1, 4))]
        text = gen.jtext(rng, m["eh"])
        ctx.count("array")
    data = ms3gen.to_ref(rng, m, text)

    def look(rec):
        return rec.hasExtraHeaders(), rec.details(), rec.summary(), rec.details(showExtraHeaders=False)

    def value(rec):
        ctx.check(gen.jsame(rec.eh if rec.eh is not None else {}, m["eh"]), "extra headers", rec.eh, m["eh"])

    want = look(s.unpackMSeed3Record(data))
    ctx.eq(want[0], bool(m["eh"]), "hasExtraHeaders()")
    rec = s.unpackMSeed3Record(data) if rng.random() < 0.5 else next(s.readMSeed3Records(io.BytesIO(data)))
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["look", "value", "clone", "decompressed", "merged", "pack"])
        if op == "look":
            ctx.eq(look(rec), want, "looked at before")
        elif op == "value":
            value(rec)
        elif op == "pack":
            ms3gen.judge_bytes(ctx, rec.pack(), m, "packed")
            want = look(s.unpackMSeed3Record(bytes(rec.pack())))
        elif op == "clone":
            rec = rec.clone()
            want = look(s.unpackMSeed3Record(bytes(rec.pack())))
        elif m["samples"] is not None:
            if op == "decompressed":
                m["encoding"] = {10: 3, 11: 3}.get(m["encoding"], m["encoding"])
                rec = rec.decompressedRecord()
            else:
                out = s.mseed3merge(rec, None)
                ctx.eq(len(out), 1, "merged with nothing")
                rec = out[0]
            ms3gen.judge_bytes(ctx, rec.pack(), m, op)
            want = look(s.unpackMSeed3Record(bytes(rec.pack())))
    value(rec)
    ms3gen.judge_bytes(ctx, rec.pack(), m, "packed at the end")
    if m["samples"] is not None and m["encoding"] not in (10, 11):
        nxt = dict(copy_model(m), eh=rng.choice([{}, {"other": 1}]))
        mergegen.put_start(nxt, mergegen.start_us(m) + round(mergegen.period(m["sampleRatePeriod"]) * m["numSamples"] * 1000000))
        out = s.mseed3merge(rec, s.unpackMSeed3Record(ms3gen.to_ref(rng, nxt)))
        if len(out) == 1:
            m.update(samples=m["samples"] * 2, numSamples=2 * m["numSamples"])
            ms3gen.judge_bytes(ctx, out[0].pack(), m, "merged")
            ctx.count("merged with the next")
    ctx.seen(text, ms3gen.key(m))


LENGTHS = {"flags": "B", "nanosecond": "I", "year": "H", "dayOfYear": "H", "hour": "B", "minute": "B", "second": "B", "encoding": "B",
           "sampleRatePeriod": "d", "numSamples": "I", "crc": "I", "publicationVersion": "B", "identifierLength": "B",
           "extraHeadersLength": "H", "dataLength": "I"}


def headers(rng, ctx):
    """a header by itself: values of its whole range are kept by pack, unpack and clone"""
    import simplemseed as s
    live = []
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(["new", "clone", "edit", "bytes", "look"]) if live else "new"
        if op == "new":
            h, m = s.MSeed3Header(), {}
            for k, t in LENGTHS.items():
                top = {"B": 255, "H": 65535, "I": 2 ** 32 - 1}.get(t)
                m[k] = rng.choice([rng.randint(0, top), rng.randint(0, top), top, 1]) if top else rng.choice([20.0, -3.5, rng.uniform(-1e3, 1e3)])
            m.update(zip(HEADER, (rng.randint(1900, 2100), rng.randint(1, 365), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                  rng.randrange(10 ** 9))))
            for k, v in m.items():
                setattr(h, k, v)
            live.append((h, m))
        else:
            h, m = rng.choice(live)
            if op == "clone":
                live.append((h.clone(), dict(m)))
                ctx.count("clones of headers")
            elif op == "edit":
                k = rng.choice([k for k, t in LENGTHS.items() if t == "I" and k != "nanosecond" or k in ("flags", "encoding", "publicationVersion")])
                m[k] = rng.randint(0, 255)
                setattr(h, k, m[k])
            elif op == "bytes":
                live.append((s.unpackMSeed3FixedHeader(h.pack()), dict(m)))
                ctx.count("headers unpacked")
            else:
                ctx.eq(int(h.crcAsHex(), 16), m["crc"], "crcAsHex()")
                ctx.eq(h.recordSize(), 40 + m["identifierLength"] + m["extraHeadersLength"] + m["dataLength"], "recordSize()")
                h.starttime, h.sampleRate, h.samplePeriod, h.sanityCheck()  # pylint: disable=pointless-statement
        for h, m in live:
            ctx.eq({k: getattr(h, k) for k in m}, m, f"header after {op}")
            want = b"MS\x03" + b"".join(struct.pack("<" + t, m[k]) for k, t in LENGTHS.items())
            ctx.eq(bytes(h.pack()), want, f"bytes of header after {op}")
            ctx.count("headers compared")
    ctx.seen([sorted(m.items()) for _h, m in live])


KINDS = [
    Kind("headers", headers, 3000, 100000, need=("clones of headers", "headers unpacked", "headers compared")),
    Kind("history", history, 10000, 400000, need=("states compared", "op_clone", "op_eh_edit", "op_spoil", "edits of extra headers held")),
    Kind("readonly", readonly, 6000, 200000, need=("twins compared",)),
    Kind("shapes", shapes, 3000, 100000, need=("array", "empty object", "merged with the next")),
]
