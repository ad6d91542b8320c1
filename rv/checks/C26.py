"""Command line tools agree with the library and the data"""
import json
import os
import re
import subprocess
import sys
from datetime import datetime

from ..core import Kind, SRC
from .. import cli, ehtool, gen, mergegen, ms2gen, ms3gen, ref, sidgen
from .C22 import SOURCES, TYPES, allowed

LEVEL = "exploration"
FILES = ["mseed3details.py", "mseed2details.py", "mseed2to3.py", "mseed3merge.py", "fdsnsourceid.py", "mseed3.py", "miniseed.py"]
RULE = "a case is one distinct command line with the content of its files, run in a process of its own and its output compared with the files' independently known content"

ENCODINGS = {0: "text", 1: "16-bit int", 3: "32-bit int", 4: "32-bit float", 5: "64-bit float", 10: "steim-1", 11: "steim-2", 19: "steim-3", 100: "opaque"}
NAMES = ["a{}.ms", "file {}", "\u00e9{}.mseed", "sub{}.x"]


def instant(text):
    t = text.strip().replace("Z", "+00:00")
    return ref.dt_micros(datetime.fromisoformat(t))


def total(ctx, text, models, what):
    lines = text.rstrip("\n").split("\n")
    m = re.fullmatch(r"Total (\d+) samples in (\d+) records", lines[-1].strip())
    ctx.check(m is not None, f"{what}: no total at the end", lines[-1])
    ctx.eq((int(m[1]), int(m[2])), (sum(x["numSamples"] for x in models), len(models)), f"{what}: total")
    ctx.count("totals")
    return "".join(ln + "\n" for ln in lines[:-1])


def field(ctx, block, name, what, nth=0):
    got = re.findall(rf"(?m)^ *{re.escape(name)}:[ ]?(.*)$", block)
    ctx.check(len(got) > nth, f"{what}: no line of {name}", block)
    return got[nth].strip()


def start3(m):
    return ms3gen.start_micros(tuple(m[k] for k in ("year", "dayOfYear", "hour", "minute", "second", "nanosecond")))


def rate3(m):
    return m["sampleRatePeriod"] if m["sampleRatePeriod"] >= 0 else -1.0 / m["sampleRatePeriod"]


def end_ok(got, start, n, rate):
    span = (n - 1) / rate * 1e6 if rate else 0
    return abs(got - start - span) <= 1 + 1e-9 * abs(span)


def judge_data(ctx, text, encoding, samples, what):
    words = text.split()
    ctx.eq(len(words), len(samples), f"{what}: samples printed")
    if encoding in (4, 5):
        got = [float(w) for w in words]
        if encoding == 4:
            ok = all(ms2gen.f32(a) == ms2gen.f32(b) or a != a and b != b for a, b in zip(got, samples))
        else:
            ok = all(a == b or a != a and b != b for a, b in zip(got, samples))
        ctx.check(ok, f"{what}: samples", words[:10], samples[:10])
    else:
        ctx.eq([int(w) for w in words], list(samples), f"{what}: samples")
    ctx.count("samples printed", len(samples))


def split_blocks(ctx, text, fmt, what):
    """[(identifier, middle of first line, size, rest of block)]"""
    pat = re.compile(rf"(?m)^ {{10}}(.*), (version \d+|quality .), (\S+) bytes \(format: {fmt}\)$")
    hits = list(pat.finditer(text))
    out = []
    ctx.check(not text[:hits[0].start()].strip() if hits else not text.strip(), f"{what}: text before the first record", text[:200])
    for i, h in enumerate(hits):
        end = hits[i + 1].start() if i + 1 < len(hits) else len(text)
        out.append((h[1], h[2], h[3], text[h.end() + 1:end]))
    return out


def shown_data(block):
    m = re.search(r"(?m)^ *data: *$", block)
    return (block, None) if m is None else (block[:m.start()], block[m.end():])


def judge_encoding(ctx, text, encoding, what):
    m = re.search(r"\(val: (\d+)\)$", text)
    ctx.check(m is not None and int(m[1]) == encoding, f"{what}: encoding", text, encoding)
    if encoding in ENCODINGS:
        ctx.check(ENCODINGS[encoding] in text.lower(), f"{what}: name of encoding {encoding}", text)
    else:
        ctx.check(not any(n in text.lower() for n in ENCODINGS.values()), f"{what}: name of encoding {encoding}", text)


def judge_block3(ctx, blk, m, data, eh, showdata, what):
    ident, version, size, rest = blk
    r = ref.ms3_parse(data) if data is not None else None
    ctx.eq(ident, m["identifier"], f"{what}: identifier")
    ctx.eq(version, f"version {m['publicationVersion']}", f"{what}: version")
    # size is known once packed or read
    ctx.check(r is None or size == str(r["size"]), f"{what}: size", size, r)
    rest, numbers = shown_data(rest)
    when = re.fullmatch(r"(\S+) \((\d{3})\)", field(ctx, rest, "start time", what))
    ctx.check(when is not None, f"{what}: start time", rest[:100])
    ctx.eq(instant(when[1]), start3(m), f"{what}: start time")
    ctx.eq(int(when[2]), m["dayOfYear"], f"{what}: day of year")
    ctx.eq(int(field(ctx, rest, "number of samples", what)), m["numSamples"], f"{what}: number of samples")
    ctx.eq(float(field(ctx, rest, "sample rate (Hz)", what)), rate3(m), f"{what}: rate")
    bits = re.match(r"\[([01]{8})\]", field(ctx, rest, "flags", what))
    ctx.check(bits is not None and int(bits[1], 2) == m["flags"], f"{what}: flags", field(ctx, rest, "flags", what), m["flags"])
    ctx.eq(sorted(int(x) for x in re.findall(r"\[Bit (\d)\]", rest)), [i for i in range(8) if m["flags"] >> i & 1], f"{what}: flag lines")
    if r is not None:  # as packed or read
        ctx.eq(int(field(ctx, rest, "CRC", what), 16), r["crc"], f"{what}: CRC")
        ctx.eq(field(ctx, rest, "extra header length", what), f"{r['ehl']} bytes", f"{what}: extra header length")
        ctx.eq(field(ctx, rest, "data payload length", what), f"{r['dl']} bytes", f"{what}: payload length")
    judge_encoding(ctx, field(ctx, rest, "payload encoding", what), m["encoding"], what)
    shown = rest[rest.index("extra headers:") + len("extra headers:"):].strip()
    if eh:
        try:
            got = json.loads(shown) if shown else {}
        except ValueError:
            ctx.check(False, f"{what}: extra headers shown are not JSON", shown)
        ctx.check(gen.jsame(got, m["eh"]), f"{what}: extra headers", got, m["eh"])
        ctx.count("extra headers shown")
    else:
        ctx.eq(shown, "", f"{what}: extra headers shown but not asked for")
    ctx.eq(numbers is not None, showdata, f"{what}: data shown")
    if showdata:
        if m["samples"] is None and m["numSamples"]:
            ctx.count("data that cannot be shown")
        else:
            if m["samples"] is None and numbers.strip():
                ctx.check(not re.search(r"(?m)^\s*-?[0-9]", numbers), f"{what}: samples shown of a record without", numbers)
                numbers = ""
            judge_data(ctx, numbers, m["encoding"], m["samples"] or [], what)


def summary_lines(text):
    # identifiers here have no line ends
    return text.split("\n")[:-1]


def judge_summary3(ctx, ln, m, what):
    g = re.fullmatch(r"(.*) (\S+Z) (\S+Z) \((\d+) pts\)", ln)
    ctx.check(g is not None, f"{what}: summary", ln)
    ctx.eq((g[1], instant(g[2]), int(g[4])), (m["identifier"], start3(m), m["numSamples"]), f"{what}: summary")
    if m["numSamples"]:
        ctx.check(end_ok(instant(g[3]), start3(m), m["numSamples"], rate3(m)), f"{what}: end time", ln, rate3(m))
    ctx.count("summaries")


def judge_summary2(ctx, ln, p, what):
    g = re.fullmatch(r"(\S+) (\S+[ T]\S+) (\S+[ T]\S+) \((\d+) pts\)", ln)
    ctx.check(g is not None, f"{what}: summary", ln)
    ctx.eq((g[1], instant(g[2]), int(g[4])), (f"{p['net']}.{p['sta']}.{p['loc']}.{p['chan']}", start2(p), p["numSamples"]), f"{what}: summary")
    if p["numSamples"] and p["rate"]:
        ctx.check(end_ok(instant(g[3]), start2(p), p["numSamples"], p["rate"]), f"{what}: end time", ln, p["rate"])
    ctx.count("summaries")


def ms3details(rng, ctx):
    files = [ehtool.models(rng, rng.choice([0, 1, 2, 3, 6])) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        # records that follow one another closely are still shown one by one
        files.insert(0, [(m, ms3gen.to_ref(rng, m)) for m, _j in mergegen.stream(rng)])
        ctx.count("contiguous records")
    pat = rng.choice([None] * 6 + ehtool.PATTERNS)
    mode = rng.choice(["summary", "details", "details", "eh", "data", "eh data", "summary eh data"])
    want = [(m, b) for f in files for m, b in f if ehtool.matches(pat, m)]
    with cli.Dir() as d:
        names = []
        for i, recs in enumerate(files):
            names.append(rng.choice(NAMES).format(i))
            d.write(names[-1], b"".join(b for _m, b in recs), rng.choice([0o644, 0o444]))
        opts = ["--" + w for w in mode.split() if w != "details"] + (["--match=" + pat] if pat is not None else [])
        opts += rng.choice([[], [], ["-v"], ["--verbose"]])
        rng.shuffle(opts)
        argv = rng.choice([opts + names, names + opts])
        res = cli.run("mseed3details", argv, d)
        what = f"mseed3details {argv}"
        ctx.check(res.code == 0 and res.err == "", f"{what}: exit status or errors", res)
        text = total(ctx, res.out, [m for m, _b in want], what)
        if "summary" in mode:
            lines = summary_lines(text)
            ctx.check(len(lines) == len(want), f"{what}: number of summaries", lines, [m["identifier"] for m, _b in want])
            for ln, (m, _b) in zip(lines, want):
                judge_summary3(ctx, ln, m, what)
        else:
            blocks = split_blocks(ctx, text, 3, what)
            ctx.eq([b[0] for b in blocks], [m["identifier"] for m, _b in want], f"{what}: records shown")
            for k, (blk, (m, b)) in enumerate(zip(blocks, want)):
                judge_block3(ctx, blk, m, b, "eh" in mode, "data" in mode, f"{what} record {k}")
                ctx.count("records shown")
        for n, recs in zip(names, files):
            ctx.check(d.read(n) == b"".join(b for _m, b in recs), f"{what}: file is changed")
        ctx.eq(d.listing(), sorted(set(names)), f"{what}: files in the directory")
    ctx.count("with pattern" if pat is not None else "without pattern")
    ctx.count(mode)
    ctx.seen(argv, [[b for _m, b in f] for f in files])
    ctx.sample(f"{argv}: {[len(f) for f in files]} records")


LOG = dict(seq=b"000001", quality="D", sta="LOGS", loc="", chan="LOG", net="XX", year=2024, yday=60, hour=1, minute=2, second=3,
           tenthMilli=4, factor=0, mult=1, actFlag=0, ioFlag=0, qualFlag=0, timeCorr=0, exp=8, samples=None)


def logrecord(rng):
    """text, as of the log channel"""
    r = dict(LOG)
    text = b"log message" * rng.randint(1, 8)
    r.update(order=rng.choice(["big", "little"]), encoding=0, little=False, payload=text, numSamples=len(text), blockettes=[dict(num=1000)])
    data = ref.ms2_build(r)
    r["parsed"] = ref.ms2_parse(data)
    return r, data


def ms2models(rng, n):
    out = []
    while len(out) < n:
        if rng.random() < 0.1:
            out.append(logrecord(rng))
            continue
        r = ms2gen.model(rng, exps=(8, 8, 9, 9, 10, 12))
        for b in r["blockettes"]:
            if b["num"] == 1001:
                b["micro"] = min(b["micro"], 99)
        data = ms2gen.build(r)
        rate = r["parsed"]["rate"]
        if rate and r["numSamples"] / rate > 1e10:
            continue  # ends in a year that datetime cannot hold
        out.append((r, data))
    return out


def start2(p):
    return p["btime"] + sum(b["micro"] for b in p["blockettes"] if b["num"] == 1001)


def judge_block2(ctx, blk, r, showdata, what):
    p = r["parsed"]
    ident, quality, size, rest = blk
    ctx.eq((ident, quality, size), (ms2gen.sid(p), f"quality {p['quality']}", str(p["size"])), f"{what}: first line")
    rest, numbers = shown_data(rest)
    when = re.fullmatch(r"(\S+) \((\d{3})\)", field(ctx, rest, "start time", what))
    ctx.check(when is not None, f"{what}: start time", rest[:100])
    ctx.eq(instant(when[1]), start2(p), f"{what}: start time")
    ctx.eq(int(when[2]), p["yday"], f"{what}: day of year")
    ctx.eq(int(field(ctx, rest, "number of samples", what)), p["numSamples"], f"{what}: number of samples")
    if p["rate"]:
        ctx.check(ms2gen.near(float(field(ctx, rest, "sample rate (Hz)", what)), p["rate"]), f"{what}: rate", rest[:200], p["rate"])
    for i, k in enumerate(("actFlag", "ioFlag", "qualFlag")):
        bits = re.match(r"\[([01]{8})\]", field(ctx, rest, "flags", what, i))
        ctx.check(bits is not None and int(bits[1], 2) == p[k], f"{what}: {k}", rest, p[k])
    judge_encoding(ctx, field(ctx, rest, "payload encoding", what), p["encoding"], what)
    nums = [int(x) for x in re.findall(r"(?m)^ *Blockette\w*\(blocketteNum=(\d+)", rest)]
    ctx.eq(nums, [b["num"] for b in p["blockettes"]], f"{what}: blockettes")
    ctx.eq(numbers is not None, showdata, f"{what}: data shown")
    if showdata:
        if r["samples"] is None:
            ctx.count("data that cannot be shown")
        else:
            judge_data(ctx, numbers, {32: 1}.get(p["encoding"], p["encoding"]), r["samples"], what)


def ms2details(rng, ctx):
    files = [ms2models(rng, rng.choice([0, 1, 2, 3, 6])) for _ in range(rng.choice([1, 1, 2, 3]))]
    ids = [ms2gen.sid(r["parsed"]) for f in files for r, _b in f]
    pat = rng.choice([None] * 4 + ["_H_", "^FDSN:CO", "BIRD", "Z$", "nothing", ".", "", "[0-9]_"] + ids[:2])
    want = [r for f in files for r, _b in f if pat is None or re.search(pat, ms2gen.sid(r["parsed"]))]
    mode = rng.choice(["summary", "details", "data", "data", "summary data"])
    with cli.Dir() as d:
        names = []
        for i, recs in enumerate(files):
            names.append(rng.choice(NAMES).format(i))
            d.write(names[-1], b"".join(b for _m, b in recs), rng.choice([0o644, 0o444]))
        opts = ["--" + w for w in mode.split() if w != "details"] + (["--match=" + pat] if pat is not None else [])
        opts += rng.choice([[], [], ["-v"], ["--verbose"]])
        rng.shuffle(opts)
        argv = rng.choice([opts + names, names + opts])
        res = cli.run("mseed2details", argv, d)
        what = f"mseed2details {argv}"
        ctx.check(res.code == 0 and res.err == "", f"{what}: exit status or errors", res)
        text = total(ctx, res.out, want, what)
        if "summary" in mode:
            lines = summary_lines(text)
            ctx.check(len(lines) == len(want), f"{what}: number of summaries", lines, len(want))
            for ln, r in zip(lines, want):
                judge_summary2(ctx, ln, r["parsed"], what)
        else:
            blocks = split_blocks(ctx, text, 2, what)
            ctx.eq([b[0] for b in blocks], [ms2gen.sid(r["parsed"]) for r in want], f"{what}: records shown")
            for k, (blk, r) in enumerate(zip(blocks, want)):
                judge_block2(ctx, blk, r, "data" in mode, f"{what} record {k}")
                ctx.count("records shown")
        for n, recs in zip(names, files):
            ctx.check(d.read(n) == b"".join(b for _m, b in recs), f"{what}: file is changed")
        ctx.eq(d.listing(), sorted(set(names)), f"{what}: files in the directory")
    ctx.count(mode)
    ctx.count("with pattern" if pat is not None else "without pattern")
    ctx.seen(argv, [[b for _m, b in f] for f in files])
    ctx.sample(f"{argv}: {[len(f) for f in files]} records")


def merge(rng, ctx):
    import io
    import simplemseed as s
    recs = mergegen.stream(rng, rng.choice([0, 1, 2, 3, 5, 9])) if rng.random() < 0.95 else []
    inputs = [m for m, _j in recs]
    data = b"".join(ms3gen.to_ref(rng, m) for m in inputs)
    with cli.Dir() as d:
        d.write("in.ms3", data, rng.choice([0o644, 0o444]))
        if rng.random() < 0.4:
            d.write("out.ms3", b"MS junk" * rng.choice([1, 20000]))
            ctx.count("output exists")
        opts = rng.choice([["-o", "out.ms3"], ["--outfile", "out.ms3"], ["--outfile=out.ms3"]])
        extra = rng.choice([[], [], ["--decomp"], ["-v"], ["--decomp", "--verbose"]])
        argv = rng.choice([opts + ["in.ms3"] + extra, extra + ["in.ms3"] + opts])
        res = cli.run("mseed3merge", argv, d)
        what = f"mseed3merge {argv}"
        ctx.check(res.code == 0 and res.err == "", f"{what}: exit status or errors", res)
        ctx.check(d.read("in.ms3") == data, f"{what}: input changed")
        out = d.read("out.ms3")
        ctx.eq(d.listing(), ["in.ms3", "out.ms3"], f"{what}: files")
        try:
            parts = ref.ms3_split(out)
        except (ref.RefError, ValueError) as e:
            ctx.check(False, f"{what}: output is not valid miniSEED 3: {e}")
        sizes = mergegen.judge_outputs(ctx, inputs, [s.unpackMSeed3Record(p["bytes"]) for p in parts], what)
        ctx.eq(sizes, [len(g) for g in mergegen.groups(recs)], f"{what}: records merged")
        lib = b"".join(bytes(r.pack()) for r in s.readMSeed3Records(io.BytesIO(data), merge=True))
        ctx.check(out == lib, f"{what}: output is not what the library gives", out[:80], lib[:80])
        if "-v" not in argv and "--verbose" not in argv:
            ctx.eq(res.out, "", f"{what}: prints")
        ctx.count("records written", len(parts))
        ctx.count("records merged", len(inputs) - len(parts))
    ctx.seen(argv, data)
    ctx.sample(f"{argv}: {len(inputs)} records to {len(parts)}")


def to3(rng, ctx):
    import simplemseed as s
    recs = ms2models(rng, rng.choice([0, 1, 2, 3, 6]))
    data = b"".join(b for _r, b in recs)
    with cli.Dir() as d:
        d.write("in.ms2", data, rng.choice([0o644, 0o444]))
        if rng.random() < 0.4:
            d.write("out.ms3", b"MS junk" * rng.choice([1, 20000]))
            ctx.count("output exists")
        a = rng.choice([["-2", "in.ms2"], ["--ms2", "in.ms2"], ["--ms2=in.ms2"]])
        b = rng.choice([["-3", "out.ms3"], ["--ms3", "out.ms3"], ["--ms3=out.ms3"]])
        verbose = rng.random() < 0.3
        argv = rng.choice([a + b, b + a]) + (["-v"] if verbose else [])
        res = cli.run("mseed2to3", argv, d)
        what = f"mseed2to3 {argv}"
        ctx.check(res.code == 0 and res.err == "", f"{what}: exit status or errors", res)
        ctx.check(d.read("in.ms2") == data, f"{what}: input changed")
        out = d.read("out.ms3")
        ctx.eq(d.listing(), ["in.ms2", "out.ms3"], f"{what}: files")
        try:
            parts = ref.ms3_split(out)
        except (ref.RefError, ValueError) as e:
            ctx.check(False, f"{what}: output is not valid miniSEED 3: {e}")
        ctx.eq(len(parts), len(recs), f"{what}: number of records")
        lib = []
        for k, (q, (r, raw)) in enumerate(zip(parts, recs)):
            p = r["parsed"]
            ctx.check(q["crcok"], f"{what}: crc of record {k}")
            ctx.eq((q["identifier"], q["numSamples"]), (ms2gen.sid(p), p["numSamples"]), f"{what}: record {k}")
            when = ref.micros(*[q[x] for x in ("year", "dayOfYear", "hour", "minute", "second")], q["nanosecond"] // 1000)
            ctx.eq(when, start2(p), f"{what}: start of record {k}")
            if r["samples"]:
                want = ms2gen.bits(p["encoding"], r["samples"])
                ctx.check(ms3gen.samples_bits(q["encoding"], ref.ms3_samples(q)) == want, f"{what}: samples of record {k}")
                ctx.count("samples converted", len(r["samples"]))
            if r["samples"] is None:
                ctx.check(q["payload"] == p["payload"] and q["encoding"] == p["encoding"], f"{what}: payload of record {k} that cannot be decompressed")
                ctx.count("text records")
            lib.append(bytes(s.mseed2to3(s.unpackMiniseedRecord(raw)).pack()))
        ctx.check(out == b"".join(lib), f"{what}: output is not what the library gives")
        if verbose:
            m = re.search(r"wrote (\d+) bytes", res.out)
            ctx.check(m is not None and int(m[1]) == len(out), f"{what}: bytes said to be written", res.out[-100:], len(out))
            ctx.eq(len(re.findall(r" pts\)", res.out)), len(recs), f"{what}: records told")
        else:
            ctx.eq(res.out, "", f"{what}: prints")
        ctx.count("records converted", len(recs))
    ctx.seen(argv, data)
    ctx.sample(f"{argv}: {len(recs)} records")


def entry_ok(line, label, code, name):
    m = re.fullmatch(rf" *{label}: (\S*) - (.*)", line)
    return m is not None and m[1] == code and name.lower() in m[2].lower()


def ids(rng, ctx):
    argv, want = [], []
    if rng.random() < 0.6:
        sids = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            net, sta, loc, band, source, sub = sidgen.codes(rng)
            if not band and rng.random() < 0.7:
                band = "B"
            level = rng.choice([1, 2, 3, 6, 6, 6])
            parts = [net, sta, loc, band, source, sub]
            if level == 6 and len(band) == 0 and (len(source) == 0 or len(sub) == 0):
                continue
            sids.append((level, parts))
            want.append(("sid", level, parts))
        argv += ["FDSN:" + "_".join(p[:n]) for n, p in sids]
    rate = None
    if rng.random() < 0.3:
        rate = rng.choice([100, 20, 0, 1, 0.1, -10, 5000, 250, -100.0, 80, 1e-3, -86400, 40.0, round(rng.uniform(1.6, 1000), 3)])
        argv = rng.choice([["--sps", str(rate)] + argv, argv + [f"--sps={rate}"]])
    bands = []
    if rng.random() < 0.3:
        bands = [rng.choice(list(TYPES)) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.4:
            argv += [rng.choice(["-b", "--band"]), "".join(bands)]
        else:
            argv += [rng.choice(["-b", "--band"])] + bands
    sources = []
    if rng.random() < 0.3:
        sources = [rng.choice(list(SOURCES)) for _ in range(rng.randint(1, 3))]
        argv += [rng.choice(["-s", "--source"])] + sources
    allbands = rng.random() < 0.1
    allsources = rng.random() < 0.1
    if allbands:
        argv.append("--allbands")
    if allsources:
        argv.append("--allsources")
    if not argv:
        argv = ["--allbands"]
        allbands = True
    with cli.Dir() as d:
        res = cli.run("fdsnsourceid", argv, d)
        what = f"fdsnsourceid {argv}"
        ctx.check(res.code == 0 and res.err == "", f"{what}: exit status or errors", res)
        ctx.eq(d.listing(), [], f"{what}: files")
    lines = res.out.split("\n")
    ctx.eq(lines.pop(), "", f"{what}: end")

    def entry(label, code, name):
        ctx.check(lines and entry_ok(lines[0], label, code, name), f"{what}: {label} of {code}", lines[:1], name)
        lines.pop(0)
        ctx.count("entries")
    if rate is not None:
        codes = []
        while lines and re.match(" *Rate:", lines[0]):
            m = re.fullmatch(r" *Rate: (\S+) - (\S) - (.*)", lines[0])
            ctx.check(m is not None and float(m[1]) == rate and TYPES[m[2]].lower() in m[3].lower(), f"{what}: rate", lines[0])
            codes.append(m[2])
            lines.pop(0)
        broad, short = allowed(rate, 0.01), allowed(rate, 10)
        ctx.check(codes and codes[0] in broad and codes[-1] in short and len(codes) <= 2 and len(set(codes)) == len(codes),
                  f"{what}: codes of rate", codes, broad, short)
        ctx.count("rates")
    if allbands:
        got = []
        while lines and len(got) < len(TYPES) and re.match(" *Band:", lines[0]):
            code = lines[0].split()[1]
            entry("Band", code, TYPES.get(code, "?"))
            got.append(code)
        ctx.eq(sorted(got), sorted(TYPES), f"{what}: all bands")
        ctx.count("all bands")
    for b in bands:
        entry("Band", b, TYPES[b])
    if allsources:
        for _ in range(len(SOURCES)):
            code = lines[0].split()[1] if lines and len(lines[0].split()) > 1 else "?"
            entry("Source", code, SOURCES.get(code, "?"))
        ctx.count("all sources")
    for c in sources:
        entry("Source", c, SOURCES[c])
        # and its description, which may have several lines
        while lines and not re.match(r" *(Source|Band|Rate|FDSN):|      FDSN:", lines[0]):
            lines.pop(0)
    for _k, level, parts in want:
        label = ["Net", "Sta", "Loc"]
        ctx.eq(lines.pop(0).strip() if lines else None, "FDSN:" + "_".join(parts[:level]), f"{what}: identifier")
        for i in range(min(level, 3)):
            ctx.eq(lines.pop(0).rstrip(), f"{label[i]:>10}: {parts[i]}".rstrip(), f"{what}: {label[i]}")
        if level == 6:
            band, source, sub = parts[3:]
            entry("Band", band, TYPES.get(band, "Unknown"))
            entry("Source", source, SOURCES.get(source, "Unknown"))
            ctx.eq(lines.pop(0).rstrip(), f" Subsource: {sub}".rstrip(), f"{what}: subsource")
        ctx.count("identifiers")
    ctx.eq(lines, [], f"{what}: more lines")
    ctx.seen(argv)
    ctx.sample(argv)


TOOLS = ["mseed3details", "mseed2details", "mseed3merge", "mseed2to3", "fdsnsourceid"]


def as_script(tool):
    """as the installed console script does"""
    return ["-c", f"import sys; from simplemseed.{tool} import main; sys.exit(main())"]


def process(rng, ctx):
    """real interpreters"""
    tool = TOOLS[rng.index % 5]
    step = rng.index // 5 % 4
    mod = as_script(tool)
    with cli.Dir() as d:
        ms3 = ehtool.models(rng, 3)
        ms2 = ms2models(rng, 3)
        d.write("a.ms3", b"".join(b for _m, b in ms3))
        d.write("a.ms2", b"".join(b for _m, b in ms2))
        argv = {"mseed3details": ["--summary", "a.ms3"], "mseed2details": ["--summary", "a.ms2"], "mseed3merge": ["-o", "o.ms3", "a.ms3"],
                "mseed2to3": ["-2", "a.ms2", "-3", "o.ms3"], "fdsnsourceid": ["FDSN:CO_BIRD_00_H_H_Z"]}[tool]
        if step == 0:
            p = cli.process(mod + argv, d.work)
            # numpy may warn about differences that wrap around
            ctx.check(p.returncode == 0 and b"Traceback" not in p.stderr, f"{tool} {argv}: exit status", p)
            q = cli.run(tool, argv, d)
            ctx.eq(p.stdout.decode(), q.out, f"{tool} {argv}: output of process and of main()")
        elif step == 1:
            p = cli.process(mod + ["--version"], d.work)
            import simplemseed.version as v
            ctx.check(p.returncode == 0 and v.VERSION in p.stdout.decode(), f"{tool} --version", p)
        elif step == 2:
            p = cli.process(mod, d.work)
            ctx.check(p.returncode != 0 and b"usage" in p.stderr and b"Traceback" not in p.stderr, f"{tool} without arguments", p)
        else:
            # a file that is not there: fails, with a status that says so
            bad = [a.replace("a.ms", "nothere.ms") for a in argv]
            if tool == "fdsnsourceid":
                bad = ["CO_BIRD_00_H_H_Z"]
            p = cli.process(mod + bad, d.work)
            ctx.check(p.returncode != 0 and p.stderr, f"{tool} {bad}: no failure", p)
            ctx.check(d.read("a.ms3") == b"".join(b for _m, b in ms3), f"{tool}: file changed")
    ctx.count(f"process {step}")
    ctx.seen(tool, step, rng.index)


def pipe(rng, ctx):
    """reader of the output goes away"""
    tool = ["mseed3details", "mseed2details"][rng.index % 2]
    with cli.Dir() as d:
        if tool == "mseed3details":
            one = b"".join(b for _m, b in ehtool.models(rng, 4))
        else:
            one = b"".join(b for _m, b in ms2models(rng, 4))
        d.write("big", one * 300)
        opts = rng.choice([["--data"], ["--summary"], []])
        env = dict(os.environ, PYTHONPATH=SRC)
        p = subprocess.Popen([sys.executable, "-B"] + as_script(tool) + opts + ["big"], cwd=d.work, env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        first = p.stdout.read(rng.choice([1, 100, 5000]))
        p.stdout.close()
        err = p.stderr.read()
        p.stderr.close()
        code = p.wait()
        ctx.check(len(first) > 0, f"{tool} {opts}: nothing printed", err)
        ctx.check(b"Traceback" not in err and b"BrokenPipe" not in err, f"{tool} {opts}: complains about closed output", err[-500:])
        ctx.check(code == 1, f"{tool} {opts}: exit status after its output was closed", code)
    ctx.count("closed output")
    ctx.seen(tool, opts, one)


def same(rng, ctx):
    """output that is the input, perhaps by another name: refused, since the input stays as it is"""
    tool = ["mseed3merge", "mseed2to3", "mseed3details"][rng.index % 3]
    with cli.Dir() as d:
        if tool == "mseed2to3":
            data = b"".join(b for _m, b in ms2models(rng, rng.choice([1, 2, 4])))
        elif tool == "mseed3merge":
            data = b"".join(ms3gen.to_ref(rng, m) for m, _j in mergegen.stream(rng, rng.choice([1, 2, 5])))
        else:
            data = b"".join(b for _m, b in ehtool.models(rng, rng.choice([1, 2, 4])))
        name = rng.choice(["in.ms", "in file", "\u00e9.ms3"])
        d.write(name, data)
        os.mkdir(d.file("sub"))
        alias = rng.choice(["itself", "relative", "absolute", "symlink", "hard link", "link to link"])
        other = "other.ms"
        if alias == "itself":
            other = name
        elif alias == "relative":
            other = rng.choice(["./" + name, "sub/../" + name, ".//" + name])
        elif alias == "absolute":
            other = d.file(name)
        elif alias == "symlink":
            os.symlink(rng.choice([name, d.file(name)]), d.file(other))
        elif alias == "hard link":
            os.link(d.file(name), d.file(other))
        else:
            os.symlink(name, d.file("first"))
            os.symlink("first", d.file(other))
        src, dst = rng.choice([(name, other), (other, name)])
        if tool == "mseed2to3":
            argv = rng.choice([["-2", src, "-3", dst], ["--ms3=" + dst, "--ms2=" + src]])
        elif tool == "mseed3merge":
            argv = rng.choice([["-o", dst, src], [src, "--outfile=" + dst]]) + rng.choice([[], ["--decomp"]])
        else:
            files = [src]
            if rng.random() < 0.4:
                d.write("more.ms3", data)
                files = rng.choice([["more.ms3", src], [src, "more.ms3"]])
            argv = rng.choice([["--get", "/a"], ["--getall", "/a/b"], ["--getall", ""]])
            argv = rng.choice([["-o", dst] + argv + files, argv + files + ["--outfile", dst]])
        before = d.listing()
        res = cli.run(tool, argv, d)
        what = f"{tool} {argv} ({alias})"
        ctx.check(d.read(name) == data, f"{what}: input changed", len(d.read(name)), len(data))
        ctx.check(res.code != 0, f"{what}: no failure", res)
        ctx.eq(d.listing(), before, f"{what}: files")
    ctx.count(tool)
    ctx.count("output is input: " + alias)
    ctx.seen(tool, argv, alias, data)
    ctx.sample(f"{tool} {argv} ({alias})")


def streams(rng, ctx):
    """output that is a pipe or a full device, with real interpreters"""
    tool = ["mseed2to3", "mseed3merge", "mseed3details", "mseed2details"][rng.index % 4]
    full = rng.index // 4 % 3 == 2
    with cli.Dir() as d:
        ms3 = [m for m, _j in mergegen.stream(rng, 5)] if tool == "mseed3merge" else None
        recs = ms2models(rng, 4) if tool.startswith("mseed2") else None
        if ms3:
            data = b"".join(ms3gen.to_ref(rng, m) for m in ms3)
        elif recs:
            data = b"".join(b for _r, b in recs)
        else:
            data = b"".join(b for _m, b in ehtool.models(rng, 3))
        d.write("in", data)
        argv = {"mseed2to3": ["-2", "in", "-3", "out"], "mseed3merge": ["in", "-o", "out"], "mseed3details": ["--getall", "", "in", "-o", "out"],
                "mseed2details": ["in"]}[tool]
        env = dict(os.environ, PYTHONPATH=SRC, PYTHONIOENCODING="utf-8")
        what = f"{tool} {argv}"
        base = [sys.executable, "-B"] + as_script(tool)
        if full:
            # a full device is not success
            args = [a if a != "out" else "/dev/full" for a in argv]
            with open("/dev/full", "wb") as out:
                p = subprocess.run(base + args, cwd=d.work, env=env, stdout=out if tool == "mseed2details" else subprocess.PIPE,
                                   stderr=subprocess.PIPE, check=False)
            ctx.check(p.returncode != 0 and p.stderr, f"{what}: success though nothing could be written", p)
        else:
            res = cli.run(tool, argv, d)
            ctx.check(res.code == 0, f"{what}: exit status", res)
            want = res.out.encode() if tool == "mseed2details" else d.read("out")
            piped = list(argv)
            if tool == "mseed2to3":
                # - is standard input or output, as the option says
                piped = rng.choice([["-2", "-", "-3", "-"], ["-2", "in", "-3", "-"], ["-2", "/dev/stdin", "-3", "/dev/stdout"]])
            elif tool == "mseed3merge":
                piped = rng.choice([["/dev/stdin", "-o", "/dev/stdout"], ["in", "-o", "/dev/stdout"]])
            elif tool == "mseed3details":
                piped = ["--getall", "", "/dev/stdin", "-o", "/dev/stdout"]
            else:
                piped = ["/dev/stdin"]
            p = subprocess.run(base + piped, cwd=d.work, env=env, input=data, capture_output=True, check=False)
            ctx.check(p.returncode == 0 and b"Traceback" not in p.stderr, f"{tool} {piped}: exit status", p)
            ctx.check(p.stdout == want, f"{tool} {piped}: output to a pipe is not that to a file", p.stdout[:200], want[:200])
        ctx.check(d.read("in") == data, f"{what}: input changed")
    ctx.count("full device" if full else "pipes")
    ctx.seen(tool, full, data)
    ctx.sample(f"{what} {full}")


KINDS = [
    Kind("streams", streams, 48, 2000, need=("full device", "pipes")),
    Kind("same", same, 300, 12000, need=("mseed3merge", "mseed2to3", "mseed3details", "output is input: symlink", "output is input: hard link")),
    Kind("ms3details", ms3details, 3000, 120000, need=("summaries", "records shown", "samples printed", "extra headers shown", "with pattern",
                                                        "data that cannot be shown", "contiguous records")),
    Kind("ms2details", ms2details, 2500, 100000, need=("summaries", "records shown", "samples printed", "data that cannot be shown")),
    Kind("merge", merge, 1500, 60000, need=("records merged", "records written", "output exists")),
    Kind("to3", to3, 1500, 60000, need=("records converted", "samples converted", "text records", "output exists")),
    Kind("ids", ids, 1500, 60000, need=("identifiers", "rates", "all bands", "all sources", "entries")),
    Kind("process", process, 40, 400, need=("process 0", "process 1", "process 2", "process 3")),
    Kind("pipe", pipe, 16, 200, need=("closed output",)),
]
