"""Failures of sources and outputs are reported, not taken for end of data"""
import errno
import json
import os
import socket

from .. import cli, ehtool, ms2gen, ms3gen
from ..core import Kind

LEVEL = "fault_enumeration"
FILES = ["mseed3.py", "miniseed.py", "mseed2to3.py", "mseed3merge.py", "mseed3details.py", "mseed2details.py"]
RULE = ("a case is one distinct stream or set of files with the place at which its source or output fails; counted when the records handed out "
        "before, the error that arrived or the exit status were judged")


class Trouble(Exception):
    """an error of the source that the library cannot know"""


ERRORS = [
    lambda: OSError(errno.EIO, "Input/output error"), lambda: OSError(errno.ESTALE, "Stale file handle"), lambda: TimeoutError("timed out"),
    lambda: ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"), lambda: socket.timeout("timed out"),
    lambda: EOFError("compressed file ended"), lambda: ValueError("I/O operation on closed file"), lambda: Trouble("trouble"),
    lambda: KeyError("blob"), lambda: IndexError("past"), lambda: MemoryError(), lambda: KeyboardInterrupt(), lambda: RuntimeError("lost"),
    lambda: StopAsyncIteration("odd"), lambda: InterruptedError(errno.EINTR, "interrupted"), lambda: BlockingIOError(errno.EAGAIN, "not now"),
]


class Failing:
    """source that fails once more than its first bytes are asked for"""

    def __init__(self, data, at, error, once):
        self.data, self.at, self.error, self.once = data, at, error, once
        self.pos = 0
        self.failed = 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) + 1
        if n > 0 and self.pos + n > self.at and not (self.once and self.failed):
            self.failed += 1
            raise self.error
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


def carries(got, error):
    """the error itself, or one that names it as its cause"""
    for _ in range(10):
        if got is error:
            return True
        if got is None:
            return False
        got = got.__cause__ or got.__context__
    return False


def sources(rng, ctx):
    """an error while reading comes out of the generator, after the records that were complete"""
    import simplemseed as s
    form = rng.choice([2, 3])
    n = rng.choice([1, 2, 3, 5])
    if form == 3:
        recs = [b for _m, b in ehtool.models(rng, n)][:n + 1]
    else:
        recs = [bytes(ms2gen.build(ms2gen.model(rng, exps=(8, 9, 10)))) for _ in range(n)]
    data = b"".join(recs)
    ends, at = [], 0
    for b in recs:
        at += len(b)
        ends.append(at)
    spot = rng.choice(["any", "any", "boundary", "near", "end", "head"])
    where = {"any": rng.randrange(len(data) + 1), "boundary": rng.choice([0] + ends), "near": max(0, rng.choice(ends) - rng.choice([1, 2, 5, 20])),
             "end": len(data), "head": min(len(data), rng.choice([0] + ends[:-1]) + rng.randint(1, 60))}[spot]
    error = rng.choice(ERRORS)()
    merge = form == 3 and rng.random() < 0.25
    kw = {}
    if form == 3:
        kw = rng.choice([{}, {}, {"check_crc": False}, {"matchsid": ""}])
        if merge:
            kw["merge"] = True
    elif rng.random() < 0.3:
        kw = {"matchsid": ""}
    src = Failing(data, where, error, rng.random() < 0.5)
    it = (s.readMSeed3Records if form == 3 else s.readMiniseed2Records)(src, **kw)
    got, out = None, []
    try:
        for rec in it:
            out.append(rec)
    except BaseException as e:  # pylint: disable=broad-except
        got = e
    what = f"miniSEED {form} {kw}, source fails at {where} of {len(data)} with {error!r}"
    ctx.check(src.failed > 0, f"{what}: all was taken without reading to the end", len(out))
    ctx.check(got is not None, f"{what}: no error", len(out))
    ctx.check(carries(got, error), f"{what}: another error", got)
    if not merge:
        whole = sum(1 for e in ends if e <= where)
        ctx.eq(len(out), whole, f"{what}: records before the failure")
        ctx.count("records before a failure", whole)
    try:
        more = next(it)
        ctx.check(False, f"{what}: record after the failure", more)
    except StopIteration:
        pass
    ctx.count("failing sources")
    ctx.count(f"failure {spot}")
    ctx.count(type(error).__name__)
    ctx.seen(form, where, repr(error), repr(kw), data)
    ctx.sample(what)


def one3(rng, n=None):
    return b"".join(b for _m, b in ehtool.models(rng, n or rng.choice([1, 2, 3])))


def one2(rng, n=None):
    return b"".join(bytes(ms2gen.build(ms2gen.model(rng, exps=(9, 10), encodings=(1, 3, 10, 11)))) for _ in range(n or rng.choice([1, 2, 3])))


def large3(rng):
    m = ms3gen.model(rng, n=20000, encodings=(1, 3, 4, 5), opaque=0)
    m["year"] = 2024
    m["eh"] = {"big": "e" * 20000}
    return ms3gen.to_ref(rng, m, json.dumps(m["eh"]))


def large2(rng):
    while True:
        r = ms2gen.model(rng, exps=(15, 16), encodings=(1, 3, 4, 5), empty=0)
        if len(r["samples"]) > 6000:
            return bytes(ms2gen.build(r))


LISTERS = [("mseed3details", ["--summary"], 3), ("mseed3details", [], 3), ("mseed3details", ["--getall", "/a"], 3), ("mseed3details", ["--get", "/zz"], 3),
           ("mseed3details", ["--setall", "/a", "5"], 3), ("mseed3details", ["--fset", "/a", "gone.json"], 3),
           ("mseed2details", ["--summary"], 2), ("mseed2details", [], 2)]
ABSENT = ["missing", "folder", "name too long", "dangling link", "in a file"]


def make_absent(d, rng, how):
    if how == "missing":
        return "gone.ms"
    if how == "folder":
        os.mkdir(d.file("folder.ms"))
        return "folder.ms"
    if how == "dangling link":
        os.symlink("nowhere", d.file("link.ms"))
        return "link.ms"
    if how == "in a file":
        d.write("plain", b"x")
        return "plain/in.ms"
    return "x" * 300 + ".ms"


def absent(rng, ctx):
    """a file that cannot be opened, among others, is no success"""
    with cli.Dir() as d:
        how = rng.choice(ABSENT)
        tool, args, form = rng.choice(LISTERS + [("mseed3merge", None, 3), ("mseed2to3", None, 2)])
        good = one3 if form == 3 else one2
        names = []
        if args is not None:
            names = [f"f{k}.ms" for k in range(rng.choice([0, 1, 2]))]
        kept = {n: good(rng, 1) for n in names}
        for n, b in kept.items():
            d.write(n, b)
        bad = make_absent(d, rng, how)
        if args is None:
            argv = ["-o", "out.ms", bad] if tool == "mseed3merge" else ["-2", bad, "-3", "out.ms"]
        elif "--fset" in args:
            d.write("f.ms", one3(rng, 1))
            argv = args[:-1] + [bad, "f.ms"]
        else:
            if "--get" in args:
                names = []  # ends with the first file that has a record
            at = rng.randint(0, len(names))
            argv = args + names[:at] + [bad] + names[at:]
        before = {n: d.read(n) for n in d.listing() if os.path.isfile(d.file(n))}
        res = cli.run(tool, argv, d)
        what = f"{tool} {[a[:40] for a in argv]} ({how})"
        ctx.check(res.code != 0, f"{what}: success", res)
        ctx.check(res.err.strip(), f"{what}: fails without a word", res)
        # a link may be followed first
        ctx.check(bad.split("/")[-1][:60] in res.err or how == "dangling link" and "nowhere" in res.err, f"{what}: message does not name the file", res)
        for n, b in before.items():
            if "--setall" not in argv:
                ctx.check(d.read(n) == b, f"{what}: {n} changed")
    ctx.count("inputs that cannot be opened")
    ctx.count(how)
    ctx.seen(tool, how, argv)


def damaged(rng, ctx):
    """an input that ends within a record or is not miniSEED is no success"""
    with cli.Dir() as d:
        tool, args, form = rng.choice([t for t in LISTERS if t[1][:1] not in (["--get"], ["--fset"])] + [("mseed3merge", None, 3), ("mseed2to3", None, 2)])
        good = one3 if form == 3 else one2
        n = rng.choice([1, 2, 4])
        if form == 3:
            recs = [b for _m, b in ehtool.models(rng, n)]
            k = rng.randrange(len(recs))
            kind = rng.choice(["cut", "cut", "bit", "text after", "zeros after"])
            if kind == "cut":
                recs = recs[:k + 1]
                recs[k] = recs[k][:rng.randrange(1, len(recs[k]))]
            elif kind == "bit":
                b = bytearray(recs[k])
                b[rng.randrange(40, len(b))] ^= 1 << rng.randrange(8)
                recs[k] = bytes(b)
            elif kind == "text after":
                recs.append(rng.choice([b"x", b"\n", b"MS", b"this is not a record, is it? certainly it is not one"]))
            else:
                recs.append(bytes(rng.choice([1, 39, 40, 512])))
        else:
            recs = [one2(rng, 1) for _ in range(n)]
            k = rng.randrange(n)
            kind = "year"
            b = bytearray(recs[k])
            b[20:22] = rng.choice([b"\0\0", b"\xff\xff", b"  "])
            recs[k] = bytes(b)
        data = b"".join(recs)
        d.write("bad.ms", data)
        names = []
        if args is not None:
            names = [f"f{j}.ms" for j in range(rng.choice([0, 0, 1]))]
            for m in names:
                d.write(m, good(rng, 1))
            argv = args + (names + ["bad.ms"] if rng.random() < 0.5 else ["bad.ms"] + names)
        else:
            argv = ["-o", "out.ms", "bad.ms"] if tool == "mseed3merge" else ["-2", "bad.ms", "-3", "out.ms"]
        res = cli.run(tool, argv, d)
        what = f"{tool} {argv} ({kind} in {len(data)} bytes)"
        ctx.check(res.code != 0, f"{what}: success", res)
        ctx.check(res.err.strip(), f"{what}: fails without a word", res)
        ctx.check(d.read("bad.ms") == data, f"{what}: input changed")
    ctx.count("damaged inputs")
    ctx.count(f"damage {kind}")
    ctx.seen(tool, argv, data)


def outputs(rng, ctx):
    """output that cannot be written in full, or at all, is no success"""
    with cli.Dir() as d:
        tool = ["mseed3merge", "mseed2to3", "mseed3details"][rng.index % 3]
        # more than fits in a buffer, so that writing fails before the end too
        num = rng.choice([1, 2, 3, 60, 150])
        if rng.random() < 0.4:
            # or one record is
            data = large2(rng) if tool == "mseed2to3" else large3(rng)
            data += b"" if rng.random() < 0.5 else one2(rng) if tool == "mseed2to3" else one3(rng)
            ctx.count("large records")
        else:
            data = one2(rng, num) if tool == "mseed2to3" else one3(rng, num)
        d.write("in.ms", data)
        argv = {"mseed3merge": ["-o", "out.ms", "in.ms"], "mseed2to3": ["-2", "in.ms", "-3", "out.ms"],
                "mseed3details": ["--getall", "", "-o", "out.ms", "in.ms"]}[tool]
        res = cli.run(tool, argv, d)
        ctx.check(res.code == 0, f"{tool} {argv}", res)
        size = len(d.read("out.ms"))
        if size > 20000:
            ctx.count("large outputs")
        limit = None
        how = rng.choice(["full", "full", "full", "no folder", "folder"])
        if how == "full" and size:
            os.remove(d.file("out.ms"))
            limit = rng.choice([0, size - 1, rng.randrange(size)])
        elif how == "no folder":
            argv = [a if a != "out.ms" else "gone/out.ms" for a in argv]
        else:
            how = "folder"
            os.mkdir(d.file("sub"))
            argv = [a if a != "out.ms" else "sub" for a in argv]
        res = cli.run(tool, argv, d, limit_file=limit)
        what = f"{tool} {argv} ({how}, room for {limit} of {size})"
        # messages of the tool are limited too: judge the status
        ctx.check(res.code != 0, f"{what}: success", res)
        ctx.check(d.read("in.ms") == data, f"{what}: input changed")
    ctx.count("outputs that fail")
    ctx.count(f"output {how}")
    ctx.seen(tool, argv, limit, data)


def usage(rng, ctx):
    """requests that make no sense are refused, and no file is touched"""
    with cli.Dir() as d:
        d.write("a.ms", one3(rng, 2))
        d.write("b.ms", one2(rng, 2))
        before = {n: d.read(n) for n in d.listing()}
        bad = rng.choice(["(", "[", "*", "a{2,1}", "(?P<x", "\\"])
        tool, argv = rng.choice([
            ("mseed3details", ["--match", bad, "a.ms"]), ("mseed3details", ["--summary", "--match", bad, "a.ms"]),
            ("mseed3details", ["--match", bad, "--getall", "/a", "a.ms"]), ("mseed3details", ["--match", bad, "--setall", "/a", "1", "a.ms"]),
            ("mseed2details", ["--match", bad, "b.ms"]), ("mseed3details", ["--setall", "/a", rng.choice(["{", "x", "", "[1,", "nul", "'a'"]), "a.ms"]),
            ("mseed3details", ["--set", rng.choice(["a", "a/b", "/a~2"]), "1", "a.ms"]),
            ("mseed3details", ["--getall", rng.choice(["a", "a/b"]), "a.ms"]),
            ("mseed3details", []), ("mseed2details", []), ("mseed3merge", []), ("mseed3merge", ["a.ms"]), ("mseed2to3", []),
            ("mseed2to3", ["-2", "b.ms"]), ("mseed2to3", ["-3", "out.ms"]), (rng.choice(["mseed3details", "mseed2details", "mseed3merge", "mseed2to3"]), ["--nonsense"]),
            ("mseed3details", ["--setall", rng.choice(["", "/"]), rng.choice(["1", "[]", '"x"', "true"]), "a.ms"]),
        ])
        res = cli.run(tool, argv, d)
        what = f"{tool} {argv}"
        ctx.check(res.code != 0, f"{what}: success", res)
        ctx.check(res.err.strip(), f"{what}: fails without a word", res)
        left = {n: d.read(n) for n in d.listing() if n in before}
        ctx.check(left == before, f"{what}: files changed")
    ctx.count("requests refused")
    ctx.seen(tool, argv, before["a.ms"])


KINDS = [
    Kind("sources", sources, 6000, 250000, need=("failing sources", "records before a failure", "failure boundary", "failure end", "failure head")),
    Kind("absent", absent, 300, 10000, need=("inputs that cannot be opened",) + tuple(a for a in ABSENT)),
    Kind("damaged", damaged, 300, 10000, need=("damaged inputs", "damage cut", "damage bit", "damage year")),
    Kind("outputs", outputs, 240, 8000, need=("outputs that fail", "output full", "output no folder", "large outputs", "large records")),
    Kind("usage", usage, 200, 6000, need=("requests refused",)),
]
