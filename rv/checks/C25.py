"""Getting extra headers reports exactly what is stored"""
import json
import os

from ..core import Kind
from .. import cli, ehtool, gen

LEVEL = "exploration"
FILES = ["mseed3details.py"]
RULE = "a case is one distinct set of files with pointer, pattern and option, run as the command and its output compared line by line"

NONE = object()


def expected(files, ptr, pat, getall):
    out = []
    for recs in files:
        for m, _b in recs:
            if ehtool.matches(pat, m):
                try:
                    v = ehtool.get(m["eh"], ptr)
                except ehtool.BadPointer:
                    v = NONE
                out.append((v, m))
                if not getall:
                    return out
    return out


def judge_lines(ctx, text, want, tofile, what):
    lines = text.split("\n")
    ctx.eq(lines[-1], "", f"{what}: output does not end with a line end")
    lines = lines[:-1]
    ctx.check(len(lines) == len(want), f"{what}: number of lines", len(lines), len(want), text)
    for ln, (v, m) in zip(lines, want):
        absent = ln == "" if tofile else "not found" in ln
        if v is NONE:
            ctx.check(absent, f"{what}: value for a pointer that addresses nothing", ln, m["eh"])
            ctx.count("not found")
            continue
        if v == {} and not m["eh"] and absent:
            continue  # record without extra headers, all of them asked for
        try:
            got = json.loads(ln)
        except ValueError:
            ctx.check(False, f"{what}: line is not JSON", ln, v)
        ctx.check(gen.jsame(got, v) and type(got) is type(v), f"{what}: value", got, v)
        ctx.count("values")


def case(rng, ctx):
    large = rng.choice([0] * 9 + [0.4])
    files = [ehtool.models(rng, rng.choice([1, 1, 2, 3, 5, 0]), large) for _ in range(rng.choice([1, 1, 2, 3]))]
    pat = rng.choice([None] * 6 + ehtool.PATTERNS)
    getall = rng.random() < 0.55
    hits = [m for f in files for m, _b in f if ehtool.matches(pat, m)]
    docs = [m["eh"] for m in (hits or [m for f in files for m, _b in f])]
    ptr = ehtool.pointer(rng, docs if getall else docs[:1])
    r = rng.random()
    if large and r < 0.6:
        ptr = rng.choice(["/long", "", "/long/a", "/long/a/b", "/long/a/b/0"])
    elif r < 0.4 and docs:
        ptr = ehtool.ptr_text(rng.choice([q for q in ehtool.paths(rng.choice(docs)) if q] or [()]))
    elif r < 0.7:
        ptr = rng.choice(["/FDSN/Time/Quality", "/list/1/a", "/list/-", "/list/9", "", "/bag/y/proc/0", "/list/0", "/FDSN"])
    want = expected(files, ptr, pat, getall)
    if any(v is not NONE and len(repr(v)) > 1 << 15 for v, _m in want):
        ctx.count("long values")
    with cli.Dir() as d:
        names = []
        for i, recs in enumerate(files):
            names.append(rng.choice(["a{}.ms3", "file {}", "é{}.ms3"]).format(i))
            d.write(names[-1], b"".join(b for _m, b in recs), rng.choice([0o644, 0o444]))
        times = {n: os.stat(d.file(n)) for n in names}
        args = ["--getall" if getall else "--get", ptr] + (["--match=" + pat] if pat is not None else [])
        dest = rng.choice(["stdout", "stdout", "file", "dash"])
        opt = []
        if dest == "file":
            opt = rng.choice([["-o", "out.json"], ["--outfile=out.json"]])
        elif dest == "dash":
            opt = ["-o", "-"]
        argv = rng.choice([opt + args + names, args + names + opt])
        encoding = rng.choice(["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "utf-16"])
        verbose = encoding == "utf-8" and rng.random() < 0.3
        ctx.count("standard output in " + encoding)
        if verbose:
            argv.append("--verbose")
        res = cli.run("mseed3details", argv, d, encoding=encoding)
        what = f"{argv}"
        ctx.check(res.code == 0, f"{what}: exit status", res)
        if dest == "file":
            text = d.read("out.json").decode("utf-8")
            judge_lines(ctx, text, want, True, what)
            if not verbose:
                ctx.eq(res.out, "", f"{what}: also on standard output")
            os.remove(d.file("out.json"))
        elif verbose:
            # lines of values are among the others
            lines = [ln for ln in res.out.split("\n") if ln.startswith("  ")]
            judge_lines(ctx, "".join(ln + "\n" for ln in lines), want, False, what)
            summaries = [ln for ln in res.out.split("\n") if ln.endswith("pts)")]
            ctx.eq(len(summaries), len(want), f"{what}: summaries")
            for ln, (_v, m) in zip(summaries, want):
                ctx.check(ln.startswith(m["identifier"]) and f"({m['numSamples']} pts)" in ln, f"{what}: summary", ln, m["identifier"])
        else:
            judge_lines(ctx, res.out, want, False, what)
        for n, recs in zip(names, files):
            ctx.check(d.read(n) == b"".join(b for _m, b in recs), f"{what}: file is changed")
            st = os.stat(d.file(n))
            ctx.check((st.st_ino, st.st_mtime_ns, st.st_mode) == (times[n].st_ino, times[n].st_mtime_ns, times[n].st_mode), f"{what}: file was written")
        ctx.eq(d.listing(), sorted(set(names)), f"{what}: files in the directory")
    ctx.count("getall" if getall else "get")
    ctx.count("to " + dest)
    ctx.count("with pattern" if pat is not None else "without pattern")
    if not want:
        ctx.count("nothing matches")
    if len(files) > 1 and len(want) > 1:
        ctx.count("several files")
    ctx.seen(argv, [[b for _m, b in f] for f in files])
    ctx.sample(f"{args} {dest}: {[len(f) for f in files]} records, {len(want)} lines")


KINDS = [
    Kind("command", case, 4000, 200000, need=("get", "getall", "to file", "to stdout", "to dash", "not found", "values", "nothing matches", "several files", "long values")),
]
