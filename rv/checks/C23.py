"""Setting extra headers from the command line changes nothing else"""
import json
import os
import re
import stat

from ..core import Kind
from .. import cli, ehtool, gen

LEVEL = "exploration"
FILES = ["mseed3details.py", "mseed3.py"]
RULE = "a case is one distinct set of files with pointer, value, pattern and option, run as the command and compared record by record"


def case(rng, ctx):
    files = [ehtool.models(rng, rng.choice([1, 1, 2, 3, 5, 0])) for _ in range(rng.choice([1, 1, 2, 3]))]
    pat = rng.choice([None] * 6 + ehtool.PATTERNS)
    setall = rng.random() < 0.5
    targets = [m for f in files for m, _b in f if ehtool.matches(pat, m)]
    docs = [m["eh"] for m in (targets or [m for f in files for m, _b in f])]
    ptr = ehtool.pointer(rng, docs if setall else docs[:1])
    val, text = ehtool.value(rng)
    if rng.random() < 0.25:
        ptr = rng.choice(["", "/"])
    elif rng.random() < 0.4:
        ptr = rng.choice(["/new", "/FDSN", "/data"])
    notobject = False
    if ptr in ("", "/") and not isinstance(val, dict):
        # extra headers are an object, anything else cannot replace them; null, which removes them, is not judged
        notobject = val is not None and rng.random() < 0.5
        if not notobject:
            val = gen.jobject(rng, 2)
            text = json.dumps(val)
    if notobject:
        want, fails = None, 0
    else:
        want, fails = ehtool.expected(files, ptr, val, pat, setall)
    with cli.Dir() as d:
        names, modes = [], []
        for i, recs in enumerate(files):
            name = rng.choice(["a{}.ms3", "file {}.mseed3", "x{}", "é{}.ms3"]).format(i)
            mode = rng.choice([0o644, 0o600, 0o640, 0o444, 0o755])
            d.write(name, b"".join(b for _m, b in recs), mode)
            names.append(name)
            modes.append(mode)
        d.write("bystander.ms3", b"not touched")
        links = {}
        if rng.random() < 0.15:
            os.mkdir(d.file("sub"))
            i = rng.randrange(len(files))
            os.symlink(os.path.join("..", names[i]) if rng.random() < 0.5 else d.file(names[i]), d.file("sub/link"))
            links[i] = "sub/link"
            ctx.count("symbolic links")
        listing = d.listing()
        argnames = [links.get(i, n) if rng.random() < 0.7 else os.path.abspath(d.file(links.get(i, n))) for i, n in enumerate(names)]
        opt = "set" + ("all" if setall else "")
        if rng.random() < 0.35:
            opt = "f" + opt
            d.write("value.json", text)
            listing = d.listing()
            args = ["--" + opt, ptr, "value.json"]
        else:
            args = ["--" + opt, ptr, text]
        if pat is not None:
            args = (["--match=" + pat] + args) if rng.random() < 0.5 else args + ["--match=" + pat]
        if rng.random() < 0.3:
            args.append("-v")
        res = cli.run("mseed3details", args + argnames, d)
        what = f"{args} on {len(files)} files"
        if fails is None:
            ctx.check(res.code == 0, f"{what}: exit status", res)
            ctx.eq(d.listing(), listing, f"{what}: files in the directory")
        else:
            ctx.check(res.code != 0 or notobject and not targets, f"{what}: exits as if it had been done", res)
            ctx.count("not an object" if notobject else "pointers to nowhere")
        for i, (recs, name) in enumerate(zip(files, names)):
            data = d.read(name)
            if fails is not None and i >= fails:
                ctx.check(data == b"".join(b for _m, b in recs), f"{what}: file {i} changed although the command failed")
            else:
                ehtool.judge_file(ctx, data, recs, want[i], f"{what}: file {i}")
            ctx.eq(stat.S_IMODE(os.stat(d.file(name)).st_mode), modes[i], f"{what}: permissions of file {i}")
            ctx.check(not os.path.islink(d.file(name)), "file is a link now")
        for i, link in links.items():
            ctx.check(os.path.islink(d.file(link)), f"{what}: symbolic link was replaced")
        ctx.eq(d.read("bystander.ms3"), b"not touched", "other file")
        if fails is None and rng.random() < 0.2:
            # what was set can be got
            nt = len(targets)
            if nt and len(ptr) > 1 and not ptr.endswith("/-"):
                res = cli.run("mseed3details", ["--getall" if setall else "--get", ptr] + (["--match=" + pat] if pat is not None else []) + argnames, d)
                lines = res.out.split("\n")[:-1]
                ctx.eq(len(lines), nt if setall else 1, "values got back")
                for ln in lines:
                    ctx.check(gen.jsame(json.loads(ln), val), "value got back", ln, val)
                ctx.count("got back")
    n = sum(len(c) for c in want if c) if fails is None else 0
    ctx.count(opt)
    ctx.count("with pattern" if pat is not None else "without pattern")
    if ptr in ("", "/"):
        ctx.count("all replaced", n)
    if n == 0 and fails is None:
        ctx.count("nothing matches")
    ctx.seen(opt, ptr, text, pat, [[b for _m, b in f] for f in files])
    ctx.sample(f"{opt} {ptr!r} {text[:40]!r} match {pat!r}: {[len(f) for f in files]} records, {n} set")


def several(rng, ctx):
    """a history of commands on the same files"""
    files = [ehtool.models(rng, rng.choice([1, 2, 4])) for _ in range(rng.choice([1, 2]))]
    with cli.Dir() as d:
        names = [f"f{i}.ms3" for i in range(len(files))]
        for n, recs in zip(names, files):
            d.write(n, b"".join(b for _m, b in recs))
        for _ in range(rng.choice([2, 3, 5])):
            pat = rng.choice([None, None, "BIRD", "_Z$", "CO"])
            setall = rng.random() < 0.5
            docs = [m["eh"] for f in files for m, _b in f if ehtool.matches(pat, m)]
            ptr = ehtool.pointer(rng, docs if setall else docs[:1])
            val, text = ehtool.value(rng)
            if ptr in ("", "/"):
                ptr = "/again"
            want, fails = ehtool.expected(files, ptr, val, pat, setall)
            res = cli.run("mseed3details", ["--setall" if setall else "--set", ptr, text] + (["--match", pat] if pat else []) + names, d)
            ctx.check((res.code == 0) == (fails is None), "exit status", ptr, text, res)
            new = []
            for i, recs in enumerate(files):
                data = d.read(names[i])
                w = want[i] if fails is None or i < fails else None
                ehtool.judge_file(ctx, data, recs, w, f"step {ptr} {text} match {pat} file {i}")
                out, off = [], 0
                from .. import ref
                for k, r in enumerate(ref.ms3_split(data)):
                    m = dict(recs[k][0])
                    if w and k in w:
                        m["eh"] = w[k]
                    out.append((m, r["bytes"]))
                    off += r["size"]
                new.append(out)
            files = new
            ctx.count("steps")
    ctx.seen("history", [[b for _m, b in f] for f in files])


KINDS = [
    Kind("command", case, 2500, 100000, need=("records kept", "records set", "set", "setall", "fset", "fsetall", "all replaced", "pointers to nowhere", "not an object",
                                              "symbolic links", "nothing matches", "got back")),
    Kind("history", several, 300, 20000, need=("steps",)),
]
