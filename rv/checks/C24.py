"""A failed or killed extra header rewrite never damages the file"""
import json
import os
import random

from ..core import Kind
from .. import cli, ehtool, gen, ref

LEVEL = "fault_enumeration"
FILES = ["mseed3details.py", "mseed3.py"]
RULE = "a case is one distinct set of files and command with its points of death or faults; counted with each point at which it was stopped"
ASSUMPTIONS = ["death of the process and failing operations, not loss of power: what was written before a rename is assumed to be kept"]


class Scene:
    """files, a command that has to set something in them, and the two contents that each file may have"""

    def __init__(self, rng, sizes=None, verbose=None):
        while True:
            sizes_ = sizes or [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))]
            self.files = [ehtool.models(rng, n) for n in sizes_]
            self.pat = rng.choice([None, None, "CO", "BIRD", "Z$"])
            self.setall = rng.random() < 0.6
            self.ptr = rng.choice(["/new", "/FDSN", "/data", "", "/", "/bag/y"])
            self.val, self.text = ehtool.value(rng)
            if rng.random() < 0.3:
                self.val = {"long": "x" * rng.choice([100, 5000, 20000])}
                self.text = json.dumps(self.val)
            if len(self.ptr) < 2 and not isinstance(self.val, dict):
                continue
            self.want, self.fails = ehtool.expected(self.files, self.ptr, self.val, self.pat, self.setall)
            if self.fails is None and any(self.want):
                break
        self.names = [f"f{i}.ms3" for i in range(len(self.files))]
        self.old = [b"".join(b for _m, b in f) for f in self.files]
        self.args = ["--setall" if self.setall else "--set", self.ptr, self.text]
        if self.pat:
            self.args += ["--match", self.pat]
        if verbose if verbose is not None else rng.random() < 0.2:
            self.args.append("-v")
        way = rng.choice(["", "", "./", "../w/", ".//"])
        self.args += [way + n for n in self.names]
        # how the name leads to the content
        self.kinds = [rng.choice(["file", "file", "hard link", "symbolic link", "read only"]) for _n in self.names]
        self.others = {i: f"other{i}.ms3" for i, k in enumerate(self.kinds) if k.endswith("link")}

    def fresh(self, d):
        for n in d.listing():
            os.remove(d.file(n))
        for i, (n, b) in enumerate(zip(self.names, self.old)):
            if self.kinds[i] == "symbolic link":
                d.write(self.others[i], b)
                os.symlink(self.others[i], d.file(n))
                continue
            d.write(n, b, 0o444 if self.kinds[i] == "read only" else None)
            if self.kinds[i] == "hard link":
                os.link(d.file(n), d.file(self.others[i]))
        d.write("bystander.ms3", b"not touched")

    def complete(self, ctx, d, what):
        for n, f, w in zip(self.names, self.files, self.want):
            ehtool.judge_file(ctx, d.read(n), f, w, f"{what}: {n}")

    def baseline(self, ctx, d):
        """what an undisturbed command gives"""
        self.fresh(d)
        res = cli.run("mseed3details", self.args, d, apart=True)
        ctx.check(res.code == 0, "undisturbed command fails", self.args[:3], res)
        self.complete(ctx, d, "undisturbed")
        self.new = [d.read(n) for n in self.names]
        ctx.check(sorted(d.listing()) == sorted(self.names + list(self.others.values()) + ["bystander.ms3"]), "undisturbed: files left", d.listing())

    def judge(self, ctx, d, what, extra=True):
        """each file is old or new; number of them that are new"""
        done = 0
        for n, old, new in zip(self.names, self.old, self.new):
            if not os.path.exists(d.file(n)):
                ctx.check(False, f"{what}: {n} is gone")
            data = d.read(n)
            ctx.check(data in (old, new), f"{what}: {n} is neither old nor new: {len(data)} bytes, old {len(old)}, new {len(new)}", data[:80])
            done += data == new and old != new
            ctx.count("faults with a " + self.kinds[self.names.index(n)])
        for i, n in self.others.items():
            data = d.read(n)
            ctx.check(data in (self.old[i], self.new[i]), f"{what}: {self.kinds[i]} {n} is neither old nor new", data[:80])
        ctx.eq(d.read("bystander.ms3"), b"not touched", f"{what}: other file")
        left = set(d.listing()) - set(self.names) - {"bystander.ms3"} - set(self.others.values())
        if extra:
            ctx.check(len(left) <= 1, f"{what}: more than one temporary file at a time", sorted(left))
        ctx.count("files old after the fault", len(self.names) - done)
        ctx.count("files new after the fault", done)
        return done

    def again(self, ctx, d, what):
        res = cli.run("mseed3details", self.args, d, apart=True)
        ctx.check(res.code == 0, f"{what}: command fails when run again", res)
        self.complete(ctx, d, f"{what}, run again")
        for n, new in zip(self.names, self.new):
            ctx.eq(d.read(n), new, f"{what}, run again: {n}")
        ctx.count("run again")


def total_events(scene, d, ctx, trace):
    scene.fresh(d)
    res = cli.run("mseed3details", scene.args, d, apart=True, trace=trace)
    ctx.check(res.code == 0, "traced command fails", res)
    return res.events


def die_at(rng, ctx, scene, d, trace, at, action, again):
    scene.fresh(d)
    res = cli.run("mseed3details", scene.args, d, apart=True, trace=trace, at=at, action=action)
    what = f"{action} at {trace} event {at} of {scene.args[:3]!r:.100}"
    ctx.count(f"{action} at {trace}")
    if action == "die":
        ctx.eq(res.code, cli.DIED, f"{what}: exit")
    if action == "sigkill":
        ctx.eq(res.code, -9, f"{what}: exit")
    scene.judge(ctx, d, what)
    if again:
        scene.again(ctx, d, what)


def points(rng, ctx):
    """every bytecode instruction of the command's own code, one scene per index"""
    with cli.Dir() as d:
        scene = Scene(rng, sizes=[[1], [2], [1, 1], [3]][rng.index % 4], verbose=rng.index % 8 >= 6)
        scene.baseline(ctx, d)
        n = total_events(scene, d, ctx, "opcodes")
        # argument parsing is the same for all, so is skipped over quickly
        first = rng.randrange(1, 12)
        for at in range(first, n + 1, 3 if n > 900 else 2 if n > 450 else 1):
            die_at(rng, ctx, scene, d, "opcodes", at, "die", at % 25 == 0)
        ctx.count("instructions in scenes", n)
        ctx.seen("points", scene.args, scene.old)
        ctx.sample(f"{scene.args!r:.120}: {n} instructions")


def every(rng, ctx):
    """one slice of all instructions of one scene, without gaps"""
    scene_rng = random.Random(f"every {rng.index // 16}")
    with cli.Dir() as d:
        scene = Scene(scene_rng, sizes=[[2], [1, 1], [1], [3]][rng.index // 16 % 4], verbose=False)
        scene.baseline(ctx, d)
        n = total_events(scene, d, ctx, "opcodes")
        for at in range(1 + rng.index % 16, n + 1, 16):
            die_at(rng, ctx, scene, d, "opcodes", at, "die", at % 50 == 0)
            ctx.count("all instructions")
        ctx.seen("every", rng.index)


def death(rng, ctx):
    """any line of the library, dying, killed or interrupted there"""
    with cli.Dir() as d:
        scene = Scene(rng)
        scene.baseline(ctx, d)
        trace = rng.choice(["lines", "lines", "opcodes"])
        n = total_events(scene, d, ctx, trace)
        for k in range(6):
            at = n - rng.randint(0, min(40, n - 1)) if rng.random() < 0.4 else rng.randint(1, n)
            die_at(rng, ctx, scene, d, trace, at, rng.choice(["die", "interrupt", "interrupt", "sigkill"]), k == 0)
        ctx.seen("death", scene.args, scene.old)


def disk_full(rng, ctx):
    """no file can grow beyond a limit"""
    with cli.Dir() as d:
        scene = Scene(rng)
        scene.baseline(ctx, d)
        big = max(map(len, scene.new + scene.old))
        for limit in {0, 1, big - 1, big, rng.randint(0, big), rng.randint(0, big), max(0, len(scene.files[0][0][1]) + rng.randint(-5, 5))}:
            scene.fresh(d)
            res = cli.run("mseed3details", scene.args, d, apart=True, limit_file=limit, stdout=os.devnull)
            what = f"files limited to {limit} of {big} bytes"
            done = scene.judge(ctx, d, what)
            if res.code == 0:
                scene.complete(ctx, d, f"{what}, exit status 0")
                ctx.check(limit >= min(map(len, scene.new)), f"{what}: success although new content does not fit", done)
                ctx.count("disk large enough")
            else:
                ctx.count("disk full")
            if rng.random() < 0.3:
                scene.again(ctx, d, what)
        ctx.seen("full", scene.args, scene.old)


def operations(rng, ctx):
    """each operation on the file system fails once, or the process dies before it"""
    with cli.Dir() as d:
        scene = Scene(rng)
        scene.baseline(ctx, d)
        scene.fresh(d)
        res = cli.run("mseed3details", scene.args, d, apart=True, audit=lambda *_a: None)
        ctx.check(res.code == 0, "audited command fails", res)
        n = len(res.events)
        ctx.check(n > 0, "no operation on the file system was seen")
        paths = {os.path.realpath(d.file(x)) for x in scene.names}
        for ev in res.events:
            ctx.count("operation " + ev[0])
            if ev[0] == "open" and any(c in ev[2] for c in "wax+"):
                p = os.path.realpath(os.path.join(d.work, ev[1]))
                ctx.check(p not in paths, "the file itself is opened for writing", ev)
                ctx.check(os.path.basename(p) != "bystander.ms3", "other file opened for writing", ev)
            if ev[0] in ("os.remove", "os.truncate"):
                ctx.check(os.path.realpath(os.path.join(d.work, ev[1])) not in paths, "the file itself is removed or truncated", ev)
        for at in range(1, n + 1):
            err = rng.choice([OSError(28, "No space left on device"), PermissionError(13, "Permission denied"), OSError(5, "Input/output error")])
            die = rng.random() < 0.4

            def fault(_event, _args, k, at=at, err=err, die=die):
                if k == at:
                    if die:
                        os._exit(cli.DIED)
                    raise err
            scene.fresh(d)
            res = cli.run("mseed3details", scene.args, d, apart=True, audit=fault)
            what = f"{'death before' if die else 'failure of'} operation {at} of {n}"
            scene.judge(ctx, d, what)
            if res.code == 0:
                scene.complete(ctx, d, f"{what}, exit status 0")
            ctx.count("died before operation" if die else "operation failed")
            if rng.random() < 0.3:
                scene.again(ctx, d, what)
        ctx.seen("operations", scene.args, scene.old)


def neighbours(rng, ctx):
    """files that happen to be named as the temporary file of an earlier command was"""
    with cli.Dir() as d:
        scene = Scene(rng)
        scene.baseline(ctx, d)
        scene.fresh(d)
        res = cli.run("mseed3details", scene.args, d, apart=True, audit=lambda *_a: None)
        ctx.check(res.code == 0, "audited command fails", res)
        mine = set(d.listing())
        made = set()
        for ev in res.events:
            if ev[0] == "open" and any(c in ev[2] for c in "wax+") or ev[0] == "os.rename":
                p = os.path.realpath(os.path.join(d.work, ev[1]))
                if os.path.dirname(p) == os.path.realpath(d.work) and os.path.basename(p) not in mine:
                    made.add(os.path.basename(p))
        ctx.count("temporary names", len(made))
        made |= {rng.choice(scene.names) + x for x in ("~", ".bak", ".tmp", "_tmp", ".new", ".orig")}
        scene.fresh(d)
        for k in sorted(made):
            d.write(k, b"other " + k.encode())
        res = cli.run("mseed3details", scene.args, d, apart=True)
        for k in sorted(made):
            ctx.check(os.path.exists(d.file(k)), f"other file {k} is gone")
            ctx.eq(d.read(k), b"other " + k.encode(), f"other file {k}")
            os.remove(d.file(k))
        scene.judge(ctx, d, "beside other files")
        if res.code == 0:
            scene.complete(ctx, d, "beside other files")
        ctx.count("beside other files")
        ctx.seen("neighbours", scene.args, scene.old)


BAD_JSON = ["{", "nope", "{'a': 1}", "[1,", "", "1 2", "{\"a\": }", "\"open", "tru"]
BAD_PTR = ["x", "a/b", "/a~2b", "/nope/deeper", "/bad~"]


def spoil(rng, recs):
    """file content that is invalid from some record on"""
    b = [x for _m, x in recs]
    k = rng.randrange(len(b))
    r = bytearray(b[k])
    how = rng.choice(["flip", "short", "magic", "version", "tail", "crc", "eh"])
    if how == "flip":
        at = rng.randrange(3, len(r))
        r[at] ^= 1 << rng.randrange(8)
        b[k] = bytes(r)
    elif how == "short":
        b[k] = bytes(r[: rng.randrange(1, len(r))])
        b = b[: k + 1]
    elif how == "magic":
        r[rng.randrange(2)] ^= 0x20
        b[k] = bytes(r)
    elif how == "version":
        r[2] = rng.choice([2, 4, 0, 255])
        b[k] = bytes(r)
    elif how == "tail":
        b.append(rng.choice([b"\0" * 64, b"MS", b"MS\3" + b"\xff" * 60, b"\n", b"garbage" * 10]))
    elif how == "crc":
        r[28 + rng.randrange(4)] ^= 0xFF
        b[k] = bytes(r)
    else:
        p = ref.ms3_parse(bytes(r))
        p["ehbytes"] = rng.choice([b"{", b"nope", b"\xff\xfe", b"{\"a\":}"])
        b[k] = ref.ms3_build(p)
    return how, b"".join(b)


def invalid(rng, ctx):
    """corrupt input, bad pointer or JSON, too much of it, missing files"""
    with cli.Dir() as d:
        scene = Scene(rng)
        scene.baseline(ctx, d)
        how = rng.choice(["input", "input", "input", "json", "pointer", "missing value file", "missing file", "too long", "bad pattern", "directory"])
        args = list(scene.args)
        bad = None
        if how == "input":
            bad = rng.randrange(len(scene.files))
            how, data = spoil(rng, scene.files[bad])
            scene.old[bad] = data
        elif how == "json":
            args[2] = rng.choice(BAD_JSON)
        elif how == "pointer":
            args[1] = rng.choice(BAD_PTR)
        elif how == "missing value file":
            args[0] = args[0].replace("--", "--f")
            args[2] = "not.there"
        elif how == "missing file":
            args.append("not-there.ms3")
        elif how == "directory":
            args.append(".")
        elif how == "too long":
            args[1], args[2] = "/new", json.dumps("x" * rng.choice([65530, 70000, 200000 if False else 100000]))
        elif how == "bad pattern":
            args += ["--match", "("]
        scene.fresh(d)
        res = cli.run("mseed3details", args, d, apart=True)
        what = f"invalid {how}"
        ctx.count(what)
        what += f" {args}"
        for i, (n, old, new) in enumerate(zip(scene.names, scene.old, scene.new)):
            ctx.check(os.path.exists(d.file(n)), f"{what}: {n} is gone")
            data = d.read(n)
            if bad is None:
                if how in ("missing file", "directory"):
                    ctx.check(data in (old, new), f"{what}: {n} is neither old nor new")
                else:
                    ctx.check(data == old, f"{what}: {n} is changed", res)
            elif i != bad:
                ctx.check(data in (old, new), f"{what}: {n} is neither old nor new")
            else:
                # not read up to the invalid place, or copied with it: still must have all of it
                ok = data == old or res.code == 0 and valid_tail(scene, i, data, old)
                ctx.check(ok, f"{what}: invalid {n} is changed, {len(old)} bytes before, {len(data)} after", res)
        ctx.eq(d.read("bystander.ms3"), b"not touched", f"{what}: other file")
        if how in ("json", "missing value file", "bad pattern", "too long"):
            ctx.check(res.code != 0, f"{what}: exit status", res)
        if bad is None and rng.random() < 0.3:
            scene.again(ctx, d, what)
        ctx.seen("invalid", how, args, scene.old)


def valid_tail(scene, i, data, old):
    """the command succeeded: the invalid part was no obstacle, and everything but the targets is kept with it"""
    before, rest = split(old)
    after, rest2 = split(data)
    if rest != rest2 or len(before) != len(after):
        return False
    looking = not any(x for x in scene.want[:i])
    for (idb, ehb, db), (ida, eha, da) in zip(before, after):
        target = ehtool.matches(scene.pat, {"identifier": idb.decode("utf-8", "replace")}) and (looking or scene.setall)
        if not target:
            if (idb, ehb, db) != (ida, eha, da):
                return False
            continue
        looking = False
        try:
            eh = json.loads(ehb) if ehb else {}
        except ValueError:
            eh = None
        if eh is None and len(scene.ptr) > 1:
            return False
        if (idb, db) != (ida, da) or not gen.jsame(json.loads(eha or b"{}"), ehtool.put(eh, scene.ptr, scene.val)):
            return False
    return True


def split(data):
    """(identifier, extra headers, payload) of complete records, and what remains"""
    out = []
    while len(data) >= 40 and data[:3] == b"MS\3":
        idl, ehl, dl = data[33], int.from_bytes(data[34:36], "little"), int.from_bytes(data[36:40], "little")
        size = 40 + idl + ehl + dl
        if len(data) < size:
            break
        out.append((data[40:40 + idl], data[40 + idl:40 + idl + ehl], data[40 + idl + ehl:size]))
        data = data[size:]
    return out, data


KINDS = [
    Kind("every", every, 16, 256, need=("all instructions",), exhaustive=True),
    Kind("points", points, 8, 400, need=("die at opcodes", "files old after the fault", "files new after the fault", "run again")),
    Kind("death", death, 160, 10000, need=("die at lines", "interrupt at lines", "sigkill at lines", "faults with a hard link", "faults with a symbolic link",
                                         "faults with a read only")),
    Kind("disk full", disk_full, 120, 6000, need=("disk full", "disk large enough")),
    Kind("operations", operations, 100, 5000, need=("died before operation", "operation failed")),
    Kind("neighbours", neighbours, 60, 3000, need=("temporary names", "beside other files")),
    Kind("invalid", invalid, 500, 30000, need=("invalid crc", "invalid short", "invalid tail", "invalid json", "invalid pointer", "invalid too long")),
]
