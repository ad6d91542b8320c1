"""Commands that work on one file at the same time see and leave whole versions of it"""
import io
import json
import os
import random
import signal
import sys
import traceback

from .. import cli, core, ref
from ..core import Kind

LEVEL = "exploration"
FILES = ["mseed3details.py", "mseed3.py", "mseed3merge.py"]
RULE = "a case is one distinct set of files and commands with the order in which their steps came; counted with every result of every command judged"
ASSUMPTIONS = ["a step is a number of lines of the library or an operation on a file; writes of one process are seen by others as the kernel does them"]

POINTS = {"open", "os.rename", "os.replace", "os.remove", "os.unlink", "shutil.copymode", "shutil.copystat", "shutil.move", "shutil.copyfile", "os.chmod", "os.link",
          "os.truncate", "os.symlink", "fcntl.flock", "fcntl.lockf", "fcntl.fcntl"}


class Gate:
    """in the process: goes on for as many steps as it was given, then asks for more"""

    def __init__(self, given, asked):
        self.given, self.asked, self.left = given, asked, 0

    def step(self, _code=None, _where=None):
        if _code is not None and not _code.co_filename.startswith(core.PKG):
            return sys.monitoring.DISABLE
        self.left -= 1
        if self.left <= 0:
            self.wait()
        return None

    def wait(self, word=b"p"):
        os.write(self.asked, word)
        b = os.read(self.given, 4)
        if len(b) < 4:
            os._exit(98)
        self.left = int.from_bytes(b, "little")


class Proc:
    """a process that works in steps"""

    def __init__(self, d, name, fn, clock):
        self.d, self.name, self.start, self.end, self.killed, self.code = d, name, None, None, False, None
        self.outp, self.errp = os.path.join(d.path, f"out{name}"), os.path.join(d.path, f"err{name}")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.child(fn, Gate(r1, w2), clock)
            finally:
                os._exit(97)
        os.close(r1)
        os.close(w2)
        self.give, self.ask = w1, r2
        os.read(self.ask, 1)

    def child(self, fn, gate, clock):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        for f in [int(x) for x in os.listdir("/proc/self/fd")]:
            # pipes of the others, so that each sees the end of its own
            if f > 2 and f not in (gate.given, gate.asked):
                try:
                    os.close(f)
                except OSError:
                    pass
        os.chdir(self.d.work)
        code = 0
        with open(self.outp, "w", encoding="utf-8") as out, open(self.errp, "w", encoding="utf-8") as err:
            sys.stdout, sys.stderr = out, err
            if clock:
                clock()
            mon = sys.monitoring
            gate.wait()
            mon.use_tool_id(mon.DEBUGGER_ID, "rvgate")
            mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, gate.step)
            sys.addaudithook(lambda event, _args: gate.step() if event in POINTS else None)
            mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
            try:
                fn()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 1
            mon.set_events(mon.DEBUGGER_ID, 0)
            gate.left = 1 << 60
            out.flush()
        os._exit(code)

    def go(self, now, n):
        """n steps; True if there are more to come"""
        if self.start is None:
            self.start = now
        os.write(self.give, n.to_bytes(4, "little"))
        if os.read(self.ask, 1):
            return True
        self.finish(now)
        return False

    def finish(self, now):
        self.end = now
        self.code = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
        os.close(self.give)
        os.close(self.ask)

    def kill(self, now):
        if self.end is None:
            if self.start is None:
                self.start = now
            os.kill(self.pid, signal.SIGKILL)
            self.killed = True
            self.finish(now)

    def out(self):
        with open(self.outp, encoding="utf-8") as f:
            return f.read()

    def err(self):
        with open(self.errp, encoding="utf-8", errors="replace") as f:
            return f.read()[-1200:]


def coarse():
    """a clock that stands still for as long as the process takes"""
    import datetime
    import time

    class Still(datetime.datetime):
        @classmethod
        def utcnow(cls):
            return datetime.datetime(2024, 5, 6, 7, 8, 9)

        @classmethod
        def now(cls, tz=None):
            return datetime.datetime(2024, 5, 6, 7, 8, 9, tzinfo=tz)
    for name in ("mseed3details",):
        m = sys.modules[f"simplemseed.{name}"]
        if getattr(m, "datetime", None) is datetime.datetime:
            m.datetime = Still
    time.time = lambda: 1714979289.0
    time.time_ns = lambda: 1714979289000000000


def schedule(rng, procs, kill):
    """lets the processes go on in some order; the order"""
    live = list(procs)
    now, order = 0, []
    scale = rng.choice([[1, 2, 5], [5, 20, 60], [10, 40, 200, 1000], [100, 400]])
    ranks = list(range(len(procs)))
    rng.shuffle(ranks)
    rank = dict(zip(procs, ranks))
    byrank = rng.random() < 0.5
    dies = {p: rng.randint(1, 60) for p in procs if kill and p.name.startswith("w") and rng.random() < 0.4}
    turns = {p: 0 for p in procs}
    while live:
        now += 1
        if byrank:
            if rng.random() < 0.04:
                rank[rng.choice(live)] = -now  # now the last
            p = max(live, key=lambda q: rank[q])
        else:
            p = rng.choice(live)
        turns[p] += 1
        if dies.get(p) == turns[p]:
            p.kill(now)
            live.remove(p)
        elif not p.go(now, rng.choice(scale)):
            live.remove(p)
        order.append(p.name)
    return order


def content(rng, n, size):
    """bytes of a file of n records, and of each what is not its extra headers"""
    import numpy as np
    import simplemseed as s
    recs = []
    for i in range(n):
        h = s.MSeed3Header()
        h.starttime = f"2024-01-01T00:00:{i:02d}Z"
        h.sampleRatePeriod = 1 + i
        h.publicationVersion = rng.randint(0, 200)
        arr = np.array([rng.randint(-30000, 30000) for _ in range(size)], dtype="i4")
        recs.append(bytes(s.MSeed3Record(h, f"FDSN:CO_R{i}_00_H_H_Z", arr, {"v": 0, "i": i}).pack()))
    return b"".join(recs)


def versions_of(ctx, data, old, what):
    """extra headers of the records of a file that is whole"""
    try:
        recs = ref.ms3_split(data)
    except ref.RefError as e:
        ctx.check(False, f"{what}: not whole records", e)
    was = ref.ms3_split(old)
    ctx.eq(len(recs), len(was), f"{what}: number of records")
    out = []
    for i, (r, w) in enumerate(zip(recs, was)):
        for k in w:
            if k not in ("crc", "ehbytes", "eh", "ehl", "size", "bytes"):
                ctx.check(r[k] == w[k], f"{what}: record {i}, {k}", r[k], w[k])
        eh = r["eh"]
        ctx.eq(eh.get("i"), i, f"{what}: record {i}, order")
        out.append(eh)
    return out


def linear(ops, first):
    """is there an order of writes and reads of one value, each between its start and end, in which each read gives what was written last?
    ops: (start, end, kind, value, sure); one that is not sure may also not have happened"""
    def search(left, value, seen):
        if not any(o[4] for o in left):
            return True
        key = (frozenset(map(id, left)), value)
        if key in seen:
            return False
        seen.add(key)
        limit = min(o[1] for o in left if o[4])
        for o in left:
            if o[0] > limit and o[4]:
                continue
            rest = [x for x in left if x is not o]
            # nothing that ended before this one started may be left
            if any(x[4] and x[1] < o[0] for x in rest):
                continue
            if o[2] == "read":
                if o[3] == value and search(rest, value, seen):
                    return True
            elif search(rest, o[3], seen):
                return True
        return False
    return search(ops, first, set())


def tool(name, argv):
    import importlib
    mod = importlib.import_module(f"simplemseed.{name}")

    def fn():
        sys.argv = [name, *argv]
        r = mod.main()
        if r:
            sys.exit(r)
    return fn


def walk(path):
    """the library reading a file, what comes is written out record by record"""
    def fn():
        import simplemseed as s
        with open(path, "rb") as f:
            for r in s.readMSeed3Records(f):
                print(json.dumps([len(r.decompress()), r.eh]))
    return fn


def scene(rng, ctx):
    """writers and readers of a file, and of another one next to it"""
    import importlib
    import argparse  # noqa  pylint: disable=unused-import
    for m in ("mseed3details", "mseed3merge"):
        importlib.import_module(f"simplemseed.{m}")
    n = rng.choice([1, 2, 3, 6])
    size = rng.choice([3, 50, 3000])
    old, old2 = content(rng, n, size), content(rng, 2, 5)
    nw, nr = rng.choice([(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 0)])
    way = rng.choice(["all", "all", "all", "first", "whole"])
    kill = rng.random() < 0.25
    still = rng.random() < 0.4
    with cli.Dir() as d:
        d.write("a.ms3", old, rng.choice([0o644, 0o640, 0o600]))
        d.write("b.ms3", old2)
        d.write("other.txt", "not touched")
        mode = os.stat(d.file("a.ms3")).st_mode
        procs = []
        clock = coarse if still else None
        values = {}
        for k in range(1, nw + 1):
            # records of different lengths
            v = values[f"w{k}"] = k * 10 ** rng.choice([0, 0, 1, 5, 40])
            name = rng.choice(["a.ms3", "a.ms3", "./a.ms3", d.file("a.ms3")])
            if way == "all":
                args = ["--setall", "/v", str(v), name]
            elif way == "first":
                args = ["--set", "/v", str(v), name]
            else:
                # all headers of the first record
                args = ["--set", "/", json.dumps({"i": 0, "v": v}), name]
            procs.append(Proc(d, f"w{k}", tool("mseed3details", args), clock))
        if rng.random() < 0.4:
            procs.append(Proc(d, "other", tool("mseed3details", ["--setall", "/v", "9", "b.ms3"]), clock))
        for k in range(nr):
            kind = rng.choice(["getall", "walk", "merge", "list"])
            if kind == "getall":
                fn = tool("mseed3details", ["--getall", "/v", "a.ms3"])
            elif kind == "walk":
                fn = walk("a.ms3")
            elif kind == "merge":
                fn = tool("mseed3merge", ["-o", f"../merged{k}", "a.ms3"])
            else:
                fn = tool("mseed3details", ["--eh", "a.ms3"])
            procs.append(Proc(d, f"r{k}{kind}", fn, clock))
        try:
            order = schedule(rng, procs, kill)
        finally:
            for p in procs:
                p.kill(0)
        killed = [p for p in procs if p.killed]
        story = f"{nw} writers ({way}), order {' '.join(order)[:600]}"
        ops = []
        for p in procs:
            if p.killed:
                continue
            ctx.check(p.code == 0, f"command {p.name} fails next to others; {story}", p.code, p.err())
        for p in procs:
            if p.name.startswith("w"):
                ops.append((p.start, p.end if not p.killed else 1 << 60, "write", values[p.name], not p.killed))
            elif p.name.startswith("r"):
                ops.append((p.start, p.end, "read", seen_by(ctx, p, d, n, size, old, way, story), True))
                ctx.count("reads judged")
        last = len(order) + 1
        vs = [e.get("v") for e in versions_of(ctx, d.read("a.ms3"), old, f"file afterwards; {story}")]
        ops.append((last, last, "read", one_version(ctx, vs, way, f"file afterwards; {story}"), True))
        ctx.check(linear(ops, 0), f"no order of the commands explains what was seen; {story}", ops)
        two = versions_of(ctx, d.read("b.ms3"), old2, f"other file; {story}")
        want = 9 if any(p.name == "other" for p in procs) else 0
        ctx.eq([e["v"] for e in two], [want] * 2, f"other file; {story}")
        ctx.eq(d.read("other.txt"), b"not touched", f"a file no command names; {story}")
        if not killed:
            ctx.eq(d.listing(), ["a.ms3", "b.ms3", "other.txt"], f"files left; {story}")
            ctx.eq(os.stat(d.file("a.ms3")).st_mode, mode, f"mode of the file; {story}")
        ctx.count("writers", nw)
        ctx.count("writers killed", len(killed))
        ctx.count("turns", len(order))
        if still:
            ctx.count("clock stood still")
        over = sum(1 for a in procs for b in procs if a.name < b.name and a.start < b.end and b.start < a.end)
        ctx.count("pairs at the same time", over)
        if over:
            ctx.seen(way, n, size, still, tuple(order))
        ctx.sample(story)


def one_version(ctx, vs, way, what):
    """the value that a version of the file has"""
    if way == "all":
        ctx.check(len(set(vs)) == 1, f"{what}: records of different versions", vs)
    else:
        ctx.check(all(v == 0 for v in vs[1:]), f"{what}: records after the first have changed", vs)
    return vs[0]


def seen_by(ctx, p, d, n, size, old, way, story):
    """the version a reader saw"""
    what = f"{p.name} sees; {story}"
    out = p.out()
    if p.name.endswith("merge"):
        with open(os.path.join(d.path, f"merged{p.name[1]}"), "rb") as f:
            vs = [e.get("v") for e in versions_of(ctx, f.read(), old, what)]
    elif p.name.endswith("getall"):
        vs = [json.loads(line) for line in out.split()]
    elif p.name.endswith("walk"):
        got = [json.loads(line) for line in out.splitlines()]
        ctx.eq([g[0] for g in got], [size] * len(got), f"{what}: samples")
        vs = [g[1]["v"] for g in got]
    else:
        vs = [int(line.split(":")[1].strip().rstrip(",")) for line in out.splitlines() if line.strip().startswith('"v":')]
        ctx.check(f"Total {n * size} samples in {n} records" in out, f"{what}: total", out[-100:])
    ctx.eq(len(vs), n, f"{what}: number of records")
    return one_version(ctx, vs, way, what)


KINDS = [Kind("scene", scene, 1800, 40000, need=("reads judged", "writers", "writers killed", "clock stood still", "pairs at the same time"))]
