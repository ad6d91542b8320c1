"""
Runner of the monitors: seeded cases in forked workers, event counters,
line reach of the code under test, verdicts, replay files and evidence.

A check is a module rv.checks.Cxx with
  KINDS  list of Kind: a workload with its oracle
  RULE   text for the evidence file
  LEVEL  exploration or fault_enumeration
"""
import concurrent.futures
import concurrent.futures.process
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "simplemseed")


class Violation(Exception):
    """The property does not hold in the observed execution."""


class Inconclusive(Exception):
    """The monitor could not decide (resources, time), neither held nor violated."""


class Kind:
    """One workload: fn(rng, ctx) runs the real code once and judges what it observed."""

    def __init__(self, name, fn, quick, thorough, need=(), exhaustive=False):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.need = need      # counters that must not be zero, else inconclusive
        self.exhaustive = exhaustive  # fn takes (index) as rng.index over a finite set


class Ctx:
    """What the monitors of one worker saw."""

    def __init__(self, known):
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.known_hits = {}
        self.known = known
        self.kind = None
        self.index = 0
        self.trivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *key):
        """Mark this case by what makes it distinct, only called for non trivial cases."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg + (": " + ", ".join(short(a) for a in args) if args else ""))

    def eq(self, got, want, msg):
        if not same(got, want):
            raise Violation(f"{msg}: got {short(got)}, want {short(want)}")

    def knownFinding(self, key):
        """True if the known findings file lists this mechanism, and note the hit."""
        if key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return True
        return False


def same(a, b):
    try:
        r = a == b
        if isinstance(r, bool):
            return r
        import numpy as np
        return bool(np.array_equal(a, b))
    except Exception:  # pylint: disable=broad-except
        return False


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:  # pylint: disable=broad-except
        s = f"<{type(x).__name__} repr fails: {e}>"
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def load_known(prop):
    """KNOWN-FINDING: property=<id> key=<mechanism> <text>"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                    parts = line.split()
                    key = [p[4:] for p in parts if p.startswith("key=")][0]
                    text = line.split(f"key={key}", 1)[1].strip()
                    out[key] = text
    return out


def case_rng(seed, kind, index):
    rng = random.Random(f"{seed}:{kind}:{index}")
    rng.index = index
    return rng


class Timeout(Exception):
    pass


def _alarm(_s, _f):
    raise Timeout()


def run_case(kind, seed, index, ctx, limit):
    """None if held, else dict describing violation, or ('inconclusive', text)"""
    ctx.kind = kind.name
    ctx.index = index
    rng = case_rng(seed, kind.name, index)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        kind.fn(rng, ctx)
        return None
    except Violation as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(kind=kind.name, seed=seed, index=index, error=str(e), where=_tb())
    except Inconclusive as e:
        return ("inconclusive", f"{kind.name} {index}: {e}")
    except (Timeout, MemoryError):
        # one generous limit per case: may be a hang, decided by a slower second run
        return ("timeout", f"{kind.name} {index}: no result within {limit} s")
    except Exception as e:  # pylint: disable=broad-except
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(kind=kind.name, seed=seed, index=index,
                    error=f"unexpected {type(e).__name__}: {e}", where=_tb())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _tb():
    return traceback.format_exc()[-3000:]


MAX_STEPS = 20_000_000  # lines of the code under test; the longest case takes far less than 1 million


class TooManySteps(BaseException):
    pass


def run_counted(kind, seed, index, known):
    """Run again, counting lines executed in the code under test, to tell a hang from a slow machine."""
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, "rvsteps")
    n = [0]

    def line(code, _n):
        if not code.co_filename.startswith(PKG):
            return mon.DISABLE
        n[0] += 1
        if n[0] > MAX_STEPS:
            raise TooManySteps()
        return None
    mon.register_callback(mon.PROFILER_ID, mon.events.LINE, line)
    mon.set_events(mon.PROFILER_ID, mon.events.LINE)
    try:
        r = run_case(kind, seed, index, Ctx(known), 300)
        return r
    except TooManySteps:
        return dict(kind=kind.name, seed=seed, index=index, where="",
                    error=f"no result after {MAX_STEPS} lines of the library were executed, does not terminate")
    finally:
        mon.set_events(mon.PROFILER_ID, 0)
        mon.free_tool_id(mon.PROFILER_ID)


class Reach:
    """Lines of the code under test that the workload executed, by sys.monitoring."""

    def __init__(self):
        self.lines = {}

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, "rv")

        def line(code, n):
            if code.co_filename.startswith(PKG):
                self.lines.setdefault(os.path.basename(code.co_filename), set()).add(n)
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def stop(self):
        if sys.monitoring.get_tool(sys.monitoring.COVERAGE_ID) != "rv":
            return
        sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
        sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)


REACH = Reach()


def _worker_init():
    """once in each forked worker"""
    REACH.start()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _worker(args):
    modname, seed, chunks, limit, known, stop_at = args
    mod = importlib.import_module(modname)
    kinds = {k.name: k for k in mod.KINDS}
    ctx = Ctx(known)
    bad, inc, cut, done = [], [], [], {}
    for name, lo, hi in chunks:
        for i in range(lo, hi):
            if time.time() > stop_at:
                cut.append(f"{name}: time budget used up at case {i}")
                break
            r = run_case(kinds[name], seed, i, ctx, limit)
            done[name] = done.get(name, 0) + 1
            if isinstance(r, dict):
                bad.append(r)
                if len(bad) >= 3:
                    break
            elif r is not None:
                inc.append(r)
                if r[0] == "timeout" or len(inc) >= 3:
                    break
        if len(bad) >= 3:
            break
    return dict(counts=ctx.counts, distinct=ctx.distinct, samples=ctx.samples,
                known=ctx.known_hits, bad=bad, inc=inc, slow=cut, done=done,
                lines={k: sorted(v) for k, v in REACH.lines.items()})


def executable_lines(path):
    """Line numbers that can execute, from the code objects."""
    with open(path, "rb") as f:
        top = compile(f.read(), path, "exec")
    out, todo = set(), [top]
    while todo:
        c = todo.pop()
        out.update(n for _a, _b, n in c.co_lines() if n)
        todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
    return out


def setup():
    sys.path.insert(0, SRC)
    # local time zone must not matter, so use an unusual one
    os.environ["TZ"] = "RVX-5:45"
    time.tzset()
    warnings.simplefilter("ignore")
    import simplemseed
    if not os.path.abspath(simplemseed.__file__).startswith(PKG):
        print(f"wrong simplemseed imported: {simplemseed.__file__}")
        sys.exit(3)


def run(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    setup()
    modname = f"rv.checks.{prop}"
    mod = importlib.import_module(modname)
    known = load_known(prop)
    if replay:
        return do_replay(mod, prop, replay, known)
    scale = float(os.environ.get("RV_SCALE", "1"))
    nproc = min(8, os.cpu_count() or 1)
    limit = 120 if tier == "quick" else 300
    budget = 600 if tier == "quick" else 3 * 3600
    plan = {}
    for k in mod.KINDS:
        n = k.quick if tier == "quick" else k.thorough
        plan[k.name] = n if k.exhaustive else max(1, int(n * scale))
    chunks = []
    for name, n in plan.items():
        size = max(1, min(n // (nproc * 4) or 1, 2000))
        chunks += [(name, lo, min(lo + size, n)) for lo in range(0, n, size)]
    # all kinds side by side, so that each is seen if time is short
    chunks.sort(key=lambda c: (c[1] / plan[c[0]]))
    stop_at = t0 + budget
    tasks = [(modname, seed, [c], limit, known, stop_at) for c in chunks]
    agg = dict(counts={}, distinct=set(), samples=[], known={}, bad=[], inc=[], slow=[], done={}, lines={})
    sys.stdout.flush()
    pool = concurrent.futures.ProcessPoolExecutor(
        nproc, mp_context=multiprocessing.get_context("fork"), initializer=_worker_init)
    futures = [pool.submit(_worker_quiet, t) for t in tasks]
    try:
        for fut in concurrent.futures.as_completed(futures):
            r = fut.result()
            for part in ("counts", "known", "done"):
                for k, v in r[part].items():
                    agg[part][k] = agg[part].get(k, 0) + v
            for k, v in r["lines"].items():
                agg["lines"].setdefault(k, set()).update(v)
            agg["distinct"] |= r["distinct"]
            agg["samples"] += r["samples"]
            agg["bad"] += r["bad"]
            agg["inc"] += r["inc"]
            agg["slow"] += r["slow"]
            if len(agg["bad"]) >= 6 or len([i for i in agg["inc"] if i[0] == "timeout"]) >= 2:
                break
    except concurrent.futures.process.BrokenProcessPool:
        agg["inc"].append("a worker process died")
    pool.shutdown(wait=True, cancel_futures=True)
    # a case that ran into its time limit: decided by counting steps, not time
    for inc in [i for i in agg["inc"] if isinstance(i, tuple) and i[0] == "timeout"][:2]:
        if not agg["bad"]:
            name, idx = inc[1].split(":")[0].rsplit(" ", 1)
            kind = [k for k in mod.KINDS if k.name == name][0]
            r = run_counted(kind, seed, int(idx), known)
            if isinstance(r, dict):
                agg["bad"].append(r)
            elif r is None:
                # only slow
                agg["inc"].remove(inc)
                agg["slow"].append(inc[1])
    needs = [(k.name, c) for k in mod.KINDS for c in k.need if agg["counts"].get(c, 0) == 0]
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={prop} key={key} {text} (seen {agg['known'].get(key, 0)} times)")
    evaluations = sum(agg["done"].values())
    reach = {}
    for f in getattr(mod, "FILES", []):
        path = os.path.join(PKG, f)
        if os.path.exists(path):
            ex = executable_lines(path)
            reach[f] = f"{len(ex & agg['lines'].get(f, set()))} of {len(ex)}"
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(agg["distinct"]),
            rule=mod.RULE,
            samples=agg["samples"][:6] or ["none"],
            cases=agg["done"],
            observed=dict(sorted(agg["counts"].items())),
            lines_reached=reach,
            inconclusive=[str(i) for i in agg["inc"][:5]],
            cut_short=agg["slow"][:5],
            known_findings_seen=agg["known"],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(agg["bad"]),
    )
    if not os.environ.get("RV_NO_EVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
    print(f"{prop} {tier} seed {seed}: {evaluations} cases, {len(agg['distinct'])} distinct, "
          f"{sum(agg['counts'].values())} events, {time.time() - t0:.1f} s")
    for k, v in sorted(agg["counts"].items()):
        print(f"   {k}: {v}")
    if agg["bad"]:
        agg["bad"].sort(key=lambda b: (b["kind"], b["index"]))
        path = None
        for b in agg["bad"][:3]:
            p = save_replay(prop, b)
            path = path or p
            print(f"   {b['kind']} case {b['index']}: {b['error'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if agg["inc"] or needs:
        for i in agg["inc"][:5]:
            print(f"INCONCLUSIVE {i}")
        for name, c in needs:
            print(f"INCONCLUSIVE {name}: monitor never observed '{c}'")
        return 2
    return 0


def _worker_quiet(args):
    # what the code under test prints is not part of the verdict here
    sys.stdout.flush()
    with open(os.devnull, "w", encoding="utf-8") as null:
        old = sys.stdout
        sys.stdout = null
        try:
            return _worker(args)
        finally:
            sys.stdout = old


def save_replay(prop, b):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{b['kind']}-{b['seed']}-{b['index']}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(dict(property=prop, **b), f, indent=1)
    return path


def do_replay(mod, prop, path, known):
    with open(path, encoding="utf-8") as f:
        b = json.load(f)
    kind = [k for k in mod.KINDS if k.name == b["kind"]][0]
    r = run_case(kind, b["seed"], b["index"], Ctx(known), 30)
    if isinstance(r, tuple) and r[0] == "timeout":
        r = run_counted(kind, b["seed"], b["index"], known)
    if isinstance(r, dict):
        print(r["error"])
        print(r["where"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("held" if r is None else str(r))
    return 0 if r is None else 2
