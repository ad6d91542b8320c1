"""Results do not depend on the environment or on what the application set"""
import os
import shutil
import subprocess
import sys

from .. import cli, core
from ..core import Inconclusive, Kind

LEVEL = "exploration"
FILES = ["mseed3.py", "miniseed.py", "mseed2to3.py", "seedcodec.py", "steim1.py", "steim2.py", "steimframeblock.py", "fdsnsourceid.py", "util.py",
         "mseed3merge.py", "mseed3details.py", "mseed2details.py"]
RULE = "a case is one distinct list of operations in one distinct environment; counted with the results that were compared"

# (environment variables, options of the interpreter, settings of the application)
VARIANTS = [
    ({"TZ": "Asia/Kathmandu"}, [], []), ({"TZ": "America/St_Johns"}, [], []), ({"TZ": "RVX-5:45"}, [], []), ({"TZ": "EST+5EDT,M3.2.0,M11.1.0"}, [], []),
    ({"TZ": None}, [], []), ({"PYTHONHASHSEED": "0"}, [], []), ({"PYTHONHASHSEED": "1"}, [], []), ({"PYTHONHASHSEED": "77"}, [], []),
    ({"PYTHONHASHSEED": "4294967295"}, [], []), ({}, ["-O"], []), ({}, ["-OO"], []), ({}, ["-X", "dev"], []), ({}, ["-I"], []), ({}, ["-s", "-E"], []),
    ({"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, [], []), ({"LC_ALL": "POSIX"}, [], []), ({"LC_ALL": "C.UTF-8"}, [], []),
    ({"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"}, [], []), ({"PYTHONUTF8": "1"}, [], []), ({"PYTHONIOENCODING": "latin-1"}, [], []),
    ({"COLUMNS": "20", "LINES": "5"}, [], []), ({"HOME": None, "USER": None, "TERM": None}, [], []), ({"PYTHONINTMAXSTRDIGITS": "640"}, [], []),
    ({}, [], ["seterr"]), ({}, [], ["seterr call"]), ({}, [], ["print"]), ({}, [], ["decimal"]), ({}, [], ["locale"]), ({}, [], ["gc"]), ({}, [], ["random"]),
    ({}, [], ["digits"]), ({}, [], ["recursion"]), ({}, [], ["switch"]), ({}, [], ["warnings"]), ({}, [], ["zone"]), ({}, [], ["closed"]),
    ({"RV_SHIFT": "-1600000000"}, [], []), ({"RV_SHIFT": "2000000000"}, [], []), ({"RV_SHIFT": "-86400", "TZ": "RVX+11"}, [], []),
    ({"PYTHONHASHSEED": "5", "TZ": "Pacific/Apia", "LC_ALL": "C"}, ["-O"], ["print", "decimal", "gc", "seterr"]),
]
NORMAL = {"TZ": "UTC", "PYTHONHASHSEED": "random", "LC_ALL": "C.UTF-8"}


def launch(env, options, names, seed):
    with cli.Dir() as d:
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("PYTHON", "LC_", "LANG", "TZ")):
                del e[k]
        e.update(NORMAL)
        for k, v in env.items():
            e.pop(k, None)
            if v is not None:
                e[k] = v
        if "RV_SHIFT" in e:
            lib = os.path.join(d.path, "shift.so")
            if not shutil.which("gcc") or subprocess.run(["gcc", "-shared", "-fPIC", "-o", lib, os.path.join(core.VERIF, "rv", "shift.c"), "-ldl"],
                                                         capture_output=True, timeout=60, check=False).returncode:
                raise Inconclusive("no library that shifts the clock could be built")
            e["LD_PRELOAD"] = lib
        # -I and -E take no notice of PYTHONPATH
        boot = f"import sys; sys.path[:0] = {[core.SRC, core.VERIF]!r}; sys.dont_write_bytecode = True; from rv import envjob; envjob.main()"
        try:
            p = subprocess.run([sys.executable, *options, "-B", "-c", boot, str(seed), d.work, *names], env=e, cwd=d.path,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, check=False)
        except subprocess.TimeoutExpired as t:
            raise Inconclusive("no result within 200 s") from t
        return p.returncode, p.stdout.decode("ascii", "replace").splitlines(), p.stderr.decode("utf-8", "replace")[-1500:]


def variants(rng, ctx):
    """the same operations as in an ordinary process, line by line"""
    env, options, names = VARIANTS[rng.index % len(VARIANTS)]
    seed = rng.randrange(10**9)
    code, want, err = launch({}, [], [], seed)
    ctx.check(code == 0, "operations in an ordinary process", code, err)
    what = f"env {env} options {options} set {names}"
    code, got, err = launch(env, options, names, seed)
    ctx.check(code == 0, f"{what}: exit status", code, err)
    for a, b in zip(want, got):
        ctx.check(a == b, f"{what}: another result", a, b)
        ctx.count("results compared")
    ctx.eq(len(got), len(want), f"{what}: number of results")
    ctx.count("refusals among them", sum(1 for a in want if "'refused: " in a))
    ctx.count("environments")
    ctx.seen(what, seed)
    ctx.sample(what)


KINDS = [Kind("variants", variants, 2 * len(VARIANTS), 30 * len(VARIANTS), need=("results compared", "environments", "refusals among them"))]
