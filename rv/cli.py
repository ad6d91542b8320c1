"""
Runs a command line tool's main() in a forked child: real argument parsing, real files,
separate standard output, and an exit that can be made to happen anywhere.
"""
import errno
import gc
import importlib
import io
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core


class Result:
    def __init__(self, code, out, err, events):
        self.code = code      # exit code, or minus the signal
        self.out = out
        self.err = err
        self.events = events  # number of trace events, or list of audit events

    def __repr__(self):
        return f"exit {self.code} out {self.out[:300]!r} err {self.err[-400:]!r}"


DIED = 77  # exit code of an injected death


class Dir:
    """scratch directory of one case"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=os.environ.get("RV_SCRATCH"))
        self.work = os.path.join(self.path, "w")
        os.mkdir(self.work)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name):
        return os.path.join(self.work, name)

    def write(self, name, data, mode=None):
        p = self.file(name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, (bytes, bytearray)) else data.encode("utf-8"))
        if mode is not None:
            os.chmod(p, mode)
        return p

    def read(self, name):
        with open(self.file(name), "rb") as f:
            return f.read()

    def listing(self):
        return sorted(os.listdir(self.work))


def tracer(kind, at, action):
    """count events of the code under test; at event number `at` do action()"""
    state = [0]
    prefix = core.PKG + os.sep
    only = os.path.join(core.PKG, "mseed3details.py")
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    what = mon.events.INSTRUCTION if kind == "opcodes" else mon.events.LINE

    def event(code, _where):
        name = code.co_filename
        if name != only if kind == "opcodes" else not name.startswith(prefix):
            return mon.DISABLE
        state[0] += 1
        if state[0] == at:
            action()
        return None
    mon.use_tool_id(tool, "rvtrace")
    mon.register_callback(tool, what, event)

    def on():
        mon.set_events(tool, what)

    def off():
        mon.set_events(tool, 0)
    return on, off, state


def run(tool, argv, d, trace=None, at=0, action=None, limit_file=None, audit=None, stdout=None, before=None, encoding="utf-8", apart=False):
    """
    tool: module name; d: Dir, the child's current directory is d.work
    trace: None, 'lines' or 'opcodes'; at that event action ('die', 'interrupt', 'sigkill')
    limit_file: maximum size of any file written, as of a full disk
    encoding: of standard output, as in another locale
    audit: function(event, args) called in the child before each operation, may raise
    apart: every directory is a file system of its own, none can be renamed into another
    """
    outp, errp, evp = (os.path.join(d.path, n) for n in ("out", "err", "ev"))
    sys.stdout.flush()
    importlib.import_module(f"simplemseed.{tool}")  # once, before the fork
    import argparse  # noqa  pylint: disable=unused-import,import-outside-toplevel
    import locale  # noqa  pylint: disable=unused-import,import-outside-toplevel
    pid = os.fork()
    if pid == 0:
        try:
            _child(tool, argv, d, trace, at, action, limit_file, audit, stdout, before, outp, errp, evp, encoding, apart)
        finally:
            os._exit(97)  # never back into the worker
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    with open(errp, encoding="utf-8", errors="replace") as f:
        err = f.read()
    out = ""
    if stdout is None:
        with open(outp, encoding=encoding, errors="surrogateescape", newline="") as f:
            out = f.read()
    events = None
    if os.path.exists(evp):
        with open(evp, encoding="utf-8") as f:
            text = f.read()
        os.remove(evp)
        if text:
            got = json.loads(text)
            events = got["events"]
            for k, v in got["lines"].items():
                core.REACH.lines.setdefault(k, set()).update(v)
    return Result(code, out, err, events)


AUDITED = {"open", "os.rename", "os.remove", "os.truncate", "os.chmod", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "shutil.copyfile",
           "shutil.move", "shutil.copymode", "shutil.copystat", "os.utime", "os.chown"}


def _child(tool, argv, d, trace, at, action, limit_file, audit, stdout, before, outp, errp, evp, encoding, apart):
    code = 99
    state = [0]
    faults = [True]
    try:
        gc.freeze()
        if trace:
            core.REACH.stop()
        gc.disable()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(120)
        known = {k: set(v) for k, v in core.REACH.lines.items()}
        mod = importlib.import_module(f"simplemseed.{tool}")
        os.chdir(d.work)
        ofd = os.open(stdout or outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        efd = os.open(errp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        vfd = os.open(evp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(ofd, 1)
        os.dup2(efd, 2)
        os.close(ofd)
        os.close(efd)
        sys.stdout = open(1, "w", encoding=encoding, newline="", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False, buffering=1)
        sys.argv = [tool] + list(argv)
        if before:
            before()
        if apart:

            def separate(event, args):
                if event in ("os.rename", "os.link"):
                    here, there = (os.path.dirname(os.path.realpath(os.fsdecode(a))) for a in args[:2])
                    if here != there:
                        raise OSError(errno.EXDEV, "Invalid cross-device link", args[0], None, args[1])
            sys.addaudithook(separate)
        audits = []
        if audit:

            def hook(event, args):
                if faults[0] and event in AUDITED:
                    faults[0] = False
                    try:
                        audits.append([event] + [str(a) for a in args][:3])
                        audit(event, args, len(audits))
                    finally:
                        faults[0] = True
            sys.addaudithook(hook)
        if limit_file is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit_file, resource.RLIM_INFINITY))
        code = 0
        if trace:
            def act():
                if action == "die":
                    os._exit(DIED)
                if action == "sigkill":
                    os.kill(os.getpid(), signal.SIGKILL)
                    time.sleep(10)
                if action == "interrupt":
                    raise KeyboardInterrupt()
            on, off, state = tracer(trace, at, act)
            on()
        try:
            rc = mod.main()
        finally:
            if trace:
                off()
        code = 0 if rc is None else rc if isinstance(rc, int) else 1
    except SystemExit as e:
        code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        if not isinstance(e.code, (int, type(None))):
            print(e.code, file=sys.stderr)
    except BaseException:  # pylint: disable=broad-except
        faults[0] = False
        traceback.print_exc()
        code = 1
    try:
        if limit_file is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if audit:
            faults[0] = False
        # a file in a reference cycle may be closed before it is flushed
        for o in gc.get_objects():
            if isinstance(o, (io.TextIOWrapper, io.BufferedWriter)):
                try:
                    o.flush()
                except (OSError, ValueError):
                    pass
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
        lines = {k: sorted(v - known.get(k, set())) for k, v in core.REACH.lines.items()}
        os.write(vfd, json.dumps({"events": audits if audit else state[0], "lines": {k: v for k, v in lines.items() if v}}).encode())
    except BaseException:  # pylint: disable=broad-except
        code = code or 98
    os._exit(code & 0xFF)


def process(args, cwd, stdin=None):
    """a real interpreter of its own"""
    env = dict(os.environ, PYTHONPATH=core.SRC, PYTHONIOENCODING="utf-8")
    return subprocess.run([sys.executable, "-B"] + args, cwd=cwd, env=env, input=stdin, capture_output=True, timeout=120, check=False)
