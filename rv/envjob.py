"""
Runs a seeded list of operations of the library and prints one line per result: the same lines are
expected whatever the environment of the process. Run as a program of its own by C35; what it is told to
set first stands for the application the library is used by.
"""
import hashlib
import io
import os
import random
import sys


def text(x):
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return f"{len(b)}:{hashlib.sha1(b).hexdigest()}"
    if isinstance(x, (list, tuple)):
        return "[" + " ".join(text(i) for i in x) + "]"
    if isinstance(x, dict):
        return "{" + " ".join(f"{text(k)}={text(v)}" for k, v in x.items()) + "}"
    if hasattr(x, "tobytes") and hasattr(x, "dtype"):
        return f"{x.dtype.str}{getattr(x, 'shape', '')}{hashlib.sha1(x.tobytes()).hexdigest()}"
    if hasattr(x, "isoformat"):
        return x.isoformat()
    return ascii(x)


def settings(names):
    """what an application may have set before"""
    import numpy as np
    for n in names:
        if n == "seterr":
            np.seterr(over="raise", under="ignore", divide="raise", invalid="raise")
        elif n == "seterr call":
            np.seterr(all="warn")
        elif n == "print":
            np.set_printoptions(threshold=3, precision=1, suppress=True, edgeitems=1, linewidth=20, floatmode="fixed", sign="+")
        elif n == "decimal":
            import decimal
            decimal.getcontext().prec = 2
        elif n == "locale":
            import locale
            locale.setlocale(locale.LC_ALL, "C")
        elif n == "gc":
            import gc
            gc.set_threshold(1)
        elif n == "random":
            np.random.seed(1)
        elif n == "digits":
            sys.set_int_max_str_digits(640)
        elif n == "recursion":
            sys.setrecursionlimit(400)
        elif n == "switch":
            sys.setswitchinterval(1e-6)
        elif n == "warnings":
            import warnings
            warnings.simplefilter("error", RuntimeWarning)
        elif n == "zone":
            import time
            os.environ["TZ"] = "EST+5EDT,M3.2.0,M11.1.0"
            time.tzset()
        elif n == "closed":
            sys.stdin.close()


def operations(seed):
    """(name, function) in an order of their own"""
    import numpy as np
    import simplemseed as s
    from datetime import datetime, timedelta, timezone
    from simplemseed import seedcodec, steim1, steim2
    rng = random.Random(f"env{seed}")
    ids = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:XX_A__B_H_1", "FDSN:TEMP2024_LONGSTA_A-B_M_HH_Z", "FDSN:IU_ANMO_10_L_D_F", "FDSN:CO_JSC_00_V_Y_O"]
    out = []

    def op(name, fn):
        out.append((name, fn))

    def zone():
        return rng.choice([timezone.utc, timezone(timedelta(hours=5, minutes=45)), timezone(-timedelta(hours=9, minutes=30))])
    for k in range(12):
        n = rng.choice([1, 2, 7, 60, 400])
        v, vals = rng.randint(-1000, 1000), []
        for _i in range(n):
            vals.append(v)
            v += rng.randint(-1 << (k % 12), 1 << (k % 12))
        arr = np.array(vals, dtype="i4")
        bias = rng.choice([0, 5])
        eh = rng.choice([None, {"a": 1, "b": {"c": [1, 2.5, "x\u00e9"]}, "z": None, "m": True}, {"FDSN": {"Time": {"Quality": 100}}},
                         {c: i for i, c in enumerate("qwertyuiopasdf")}])
        start = datetime(rng.randint(1970, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                         rng.randint(0, 999999), zone())
        when = rng.choice([start, start.isoformat(), start.astimezone(timezone.utc).isoformat()[:-6] + "Z", start.replace(tzinfo=None)])
        rate = rng.choice([1, 20, 100.0, 0.1, -10, -3600.0, 33.3333])
        ident = rng.choice(ids)
        flags = rng.choice([0, 4])

        def ms3(arr=arr, eh=eh, when=when, rate=rate, ident=ident, enc=None, flags=flags):
            h = s.MSeed3Header()
            h.starttime = when
            h.sampleRatePeriod = rate
            h.flags = flags
            if enc:
                h.encoding = enc
                h.numSamples = len(arr)
                arr = bytes((s.encodeSteim1 if enc == 10 else s.encodeSteim2)(arr))
            return s.MSeed3Record(h, ident, arr, eh)

        def ms2(arr=arr, start=when, rate=rate, enc=None):
            h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", start, len(arr), rate if rate > 0 else -1 / rate, encoding=enc or 3)
            if enc:
                arr = s.EncodedDataSegment(enc, bytes((s.encodeSteim1 if enc == 10 else s.encodeSteim2)(arr, frames=60)), len(arr), False)
            h.recordLengthExp = 12
            h.recordLength = 4096
            return s.MiniseedRecord(h, arr)
        for v in (1, 2):
            e = (s.encodeSteim1, s.encodeSteim2)[v - 1]
            d = (steim1.decodeSteim1, steim2.decodeSteim2)[v - 1]
            op(f"steim{v}", lambda arr=arr, e=e, bias=bias: e(arr, bias=np.int32(bias)))
            op(f"steim{v} list", lambda vals=vals, e=e: e(list(vals)))
            op(f"unsteim{v}", lambda arr=arr, e=e, d=d, bias=bias: d(e(arr, bias=np.int32(bias)), len(arr), np.int32(bias)))
        for code, t in ((1, "i2"), (3, "i4"), (4, "f4"), (5, "f8")):
            op(f"encode {code}", lambda arr=arr, t=t, code=code: [seedcodec.encode((arr % 1000).astype(t), code, w).dataBytes for w in (True, False)])
            op(f"decode {code}", lambda arr=arr, t=t, code=code: seedcodec.decompress(code, bytes((arr % 1000).astype(t)), len(arr), True))
        for enc in (None, 10, 11):
            op(f"pack {enc}", lambda enc=enc, ms3=ms3: ms3(enc=enc).pack())
            op(f"read {enc}", lambda enc=enc, ms3=ms3: [
                [r.identifier, r.starttime, r.endtime, r.header.sampleRate, r.decompress(), r.eh, str(r), r.summary(), r.details(showData=True)]
                for r in s.readMSeed3Records(io.BytesIO(bytes(ms3(enc=enc).pack()) * 2))])
            op(f"ms2 {enc}", lambda enc=enc, ms2=ms2: ms2(enc=enc).pack())
            op(f"ms2 read {enc}", lambda enc=enc, ms2=ms2: [
                [r.codes(), r.starttime(), r.endtime(), r.decompress(), r.summary(), r.details(showData=True), s.mseed2to3(r).pack()]
                for r in s.readMiniseed2Records(io.BytesIO(bytes(ms2(enc=enc).pack()) * 2))])
        op("merge", lambda ms3=ms3: [r.pack() for r in s.readMSeed3Records(io.BytesIO(b"".join(
            bytes(ms3(arr=np.arange(20, dtype="i4"), when=datetime(2024, 2, 29, 23, 59, 50 + i // 10, tzinfo=timezone.utc), rate=2).pack())
            for i in (0, 0, 40))), merge=True)])
        op("ids", lambda ident=ident: [str(s.FDSNSourceId.parse(ident)), s.FDSNSourceId.parse(ident).validate(),
                                       s.FDSNSourceId.parse(ident).shortChannelCode() if "TEMP" not in ident else ""])
        op("bands", lambda rate=rate: [s.bandCodeForRate(abs(rate), 10), s.bandCodeForRate(abs(rate)), s.bandCodeDescribe("H"), s.sourceCodeDescribe("H")])
        op("from codes", lambda start=start: [str(s.FDSNSourceId.fromNslc("XD", "A", "00", "HHZ", start.year)),
                                              str(s.FDSNSourceId.fromNslc("CO", "A", "", "HHZ"))])
    # what is refused stays refused: a result says what kind of failure it is
    good = bytes(s.MSeed3Record(s.MSeed3Header(), "FDSN:CO_BIRD_00_H_H_Z", np.arange(50, dtype="i4"), {"a": 1}).pack())
    st1 = bytes(s.encodeSteim1(np.arange(50, dtype="i4")))
    st2 = bytes(s.encodeSteim2(np.arange(50, dtype="i4")))
    m2 = bytes(s.MiniseedRecord(s.MiniseedHeader("CO", "BIRD", "00", "HHZ", "2024-01-01T00:00:00Z", 50, 20, encoding=3), np.arange(50, dtype="i4")).pack())

    def refused(name, fn):
        def kind():
            try:
                return fn()
            except Exception as e:  # pylint: disable=broad-except
                return "refused: " + type(e).__name__
        op("refusal of " + name, kind)

    def changed(data, at, new):
        return data[:at] + new + data[at + len(new):]
    refused("a damaged byte", lambda: [str(r) for r in s.readMSeed3Records(io.BytesIO(changed(good, 70 + seed % 50, b"\xff\xfe")))])
    refused("a cut record", lambda: [str(r) for r in s.readMSeed3Records(io.BytesIO(good[:-1 - seed % 100]))])
    refused("another format", lambda: [str(r) for r in s.readMSeed3Records(io.BytesIO(changed(good, 0, b"XX\x03")))])
    refused("bad start", lambda: [str(r) for r in s.readMSeed3Records(io.BytesIO(changed(good, 10, b"\xff\xff")), check_crc=False)])
    refused("nothing", lambda: [str(r) for r in s.readMSeed3Records(io.BytesIO(b""))])
    for t in (st1, st2):
        d, e = (steim1.decodeSteim1, s.encodeSteim1) if t is st1 else (steim2.decodeSteim2, s.encodeSteim2)
        refused("an integrity constant", lambda t=t, d=d: d(changed(t, 8, b"\0\0\1\0"), 50, np.int32(0)))
        refused("too many samples", lambda t=t, d=d: d(t, 5000, np.int32(0)))
        refused("part of a frame", lambda t=t, d=d: d(t[:-3], 50, np.int32(0)))
        refused("floats", lambda e=e: e(np.array([1.5, 2.5])))
        refused("wide integers", lambda e=e: e([1 << 40, 0]))
        refused("no samples", lambda e=e: e([]))
    refused("a wide difference", lambda: s.encodeSteim2([0, 1 << 29, -(1 << 29)]))
    refused("an unknown encoding", lambda: seedcodec.decompress(99, good, 3, True))
    refused("short data", lambda: seedcodec.decompress(3, good[:10], 30, True))
    refused("encoding wide values as shorts", lambda: seedcodec.encode(np.array([70000]), 1, True))
    refused("ms2 cut", lambda: [r.summary() for r in s.readMiniseed2Records(io.BytesIO(m2[:-7]))])
    refused("ms2 header", lambda: [r.summary() for r in s.readMiniseed2Records(io.BytesIO(changed(m2, 6, b"\xff")))])
    refused("ms2 blockette offset", lambda: [r.summary() for r in s.readMiniseed2Records(io.BytesIO(changed(m2, 46, b"\xff\xff")))])
    refused("ms2 blockette chain", lambda: [r.summary() for r in s.readMiniseed2Records(io.BytesIO(changed(m2, 50, b"\0\x30")))])
    refused("ms2 data offset", lambda: [r.summary() for r in s.readMiniseed2Records(io.BytesIO(changed(m2, 44, b"\xff\0")))])
    refused("ms2 long station", lambda: s.MiniseedRecord(s.MiniseedHeader("CO", "TOOLONG", "00", "HHZ", "2024-01-01T00:00:00Z", 1, 1), np.arange(1, dtype="i4")).pack())
    refused("ms2 data that do not fit", lambda: s.MiniseedRecord(s.MiniseedHeader("CO", "B", "00", "HHZ", "2024-01-01T00:00:00Z", 9999, 1), np.arange(9999, dtype="i4")).pack())
    refused("a long identifier", lambda: s.MSeed3Record(s.MSeed3Header(), "FDSN:" + "X" * 300, np.arange(3, dtype="i4")).pack())
    refused("extra headers that are no object", lambda: s.MSeed3Record(s.MSeed3Header(), ids[0], np.arange(3, dtype="i4"), "[1,").pack())
    refused("2D data", lambda: s.MSeed3Record(s.MSeed3Header(), ids[0], np.zeros((2, 2), dtype="i4")).pack())
    refused("a date", lambda: setattr(s.MSeed3Header(), "starttime", "2024-13-41T00:00:00Z"))
    refused("a word for a date", lambda: setattr(s.MSeed3Header(), "starttime", "yesterday"))
    for bad in ("FDSN:CO_BIRD_00_H_H", "CO_BIRD_00_H_H_Z", "FDSN:", "FDSN:co_BIRD_00_H_H_Z", "FDSN:CO_LONGSTATION_00_H_H_Z", "NFDSN:x", ""):
        refused(f"identifier {bad}", lambda bad=bad: [str(s.FDSNSourceId.parse(bad)), s.FDSNSourceId.parse(bad).validate()])
        refused(f"codes {bad}", lambda bad=bad: str(s.FDSNSourceId.parseNslc(bad)))
    refused("channel codes", lambda: str(s.FDSNSourceId.fromNslc("CO", "A", "00", "TOOLONG")))
    refused("a rate of zero", lambda: s.bandCodeForRate(0, 10))
    refused("a rate below zero", lambda: s.bandCodeForRate(-1, 10))
    return out


def tools(folder, seed):
    """the commands, with files in a folder of their own"""
    import contextlib
    import importlib
    import numpy as np
    import simplemseed as s
    from datetime import datetime, timezone
    rng = random.Random(f"tools{seed}")
    parts = []
    for k in range(3):
        h = s.MSeed3Header()
        h.starttime = datetime(2024, 1, 1, 0, 0, 10 * k, tzinfo=timezone.utc)
        h.sampleRatePeriod = 1.0
        parts.append(bytes(s.MSeed3Record(h, "FDSN:CO_BIRD_00_H_H_Z", np.array([rng.randint(-9, 9999) for _ in range(10)], dtype="i4"),
                                          {"a": {"b": k, "c": [1, "two", None]}}).pack()))
    with open(os.path.join(folder, "a.ms3"), "wb") as f:
        f.write(b"".join(parts))
    h = s.MiniseedHeader("CO", "BIRD", "00", "HHZ", datetime(2024, 12, 31, 23, 59, 59, 999900, tzinfo=timezone.utc), 10, 20, encoding=3)
    with open(os.path.join(folder, "b.ms2"), "wb") as f:
        f.write(bytes(s.MiniseedRecord(h, np.arange(10, dtype="i4")).pack()) * 2)
    with open(os.path.join(folder, "eh.json"), "wb") as f:
        f.write('{"ort": "M\u00fcnchen \u2192 \u65e5\u672c", "n": [1, {"a": null}]}'.encode())
    here = os.getcwd()
    os.chdir(folder)
    for tool, args in [("mseed3details", ["--summary", "a.ms3"]), ("mseed3details", ["--data", "--eh", "a.ms3"]),
                       ("mseed3details", ["--getall", "/a", "a.ms3"]), ("mseed3details", ["--get", "/a/c/1", "a.ms3"]),
                       ("mseed3details", ["--setall", "/a/b", '{"x":[1,2],"w":{"z":1}}', "a.ms3"]), ("mseed3details", ["--match", "BIRD", "a.ms3"]),
                       ("mseed3details", ["--fset", "/here", "eh.json", "a.ms3"]), ("mseed3details", ["--fsetall", "/a/c/-", "eh.json", "a.ms3"]),
                       ("mseed3details", ["--getall", "/here/ort", "-o", "got.txt", "a.ms3"]), ("mseed3details", ["--eh", "-v", "a.ms3"]),
                       ("mseed3merge", ["-o", "m.ms3", "a.ms3"]), ("mseed2details", ["--data", "b.ms2"]), ("mseed2details", ["--summary", "b.ms2"]),
                       ("mseed2to3", ["-2", "b.ms2", "-3", "c.ms3"]), ("fdsnsourceid", ["--sps", "20", "FDSN:CO_BIRD_00_H_H_Z"]),
                       ("fdsnsourceid", ["--allbands"]), ("fdsnsourceid", ["--allsources"]), ("fdsnsourceid", ["nonsense"]),
                       ("mseed3details", ["none.ms3"]), ("mseed3details", ["b.ms2"]), ("mseed2details", ["a.ms3"]),
                       ("mseed3details", ["--get", "nothing/", "a.ms3"]), ("mseed3merge", ["-o", "n.ms3", "none.ms3"])]:
        buf = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
        sys.argv = [tool] + args
        code = 0
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            try:
                code = importlib.import_module("simplemseed." + tool).main()
            except SystemExit as e:
                code = e.code
            except BaseException as e:  # pylint: disable=broad-except
                code = f"{type(e).__name__} {e}"
            buf.flush()
        files = []
        for n in sorted(os.listdir(".")):
            with open(n, "rb") as f:
                files.append([n, f.read()])
        print("tool", tool, text(args), text(code or 0), text(buf.buffer.getvalue()), text(files))
    os.chdir(here)


def main():
    seed, folder, *names = sys.argv[1:]
    settings(names)
    seed = int(seed)
    for name, fn in operations(seed):
        try:
            got = fn()
        except Exception as e:  # pylint: disable=broad-except
            got = f"{type(e).__name__}: {e}"
        print(name, text(got))
    tools(folder, seed)


if __name__ == "__main__":
    main()
