"""
Objects of the library in some state, what can be seen of them, and changes to them. Run as a program of its own, it reads pickled objects and
prints what can be seen of each, and pickles them back.
"""
import copy
import hashlib
import io
import json
import pickle
import sys

from . import gen, ms3gen, sidgen

HEADER3 = ("recordIndicator", "formatVersion", "flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "encoding", "sampleRatePeriod",
           "numSamples", "publicationVersion", "sampleRate", "samplePeriod", "starttime")
HEADER2 = ("sequence_number", "network", "station", "location", "channel", "dataquality", "starttime", "sampleRate", "numSamples", "encoding",
           "byteorder", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "timeCorr", "recordLength", "recordLengthExp", "btime")


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # pylint: disable=broad-except
        return f"{type(e).__name__}: {e}"


def text(x):
    """of a value, the same for equal values"""
    if isinstance(x, (bytes, bytearray)):
        return hashlib.sha1(x).hexdigest() + f" {len(x)}"
    if hasattr(x, "dtype"):
        n = x.dtype.newbyteorder(">")
        return f"{x.dtype.kind}{x.dtype.itemsize} {getattr(x, 'shape', '')} " + hashlib.sha1(x.astype(n).tobytes()).hexdigest()
    if hasattr(x, "tobytes"):
        return f"{getattr(x, 'typecode', '')} " + hashlib.sha1(x.tobytes()).hexdigest()
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ", ".join(text(i) for i in x) + ")"
    return repr(x)


def seen(o):
    """lines about all that can be seen of an object"""
    name = type(o).__name__
    out = [name]

    def add(what, fn):
        out.append(f"{what}: {text(attempt(fn))}")
    if name == "MSeed3Record":
        add("text", lambda: str(o))
        add("identifier", lambda: [type(o.identifier).__name__, str(o.identifier)])
        for k in HEADER3:
            add(k, lambda k=k: getattr(o.header, k))
        add("times", lambda: [o.starttime, o.endtime])
        add("extra headers", lambda: json.dumps(o.eh))
        add("samples", o.decompress)
        add("details", lambda: o.details(showExtraHeaders=True, showData=True))
        add("packed", lambda: bytes(o.pack()))
        add("size", o.getSize)
    elif name == "MSeed3Header":
        for k in HEADER3:
            add(k, lambda k=k: getattr(o, k))
        add("packed", lambda: bytes(o.pack()))
    elif name == "MiniseedRecord":
        add("text", lambda: str(o))
        for k in HEADER2:
            add(k, lambda k=k: getattr(o.header, k))
        add("times", lambda: [o.starttime(), o.endtime()])
        add("codes", lambda: [o.codes(), str(o.identifier)])
        add("blockettes", lambda: list(o.blockettes))
        add("samples", o.decompress)
        add("details", lambda: o.details(showData=True))
        add("packed", lambda: bytes(o.pack()))
    elif name == "MiniseedHeader":
        for k in HEADER2:
            add(k, lambda k=k: getattr(o, k))
    elif name == "SteimFrameBlock":
        add("packed", lambda: bytes(o.pack()))
        add("data", lambda: bytes(o.getEncodedData()))
        add("numbers", lambda: [o.getNumFrames(), o.getNumSamples(), o.getSteimVersion(), o.maxNumFrames])
    elif name == "EncodedDataSegment":
        add("parts", lambda: [o.compressionType, bytes(o.dataBytes), o.numSamples, o.littleEndian])
        add("samples", o.decode)
    elif isinstance(o, BaseException):
        add("message", lambda: str(o))
        add("parts", lambda: list(o.args))
        add("more", lambda: sorted((k, str(v)) for k, v in vars(o).items()))
    else:
        add("text", lambda: str(o))
        for k in ("networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode", "channelCode"):
            if hasattr(o, k):
                add(k, lambda k=k: getattr(o, k))
        if hasattr(o, "validate"):
            add("valid", o.validate)
    return out


def change(rng, o):
    """something else through what the library offers"""
    name = type(o).__name__
    if name == "MSeed3Record":
        h = o.header
        r = rng.random()
        if r < 0.3:
            h.publicationVersion = (h.publicationVersion + 7) % 256
        elif r < 0.5:
            h.flags = (h.flags + 1) % 256
        elif r < 0.7:
            o.identifier = "FDSN:ZZ_CHANGED__B_H_Z"
        elif r < 0.85:
            o.eh = {"changed": [1]}
        elif isinstance(o.eh, dict):
            o.eh["changed"] = True
    elif name == "MSeed3Header":
        o.flags = (o.flags + 1) % 256
        o.sampleRatePeriod = 77
    elif name == "MiniseedRecord":
        r = rng.random()
        if r < 0.4:
            o.header.sequence_number = (o.header.sequence_number + 1) % 1000
        elif r < 0.7:
            o.header.station = "CHNGD"
        elif o.blockettes:
            o.blockettes.pop()
        else:
            o.header.qualFlag ^= 1
    elif name == "MiniseedHeader":
        o.station = "CHNGD"
    elif name == "SteimFrameBlock":
        further(o)
    elif name == "EncodedDataSegment":
        o.numSamples += 1
    elif not isinstance(o, BaseException):
        o.networkCode = "ZZ"


def further(o):
    """going on with a block"""
    import numpy as np
    for k in range(3):
        attempt(lambda k=k: o.addEncodedWord(np.int32(0x01020304 + k), 4, 1))
    attempt(lambda: o.setXsubN(np.int32(77)))


def errors(rng):
    import numpy as np
    import simplemseed as s
    from simplemseed import seedcodec, steim1, steim2
    k = rng.randint(1, 99)
    todo = [lambda: s.encodeSteim1([]), lambda: s.encodeSteim2([0, 1 << 30]), lambda: steim1.decodeSteim1(bytes(k), k, np.int32(0)),
            lambda: steim2.decodeSteim2(bytes(64 * k), k, np.int32(0)), lambda: seedcodec.decompress(100 + k, bytes(8), 2, True),
            lambda: seedcodec.decompress(3, bytes(k), 500, True), lambda: s.unpackMSeed3Record(bytes(k)), lambda: s.unpackMSeed3Record(b"MS\3" + bytes(70 + k)),
            lambda: s.unpackMiniseedRecord(bytes(100 + k)), lambda: s.FDSNSourceId.parse("x" * k), lambda: s.FDSNSourceId.fromNslc("A", "B", "", "x" * (3 + k)),
            lambda: s.MSeed3Record(s.MSeed3Header(), "FDSN:A_B_C_D_E_F", np.zeros((k, 2))), lambda: s.MSeed3Record(s.MSeed3Header(), "FDSN:A_B_C_D_E_F", object()),
            lambda: s.MSeed3Record(s.MSeed3Header(), "x" * k, np.zeros(k, dtype="i4")).parseIdentifier(),
            lambda: s.MSeed3Record(s.MSeed3Header(), "FDSN:A_B_C_D_E_F", None).decompress(), lambda: setattr(s.MSeed3Header(), "starttime", k),
            lambda: s.MSeed3Record(s.MSeed3Header(), "FDSN:A_B_C_D_E_F", np.full(k, 1 << 40)), lambda: s.encodeSteim1(np.zeros((k, 2), dtype="i4")),
            lambda: s.encodeSteim2([k / 2]), lambda: s.encodeSteim1([1 << 40, k]), lambda: s.encodeSteim1FrameBlock([1, k], frames=-k),
            lambda: s.encodeSteim2([], k), lambda: seedcodec.encode(b"abc" * k, 3, True), lambda: seedcodec.encode(np.zeros(k, dtype="i4"), 10, True),
            lambda: seedcodec.encode(np.zeros(k, dtype="i4"), 100 + k, True), lambda: seedcodec.arrayTypecodeFromMSeed(100 + k),
            lambda: seedcodec.mseed3EncodingFromNumpyDT(np.dtype("S5")), lambda: seedcodec.decompress(11, bytes([0x80] * 64), k, False),
            lambda: s.FDSNSourceId.parseNslc(f"A.B.{k}"), lambda: s.FDSNSourceId.parse("FDSN:" + "_" * (6 + k)), lambda: s.NetworkSourceId("X1", k),
            lambda: s.NetworkSourceId("X1", "x" * k), lambda: s.bandCodeForRate(float("nan")), lambda: list(s.readMSeed3Records(io.BytesIO(bytes(k)))),
            lambda: list(s.readMiniseed2Records(io.BytesIO(b"x" * (48 + k))))]
    for _ in range(20):
        try:
            rng.choice(todo)()
        except Exception as e:  # pylint: disable=broad-except
            return e
    raise AssertionError("no error")


def make(rng):
    """(kind, object)"""
    import simplemseed as s
    from .checks import C14, C31
    kind = rng.choice(["ms3", "ms3", "ms3", "header", "ms2", "ms2", "ms2 header", "identifier", "block", "block", "segment", "error"])
    if kind in ("ms3", "header"):
        m = ms3gen.model(rng, n=rng.choice([1, 5, 40]))
        if "big" in m["eh"]:
            m["eh"] = {}
        ms3gen.keep_in_range(m)
        o = C14.make(rng, m)[1]
        for _ in range(rng.choice([0, 0, 1, 2])):
            attempt(rng.choice([o.pack, o.decompress, o.details, lambda o=o: o.eh, lambda o=o: str(o), lambda o=o: o.starttime]))
        if rng.random() < 0.2:
            o = o.clone()
        elif rng.random() < 0.2:
            again = attempt(o.decompressedRecord)
            o = o if isinstance(again, str) else again
        if kind == "header":
            o = o.header
    elif kind in ("ms2", "ms2 header"):
        o = (C31.read if rng.random() < 0.5 else C31.built)(rng)[1]
        for _ in range(rng.choice([0, 0, 1, 2])):
            attempt(rng.choice([o.pack, o.decompress, o.details, o.starttime]))
        if rng.random() < 0.2:
            o.blockettes.append(o.createB1001())
        if kind == "ms2 header":
            o = o.header
    elif kind == "identifier":
        parts = sidgen.codes(rng)
        level = rng.choice([1, 2, 3, 6, 6])
        o = attempt(lambda: s.FDSNSourceId.parse("FDSN:" + "_".join(parts[:level])))
        if isinstance(o, str):
            o = s.NetworkSourceId(parts[0])
        elif level == 6 and rng.random() < 0.3:
            got = attempt(o.asNslc)
            o = o if isinstance(got, str) else got
    elif kind == "block":
        v = rng.choice([1, 2])
        vals = gen.ints(rng, rng.choice([1, 3, 30, 200]), 29, -2**28, 2**28)
        o = (s.encodeSteim1FrameBlock, s.encodeSteim2FrameBlock)[v - 1](vals, frames=rng.choice([0, 0, 1, 3, 10]))
        if rng.random() < 0.15:
            o = s.SteimFrameBlock(rng.choice([0, 2]), v)
            further(o)
    elif kind == "segment":
        enc, vals = ms3gen.payload_samples(rng, n=rng.choice([1, 5, 40]), encodings=(1, 3, 4, 5))
        from simplemseed import seedcodec
        o = seedcodec.encode(gen.np_typed(rng, enc, vals)[1], enc, rng.random() < 0.5)
    else:
        o = errors(rng)
    return kind, o


def main():
    """a pickle on standard input: list of pickles; standard output: pickle of what is seen, and the objects again"""
    out = []
    for b, protocol in pickle.load(sys.stdin.buffer):
        o = pickle.loads(b)
        back = pickle.dumps(o, protocol)
        out.append((back, seen(o)))
    sys.stdout.buffer.write(pickle.dumps(out))


WAYS = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [(f"pickle {p}", lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(6)]

if __name__ == "__main__":
    main()
