"""Files, patterns, pointers and the expected effect of setting or getting extra headers."""
import copy
import json
import re

from . import gen, ms3gen, ref

IDS = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_H_H_Z", "FDSN:XX_ABC__B_H_Z", "other é"]
PATTERNS = ["BIRD", "_Z$", "JSC|ABC", "^FDSN:CO", "é", "nothing", ".", "", "(?i)bird.*n$", "^(?!FDSN)", "CO_BIRD_00_H_H_Z", "H_H_[ZN]"]


class BadPointer(Exception):
    pass


def parts_of(ptr):
    if ptr == "":
        return []
    if not ptr.startswith("/") or re.search("~([^01]|$)", ptr):
        raise BadPointer(ptr)
    return [p.replace("~1", "/").replace("~0", "~") for p in ptr[1:].split("/")]


def ptr_text(parts):
    return "".join("/" + p.replace("~", "~0").replace("/", "~1") for p in parts)


def step(doc, p):
    if isinstance(doc, dict):
        if p not in doc:
            raise BadPointer(p)
        return doc[p]
    if isinstance(doc, list):
        if not re.fullmatch("0|[1-9][0-9]*", p, re.ASCII) or int(p) >= len(doc):
            raise BadPointer(p)
        return doc[int(p)]
    raise BadPointer(p)


def get(doc, ptr):
    for p in parts_of(ptr):
        doc = step(doc, p)
    return doc


def put(doc, ptr, val):
    """new document; '' and '/' replace all"""
    if len(ptr) < 2 and ptr in ("", "/"):
        return copy.deepcopy(val)
    parts = parts_of(ptr)
    doc = copy.deepcopy(doc)
    at = doc
    for p in parts[:-1]:
        at = step(at, p)
    p = parts[-1]
    if isinstance(at, dict):
        at[p] = copy.deepcopy(val)
    elif isinstance(at, list) and p == "-":
        at.append(copy.deepcopy(val))
    elif isinstance(at, list):
        step(at, p)
        at[int(p)] = copy.deepcopy(val)
    else:
        raise BadPointer(p)
    return doc


def paths(doc, prefix=()):
    """all places that exist"""
    out = [prefix]
    if isinstance(doc, dict):
        for k in doc:
            out += paths(doc[k], prefix + (k,))
    if isinstance(doc, list):
        for i, v in enumerate(doc):
            out += paths(v, prefix + (str(i),))
    return out


def pointer(rng, docs, new=True):
    """a pointer for one of the documents, to something there, beside it, or nowhere"""
    doc = rng.choice(docs) if docs else {}
    p = list(rng.choice(paths(doc)))
    r = rng.random()
    if r < 0.45 and p:
        return ptr_text(p)
    try:
        at = get(doc, ptr_text(p))
    except BadPointer:
        at = doc
    if isinstance(at, dict):
        k = rng.choice([gen.jkey(rng), "new", "~", "/", "a b", "x/y~z", "-", "00"])
    elif isinstance(at, list):
        k = rng.choice(["-", "0", str(len(at)), str(max(0, len(at) - 1)), "00", "1e0", "+1", "x", "", "-1", "\u0661"])
    else:
        k = rng.choice(["x", "0", "-", ""])
    if r < 0.85 and new:
        return ptr_text(p + [k])
    if r < 0.93:
        return ptr_text(p + [k, rng.choice(["x", "0", "y"])])
    return rng.choice(["", "/", "/new", "/nope/deeper", "/" + "a" * 300])


def models(rng, n, large=0):
    """records of one file with their models"""
    out = []
    for _ in range(n):
        m = ms3gen.model(rng, n=rng.choice([1, 2, 5, 40]), opaque=0.15)
        if rng.random() < 0.05:
            m.update(samples=None, encoding=3, payload=b"", numSamples=0)
        m["identifier"] = rng.choice(IDS)
        # start and end time are within what datetime can hold
        if m["year"] > 9900:
            m["year"] -= 400
        if m["year"] < 10:
            m["year"] += 400
        if "big" in m["eh"]:
            m["eh"] = {"big": "é" * 50, "n": [1, 2, 3]}
        if rng.random() < 0.4:
            m["eh"].update(rng.choice([{"FDSN": {"Time": {"Quality": 100}}}, {"list": [1, {"a": [2]}, "x"]}, {"bag": {"y": {"proc": "raw"}}}]))
        if rng.random() < 0.1:
            m["eh"] = {}
        if large and rng.random() < large:
            # tens of thousands of characters
            m["eh"]["long"] = rng.choice(["x" * rng.randint(9000, 50000), list(range(8000)), {"a": {"b": ["y" * rng.randint(33000, 48000)]}}])
        text = None
        if rng.random() < 0.04:
            m["eh"]["half"] = rng.choice(["x\ud83d", "\udc00\u00e9", ["\ud800"]])  # half of a surrogate pair, which JSON can say
            text = json.dumps(m["eh"])
        out.append((m, ms3gen.to_ref(rng, m, text)))
        if rng.random() < 0.1:
            # the very same record again, or with other samples
            again = copy.deepcopy(rng.choice(out))
            out.append(again if rng.random() < 0.6 else (again[0], ms3gen.to_ref(rng, again[0], json.dumps(again[0]["eh"]))))
    return out


def matches(pat, m):
    return pat is None or re.search(pat, m["identifier"]) is not None


def expected(files, ptr, val, pat, setall):
    """
    files: list of list of (model, bytes). What the command has to do:
    list per file of None (as before) or {record index: new extra headers};
    and the index of the file at which it has to fail, or None
    """
    out = [None] * len(files)
    looking = True
    for i, recs in enumerate(files):
        change = {}
        for k, (m, _b) in enumerate(recs):
            if matches(pat, m) and (looking or setall):
                looking = False
                try:
                    change[k] = put(m["eh"], ptr, val)
                except BadPointer:
                    return out, i
        out[i] = change or None
        if not looking and not setall:
            break
    return out, None


def judge_file(ctx, data, recs, change, what):
    """content of the file after the command"""
    try:
        got = ref.ms3_split(data)
    except (ref.RefError, ValueError) as e:
        ctx.check(False, f"{what}: not valid miniSEED 3 any more: {e}", data[:100])
    ctx.eq(len(got), len(recs), f"{what}: number of records")
    for k, (r, (m, b)) in enumerate(zip(got, recs)):
        ctx.check(r["crcok"], f"{what}: crc of record {k}")
        if change is None or k not in change:
            ctx.check(r["bytes"] == b, f"{what}: record {k} that was not a target is changed", r["bytes"], b)
            ctx.count("records kept")
            continue
        old = ref.ms3_parse(b)
        for f in ref.MS3_FIELDS:
            if f != "crc":
                ctx.check(r[f] == old[f] or r[f] != r[f], f"{what}: {f} of target {k}", r[f], old[f])
        ctx.eq(r["identifier"], old["identifier"], f"{what}: identifier of target {k}")
        ctx.check(r["payload"] == old["payload"], f"{what}: payload of target {k}")
        ctx.check(gen.jsame(r["eh"], change[k]), f"{what}: extra headers of target {k}", r["eh"], change[k])
        ctx.count("records set")


def value(rng):
    v = rng.choice([1, 0, "x", None, True, "é", [], {}, {"key": "val", "keyb": 3}, [1, 2], 2.5, gen.jvalue(rng, 2), gen.jobject(rng, 2)])
    text = json.dumps(v, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 1]))
    if text.startswith("-") and not re.fullmatch(r"-\d+", text):
        text = " " + text
    return v, text
