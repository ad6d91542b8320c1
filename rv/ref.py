"""
Independent reference codecs, parsers and writers, from the SEED manual (2.4,
appendix B), the FDSN miniSEED 3 specification and the FDSN source identifier
specification. Nothing here imports the code under test. Integers are Python
integers, so nothing wraps by accident.
"""
import json
import struct
from datetime import datetime, timedelta, timezone

I32MIN, I32MAX = -2**31, 2**31 - 1


class RefError(Exception):
    pass


def wrap32(v):
    return (v + 2**31) % 2**32 - 2**31


# ---------------------------------------------------------------- CRC-32C

def _crc_table():
    t = []
    for n in range(256):
        for _ in range(8):
            n = (n >> 1) ^ 0x82F63B78 if n & 1 else n >> 1
        t.append(n)
    return t


CRC_TABLE = _crc_table()


def crc32c(data):
    c = 0xFFFFFFFF
    for b in data:
        c = CRC_TABLE[(c ^ b) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


# ---------------------------------------------------------------- Steim

# (nibble, dnib or None, count, bits)
PACKINGS = {
    1: [(1, None, 4, 8), (2, None, 2, 16), (3, None, 1, 32)],
    2: [(1, None, 4, 8), (2, 1, 1, 30), (2, 2, 2, 15), (2, 3, 3, 10),
        (3, 0, 5, 6), (3, 1, 6, 5), (3, 2, 7, 4)],
}


def sext(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


def word_diffs(version, nibble, word):
    """differences in one 32 bit word, RefError if the code is not legal"""
    if nibble == 0:
        return []
    for nib, dnib, count, bits in PACKINGS[version]:
        if nib == nibble and (dnib is None or dnib == word >> 30):
            return [sext(word >> (bits * (count - 1 - k)) & ((1 << bits) - 1), bits) for k in range(count)]
    raise RefError(f"illegal code nibble {nibble} dnib {word >> 30}")


def steim_parse(version, data):
    """
    (diffs, x0, xn, layout) where layout lists per frame the nibbles,
    RefError when not a legal payload
    """
    if len(data) % 64 != 0:
        raise RefError("not whole frames")
    diffs, x0, xn, layout = [], None, None, []
    for f in range(len(data) // 64):
        words = struct.unpack(">16I", data[f * 64:f * 64 + 64])
        nibs = [words[0] >> (30 - 2 * i) & 3 for i in range(16)]
        if nibs[0] != 0:
            raise RefError("control word nibble is not 00")
        layout.append(nibs)
        for i in range(1, 16):
            if f == 0 and i in (1, 2):
                if nibs[i] != 0:
                    raise RefError("integration constant nibble is not 00")
                if i == 1:
                    x0 = sext(words[1], 32)
                else:
                    xn = sext(words[2], 32)
                continue
            diffs += word_diffs(version, nibs[i], words[i])
    return diffs, x0, xn, layout


def integrate(diffs, x0, n):
    """first n samples, forward integration from x0, diffs[0] is not needed"""
    if n > len(diffs):
        raise RefError(f"only {len(diffs)} differences for {n} samples")
    out = []
    for i in range(n):
        out.append(x0 if i == 0 else wrap32(out[-1] + diffs[i]))
    return out


def steim_decode(version, data, n):
    diffs, x0, xn, _ = steim_parse(version, data)
    out = integrate(diffs, x0, n) if n else []
    return out, x0, xn


def pack_word(packing, diffs):
    nib, dnib, count, bits = packing
    w = 0
    for d in diffs:
        w = w << bits | d & ((1 << bits) - 1)
    if dnib is not None:
        w |= dnib << 30
    return nib, w


def fits(d, bits):
    return -(1 << (bits - 1)) <= d < (1 << (bits - 1))


def steim_encode(version, samples, rng, d0=0, greedy=0.5, filler=0.0, spare_frames=0):
    """
    Legal payload for all samples, with randomly chosen legal word packings;
    d0 is the (arbitrary) first difference, filler the chance of an unused word.
    RefError if a difference does not fit.
    """
    diffs = [d0] + [wrap32(b - a) for a, b in zip(samples, samples[1:])]
    words = []  # (nibble, word)
    junk = rng.choice([0, 0, 0.5])
    i = 0
    while i < len(diffs):
        if words and rng.random() < filler:
            words.append((0, rng.choice([0, 0, rng.getrandbits(32)]) if filler else 0))
            continue
        ok = [p for p in PACKINGS[version]
              if i + p[2] <= len(diffs) and all(fits(d, p[3]) for d in diffs[i:i + p[2]])]
        if not ok:
            raise RefError(f"difference {diffs[i]} does not fit")
        p = max(ok, key=lambda q: q[2]) if rng.random() < greedy else rng.choice(ok)
        nib, w = pack_word(p, diffs[i:i + p[2]])
        if p[2] * p[3] == 28 and rng.random() < junk:
            w |= rng.getrandbits(2) << 28  # seven differences leave two bits that mean nothing
        words.append((nib, w))
        i += p[2]
        if filler and (len(words) + 2) % 15 == 0 and rng.random() < filler:
            words += [(0, 0)] * (15 * rng.choice([1, 1, 2, 5]))  # whole frames that are not used
    words = [(0, samples[0] & 0xFFFFFFFF), (0, samples[-1] & 0xFFFFFFFF)] + words
    out = bytearray()
    for lo in range(0, len(words), 15):
        fr = words[lo:lo + 15]
        fr += [(0, 0)] * (15 - len(fr))
        ctrl = 0
        for k, (nib, _w) in enumerate(fr):
            ctrl |= nib << (28 - 2 * k)
        out += struct.pack(">16I", ctrl, *[w for _n, w in fr])
    return bytes(out) + bytes(64 * spare_frames)


# ---------------------------------------------------------------- primitive

PRIM = {1: ("h", 2), 3: ("i", 4), 4: ("f", 4), 5: ("d", 8)}


def prim_encode(encoding, values, little):
    code, _ = PRIM[encoding]
    return struct.pack(("<" if little else ">") + str(len(values)) + code, *values)


def prim_decode(encoding, data, n, little):
    code, size = PRIM[encoding]
    if len(data) < n * size:
        raise RefError("short")
    return list(struct.unpack(("<" if little else ">") + str(n) + code, bytes(data[:n * size])))


def payload_decode(encoding, data, n, little=True):
    if n == 0:
        return []
    if encoding in PRIM:
        return prim_decode(encoding, data, n, little)
    if encoding in (10, 11):
        return steim_decode(encoding - 9, data, n)[0]
    raise RefError(f"encoding {encoding}")


# ---------------------------------------------------------------- time

def civil_from_days(days):
    """(year, day of year) of days since 0001-01-01, by own arithmetic"""
    y = 1
    n400, days = divmod(days, 146097)
    y += 400 * n400
    while True:
        length = 366 if leap(y) else 365
        if days < length:
            return y, days + 1
        days -= length
        y += 1


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


EPOCH_DAYS = days_before_year(1970)


def micros(year, yday, hour, minute, second, micro):
    """microseconds since 1970, a second of 60 is the next minute"""
    days = days_before_year(year) + yday - 1 - EPOCH_DAYS
    return ((days * 24 + hour) * 60 + minute) * 60 * 1000000 + second * 1000000 + micro


def fields_of(us):
    """(year, yday, hour, minute, second, micro)"""
    secs, micro = divmod(us, 1000000)
    days, sod = divmod(secs, 86400)
    y, yday = civil_from_days(days + EPOCH_DAYS)
    return y, yday, sod // 3600, sod // 60 % 60, sod % 60, micro


def dt_micros(dt):
    """microseconds since 1970 of an aware datetime"""
    d = dt - datetime(1970, 1, 1, tzinfo=timezone.utc)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def micros_dt(us):
    return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)


# ---------------------------------------------------------------- miniSEED 3

MS3_FIELDS = ("flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second", "encoding",
              "sampleRatePeriod", "numSamples", "crc", "publicationVersion")


def ms3_parse(data):
    """
    One record at the start of data, as dict, with its total length under 'size'.
    Offsets as in the table of the specification.
    """
    if len(data) < 40:
        raise RefError("short header")
    if data[0:2] != b"MS" or data[2] != 3:
        raise RefError("not MS3")
    r = dict(
        flags=data[3],
        nanosecond=int.from_bytes(data[4:8], "little"),
        year=int.from_bytes(data[8:10], "little"),
        dayOfYear=int.from_bytes(data[10:12], "little"),
        hour=data[12], minute=data[13], second=data[14], encoding=data[15],
        sampleRatePeriod=struct.unpack("<d", bytes(data[16:24]))[0],
        numSamples=int.from_bytes(data[24:28], "little"),
        crc=int.from_bytes(data[28:32], "little"),
        publicationVersion=data[32],
    )
    idl, ehl = data[33], int.from_bytes(data[34:36], "little")
    dl = int.from_bytes(data[36:40], "little")
    size = 40 + idl + ehl + dl
    if len(data) < size:
        raise RefError("short record")
    r["identifier"] = bytes(data[40:40 + idl]).decode("utf-8")
    r["ehbytes"] = bytes(data[40 + idl:40 + idl + ehl])
    r["eh"] = json.loads(r["ehbytes"]) if ehl else {}
    r["payload"] = bytes(data[40 + idl + ehl:size])
    r["size"] = size
    r["idl"], r["ehl"], r["dl"] = idl, ehl, dl
    zeroed = bytes(data[:28]) + b"\0\0\0\0" + bytes(data[32:size])
    r["crcok"] = crc32c(zeroed) == r["crc"]
    return r


def ms3_build(r):
    """bytes of a record from dict with MS3_FIELDS (crc is computed), identifier, ehbytes, payload"""
    ident = r["identifier"].encode("utf-8")
    out = bytearray(b"MS\x03")
    out += bytes([r["flags"]])
    out += r["nanosecond"].to_bytes(4, "little")
    out += r["year"].to_bytes(2, "little") + r["dayOfYear"].to_bytes(2, "little")
    out += bytes([r["hour"], r["minute"], r["second"], r["encoding"]])
    out += struct.pack("<d", r["sampleRatePeriod"])
    out += r["numSamples"].to_bytes(4, "little") + bytes(4)
    out += bytes([r["publicationVersion"], len(ident)])
    out += len(r["ehbytes"]).to_bytes(2, "little") + len(r["payload"]).to_bytes(4, "little")
    out += ident + r["ehbytes"] + r["payload"]
    out[28:32] = crc32c(out).to_bytes(4, "little")
    return bytes(out)


def ms3_split(data):
    """all records of a file"""
    out, off = [], 0
    data = bytes(data)
    while off < len(data):
        r = ms3_parse(data[off:])
        r["bytes"] = data[off:off + r["size"]]
        off += r["size"]
        out.append(r)
    return out


def ms3_samples(r):
    return payload_decode(r["encoding"], r["payload"], r["numSamples"], True)


# ---------------------------------------------------------------- miniSEED 2

def ms2_rate(factor, mult):
    """SEED manual: factor >0 samples per second, <0 seconds per sample; multiplier >0 multiply, <0 divide"""
    rate = float(factor) if factor > 0 else -1.0 / factor
    return rate * mult if mult > 0 else rate / -mult


def ms2_parse(data):
    """
    One record at the start of data. Header order by the year, blockettes by
    following the chain, data order by blockette 1000.
    """
    if len(data) < 48:
        raise RefError("short header")
    yb = int.from_bytes(data[20:22], "big")
    e = "big" if 1801 <= yb <= 2303 and yb not in (2055, 2056) else "little"
    c = ">" if e == "big" else "<"
    u16 = lambda o: int.from_bytes(data[o:o + 2], e)
    i16 = lambda o: int.from_bytes(data[o:o + 2], e, signed=True)
    r = dict(
        order=e,
        seq=bytes(data[0:6]), quality=chr(data[6]), reserved=data[7],
        sta=bytes(data[8:13]).decode().rstrip(" "), loc=bytes(data[13:15]).decode().rstrip(" "),
        chan=bytes(data[15:18]).decode().rstrip(" "), net=bytes(data[18:20]).decode().rstrip(" "),
        year=u16(20), yday=u16(22), hour=data[24], minute=data[25], second=data[26],
        tenthMilli=u16(28), numSamples=u16(30), factor=i16(32), mult=i16(34),
        actFlag=data[36], ioFlag=data[37], qualFlag=data[38], numBlockettes=data[39],
        timeCorr=int.from_bytes(data[40:44], e, signed=True),
        dataOffset=u16(44), blocketteOffset=u16(46),
    )
    if not 1 <= r["yday"] <= 366 or r["hour"] > 23 or r["minute"] > 59 or r["second"] > 60 or r["tenthMilli"] > 9999:
        raise RefError("bad time")
    off, bl = r["blocketteOffset"], []
    at = 47
    while off:
        if off <= at or off + 4 > len(data):
            raise RefError(f"blockette chain: {off} after {at}")
        num, nxt = u16(off), u16(off + 2)
        b = dict(num=num, offset=off, next=nxt)
        if num == 1000:
            b.update(encoding=data[off + 4], byteorder=data[off + 5], reclen=data[off + 6])
            at = off + 7
        elif num == 100:
            b.update(rate=struct.unpack(c + "f", bytes(data[off + 4:off + 8]))[0])
            at = off + 11
        elif num == 1001:
            b.update(quality=data[off + 4], micro=data[off + 5], frames=data[off + 7])
            at = off + 7
        else:
            b.update(body=off)
            at = off + 3
        bl.append(b)
        off = nxt
    if len(bl) != r["numBlockettes"]:
        raise RefError(f"{len(bl)} blockettes in chain, {r['numBlockettes']} in header")
    b1000 = [b for b in bl if b["num"] == 1000]
    if len(b1000) != 1:
        raise RefError(f"{len(b1000)} blockettes 1000")
    r["blockettes"] = bl
    r["encoding"] = b1000[0]["encoding"]
    r["little"] = b1000[0]["byteorder"] == 0
    r["size"] = 1 << b1000[0]["reclen"]
    if r["dataOffset"] and (r["dataOffset"] <= at or r["dataOffset"] > r["size"]):
        raise RefError(f"data offset {r['dataOffset']} of {r['size']} but blockettes end at {at + 1}")
    if len(data) < r["size"]:
        raise RefError(f"short record {len(data)} < {r['size']}")
    for b in bl:
        if "body" in b:
            end = b["next"] or r["dataOffset"] or r["size"]
            b["body"] = bytes(data[b["offset"] + 4:end])
    b100 = [b for b in bl if b["num"] == 100]
    if b100:
        r["rate"] = b100[0]["rate"]
    elif r["factor"] and r["mult"]:
        r["rate"] = ms2_rate(r["factor"], r["mult"])
    else:
        r["rate"] = 0.0
    r["btime"] = micros(r["year"], r["yday"], r["hour"], r["minute"], r["second"], r["tenthMilli"] * 100)
    r["payload"] = bytes(data[r["dataOffset"]:r["size"]]) if r["dataOffset"] else None
    return r


def ms2_samples(r):
    if r["numSamples"] == 0:
        return []
    return payload_decode(r["encoding"], r["payload"], r["numSamples"], r["little"])


def ms2_build(r):
    """
    Bytes of a record. r has the header values of ms2_parse (dataOffset and offsets
    are laid out here), blockettes as list of dicts with num and values, optional
    'gap' bytes before each, 'exp' the record length exponent, payload bytes or None.
    """
    e = r["order"]
    c = ">" if e == "big" else "<"
    size = 1 << r["exp"]
    out = bytearray(size)
    out[0:6] = r["seq"]
    out[6:8] = r["quality"].encode() + b" "
    out[8:20] = (r["sta"].ljust(5) + r["loc"].ljust(2) + r["chan"].ljust(3) + r["net"].ljust(2)).encode()
    struct.pack_into(c + "HHBBBxHHhhBBBBi", out, 20, r["year"], r["yday"], r["hour"], r["minute"], r["second"],
                     r["tenthMilli"], r["numSamples"], r["factor"], r["mult"],
                     r["actFlag"], r["ioFlag"], r["qualFlag"], len(r["blockettes"]), r["timeCorr"])
    off, places = 48, []
    for b in r["blockettes"]:
        off += b.get("gap", 0)
        places.append(off)
        off += {100: 12, 1000: 8, 1001: 8}.get(b["num"], 4 + len(b.get("body", b"")))
    end = off
    for i, b in enumerate(r["blockettes"]):
        nxt = places[i + 1] if i + 1 < len(places) else 0
        o = places[i]
        if b["num"] == 1000:
            body = struct.pack("BBBB", r["encoding"], 0 if r["little"] else 1, r["exp"], 0)
        elif b["num"] == 100:
            body = struct.pack(c + "fBBBB", b["rate"], 0, 0, 0, 0)
        elif b["num"] == 1001:
            body = struct.pack("BBBB", b["quality"], b["micro"], 0, b["frames"])
        else:
            body = b["body"]
        rec = struct.pack(c + "HH", b["num"], nxt) + body
        if o + len(rec) > size:
            raise RefError("blockettes do not fit")
        out[o:o + len(rec)] = rec
    struct.pack_into(c + "H", out, 46, places[0] if places else 0)
    if r["payload"] is not None:
        align = r.get("align", 64)
        doff = (end + align - 1) // align * align
        if doff + len(r["payload"]) > size:
            raise RefError("payload does not fit")
        out[doff:doff + len(r["payload"])] = r["payload"]
        struct.pack_into(c + "H", out, 44, doff)
        r["dataOffset"] = doff
    else:
        r["dataOffset"] = 0
    r["size"] = size
    return bytes(out)


# ---------------------------------------------------------------- source ids

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIG = "0123456789"


def ok_code(s, lo, hi, extra=""):
    return lo <= len(s) <= hi and all(ch in UP or ch in DIG or ch in extra for ch in s)


def sid_level_errors(net, sta=None, loc=None, source=None, sub=None):
    """set of names of levels that break the grammar"""
    bad = []
    if not ok_code(net, 1, 8):
        bad.append("network")
    if sta is not None and not ok_code(sta, 1, 8, "-"):
        bad.append("station")
    if loc is not None and (not ok_code(loc, 0, 8, "-") or loc == "--"):
        bad.append("location")
    if source is not None and not ok_code(source, 1, 10**9):
        bad.append("source")
    if sub is not None and not ok_code(sub, 0, 10**9):
        bad.append("subsource")
    return bad


def is_seed_temp(net):
    return len(net) == 2 and net != "XX" and net[0] in DIG + "XYZ" and net[1] in UP + DIG


def is_temp_historical(net):
    return (len(net) == 6 and not net.startswith("XX") and net[0] in DIG + "XYZ" and net[1] in UP + DIG
            and all(ch in DIG for ch in net[2:]))


def is_temp_convention(net):
    return (5 <= len(net) <= 8 and all(ch in UP + DIG for ch in net[:-4])
            and all(ch in DIG for ch in net[-4:]))
