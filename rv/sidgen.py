"""Codes of source identifiers, legal and hostile."""
from .ref import UP, DIG

LOWER = "abcxyz"
# characters that look like letters or digits, controls, separators
ODD = ["-", "_", ".", ":", " ", "\n", "\t", "\0", "/", "*", "\u00c9", "\u0416", "\u0663", "\u00b2", "\uff21", "\uff11", "\u2460", "\U0001d7d8",
       "\u00df", "\u0130", "\U0001f600", "\ud800", "\u200b", "\u2028", "{", "%s", "\\", "'", '"', "[", "\r"]
NETS = ["CO", "IU", "SS", "XX", "XD", "Y2", "7B", "00", "Z9", "XA", "XD1994", "Y22025", "ABCD2025", "A2020", "XX1234", "XXAB", "1A2020",
        "99", "XXX", "X", "A", "7", "ABCDEFGH", "12345678", "AB1234", "Z", "YX", "ZZ1999", "CO2010", "A12345", "12345", "1234", "WX", "AX"]


def word(rng, lo, hi, chars):
    return "".join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))


def net(rng):
    return rng.choice(NETS) if rng.random() < 0.5 else word(rng, 1, 8, UP + DIG)


def sta(rng):
    return rng.choice(["BIRD", "A", "ANMO", "-", "--", "A-B", "12345678"]) if rng.random() < 0.3 else word(rng, 1, 8, UP + DIG + "-")


def loc(rng):
    return rng.choice(["", "", "00", "10", "-", "---", "0-", "12345678"]) if rng.random() < 0.5 else word(rng, 0, 8, UP + DIG + "-").replace("--", "0-")


def band(rng):
    return rng.choice(UP + "  ").strip()


def source(rng):
    return rng.choice(UP + DIG) if rng.random() < 0.5 else word(rng, 1, rng.choice([2, 3, 12]), UP + DIG)


def subsource(rng):
    return rng.choice(UP + DIG) if rng.random() < 0.5 else word(rng, 0, rng.choice([0, 2, 12]), UP + DIG)


def codes(rng):
    return net(rng), sta(rng), loc(rng), band(rng), source(rng), subsource(rng)


def hostile(rng, s):
    """a legal code spoilt, or not"""
    r = rng.random()
    if r < 0.4:
        return s
    ch = rng.choice(ODD + list(LOWER))
    if r < 0.6:
        at = rng.randrange(len(s) + 1)
        return s[:at] + ch + s[at:]
    if r < 0.7:
        return s + rng.choice(["\n", " ", "\r\n", ch])
    if r < 0.75:
        return ch + s
    if r < 0.8:
        return ""
    if r < 0.85:
        return rng.choice(["-", "--", "---", "__", "  ", "\n"])
    if r < 0.95:
        return s * rng.choice([2, 3, 9]) + word(rng, 0, 3, UP + DIG)
    return s.lower()
