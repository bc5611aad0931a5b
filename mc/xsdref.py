"""Reference for XSD lexical spaces and values: written from XML Schema part 2, no code shared with owlrl.

valid(lex, dt)      -> is lex in the lexical space of dt (and its value in the value space)
value(lex, dt)      -> canonical value: a tuple whose first element names the (primitive) value space
Scope notes (DESIGN.md): no magnitude limits of float/double, years 0001-9999, no hour 24, fractions down to
microseconds, ASCII name characters plus the letters e-acute and the CJK character U+4E2D.
"""
from fractions import Fraction

from .vocab import RDF, XSD

DIGITS = "0123456789"
ASCII_LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
OTHER_LETTERS = "\u00e9\u4e2d"
HEX = DIGITS + "abcdefABCDEF"
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

INT_RANGES = {
    "integer": (None, None), "nonNegativeInteger": (0, None), "positiveInteger": (1, None),
    "nonPositiveInteger": (None, 0), "negativeInteger": (None, -1),
    "byte": (-2 ** 7, 2 ** 7 - 1), "short": (-2 ** 15, 2 ** 15 - 1), "int": (-2 ** 31, 2 ** 31 - 1),
    "long": (-2 ** 63, 2 ** 63 - 1),
    "unsignedByte": (0, 2 ** 8 - 1), "unsignedShort": (0, 2 ** 16 - 1), "unsignedInt": (0, 2 ** 32 - 1),
    "unsignedLong": (0, 2 ** 64 - 1),
}


def _all(s, alphabet):
    return all(c in alphabet for c in s)


def _digits(s):
    return s != "" and _all(s, DIGITS)


def _unsign(s):
    return (s[0], s[1:]) if s[:1] in ("+", "-") else ("+", s)


def p_integer(s):
    sign, d = _unsign(s)
    if not _digits(d):
        return None
    n = 0
    for c in d:
        n = n * 10 + DIGITS.index(c)
    return -n if sign == "-" else n


def p_decimal(s):
    sign, d = _unsign(s)
    i, dot, f = d.partition(".")
    if not (_all(i, DIGITS) and _all(f, DIGITS) and (i or f)):
        return None
    n = Fraction(p_integer((i + f) or "0"), 10 ** len(f))
    return -n if sign == "-" else n


def p_double(s):
    if s in ("INF", "+INF"):
        return ("inf", 1)
    if s == "-INF":
        return ("inf", -1)
    if s == "NaN":
        return ("nan",)
    m, e = s, "0"
    for i, c in enumerate(s):
        if c in "eE":
            m, e = s[:i], s[i + 1:]
            break
    a, b = p_decimal(m), p_integer(e)
    if a is None or b is None:
        return None
    return ("n", a * (Fraction(10) ** b))


def p_boolean(s):
    return {"true": True, "1": True, "false": False, "0": False}.get(s)


def p_hex(s):
    if len(s) % 2 or not _all(s, HEX):
        return None
    return bytes(int(s[i:i + 2], 16) for i in range(0, len(s), 2))


def p_b64(s):
    """single spaces may separate the characters; the padding fixes the last character of the content"""
    if s.startswith(" ") or s.endswith(" ") or "  " in s:
        return None
    t = s.replace(" ", "")
    pad = len(t) - len(t.rstrip("="))
    t = t.rstrip("=")
    if not _all(t, B64) or pad > 2 or (len(t) + pad) % 4:
        return None
    bits = "".join(format(B64.index(c), "06b") for c in t)
    drop = {0: 0, 1: 2, 2: 4}[pad]
    if drop and bits[-drop:] != "0" * drop:
        return None
    bits = bits[:len(bits) - drop]
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def day_number(y, m, d):
    n = d
    for k in range(1, m):
        n += month_days(y, k)
    return n + 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400


def _n(s, width, lo, hi):
    if len(s) != width or not _digits(s):
        return None
    n = int(s)
    return n if lo <= n <= hi else None


def split_tz(s):
    """-> (rest, minutes or None), or None if it looks like a zone and is not one"""
    if s.endswith("Z"):
        return s[:-1], 0
    if len(s) >= 6 and s[-6] in "+-" and s[-3] == ":":
        h, m = _n(s[-5:-3], 2, 0, 14), _n(s[-2:], 2, 0, 59)
        if h is None or m is None or (h == 14 and m):
            return None
        return s[:-6], (h * 60 + m) * (-1 if s[-6] == "-" else 1)
    return s, None


def p_date_part(s):
    if len(s) != 10 or s[4] != "-" or s[7] != "-":
        return None
    y, m, d = _n(s[:4], 4, 1, 9999), _n(s[5:7], 2, 1, 12), _n(s[8:], 2, 1, 31)
    if None in (y, m, d) or d > month_days(y, m):
        return None
    return day_number(y, m, d)


def p_time_part(s):
    if len(s) < 8 or s[2] != ":" or s[5] != ":":
        return None
    h, m, sec = _n(s[:2], 2, 0, 23), _n(s[3:5], 2, 0, 59), _n(s[6:8], 2, 0, 59)
    if None in (h, m, sec):
        return None
    f = Fraction(0)
    if len(s) > 8:
        if s[8] != "." or not _digits(s[9:]):
            return None
        f = Fraction(int(s[9:]), 10 ** len(s[9:]))
    return h * 3600 + m * 60 + sec + f


def p_datetime(s, need_tz=False):
    x = split_tz(s)
    if x is None:
        return None
    r, tz = x
    if need_tz and tz is None:
        return None
    if len(r) < 19 or r[10] != "T":
        return None
    d, t = p_date_part(r[:10]), p_time_part(r[11:])
    if d is None or t is None:
        return None
    sec = d * 86400 + t
    return (tz is not None, sec - (tz or 0) * 60)


def p_time(s):
    x = split_tz(s)
    if x is None:
        return None
    r, tz = x
    t = p_time_part(r)
    if t is None:
        return None
    return (tz is not None, t - (tz or 0) * 60)


def p_date(s):
    x = split_tz(s)
    if x is None:
        return None
    r, tz = x
    d = p_date_part(r)
    if d is None:
        return None
    return (tz is not None, d * 86400 - (tz or 0) * 60)


def _p_year(s):
    neg = s.startswith("-")
    d = s[1:] if neg else s
    if not _digits(d) or len(d) < 4 or (len(d) > 4 and d[0] == "0"):
        return None
    return -int(d) if neg else int(d)


def p_gyear(s):
    x = split_tz(s)
    return None if x is None or _p_year(x[0]) is None else s


def p_gyearmonth(s):
    x = split_tz(s)
    if x is None or x[0][-3:-2] != "-":
        return None
    return None if _p_year(x[0][:-3]) is None or _n(x[0][-2:], 2, 1, 12) is None else s


def p_gmonth(s):
    x = split_tz(s)
    return s if x is not None and x[0][:2] == "--" and _n(x[0][2:], 2, 1, 12) is not None else None


def p_gday(s):
    x = split_tz(s)
    return s if x is not None and x[0][:3] == "---" and _n(x[0][3:], 2, 1, 31) is not None else None


def p_gmonthday(s):
    x = split_tz(s)
    if x is None or x[0][:2] != "--" or x[0][4:5] != "-":
        return None
    m, d = _n(x[0][2:4], 2, 1, 12), _n(x[0][5:], 2, 1, 31)
    return None if m is None or d is None or d > month_days(2000, m) else s


def p_normalized(s):
    return s if not any(c in "\n\t\r" for c in s) else None


def p_token(s):
    return s if p_normalized(s) is not None and s == s.strip(" ") and "  " not in s else None


def p_language(s):
    parts = s.split("-")
    for i, x in enumerate(parts):
        if not 1 <= len(x) <= 8 or not _all(x, ASCII_LETTERS + (DIGITS if i else "")):
            return None
    return s


NAME_START = ASCII_LETTERS + OTHER_LETTERS + ":_"
NAME_CHAR = NAME_START + DIGITS + "-."


def p_name(s):
    return s if s != "" and s[0] in NAME_START and _all(s, NAME_CHAR) else None


def p_ncname(s):
    return p_name(s) if ":" not in s else None


def p_nmtoken(s):
    return s if s != "" and _all(s, NAME_CHAR) else None


def p_plain(s):
    if "@" not in s:
        return None
    i = s.rindex("@")
    text, tag = s[:i], s[i + 1:]
    if tag == "":
        return (text, None)
    return None if p_language(tag) is None else (text, tag.lower())


PARSERS = {
    "decimal": ("num", p_decimal), "boolean": ("bool", p_boolean), "hexBinary": ("hex", p_hex),
    "base64Binary": ("b64", p_b64), "float": ("float", p_double), "double": ("double", p_double),
    "string": ("str", lambda s: s), "normalizedString": ("str", p_normalized), "token": ("str", p_token),
    "language": ("str", p_language), "Name": ("str", p_name), "NCName": ("str", p_ncname),
    "NMTOKEN": ("str", p_nmtoken), "anyURI": ("uri", lambda s: s),
    "dateTime": ("dt", p_datetime), "dateTimeStamp": ("dt", lambda s: p_datetime(s, True)),
    "time": ("time", p_time), "date": ("date", p_date),
    "gYear": ("gYear", p_gyear), "gYearMonth": ("gYearMonth", p_gyearmonth), "gMonth": ("gMonth", p_gmonth),
    "gDay": ("gDay", p_gday), "gMonthDay": ("gMonthDay", p_gmonthday),
}
for _k, _r in INT_RANGES.items():
    def _f(s, r=_r):
        n = p_integer(s)
        if n is None or (r[0] is not None and n < r[0]) or (r[1] is not None and n > r[1]):
            return None
        return n
    PARSERS[_k] = ("num", _f)
BY_IRI = {XSD[k]: v for k, v in PARSERS.items()}
BY_IRI[RDF.PlainLiteral] = ("plain", p_plain)
BY_IRI[RDF.HTML] = ("html", lambda s: s)


def value(lex, dt):
    """(value space, value) or None if ill-typed; KeyError for unknown datatypes"""
    space, p = BY_IRI[dt]
    v = p(lex)
    if v is None:
        return None
    if space == "num":
        v = Fraction(v)
    return (space, v)


def valid(lex, dt):
    return value(lex, dt) is not None


def value_key(lex, dt):
    """For RDFS: hashable identity of the value, or None when the literal is equal to itself only."""
    if dt not in BY_IRI:
        return None
    v = value(lex, dt)
    if v is None or v[0] in ("plain", "html") or v[1] == ("nan",):
        return None
    return v
