"""C08 (ill-typed literals are reported) and C09 (lexical-to-value conversions)."""
import datetime
import functools
import itertools
from decimal import Decimal
from fractions import Fraction

from .. import real, xsdref
from ..engine import Check, RealError, Violation, real_code, show
from ..gen import E, rdf_list
from rdflib.namespace import DC, DCTERMS, SKOS
from ..vocab import BNode, EX, Literal, OWL, RDF, RDFS, URIRef, XSD, lit


def words(alphabet, n):
    return ["".join(c) for k in range(n + 1) for c in itertools.product(alphabet, repeat=k)]


def integer_strings(local, n):
    lo, hi = xsdref.INT_RANGES[local]
    out = words("019+-. ", n)
    for b in (lo, hi, 0, 2 ** 63, 2 ** 64, -2 ** 63, 127, 128, 255, 256, 32767, 65535, 2 ** 31, 2 ** 32, 10 ** 30):
        if b is None:
            continue
        for d in (-2, -1, 0, 1, 2):
            for s in (b + d, -(b + d)):
                x = str(s)
                out += [x, x.replace("-", "-0"), ("+" + x) if s >= 0 else x, x + ".0", x + " ", "\n" + x, x + "e0", x + "\n",
                        ("000" + x) if s >= 0 else "-000" + x[1:]]
    out += ["\u0661", "1\u0662", "\u00b2", "1_0", "0x1", "1L", "\n1", "1\t", "--1", "+-1", "1-", "one", "\u22121", "\uff11", "1,0", "INF",
            "NaN", "0b1", "0o1", "1e2", "\u00a01", "1\u2003", "\x0c1", "1\x1f", "true"]
    return out


def decimal_strings(n):
    return words("019.+-e ", n) + ["INF", "NaN", "Infinity", "1_0", "1\n", "\u0661.5", "1.5\n", "00012.3400", "-.5", "+.5", "-0.0",
                                   "123456789012345678901234567890.123456789012345678901234567890", "1,5", "1.5.2", "sNaN", "nan", "0x1",
                                   "1\u00a0", "1.\u0665", "1f", "1.0d"]


def double_strings(n):
    out = words("01.+-eE", n) + words("INFa+-", 4) + ["NaN", "-NaN", "+NaN", "nan", "inf", "Infinity", "-Infinity", "Inf", "INF ", " NaN",
                                                      "sNaN", "NaN1", "1e\n", "1e5\n", "1.5e-10", "-1E+5", "1e1.5", "1 e5", "1_0", "\u0661e1",
                                                      "0x1p3", "1.e1", ".1e1", ".e1", "1f", "12.34E005", "1e+-1", "1e--1"]
    return [s for s in out if exponent(s) < 39]


def exponent(s):
    """size of the exponent (the limits of float and double are out of scope)"""
    i = max(s.lower().rfind("e"), 0)
    t = s[i + 1:].lstrip("+-") if i else ""
    return int(t) if t.isdigit() else 0


def boolean_strings():
    out = ["true", "false", "1", "0", "TRUE", "True", "False", "FALSE", "yes", "no", "t", "f", "", " true", "true ", "01", "00", "10",
           "+1", "-0", "1.0", "0.0", "2", "-1", "truefalse", "tru", "alse", "\n1", "1\n", "\u0661", "on", "off", "None", "true\n", "true false"]
    return out + words("01", 3)


def b64_strings(n):
    return words("AQg=/ ", n) + ["".join(a) + "".join(b) for a in ("AAAA", "A A A A", "QUJD", "AAA A", "AAAA ", "+/+/", "AAA=", "AA==")
                                 for b in itertools.product("AQg=", repeat=4)] + [
        "-_-_", "AAAA\n", "A\nAAA", "\u0410\u0410\u0410\u0410", "AAA*", "A", "AA", "AAA", "AAAAA", "AA=A", "=AAA", "AAAA====", "AAAA=", "AA= ",
        "AA = =", "AA==AAAA", "yv4=", "YQ==", "YR==", "YWI=", "YWJ=", "YWJj", "A  AAA", "\tAAAA"]


def hex_strings(n):
    return words("0aFg ", n) + ["CAFE", "cafe", "caFe12", "0x12", "12\n", "\u0661\u0661", "\uff11\uff11", "1 2", "12 34", "+1", "-1", "_1", "1_"]


def language_strings():
    segs = ["", "a", "abcdefgh", "abcdefghi", "1", "a1", "12345678", "123456789", "en"]
    out = ["-".join(c) for k in (1, 2, 3) for c in itertools.product(segs, repeat=k)]
    return out + ["en_US", "en us", "\u00e9", "en-\u00e9", "en\n", " en", "en ", "x-klingon", "i-default", "en-US", "EN-us", "en-US-x-twain",
                  "*", "en-*", "e\u0301", "\u0661", "en-\u0661", "en--us"]


def time_parts():
    out = []
    for h, m, s in itertools.product(("00", "09", "23", "24", "9", "1a"), ("00", "59", "60", "5"), ("00", "59", "60", "61", "7", "-1")):
        if h == "24" or s in ("60", "61"):
            if h == "24" and m == "00" and s == "00":
                continue  # 24:00:00 is out of scope
            if s in ("60", "61"):
                continue  # leap seconds
        out.append("%s:%s:%s" % (h, m, s))
    base = "10:20:30"
    out += [base + f for f in (".", ".0", ".5", ".50", ".123456", ".000001", ".100000", ".12345", ".05", ".1a", ".5.5", ",5", ".-5", ".5 ",
                               ".999999", ".0000000", ".5000000")]
    out += ["10:20", "10", "102030", "10:20:30:40", "10-20-30", " 10:20:30", "10:20:30 ", "10:20:30\n", "+10:20:30", "-10:20:30", "10: 20:30",
            "\u0661\u0660:20:30", "1:20:30", "10:2:30", "10:20:3", "010:20:30", "", "T10:20:30", "10:20:30PM"]
    return out


ZONES = ["", "Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30", "-05:30", "+14:00", "-14:00", "+13:59", "-13:59",
         "+14:01", "-14:01", "+15:00", "+24:00", "+1:00", "+01:0", "+0100", "+01", "+01:60", "+01:59", "z", "ZZ", "UTC", " Z", "Z ", "+01:00Z",
         "Z+01:00", "+-1:00", "+\u0661\u0661:00", "-00:30", "+00:30", "01:00", "+01:00\n", "Z\n"]


def date_parts():
    out = ["%s-%s-%s" % c for c in itertools.product(("2020", "2019", "1900", "2000", "0001", "9999", "0400"),
                                                     ("01", "02", "04", "12"), ("01", "28", "29", "30", "31"))]
    out += ["2020-%s-%s" % c for c in itertools.product(["%02d" % m for m in range(0, 14)], ("00", "01", "28", "30", "31", "32"))]
    out += ["2020-1-01", "2020-01-1", "202-01-01", "20-01-01", "2020/01/01", "20200101", "2020-01", "2020", "", " 2020-01-01", "2020-01-01 ",
            "2020-01-01\n", "+2020-01-01", "2020-01-01-", "2020--01-01", "02020-01-01", "\u0662020-01-01", "2020-0\u0661-01", "2020-01-0a", "a020-01-01",
            "2020-01-01T", "01-01-2020", "2020-W01-1", "2020-001", "2020-01-001", "2020-001-01"]
    return out


def date_strings(tier):
    out = date_parts()
    ds = ["2020-02-29", "2019-02-29", "2020-13-01", "9999-12-31", "0001-01-01", "2020-1-01"]
    return out + [d + z for d in (ds if tier == "quick" else date_parts()[:200] + ds) for z in ZONES]


def time_strings(tier):
    out = time_parts()
    ts = ["00:00:00", "23:59:59", "10:20:30.5", "10:20:30.000001", "25:00:00", "10:20"]
    return out + [t + z for t in (ts if tier == "quick" else out) for z in ZONES]


def datetime_strings(tier):
    ds = ["2020-02-29", "2019-02-29", "9998-12-31", "0002-01-01", "2020-13-01", "2020-1-01", "2020-12-31", "2020-01-01"]
    ts = ["00:00:00", "23:59:59", "10:20:30.5", "10:20:30.000001", "25:00:00", "10:20", "10:60:00"]
    out = [d + "T" + t for d in ds for t in time_parts()] + [d + "T10:20:30" for d in date_parts()]
    zs = ZONES if tier != "quick" else ZONES
    for d in (ds[:5] if tier == "quick" else ds):
        for t in (ts[:5] if tier == "quick" else ts):
            out += [d + "T" + t + z for z in zs]
    out += ["2020-01-01%s10:20:30" % sep for sep in (" ", "t", "", "TT", "-", "\n", "T ")]
    out += ["2020-01-01", "T10:20:30", "2020-01-01T", "", "2020-01-01TZ", "2020-01-01Z", "2020-01-01ZT10:20:30", "2020-01-01+01:00T10:20:30"]
    return out


def plain_strings(n):
    return words("a@-1", n) + ["text@en", "text@", "text", "a@b@en", "a@en-US", "a@EN", "a\n@en", "a@en\n", "@", "@@", "@en", "a@en US", "a@abcdefghi",
                               "a@*", "a@en-", "\u00e9@en", "a@\u00e9", "a@ en"]


G_YEARS = ["2020", "0001", "-2020", "12020", "-12020", "02020", "202", "+2020", "", "20a0", "\u0662020", "2020 ", " 2020", "2020\n", "-", "--2020", "-0044", "9999", "10000"]


def g_strings(local):
    months = ["%02d" % m for m in range(0, 14)] + ["1", "a1", "001", "\u0660\u0661"]
    days = ["00", "01", "02", "09", "10", "28", "29", "30", "31", "32", "1", "001", "a1"]
    if local == "gYear":
        base = G_YEARS
    elif local == "gYearMonth":
        base = [y + "-" + m for y in G_YEARS for m in months] + ["202001", "2020", "2020--01", "2020-01-01"]
    elif local == "gMonth":
        base = ["--" + m for m in months] + ["-01", "01", "---01", "--01--", "--01-", "--1-", ""]
    elif local == "gDay":
        base = ["---" + d for d in days] + ["--01", "01", "----01", "---", ""]
    else:
        base = ["--" + m + "-" + d for m in months for d in days] + ["01-01", "--0101", "-01-01", "--01--01", "---01-01", ""]
    some = [b for b in base if b in ("2020", "-2020", "2020-05", "--05", "---05", "--05-05", "---31", "--02-29", "--02-30", "--13")]
    return base + [b + z for b in some for z in ZONES]


def long_strings(local):
    """long forms, and what becomes of them with a character more at either end or inside"""
    out = []
    for k in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000):
        z = "0" * k
        base = {"decimal": ["1" * k + "." + "1" * k, "-" + z + ".5", "1." + z], "float": ["1." + z + "e1", z + "1.5"], "double": ["1." + z + "e1", z + "1.5"],
                "boolean": ["1" * k, "true" * k, z + "1"], "hexBinary": ["0A" * k], "base64Binary": ["QUJD" * k, "QUJD" * k + "QQ==", "QUJD" * k + "QUI="],
                "language": ["en" + "-abc" * k, "en" + "-12345678" * k], "Name": ["a" * k, "a:b" * k], "NCName": ["a" * k, "a-b" * k], "NMTOKEN": ["a" * k, "1.-" * k],
                "token": ["a" * k, "a b " * k + "a"], "normalizedString": ["a" * k, "a  b " * k], "PlainLiteral": ["a" * k + "@en", "a" * k + "@en" + "-abc" * k, "a@" * k + "@en"],
                "time": ["10:20:30." + z, "10:20:30." + z + "Z"], "dateTime": ["2020-01-01T10:20:30." + z], "dateTimeStamp": ["2020-01-01T10:20:30." + z + "Z"]}.get(local, [])
        if local in xsdref.INT_RANGES:
            base = [z + "1", "-" + z + "1", z, "1" + z]
        if local in ("float", "double") and k > 30:
            base = ["1." + z + "e1", "1." + "1" * k]
        out += base + [y for b in base for c in ("x! .\n-=" if local in ("float", "double") else "x! .\n-@=9") for y in (b + c, c + b, b[:len(b) // 2] + c + b[len(b) // 2:], b[:-1] + c)]
    return out


def strings(dt, tier):
    """the enumerated strings for a datatype"""
    q, d = tier == "quick", int(tier == "deep")
    local = dt.split("#")[1]
    if local in xsdref.INT_RANGES:
        out = integer_strings(local, 4 if q or local not in ("integer", "byte", "unsignedByte", "negativeInteger") else 5 + d)
    elif local == "decimal":
        out = decimal_strings(4 if q else 5 + d)
    elif local in ("float", "double"):
        out = double_strings(4 if q else 5 + d)
    elif local == "boolean":
        out = boolean_strings()
    elif local == "hexBinary":
        out = hex_strings(4 if q else 6 + d)
    elif local == "base64Binary":
        out = b64_strings(5 if q else 6 + d)
    elif local in ("normalizedString", "token"):
        out = words("a \t\n\r", 4 if q else 6 + d) + words("a \u00a0", 4) + ["\u2003a", "a\u2003", "\u00e9 \u4e2d", "a\u3000b", "a\u0085", "a\u2028b"]
    elif local == "language":
        out = language_strings()
    elif local in ("Name", "NCName", "NMTOKEN"):
        out = words("a:1-._ \u00e9", 3 if q else 4 + d) + ["\u4e2d", "a\n", "\na", "a\tb", "a/b", "a#b", "a@b", "a+b", "a,b", "a*", "a'", "a b", "$a", "9",
                                                       "A-Z.0_9:x", "xml", "a\u2003b", "a(b)", "a=b", "a?b", "a\\b", "a\"b", "a&b", "a;b", "a%b", "a^b", "a~b"]
    elif local == "date":
        out = date_strings(tier)
    elif local == "time":
        out = time_strings(tier)
    elif local in ("dateTime", "dateTimeStamp"):
        out = datetime_strings(tier)
    elif local == "PlainLiteral":
        out = plain_strings(4 if q else 6 + d)
    elif local in G_TYPES:
        out = g_strings(local)
    elif local == "anyURI":
        out = ["", "http://ex.org/", "http://ex.org/a#b", "urn:x:y", "a", "a/b", "../a", "#frag", "//host/path", "%20a", "mailto:a@b"]
    elif local == "HTML":
        out = ["", "<b>x</b>", "x", "<br>", "<", "a&b"]
    else:  # string
        out = ["", " ", "\n", "a b", "10", "\t x\r", "\u00e9", "a@en", "true"]
    return list(dict.fromkeys(s for s in out + long_strings(local) if in_scope(s, local)))


def fractions(dt, n):
    """all fractions of a second with up to n digits"""
    base = {XSD.time: "10:20:30.%s", XSD.dateTime: "2020-01-01T10:20:30.%s", XSD.dateTimeStamp: "2020-01-01T10:20:30.%sZ"}.get(dt)
    return [base % ("%0*d" % (k, i)) for k in range(1, n + 1) for i in range(10 ** k)] if base else []


def in_scope(s, local):
    if local in ("date", "dateTime", "dateTimeStamp"):
        x = xsdref.split_tz(s)
        y = s.lstrip("-").split("-")[0]
        if s.startswith("-") or s.startswith("0000") or (len(y) > 4 and y.isdigit() and y[0] != "0"):
            return False  # years outside 0001-9999
    if local in ("time", "dateTime", "dateTimeStamp"):
        t = s.split("T")[-1]
        if t.startswith("24:00:00") or ":60" in t and t.count(":") >= 2 and t.split(":")[2].startswith("60"):
            return False
    return True


G_TYPES = ["gYear", "gYearMonth", "gMonth", "gDay", "gMonthDay"]
OWL_TYPES = [XSD[x] for x in list(xsdref.INT_RANGES) + (
    "decimal float double boolean hexBinary base64Binary string normalizedString token language Name NCName NMTOKEN anyURI date time dateTime "
    "dateTimeStamp").split()] + [RDF.PlainLiteral, RDF.HTML]
CONV_TYPES = OWL_TYPES + [XSD[x] for x in G_TYPES]


# strings on which no verdict is expected (limits, lenient parsers): not reported twice, and the expansion does not fail
OPEN = ["1E400", "-1E400", "1E-400", "1E9999999", "-1E9999999", "1E-9999999", "1E+99999999999999999999", "1E-99999999999999999999", "0E9999999", "9" * 400, "0." + "0" * 400 + "1",
        "1" * 4299, "1" * 4301, "-" + "9" * 5000, "infinity", "Infinity", "nan", "sNaN", "NaN123", "1_000", "0x10", "\u0661", "\uff11", "10000-01-01", "0000-01-01", "-0001-01-01", "10000-01-01T00:00:00Z",
        "0000-01-01T00:00:00", "24:00:00", "24:00:00Z", "23:59:60", "23:59:60Z", "2020-01-01T24:00:00", "2020-01-01T23:59:60Z", "2020-01-01+14:00", "2020-01-01T00:00:00+14:00", "00:00:00-14:00",
        "0001-01-01T00:00:00+14:00", "9999-12-31T23:59:59.999999999-14:00", "2020-01-01T00:00:00." + "1" * 50, "\ud7ff", "\U0001F600", "\u0300a", "a\u00b7", "<", "<a>", "<a/>", "&", "]]>", "\x7f", "\x01", "%zz", "http://[", "::",
        "x" * 3000, "en-" + "a" * 9, "A" * 4001]


# any predicate: the place of a literal is not special
PREDICATES = list(dict.fromkeys([n[x] for n in (RDF, RDFS, OWL) for x in n.__annotations__ if x[0] != "_"] + [RDF._1, SKOS.prefLabel, SKOS.notation, DC.title, DCTERMS.title, DCTERMS.description, E("p")]))


class C08(Check):
    id = "C08"
    rule = ("per datatype all strings up to a length over the characters that matter for it (numbers, signs, points, exponents, white space, "
            "hex digits, base64 with padding, names, language subtags), boundary values and their neighbours in several spellings, all combinations "
            "of date, time and zone fields, other scripts' digits; as literals of OWL 2 RL expansions, valid and invalid ones apart and "
            "mixed, on several positions and closures. Oracle: a string outside the lexical/value space of mc/xsdref.py is reported once, "
            "one inside never; %d strings at the limits, left open by the reference, at most once, and the expansion ends." % len(OPEN))
    assumptions = ["lexical spaces transcribed in mc/xsdref.py", "limits of float/double, years outside 0001-9999, 24:00:00, seconds above 59 and the "
                   "exact Unicode classes of names are not judged", "anyURI, string, HTML: only valid samples; gYear etc. are not OWL 2 RL datatypes (see C09)"]
    PACK = 300

    def cases(self, tier):
        for dt in OWL_TYPES:
            for kind in (True, False):
                # (RDFLib itself removes white space from token and normalizedString literals)
                xs = [s for s in strings(dt, tier) if xsdref.valid(s, dt) is kind and str(lit(s, dt)) == s]
                for i in range(0, len(xs), self.PACK):
                    yield "%s %s" % (dt.split("#")[1], "valid" if kind else "invalid"), (dt, kind, xs[i:i + self.PACK])
        for dt in OWL_TYPES:
            yield "open", (dt, None, [s for s in OPEN if str(lit(s, dt)) == s])
        pool = ["1", "-1", "1.0", "300", "true", "a", "a b", "", "CAFE", "yv4=", "2020-01-01", "2020-01-01T00:00:00Z", "10:00:00", "en", "NaN", " 1", "1 "]
        for mode in ("owl", "both", "ext", "trim"):
            yield "mixed", ("mixed", mode, pool)
            for pos in range(7):
                yield "position", ("position", mode, pos)
            for p in PREDICATES if mode == "owl" or tier != "quick" else PREDICATES[::5]:
                yield "predicate", ("position", mode, p)

    def describe(self, payload):
        return [str(payload[0]), str(payload[1])] + (list(payload[2])[:15] if isinstance(payload[2], list) else [payload[2]])

    def run(self, label, payload, stats):
        if payload[0] == "mixed":
            return self.mixed(payload[1], [(s, dt) for s in payload[2] for dt in OWL_TYPES if dt not in (XSD.anyURI, RDF.HTML, XSD.string) and str(lit(s, dt)) == s], stats)
        if payload[0] == "position":
            return self.position(payload[1], payload[2], stats)
        dt, ok, xs = payload
        stats["literals"] += len(xs)
        stats["states"] += len(xs)
        stats["transitions"] += len(xs)
        stats.see("datatypes", dt)
        for x in xs:
            stats.see("literals", (dt, x))
        bad = self.literals(dt, ok, xs, stats)
        if bad:
            return [Violation("%s %r" % (dt, x), "%r as %s is %s" % (x, dt, "reported more than once" if ok is None else "valid, but reported" if ok else "invalid, but not reported"))
                    for x in bad[:3]]
        return None

    def literals(self, dt, ok, xs, stats):
        """the literals that are judged wrongly (all of them, when it takes several)"""
        with real_code(200):
            ex = real.expand([(E("a"), E("p"), lit(x, dt)) for x in xs], "owl")
        stats["impl"] += 1
        if (ex.error_nodes == (0 if ok else len(xs)) or ok is None and ex.error_nodes <= len(xs)) and not ex.malformed:
            return []
        if len(xs) == 1:
            return xs
        h = len(xs) // 2
        return self.literals(dt, ok, xs[:h], stats) or self.literals(dt, ok, xs[h:], stats) or xs

    def mixed(self, mode, pairs, stats):
        """valid and invalid literals of all datatypes in one graph"""
        from ..vocab import DISJOINT_PAIRS  # noqa: F401  (the literals are of one datatype each: no clashes)
        n = sum(not xsdref.valid(s, dt) for s, dt in pairs)
        with real_code(200):
            ex = real.expand([(E("a"), E("p"), lit(s, dt)) for s, dt in pairs], mode)
        stats["impl"] += 1
        stats["states"] += len(pairs)
        stats["transitions"] += len(pairs)
        if ex.error_nodes == n:
            return None
        if len(pairs) > 1:
            h = len(pairs) // 2
            vs = self.mixed(mode, pairs[:h], stats) or self.mixed(mode, pairs[h:], stats)
            if vs:
                return vs
        return [Violation("mixed %s %s" % (mode, pairs[:3]), "%s: %d reports instead of %d for %s" % (mode, ex.error_nodes, n, pairs))]

    def position(self, mode, pos, stats):
        """the literals at other places of the graph"""
        bad, good = lit("ten", "xsd:integer"), lit("10", "xsd:integer")
        vs = []
        if isinstance(pos, URIRef):
            for s, (x, n) in itertools.product((E("a"), BNode("zq1qz")), ((bad, 1), (good, 0))):
                with real_code(60):
                    ex = real.expand([(s, pos, x)], mode)
                stats["impl"] += 1
                stats["states"] += 1
                stats["transitions"] += 1
                if ex.error_nodes != n:
                    vs.append(Violation("predicate %s %s %s" % (mode, pos, show([(s, x)])), "%s: %d reports instead of %d for %s" % (mode, ex.error_nodes, n, show([(s, pos, x)]))))
            return vs
        for x, n in ((bad, 1), (good, 0)):
            tr = [
                [(E("a"), OWL.sameAs, x)],
                [(E("R"), OWL.hasValue, x), (E("R"), OWL.onProperty, E("p")), (E("a"), RDF.type, E("R"))],
                rdf_list(E("l"), [x, E("b")]) + [(E("C"), OWL.oneOf, E("l"))],
                [(E("a"), E("p"), x), (E("b"), E("q"), x), (E("p"), RDFS.range, E("C"))],
                [(E("a"), RDFS.label, x)],
                [(E("p"), RDF.type, OWL.SymmetricProperty), (E("a"), E("p"), x)],
                [(E("p"), OWL.inverseOf, E("q")), (E("a"), E("p"), x), (E("a"), E("p"), lit("10", "xsd:byte"))],
            ][pos]
            with real_code(60):
                ex = real.expand(tr, mode)
            stats["impl"] += 1
            stats["states"] += 1
            stats["transitions"] += 1
            if ex.error_nodes != n:
                vs.append(Violation("position %s %d" % (mode, pos), "%s: %d reports instead of %d for %s" % (mode, ex.error_nodes, n, tr)))
        return vs


# ------------------------------------------------------------------------------------------------ C09
def canonical(v, dt):
    """the Python value of a conversion -> a value as in xsdref, or a string that tells why it is none"""
    space = xsdref.BY_IRI[dt][0]
    if space == "num":
        if isinstance(v, bool) or not isinstance(v, (int, Decimal)):
            return "a %s for a number" % type(v).__name__
        if isinstance(v, Decimal) and not v.is_finite():
            return "not a finite number"
        return (space, Fraction(v))
    if space in ("float", "double"):
        if not isinstance(v, (Decimal, float, int)) or isinstance(v, bool):
            return "a %s for a number" % type(v).__name__
        if v != v:
            return (space, ("nan",))
        if isinstance(v, Decimal) and v.is_infinite() or v in (float("inf"), float("-inf")):
            return (space, ("inf", 1 if v > 0 else -1))
        return (space, ("n", Fraction(v)))
    if space == "bool":
        return (space, v) if isinstance(v, bool) else "a %s for a boolean" % type(v).__name__
    if space in ("hex", "b64"):
        return (space, bytes(v)) if isinstance(v, (bytes, bytearray)) else "a %s for binary data" % type(v).__name__
    if space == "dt":
        if not isinstance(v, datetime.datetime):
            return "a %s for a dateTime" % type(v).__name__
        off = v.utcoffset()
        sec = xsdref.day_number(v.year, v.month, v.day) * 86400 + v.hour * 3600 + v.minute * 60 + v.second + Fraction(v.microsecond, 10 ** 6)
        return (space, (off is not None, sec - (Fraction(off // datetime.timedelta(microseconds=1), 10 ** 6) if off is not None else 0)))
    if space == "time":
        if not isinstance(v, datetime.time):
            return "a %s for a time" % type(v).__name__
        off = v.utcoffset()
        sec = v.hour * 3600 + v.minute * 60 + v.second + Fraction(v.microsecond, 10 ** 6)
        return (space, (off is not None, sec - (Fraction(off // datetime.timedelta(microseconds=1), 10 ** 6) if off is not None else 0)))
    if space == "date":
        if not isinstance(v, datetime.date) or isinstance(v, datetime.datetime):
            return "a %s for a date" % type(v).__name__
        return (space, (v.year, v.month, v.day))
    if space == "plain":
        if not isinstance(v, Literal) or v.datatype is not None and v.datatype != XSD.string:
            return "a %s for a plain literal" % type(v).__name__
        return (space, (str(v), v.language.lower() if v.language else None))
    return (space, v) if type(v) is str else "a %s for a string" % type(v).__name__


def expected(s, dt):
    v = xsdref.value(s, dt)
    if v is not None and v[0] == "date":  # only the calendar day (the zone: see the known findings)
        return ("date", (int(s[:4]), int(s[5:7]), int(s[8:10])))
    return v


def fine(v):
    """can Python represent the value exactly (microseconds)"""
    return v[0] not in ("dt", "time") or v[1][1] * 10 ** 6 == int(v[1][1] * 10 ** 6)


def order_key(v):
    """comparable values: (group, key); None: not ordered"""
    if v[0] == "num":
        return ("n", v[1])
    if v[0] in ("float", "double"):
        if v[1] == ("nan",):
            return None
        return ("n", (v[1][1], 0) if v[1][0] == "inf" else (0, v[1][1]))
    if v[0] in ("dt", "time"):
        return (v[1][0], v[1][1])
    if v[0] == "date":
        return (v[1][0], v[1][1])
    return None


class C09(Check):
    id = "C09"
    rule = ("per datatype (all of the conversion table but XMLLiteral) the same enumerations as C08: the conversion of every string is the value of "
            "mc/xsdref.py or a ValueError, both when called directly and as value of an RDFLib literal created while the improved conversions are "
            "in use; plus equality and order of all pairs of a pool of valid strings per datatype.")
    assumptions = ["values transcribed in mc/xsdref.py", "float, double: no magnitude limits, years 0001-9999, no fractions below microseconds",
                   "gYear etc. keep their lexical form as value", "dates and times with a zone are not ordered against those without"]

    def cases(self, tier):
        a, b = "2020-01-01Z", "2020-01-01+05:00"
        yield "finding:dates in different time zones", ("pair", XSD.date, [(a, b)])
        for dt in CONV_TYPES:
            xs = strings(dt, "thorough" if tier == "quick" else "deep") + fractions(dt, 4 if tier == "quick" else 6)
            for i in range(0, len(xs), 1000):
                yield "values " + dt.split("#")[1], ("values", dt, xs[i:i + 1000])
            xs = [s for s in xs if xsdref.valid(s, dt)]
            n = 150 if tier == "quick" else 400
            if dt == XSD.date:  # by zone (see the known findings)
                pools = [self.pool(dt, [x for x in xs if x[10:] == z], n) for z in ("", "Z", "+05:30", "-14:00")]
            else:
                pools = [self.pool(dt, xs, n)]
            pairs = [p for pool in pools for p in itertools.product(pool, repeat=2)]
            for i in range(0, len(pairs), 3000):
                yield "pairs " + dt.split("#")[1], ("pair", dt, pairs[i:i + 3000])

    def pool(self, dt, xs, n):
        # half with values that several strings share
        groups = {}
        for x in xs:
            groups.setdefault(xsdref.value(x, dt), []).append(x)
        out = []
        for g in sorted(groups.values(), key=lambda g: -len(g)):
            out += g[:3] if len(g) > 1 else []
        out = out[:n // 2]
        rest = [x for x in xs if x not in out]
        step = max(1, len(rest) // (n - len(out)))
        return out + rest[::step][:n - len(out)]

    def describe(self, payload):
        return [payload[0], str(payload[1]), repr(payload[2][:12])]

    def run(self, label, payload, stats):
        import owlrl
        from owlrl.DatatypeHandling import AltXSDToPYTHON, use_Alt_lexical_conversions, use_RDFLib_lexical_conversions
        kind, dt, xs = payload
        if dt not in AltXSDToPYTHON:
            return [Violation("no conversion for " + dt, "there is no conversion for %s" % dt)]
        conv = AltXSDToPYTHON[dt]
        stats.see("datatypes", dt)
        bad = []
        if kind == "values":
            with real_code(120):
                use_Alt_lexical_conversions()
            try:
                for s in xs:
                    stats["states"] += 1
                    stats["transitions"] += 2
                    stats["impl"] += 2
                    want = expected(s, dt)
                    if want is not None and not fine(want):
                        continue
                    try:
                        got = canonical(conv(s), dt)
                    except ValueError:
                        got = None
                    except Exception as e:
                        got = "%s: %s" % (type(e).__name__, e)
                    stats.see("values", repr(got))
                    if got != want:
                        bad.append((s, "converts to %s instead of %s" % (got, want)))
                        continue
                    if str(lit(s, dt)) != s:
                        continue
                    try:
                        v = Literal(s, datatype=dt, normalize=False).value
                        got = None if v is None else canonical(v, dt)
                    except Exception as e:
                        got = "%s: %s" % (type(e).__name__, e)
                    if got != want:
                        bad.append((s, "has as RDFLib literal the value %s instead of %s" % (got, want)))
            finally:
                use_RDFLib_lexical_conversions()
            return [Violation("%s %r" % (dt, s), "%r as %s %s" % (s, dt, w)) for s, w in bad[:3]]
        val = {}
        for s in {x for p in xs for x in p}:
            with real_code(30):
                val[s] = conv(s)
        for s, t in xs:
            stats["states"] += 1
            stats["transitions"] += 1
            stats["impl"] += 1
            a, b = xsdref.value(s, dt), xsdref.value(t, dt)
            nan = ("nan",) in (a[1], b[1])
            if not (fine(a) and fine(b)):
                continue
            try:
                eq = val[s] == val[t]
            except Exception as e:
                eq = "%s: %s" % (type(e).__name__, e)
            want = a == b and not nan
            if eq != want and not (nan and s == t):
                bad.append((s, t, "equal: %s instead of %s" % (eq, want)))
                continue
            ka, kb = order_key(a), order_key(b)
            if ka is None or kb is None or ka[0] != kb[0]:
                continue
            try:
                lt = val[s] < val[t]
            except Exception as e:
                lt = "%s: %s" % (type(e).__name__, e)
            if lt != (ka[1] < kb[1]):
                bad.append((s, t, "less: %s instead of %s" % (lt, ka[1] < kb[1])))
        key = "%s" if not label.startswith("finding:") else label + "%.0s"
        return [Violation(key % ("%s %r %r" % (dt, s, t)), "%s %r and %r: %s" % (dt, s, t, w)) for s, t, w in bad[:3]]


CHECKS = {c.id: c for c in (C08, C09)}
