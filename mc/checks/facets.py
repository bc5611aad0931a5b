"""Facet-restricted datatypes: C21 in expansions, C22 the facet checks themselves."""
import itertools

from .. import real, xsdref
from ..engine import Check, RealError, Violation, n3, real_code, show
from ..gen import E, rdf_list
from ..vocab import BNode, Literal, OWL, RDF, RDFS, URIRef, XSD
from owlrl import DatatypeHandling, RestrictedDatatype as RD

LENGTH_FACETS = ("length", "minLength", "maxLength")
ORDER_FACETS = ("minInclusive", "minExclusive", "maxInclusive", "maxExclusive")


# ------------------------------------------------------------------------------------------------ reference
def compare(a, b):
    """-1, 0, 1, or None for values that cannot be compared; a, b: values as xsdref gives them"""
    if isinstance(a, tuple):
        if a[0] in ("n", "inf", "nan"):
            if "nan" in (a[0], b[0]):
                return None
            rank = lambda x: (x[1], 0) if x[0] == "inf" else (0, x[1])  # noqa: E731
            a, b = rank(a), rank(b)
        elif a[0] != b[0]:
            return None  # with and without time zone, less than 14 hours apart (see the pools)
        else:
            a, b = a[1], b[1]
    return (a > b) - (a < b)


def size(space, v):
    return len(v[0]) if space == "plain" else len(v)


def in_range(rng, tag):
    """RFC 4647, section 3.3.2 (extended filtering)"""
    r, t = rng.lower().split("-"), tag.lower().split("-")

    def rest(i, j):
        if i == len(r):
            return True
        if r[i] == "*":
            return rest(i + 1, j)
        if j == len(t):
            return False
        if r[i] == t[j]:
            return rest(i + 1, j + 1)
        if len(t[j]) == 1:
            return False
        return rest(i, j + 1)
    return (r[0] == "*" or r[0] == t[0]) and rest(1, 1)


def full(words):
    return lambda s: s in words


PATTERNS = {
    "[0-9]+": lambda s: s != "" and all(c in xsdref.DIGITS for c in s),
    "a|ab": full(("a", "ab")),
    "ab|a": full(("a", "ab")),
    "[a-c]*": lambda s: all(c in "abc" for c in s),
    "a.*": lambda s: s[:1] == "a" and "\n" not in s,
    "(ab)+c?": lambda s: (lambda t: t != "" and len(t) % 2 == 0 and t == "ab" * (len(t) // 2))(s[:-1] if s.endswith("c") else s),
    ".{2}": lambda s: len(s) == 2 and "\n" not in s,
    "\\w+": lambda s: s != "" and all(c.isalpha() or c.isdigit() for c in s),
    "\\d\\d?": lambda s: len(s) in (1, 2) and all(c.isdigit() for c in s),
    "[^a\\s]B?": lambda s: len(s) in (1, 2) and s[0] not in "a \n" and s[1:] in ("", "B"),
    "http://.*": lambda s: s.startswith("http://") and "\n" not in s,
    "e[n-t](-[A-Z]{2})?": lambda s: s[:1] == "e" and len(s) in (2, 5) and "n" <= s[1:2] <= "t" and (len(s) == 2 or s[2] == "-" and all("A" <= c <= "Z" for c in s[3:])),
}


def holds(facet, bound, base, lex):
    """does the value of the (valid) lexical form satisfy one facet; bound: (lexical form, datatype)"""
    space, v = xsdref.value(lex, base)
    if facet in ORDER_FACETS:
        c = compare(v, xsdref.value(*bound)[1])
        if c is None:
            return False
        return {"minInclusive": c >= 0, "minExclusive": c > 0, "maxInclusive": c <= 0, "maxExclusive": c < 0}[facet]
    if facet in LENGTH_FACETS:
        n, k = size(space, v), xsdref.p_integer(bound[0])
        return {"length": n == k, "minLength": n >= k, "maxLength": n <= k}[facet]
    if facet == "pattern":
        return PATTERNS[bound[0]](v[0] if space == "plain" else lex)
    if facet == "langRange":
        return v[1] is not None and in_range(bound[0], v[1])
    raise KeyError(facet)


def accepted(facets, base, lex):
    return xsdref.valid(lex, base) and all(holds(f, b, base, lex) for f, b in facets)


# ------------------------------------------------------------------------------------------------ pools
def order_pool(bounds, dt):
    return [(f, (b, dt)) for f in ORDER_FACETS for b in bounds]


def length_pool(ns):
    return [(f, (str(n), XSD.integer)) for f in LENGTH_FACETS for n in ns]


def pattern_pool(ps):
    return [("pattern", (p, XSD.string)) for p in ps]


STRINGS = ["", "a", "ab", "abc", "abab", "ababc", "b", "12", "1", "a b", "cab", "abx", "xab", "\u00e9", "\u4e2d\u00e9a", "AB", "\u0661\u0662", "\u00e9B"]
DT = ["2020-03-01T12:00:00", "2020-03-01T12:00:00.5", "2020-03-01T11:59:59", "2020-03-01T12:00:00Z", "2020-03-01T13:00:00+01:00", "2020-03-01T12:30:00Z",
      "2020-03-01T07:00:00-05:00", "2020-02-29T23:00:00Z", "2019-12-31T23:59:59", "soon"]
GROUPS = {
    # base: (facets, values)
    "integer": (order_pool(["3", "5", "-2"], XSD.integer) + order_pool(["3.5"], XSD.decimal), ["-3", "-2", "-1", "0", "2", "3", "4", "5", "6", "+4", "004", "3.5", "x", ""]),
    "decimal": (order_pool(["3", "-2"], XSD.integer) + order_pool(["3.5", "0.1"], XSD.decimal), ["-2", "0.1", "0.10", ".1", "0.3", "3", "3.49", "3.5", "3.500", "3.51", "-2.1", "4", "1e1", ""]),
    "double": (order_pool(["3.5", "-1e1", "INF", "NaN"], XSD.double), ["3.5", "35e-1", "3.6", "-10", "-10.5", "INF", "-INF", "NaN", "0", "-0", "x"]),
    "float": (order_pool(["3.5", "-1e1", "-INF"], XSD.float), ["3.5", "3.75", "-10", "-10.5", "INF", "-INF", "NaN", "0", "x"]),
    "dateTime": (order_pool(DT[:2] + DT[3:6], XSD.dateTime), DT),
    "dateTimeStamp": (order_pool(DT[3:6], XSD.dateTime), DT),
    "time": (order_pool(["12:00:00", "12:00:00Z", "13:00:00+01:00", "11:30:00.25"], XSD.time),
             ["12:00:00", "12:00:01", "11:59:59.999", "12:00:00Z", "13:00:00+01:00", "12:30:00+01:00", "11:30:00.250", "25:00:00"]),
    "date": (order_pool(["2020-02-29", "2020-03-01", "2019-12-31"], XSD.date), ["2020-02-28", "2020-02-29", "2020-03-01", "2019-12-31", "2020-12-31", "2021-01-01", "2020-02-30"]),
    "hexBinary": (length_pool([0, 1, 2, 3]), ["", "0A", "0a0B", "0A0B0C", "0A0B0C0D", "0", "zz"]),
    "base64Binary": (length_pool([0, 1, 2, 3]), ["", "YQ==", "YWI=", "YWJj", "YWJjZA==", "Y Q = =", "YQ="]),
    "string": (length_pool([0, 1, 2, 3]) + pattern_pool(["[0-9]+", "a|ab", "ab|a", "[a-c]*", "a.*", "(ab)+c?", ".{2}", "\\w+", "\\d\\d?", "[^a\\s]B?"]), STRINGS + ["a\nb", "ab\n"]),
    "normalizedString": (length_pool([1, 2]) + pattern_pool(["a|ab", "a.*"]), STRINGS),
    "token": (length_pool([1, 2]) + pattern_pool(["a|ab", "[a-c]*", "\\w+"]), [x for x in STRINGS]),
    "NMTOKEN": (length_pool([1, 2]) + pattern_pool(["[0-9]+", "[a-c]*"]), [x for x in STRINGS if x and x[0] != "\u0661"] + ["a-b", "a b"]),
    "Name": (length_pool([1, 2]) + pattern_pool(["[a-c]*", "(ab)+c?"]), [x for x in STRINGS if x and x[0] != "\u0661"] + ["a:b", "1a"]),
    "NCName": (length_pool([1, 2]) + pattern_pool(["[a-c]*", "(ab)+c?"]), [x for x in STRINGS if x and x[0] != "\u0661"] + ["a_b", "a:b"]),
    "language": (length_pool([2, 5]) + pattern_pool(["e[n-t](-[A-Z]{2})?"]), ["en", "es", "fr", "en-GB", "et", "en-gb", "e", "-"]),
    "anyURI": (length_pool([0, 10, 11]) + pattern_pool(["http://.*"]), ["http://x/", "http://x/y", "http://x/yz", "ftp://x/yz", ""]),
    "PlainLiteral": (length_pool([1, 2]) + pattern_pool(["a|ab"]) + [("langRange", (r, XSD.string)) for r in ("en", "*", "de-*-DE", "EN-gb")],
                     ["a@en", "ab@", "abc@en-GB", "ab@de-Latn-DE", "a@de", "ab@fr", "@en", "a", "a@b@en"]),
    "nonNegativeInteger": (order_pool(["3", "0"], XSD.integer), ["-1", "0", "3", "4", "x"]),
    "byte": (order_pool(["3", "-128"], XSD.byte), ["-129", "-128", "3", "2", "128"]),
}
# values that floating point numbers cannot tell apart, long strings; for the kinds of facets where that matters
FINE = {
    "integer": (order_pool(["9007199254740993", "100000000000000000000000000000000000001"], XSD.integer),
                ["9007199254740992", "9007199254740993", "9007199254740994", "100000000000000000000000000000000000000", "100000000000000000000000000000000000001", "100000000000000000000000000000000000002"]),
    "decimal": (order_pool(["0.30000000000000000001", "12345678901234567890123456789.5"], XSD.decimal) + order_pool(["9007199254740993"], XSD.integer),
                ["0.3", "0.30000000000000000001", "0.30000000000000000002", "9007199254740992.9", "9007199254740993.0", "9007199254740993.1", "12345678901234567890123456789.4",
                 "12345678901234567890123456789.50", "12345678901234567890123456789.51"]),
    "unsignedLong": (order_pool(["18446744073709551614"], XSD.unsignedLong), ["18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616"]),
    "dateTime": (order_pool(["2020-03-01T12:00:00.000001", "2020-03-01T12:00:00.000001Z"], XSD.dateTime),
                 ["2020-03-01T12:00:00", "2020-03-01T12:00:00.000001", "2020-03-01T12:00:00.000002", "2020-03-01T12:00:00Z", "2020-03-01T12:00:00.000001Z", "2020-03-01T12:00:00.000002Z"]),
    "string": (length_pool([64, 65, 300]) + pattern_pool(["[0-9]+", "[a-c]*"]), ["a" * k for k in (63, 64, 65, 66, 299, 300, 301)] + ["1" * 64, "1" * 300, "1" * 300 + "a", "a" * 300 + "x", "x" + "a" * 64]),
    "hexBinary": (length_pool([64, 65]), ["0A" * k for k in (63, 64, 65, 66)]),
    "base64Binary": (length_pool([63, 64]), ["QUJD" * 21, "QUJD" * 20 + "QUI=", "QUJD" * 21 + "QQ=="]),
}
for _b, (_f, _v) in FINE.items():
    GROUPS[_b + "+"] = (_f, _v)
MANY = {"integer": ["%d" % i for i in range(1, 13)], "decimal": ["%d.5" % i for i in range(1, 13)], "string": list(range(1, 13))}
for _b, _o in (("positiveInteger", "1"), ("nonPositiveInteger", "-1"), ("negativeInteger", "-2"), ("long", "2"), ("int", "2"), ("short", "2"), ("unsignedLong", "2"),
               ("unsignedInt", "2"), ("unsignedShort", "2"), ("unsignedByte", "2")):
    GROUPS[_b] = (order_pool([_o], XSD.integer), ["-3", "-2", "-1", "0", "1", "2", "3", "70000"])


def iri_of(name):
    name = name.rstrip("+")
    return URIRef(str(RDF) + name) if name in ("PlainLiteral", "langRange") else XSD[name]


def python_value(bound):
    lex, dt = bound
    return lex if dt == XSD.string else DatatypeHandling.AltXSDToPYTHON[dt](lex)


def name_facets(facets):
    return ["%s %s" % (f, b[0]) for f, b in facets]


# ------------------------------------------------------------------------------------------------ C22
SUBTAGS = ("de", "DE", "x", "latn", "1996")


class C22(Check):
    id = "C22"
    rule = ("31 base datatypes x all sequences of up to three facets (with repetition, in all orders; thorough: four) over pools of 4 to 20 facet values x pools of 5 to 17 "
            "lexical forms, valid and invalid: checkValue of the converted value and toPython of the form against the reference; all language ranges over {de, DE, x, latn, 1996, *} "
            "x all language tags over the same subtags, up to 3 (thorough: 4) subtags, against RFC 4647 3.3.2.")
    technique = "bounded exhaustive enumeration of facet combinations, language ranges and values against an executable reference semantics"
    assumptions = ["patterns use the syntax that XML Schema and Python share; bounds are of the base type or a numeric type comparable with it",
                   "dateTimes with and without time zone are compared only within 14 hours (where XML Schema calls them incomparable)",
                   "several pattern or langRange facets must hold together, as in an OWL 2 DatatypeRestriction"]

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for base, (facets, _v) in GROUPS.items():
            yield base, ("facets", base, [])
            for f in range(len(facets)):
                yield base, ("facets", base, [f], n - 1)
        # many facets: the tightest one counts wherever it stands
        for base in MANY:
            for i in range(12):
                yield base + " many", ("many", base, i)
        subs = 3 if tier == "quick" else 4
        ranges = ["-".join(c) for k in range(1, subs + 1) for c in itertools.product(SUBTAGS + ("*",), repeat=k)]
        for i in range(0, len(ranges), 40):
            yield "language ranges", ("langs", ranges[i:i + 40], subs)
        for a, b in itertools.product(("de", "*-latn", "de-*-1996", "x", "*"), repeat=2):
            yield "two ranges", ("langs2", (a, b), 3)

    def describe(self, payload):
        return repr(payload)[:300]

    def run(self, label, payload, stats):
        with real_code(600):
            if payload[0] == "facets":
                return self.facets(payload, stats)
            if payload[0] == "many":
                return self.many(payload[1], payload[2], stats)
            return self.langs(payload, stats)

    def facets(self, payload, stats):
        base, chosen = payload[1], payload[2]
        pool, values = GROUPS[base]
        more = payload[3] if len(payload) > 3 else 0
        dt = iri_of(base)
        seqs = [tuple(chosen) + c for k in range(0, more + 1) for c in itertools.product(range(len(pool)), repeat=k)]
        ok = {f: [xsdref.valid(v, dt) and holds(f[0], f[1], dt, v) for v in values] for f in pool}
        valid = [xsdref.valid(v, dt) for v in values]
        conv = DatatypeHandling.AltXSDToPYTHON[dt]
        py = [conv(v) if k else None for v, k in zip(values, valid)]
        pv = {f: (iri_of(f[0]), python_value(f[1])) for f in pool}
        for seq in seqs:
            fs = [pool[i] for i in seq]
            rt = RD.RestrictedDatatype(E("F"), dt, [pv[f] for f in fs])
            stats["states"] += 1
            pattern = []
            for i, v in enumerate(values):
                want = valid[i] and all(ok[f][i] for f in fs)
                stats["transitions"] += 1
                stats["impl"] += 1
                if valid[i]:
                    got = rt.checkValue(py[i])
                    if bool(got) != want:
                        return [Violation("%s %s %r" % (base, name_facets(fs), v), "%s with facets %s: checkValue of %r gives %s" % (base, name_facets(fs), v, got))]
                try:
                    value = rt.toPython(v)
                    got = True
                    if valid[i] and not (value == py[i] or value != value and py[i] != py[i]):
                        return [Violation("%s %s %r value" % (base, name_facets(fs), v), "%s with facets %s: toPython(%r) gives %r instead of %r" % (base, name_facets(fs), v, value, py[i]))]
                except ValueError:
                    got = False
                except Exception as e:
                    return [Violation("%s %s %r raises" % (base, name_facets(fs), v), "%s with facets %s: toPython(%r) raises %r" % (base, name_facets(fs), v, e))]
                if got != want:
                    return [Violation("%s %s %r convert" % (base, name_facets(fs), v), "%s with facets %s: toPython(%r) %s" % (
                        base, name_facets(fs), v, "accepts an unacceptable form" if got else "raises ValueError for an acceptable form"))]
                pattern.append(want)
            stats.see("verdicts", (base, tuple(pattern)))

    def many(self, base, i, stats):
        dt = iri_of(base)
        conv = DatatypeHandling.AltXSDToPYTHON[dt]
        values = ["a" * k for k in range(15)] if base == "string" else MANY[base] + ["0", "13", "20"]
        for f in LENGTH_FACETS if base == "string" else ORDER_FACETS:
            if f == "length":
                continue
            bounds = [(str(n), XSD.integer) for n in MANY[base]] if base == "string" else [(n, dt) for n in MANY[base]]
            for seq in (bounds[i:] + bounds[:i], (bounds[i:] + bounds[:i])[::-1], bounds[i:]):
                fs = [(f, b) for b in seq]
                rt = RD.RestrictedDatatype(E("F"), dt, [(iri_of(f), python_value(b)) for _f, b in fs])
                stats["states"] += 1
                for v in values:
                    stats["transitions"] += 1
                    stats["impl"] += 1
                    want = all(holds(f, b, dt, v) for _f, b in fs)
                    if bool(rt.checkValue(conv(v))) != want:
                        return [Violation("%s many %s %r" % (base, name_facets(fs), v), "%s with facets %s: checkValue of %r gives %s" % (base, name_facets(fs), v, not want))]

    def langs(self, payload, stats):
        kind, ranges, subs = payload
        tags = ["-".join(c) for k in range(1, subs + 1) for c in itertools.product(SUBTAGS, repeat=k) if c[0] != "1996"]
        lits = [Literal("a", lang=t) for t in tags]
        for r in ranges if kind == "langs" else [ranges]:
            rs = [r] if isinstance(r, str) else list(r)
            rt = RD.RestrictedDatatype(E("F"), RDF.PlainLiteral, [(iri_of("langRange"), x) for x in rs])
            stats["states"] += 1
            if rt.checkValue(Literal("a")):
                return [Violation("range %s no tag" % rs, "language range %s accepts a string without language tag" % rs)]
            for t, l in zip(tags, lits):
                stats["transitions"] += 1
                stats["impl"] += 1
                want = all(in_range(x, t) for x in rs)
                if bool(rt.checkValue(l)) != want:
                    return [Violation("range %s tag %s" % (rs, t), "language range %s %s the tag %s" % (rs, "rejects" if want else "accepts", t))]
                stats.see("verdicts", ("lang", want, len(t.split("-"))))


# ------------------------------------------------------------------------------------------------ C21
RELATED = {
    "integer": ["int", "positiveInteger", "byte"], "decimal": ["integer", "nonNegativeInteger"], "string": ["normalizedString", "token", "NCName"], "token": ["Name", "language"],
    "dateTime": ["dateTimeStamp"], "normalizedString": ["token"], "nonNegativeInteger": ["unsignedByte", "positiveInteger"], "long": ["int"], "Name": ["NCName"],
}
FOREIGN = {"integer": [("4", XSD.string), ("true", XSD.boolean)], "string": [("4", XSD.integer), ("0A", XSD.hexBinary)], "decimal": [("3.0", XSD.double)], "hexBinary": [("0A", XSD.string)],
           "double": [("4", XSD.integer)], "dateTime": [("2020-03-01", XSD.date)], "date": [("2020-03-01T12:00:00", XSD.dateTime)]}


class C21(Check):
    id = "C21"
    rule = ("datatype definitions with one or two facets (quick: bounds from the C22 pools thinned out, thorough: all) for 31 base types, named and anonymous, facets in one or several "
            "nodes of the list; literals of the base type, its subtypes and foreign types as values of a property with someValuesFrom and as values of an allValuesFrom restriction; "
            "literals of the new datatype itself; malformed definitions (two base types, two facet lists) among good ones. Expansion by the extended (with and without RDFS) closure: typing, class membership and error messages against the reference.")
    technique = "bounded exhaustive enumeration of datatype definitions x literals; executable reference semantics vs. expansions"
    assumptions = ["as for C22; literals of supertypes of the base type are not judged (their typing needs value space reasoning)",
                   "literals of other datatypes as allValuesFrom values are not judged"]

    def cases(self, tier):
        quick = tier == "quick"
        for base, (pool, values) in GROUPS.items():
            one = [[f] for f in pool]
            two = [list(c) for c in itertools.combinations(pool, 2)]
            if quick:
                two = two[::max(1, len(two) // 60)]
                one = one if base in ("integer", "string", "PlainLiteral", "dateTime", "decimal") else one[::2]
            defs = one + two
            for i in range(0, len(defs), 10):
                # with and without allValuesFrom restrictions (which type the literals as well)
                for avf in (False, True) if i < len(one) or not quick else ((i // 10) % 2 == 0,):
                    yield base, ("defs", base, defs[i:i + 10], "ext", (i // 10) % 3, avf)
            longer = [[pool[(k * step + j) % len(pool)] for j in range(k)] for k in (4, 6, 9, 13) if k <= len(pool) for step in range(2)]
            if longer:
                yield base + " many facets", ("defs", base, longer, "ext", 0, True)
            if base == "integer":
                far = [[("maxInclusive", ("4", XSD.integer)) if j == at else ("minInclusive", (str(-30 - j), XSD.integer)) for j in range(12)] for at in (0, 1, 5, 10, 11)]
                for shape in range(3):
                    yield base + " many facets", ("defs", base, far, "ext", shape, True)
            yield base, ("defs", base, defs[:6], "extr", 1, True)
            for k in range(2 if quick else 6):
                yield base + " malformed definitions", ("malformed", base, [pool[k % len(pool)], pool[(k * 3 + 1) % len(pool)]], ("ext", "extr")[k % 2], k, False)
            yield base, ("defs", base, defs[1:4], "extr", 0, False)

    def describe(self, payload):
        if payload[0] == "malformed":
            return repr(payload)[:300]
        return [payload[1], payload[3], "with allValuesFrom" if payload[5] else "", [name_facets(d) for d in payload[2]]]

    def malformed(self, base, facets, mode, k, stats):
        """several base types or several facet lists: reported, and defines nothing; the definitions around it are not disturbed"""
        dt = iri_of(base)
        values = [v for v in GROUPS[base][1] if xsdref.valid(v, dt)]
        other = XSD.decimal if dt != XSD.decimal else XSD.integer
        tr, kinds = [], {}
        for i in range(9):
            d = E("Fq%sq" % "abcdefghi"[(i * 5 + k) % 9])
            kinds[d] = kind = ("good", "two bases", "two lists")[i % 3]
            tr += [(d, RDF.type, RDFS.Datatype), (d, OWL.onDatatype, dt)]
            if kind == "two bases":
                tr.append((d, OWL.onDatatype, other))
            for j, (f, b) in enumerate(facets):
                node, head = BNode("zqf%d_%dqz" % (i, j)), BNode("zql%d_%dqz" % (i, j))
                tr.append((node, iri_of(f), Literal(b[0], datatype=b[1], normalize=False)))
                if kind == "two lists":
                    tr.append((d, OWL.withRestrictions, head))
                    tr += rdf_list(head, [node], "f%d_%d" % (i, j))
            if kind != "two lists":
                tr.append((d, OWL.withRestrictions, BNode("zql%dqz" % i)))
                tr += rdf_list(BNode("zql%dqz" % i), [BNode("zqf%d_%dqz" % (i, j)) for j in range(len(facets))], "f%d" % i)
            tr += [(E("R%d" % i), OWL.someValuesFrom, d), (E("R%d" % i), OWL.onProperty, E("p"))]
        L = [Literal(v, datatype=dt, normalize=False) for v in values]
        tr += [(E("s%d" % j), E("p"), l) for j, l in enumerate(L)]
        with real_code(240):
            ex = real.expand(tr, mode)
        stats["impl"] += 1
        stats["states"] += len(kinds)
        bad = []
        for i, (d, kind) in enumerate(kinds.items()):
            if any(str(d) in m for m in ex.errors) != (kind != "good"):
                bad.append("the definition %s (%s) is %sreported" % (d, kind, "" if kind == "good" else "not "))
            for j, (v, l) in enumerate(zip(values, L)):
                stats["transitions"] += 1
                want = kind == "good" and accepted(facets, dt, v)
                for got, what in (((l, RDF.type, d) in ex.triples, "type"), ((E("s%d" % j), RDF.type, E("R%d" % i)) in ex.triples, "someValuesFrom")):
                    if got != want:
                        bad.append("%s: %s %s %s of %s (definition with %s)" % (what, n3(l), "is" if got else "is not", name_facets(facets), base, kind))
        stats.see("verdicts", ("malformed", base))
        if bad:
            return [Violation("%s malformed | %s" % (base, bad[0][:200]), "%s closure\n%s" % (mode, "\n".join(bad[:12])))]

    def run(self, label, payload, stats):
        _k, base, defs, mode, shape, avf = payload
        if _k == "malformed":
            return self.malformed(base, defs, mode, shape, stats)
        dt = iri_of(base)
        pool, values = GROUPS[base]
        lits = [(v, dt) for v in values]
        for sub in RELATED.get(base, ()):
            lits += [(v, XSD[sub]) for v in values if xsdref.valid(v, XSD[sub])][:6]
        foreign = FOREIGN.get(base, [])
        tr = []
        names = []
        for i, facets in enumerate(defs):
            d = BNode("zqF%sqz" % "abcdefghijkl"[i]) if shape == 2 else E("Fq%sq" % "abcdefghijkl"[i])
            names.append(d)
            tr += [(d, RDF.type, RDFS.Datatype), (d, OWL.onDatatype, dt)]
            nodes, cells = [], []
            for k, (f, b) in enumerate(facets):
                node = BNode("zqf%d_%dqz" % (i, k if shape != 1 else 0))
                tr.append((node, iri_of(f), Literal(b[0]) if b[1] == XSD.string and (i + k) % 2 else Literal(b[0], datatype=b[1], normalize=False)))
                if node not in nodes:
                    nodes.append(node)
            head = BNode("zql%dqz" % i)
            tr.append((d, OWL.withRestrictions, head))
            tr += rdf_list(head, nodes, "f%d" % i)
            tr += [(E("R%d" % i), OWL.someValuesFrom, d), (E("R%d" % i), OWL.onProperty, E("p"))]
            if avf:
                tr += [(E("A%d" % i), OWL.allValuesFrom, d), (E("A%d" % i), OWL.onProperty, E("q%d" % i)), (E("x%d" % i), RDF.type, E("A%d" % i))]
        L = [Literal(v, datatype=t, normalize=False) for v, t in lits]
        FL = [Literal(v, datatype=t, normalize=False) for v, t in foreign]
        for j, l in enumerate(L + FL):
            tr.append((E("s%d" % j), E("p"), l))
        for i in range(len(defs) if avf else 0):
            for (v, t), l in zip(lits, L):
                if xsdref.valid(v, t):
                    tr.append((E("x%d" % i), E("q%d" % i), l))
        own = []
        if shape != 2:
            for i, d in enumerate(names):
                for v in values[::2]:
                    own.append((i, v, Literal(v, datatype=d, normalize=False)))
                    tr.append((E("o%d" % i), E("own"), own[-1][2]))
        with real_code(240):
            ex = real.expand(tr, mode)
        stats["impl"] += 1
        stats["states"] += len(defs)
        bad = []
        for i, (facets, d) in enumerate(zip(defs, names)):
            about = [m for m in ex.errors if str(d) in m]
            pattern = []
            for j, ((v, t), l) in enumerate(zip(lits, L)):
                stats["transitions"] += 1
                want = xsdref.valid(v, t) and accepted(facets, dt, v)
                pattern.append(want)
                if ((l, RDF.type, d) in ex.triples) != want:
                    bad.append("%s %s of the type %s of %s" % (n3(l), "is not" if want else "is", name_facets(facets), base))
                if ((E("s%d" % j), RDF.type, E("R%d" % i)) in ex.triples) != want:
                    bad.append("someValuesFrom %s of %s %s for %s" % (name_facets(facets), base, "does not fire" if want else "fires", n3(l)))
                if avf and xsdref.valid(v, t):
                    said = any(m.endswith("value " + v) for m in about)
                    if said == want:
                        bad.append("allValuesFrom %s of %s: the value %s is %sreported" % (name_facets(facets), base, n3(l), "" if said else "not "))
            for l in FL:
                if (l, RDF.type, d) in ex.triples and not (E("x%d" % i), E("q%d" % i), l) in ex.triples:
                    bad.append("%s is of the type %s of %s" % (n3(l), name_facets(facets), base))
            stats.see("verdicts", (base, tuple(pattern)))
        for i, v, l in own:
            want = accepted(defs[i], dt, v)
            said = any(("'%s'" % v) in m and str(names[i]) in m and "does not match" in m for m in ex.errors)
            if said == want:
                bad.append("%s, %s of %s, is %sreported as ill-typed" % (n3(l), name_facets(defs[i]), base, "" if said else "not "))
        if bad:
            return [Violation("%s | %s" % (base, bad[0][:200]), "%s closure (shape %d)\n%s" % (mode, shape, "\n".join(bad[:12])))]


CHECKS = {"C21": C21, "C22": C22}
