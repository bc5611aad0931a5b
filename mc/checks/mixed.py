"""C12 (value-equal literals in RDFS), C13 (combined closure), C23 (extended closure)."""
import itertools

from .. import gen, real, ref, xsdref
from ..axioms import axioms
from ..engine import Check, RealError, Violation, real_code, show
from ..gen import E, T, rdf_list, subsets, user_term
from ..vocab import BNode, EX, Literal, OWL, RDF, RDFS, URIRef, XSD, iri, lit
from .closure import (TERMS, ClosureCheck, back, ladder_domain_hv, ladder_meta, datatype_space, ALPHABETS)

# ------------------------------------------------------------------------------------------------ C12
POOL = [lit(x, d) for d, xs in (
    ("xsd:integer", ["10", "010", "+10", "1", "0", "-0", "-1"]),
    ("xsd:decimal", ["10", "10.0", "1.0", "0.10", ".1", "10.", "-0.0"]),
    ("xsd:nonNegativeInteger", ["10", "0010", "1"]),
    ("xsd:byte", ["10", "1", "-1"]), ("xsd:unsignedLong", ["1"]), ("xsd:negativeInteger", ["-1"]),
    ("xsd:boolean", ["true", "1", "false", "0"]),
    ("xsd:string", ["10", "a", "true", "a b", "CAFE"]),
    ("xsd:token", ["a", "a b"]), ("xsd:normalizedString", ["a  b"]), ("xsd:language", ["a"]),
    ("xsd:anyURI", ["a", "10"]),
    ("xsd:hexBinary", ["CAFE", "cafe", "61"]), ("xsd:base64Binary", ["yv4=", "YQ=="]),
    ("xsd:date", ["2020-01-02", "2020-01-03"]),
    ("xsd:dateTime", ["2020-01-02T00:00:00", "2020-01-02T00:00:00.0", "2020-01-02T00:00:00Z", "2020-01-02T01:00:00+01:00",
                      "2020-01-01T19:00:00-05:00", "2020-01-02T00:00:00.001"]),
    ("xsd:time", ["10:00:00", "10:00:00Z", "11:00:00+01:00"]),
    ("xsd:float", ["1.5", "1.50", "15e-1", "INF", "NaN", "-INF"]),
    ("xsd:double", ["2.5", "25E-1"]),
    ("xsd:gYear", ["2020"]),
    ("xsd:integer", ["9007199254740993", "9007199254740992", "100000000000000000000000000000000000001"]),  # beyond the precision of floats and of decimal contexts
    ("xsd:decimal", ["9007199254740992.0", "9007199254740993.000", "100000000000000000000000000000000000001.00", "100000000000000000000000000000000000001.01", "0.3", "0.30000000000000004"]),
    ("xsd:unsignedLong", ["9007199254740993"]),
) for x in xs] + [Literal("a"), Literal("10"), lit("a", lang="en"), lit("a", lang="EN"), lit("a", lang="fr"), lit("b", lang="en"),
                                            lit("a", lang="en-US"), lit("a", lang="en-us"), lit("a", lang="en-GB"), lit("a", lang="en-US-x-y")]
ILL = [lit(x, d) for d, xs in (
    ("xsd:integer", ["ten", "1.0", ""]), ("xsd:byte", ["b"]),
    ("xsd:date", ["2020-13-01"]), ("xsd:dateTime", ["2020-01-02T"]), ("xsd:hexBinary", ["CAF"]),
    ("xsd:float", ["one"]), ("ex:dt", ["10", "ten", "1.0", "a"]),
) for x in xs]


def vague(a, b):
    """equality across float, double and decimal: left open (OWL 2 and XSD disagree)"""
    def space(x):
        v = x.datatype in xsdref.BY_IRI and xsdref.value(str(x), x.datatype)
        return v[0] if v else None
    s, t = space(a), space(b)
    return s != t and {s, t} <= {"num", "float", "double"} and len({s, t}) == 2


class C12(Check):
    id = "C12"
    rule = ("all pairs of a pool of %d literals (numbers, strings, booleans, binary data, dates, times, language tags, ill-typed "
            "and unknown datatypes) as objects of different and of equal subjects, all triples of the numeric and date literals, "
            "with and without datatype axioms. Oracle: expansion == RDFS least fixpoint over the copies of all triples under "
            "literals with the same XSD value, plus (with datatype axioms) the axioms and one typing per literal with a datatype."
            % (len(POOL) + len(ILL)))
    assumptions = ["equality between float, double and decimal values is not judged", "value spaces transcribed in mc/xsdref.py",
                   "datatypes (and ill-typed forms) on whose values RDFLib itself has the same view as XSD"]

    def describe(self, payload):
        return [show(payload[0]), "datatype axioms" if payload[1] else "no datatype axioms"]

    def cases(self, tier):
        a, b, p, q = E("a"), E("b"), E("p"), E("q")
        z, y = lit("2020-01-02Z", "xsd:date"), lit("2020-01-02+05:00", "xsd:date")
        yield "finding:dates in different time zones", ([(a, p, z), (b, q, y)], False)
        pool = POOL + ILL
        for x in pool:
            yield "one literal", ([(a, p, x)], True)
            yield "one literal", ([(a, p, x)], False)
        for x, y in itertools.combinations(pool, 2):
            if vague(x, y):
                continue
            for d in (False, True) if tier != "quick" else (False,):
                yield "two subjects", ([(a, p, x), (b, q, y)], d)
                yield "one subject", ([(a, p, x), (a, p, y)], d)
            if xsdref.value_key(str(x), x.datatype) == xsdref.value_key(str(y), y.datatype) or (pool.index(x) + pool.index(y)) % 5 == 0:
                yield "two subjects, axioms", ([(a, p, x), (b, q, y)], True)
        chain = T("p rdfs:subPropertyOf q; q rdfs:range C; p rdfs:domain D; C rdfs:subClassOf D")
        small = POOL[:17] + [x for x in POOL if x.datatype in (XSD.dateTime, XSD.time, XSD.date)]
        for x, y in itertools.combinations(small, 2):
            if not vague(x, y):
                yield "with rules", (chain + [(a, p, x), (b, p, y)], False)
        # many literals in one graph: only some have equal values
        for n in (20, 70, 130):
            ls = [lit(f % i, d) for i in range(n) for f, d in (("%d", "xsd:integer"), ("0%d", "xsd:integer"), ("%d.0", "xsd:decimal")) if f == "%d" or i % 10 == 3 or i > n - 3]
            yield "many numbers", ([(E("s%ds" % i), (p, q)[i % 2], x) for i, x in enumerate(ls)], False)
            ls = [lit(f % i, lang=g) for i in range(n) for f, g in (("w%d", "en"), ("w%d", "EN"), ("w%d", "en-US"), ("w%d", "fr")) if g in ("en", "fr") or i % 10 == 3 or i > n - 3]
            yield "many words", ([(E("s%ds" % i), (p, q)[i % 2], x) for i, x in enumerate(ls)], False)
            yield "many values of one subject", ([(a, p, lit("0%d" % i, "xsd:integer")) for i in range(n // 2)] + [(a, q, lit("%d" % i, "xsd:integer")) for i in range(n // 2)], False)
        for x, y, w in itertools.combinations(pool if tier != "quick" else small, 3):
            if not (vague(x, y) or vague(x, w) or vague(y, w)):
                yield "three", ([(a, p, x), (b, q, y), (E("c"), p, w)], False)

    def run(self, label, payload, stats):
        triples, dax = payload
        if any(o in ILL and o.value is not None for _s, _p, o in triples):
            raise AssertionError("rdflib assigns a value to an ill-typed literal of the pool")
        m = ref.model("rdfs")
        extra = []
        if dax:
            extra = axioms("RDFS-D") + [(o, RDF.type, o.datatype) for _s, _p, o in triples if isinstance(o, Literal) and o.datatype]
        cl = m.closure(triples, extra=extra)
        stats["states"] += cl.transitions + 1
        stats["transitions"] += cl.transitions
        with real_code():
            ex = real.expand(triples, "rdfs", daxioms=dax)
        stats["impl"] += 1
        R = {TERMS.triple(t) for t in ex.triples}
        stats.see("expansions", frozenset(R))
        want = cl.visible()
        if R == want:
            return
        bad = []
        if want - R:
            bad.append("missing: %s" % show(back(want - R)))
        if R - want:
            bad.append("not derivable: %s" % show(back(R - want)))
        key = label if label.startswith("finding:") else "%s %s | %s" % (label, dax, bad[0][:200])
        return [Violation(key, "\n".join(bad) + "\ninput (datatype axioms %s):\n%s" % (dax, "\n".join(show(triples))))]


# ------------------------------------------------------------------------------------------------ packs of scenarios
def tag(triples, k):
    """the scenario with its own names"""
    def ren(t):
        if isinstance(t, URIRef) and t.startswith(EX):
            return URIRef("%ss%dx%s" % (EX, k, t[len(EX):]))
        if isinstance(t, BNode):
            return BNode("s%dx%s" % (k, t))
        if isinstance(t, Literal) and t.startswith(EX):  # looks like one of the names
            return Literal("%ss%dx%s" % (EX, k, t[len(EX):]))
        return t
    return [tuple(ren(x) for x in t) for t in triples]


def packs(scenarios, n):
    cur = []
    for label, tr in gen.dedup(scenarios):
        cur.append((label, tr))
        if len(cur) == n:
            yield "pack", cur
            cur = []
    if cur:
        yield "pack", cur


class Packed(Check):
    """expansion == model closure, several scenarios (with different names) in one graph"""
    modes = ()
    cap_each, cap_total = 450, 1500
    assumptions = ["the rule tables in mc/rules.py transcribe the W3C documents; the documented binding triples",
                   "scenarios whose model closure exceeds the size cap or that contain branching or incomplete lists are skipped and counted"]

    def describe(self, payload):
        mode, pack = payload
        return [mode] + [[label, show(tr, 30)] for label, tr in pack[:3]]

    def run(self, label, payload, stats):
        mode, pack = payload
        return self.pack(mode, pack, stats)

    def pack(self, mode, pack, stats):
        single = len(pack) == 1
        tr = []
        for k, (_l, t) in enumerate(pack):
            for x in tag(t, k) if not single else t:
                if x not in tr:
                    tr.append(x)
        m = ref.model(mode)
        try:
            cl = m.closure(tr, cap=self.cap_each if single else self.cap_total)
        except ref.TooBig:
            if single:
                stats["skipped_size"] += 1
                return None
            return self.split(mode, pack, stats)
        if ref.branching(cl.G):
            if single:
                stats["skipped_list"] += 1
                return None
            return self.split(mode, pack, stats)
        stats["states"] += cl.transitions + 1
        stats["transitions"] += cl.transitions
        bad = self.compare(mode, tr, cl, stats)
        stats["scenarios"] += len(pack)
        if not bad:
            return None
        if not single:
            vs = self.split(mode, pack, stats)
            if vs:
                return vs
        return [Violation("%s %s | %s" % (mode, pack[0][0], bad[0][:200]),
                          "%s closure: %s\ninput:\n%s" % (mode, "\n".join(bad), "\n".join(show(tr, 60))))]

    def split(self, mode, pack, stats):
        h = len(pack) // 2
        return (self.pack(mode, pack[:h], stats) or []) + (self.pack(mode, pack[h:], stats) or [])

    def compare(self, mode, tr, cl, stats):
        with real_code(240):
            ex = real.expand(tr, mode)
        stats["impl"] += 1
        R = {TERMS.triple(t) for t in ex.triples}
        stats.see("expansions", frozenset(R))
        want = cl.visible()
        bad = []
        if want - R:
            rules = sorted({r for _f, r, h in ref.model(mode).unclosed(R) if h in want - R})
            bad.append("missing (%s): %s" % (", ".join(rules), show(back(want - R))))
        if R - want:
            bad.append("not derivable: %s" % show(back(R - want)))
        bad += self.more(mode, tr, R, ex, stats)
        return bad

    def more(self, mode, tr, R, ex, stats):
        return []


SMALL_OWL = "prp-symp prp-trp prp-spo1 prp-eqp1 prp-inv1 cls-svf1 cls-avf cls-hv1 cls-hv2 cax-sco cax-eqc1 scm-cls scm-sco " \
            "scm-spo scm-dom1 scm-rng2 eq-rep-s eq-rep-p eq-rep-o eq-sym prp-fp prp-dom prp-rng scm-eqc1 scm-eqp1 scm-hv".split()


def combined_space(tier):
    """RDFS and OWL rules together"""
    quick = tier == "quick"
    rd = ref.RDFS_RULES
    ow = gen.templates(["C02", "C03", "C04", "C05"], (2,))
    for r in rd:
        yield from gen.identifications(r.name, r.body, True)
    for r in ow:
        env = gen.base_env(gen.variables(r.body))
        yield r.name, gen.instantiate(r.body, env)
    yield from gen.compositions(rd, ow)      # an RDFS premise derived by OWL
    yield from gen.compositions(ow, rd)      # an OWL premise derived by RDFS
    for name, tr in (("meta", ladder_meta(6)), ("hv", ladder_domain_hv(4))):
        yield "ladder " + name, tr
    yield from gen.delayed_sub(rd, 24)
    yield from gen.delayed_far(rd, 24, None)
    yield from (x for x in gen.delayed_sub(ow, 24) if ", 0 after" in x[0])
    for k in ("Thing Resource Class DataRange Datatype Literal").split():
        c = OWL[k] if k in ("Thing", "DataRange") else RDFS[k]
        for other in (E("C"),):
            yield "binding", [(E("a"), RDF.type, c)]
            yield "binding", [(other, RDFS.subClassOf, c), (E("a"), RDF.type, other)]
            yield "binding", [(E("p"), RDFS.range, c), (E("a"), E("p"), E("b"))]
    yield "binding", T("a a owl:Class; a a owl:Restriction; b a owl:ObjectProperty; b a rdfs:ContainerMembershipProperty")
    lits = [lit("10", "xsd:integer"), lit("010", "xsd:integer"), lit("10", "xsd:byte"), lit("true", "xsd:boolean"), lit("1", "xsd:boolean"),
            lit("1.50", "xsd:decimal"), lit("1.5", "xsd:decimal"), lit("x", lang="en"), Literal("x"), lit("x", "xsd:string")]
    for x, y in itertools.combinations(lits, 2):
        yield "literals", [(E("a"), E("p"), x), (E("b"), E("q"), y)]
        yield "literals key", [(E("p"), RDF.type, OWL.InverseFunctionalProperty), (E("a"), E("p"), x), (E("b"), E("p"), y)]
    if not quick:
        for r in ow:
            yield from gen.identifications(r.name, r.body, True)
        yield from gen.compositions(ow, ow)
        for f in ("C02", "C03", "C04", "C05"):
            yield from subsets(f, ALPHABETS[f], 2)
        yield from datatype_space("quick", small=True)


class C13(Packed):
    id = "C13"
    rule = ("every RDFS rule x identifications of its variables, every OWL rule, every RDFS rule with a premise derived by each OWL "
            "rule and vice versa, classes below the identified vocabulary classes, value-equal literals as keys; packed, with "
            "different names, into common graphs. Oracle: combined expansion == least fixpoint of both rule sets and the three "
            "identifications, and it contains the implementation's own RDFS and OWL 2 RL expansions of the same graph.")

    def cases(self, tier):
        n = 8
        for _l, pack in packs(combined_space(tier), n):
            yield "both", ("both", pack)
        for label, tr in (("empty graph", []), ("one triple", T("a p b"))):
            yield label, ("both", [(label, tr)])
        # axiomatic triples: what is in the RDFS and in the OWL 2 RL expansion with the same options is in the combined one, too
        space = [(n, t) for n, t in combined_space("quick") if n.startswith(("literals", "binding"))]
        space += [(r.name, gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))) for r in ref.RDFS_RULES]
        space += [] if tier == "quick" else [(r.name, gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))) for r in
                                             gen.templates(["C02", "C03", "C04", "C05"], (2,))]
        for _l, pack in packs(space, 12):
            yield "options", ("daxioms", pack)
        for _l, pack in packs(space[::1 if tier != "quick" else 7], 12):
            yield "options", ("axioms", pack)
            yield "options", ("axioms daxioms", pack)

    def run(self, label, payload, stats):
        opt, pack = payload
        if opt == "both":
            return Packed.run(self, label, payload, stats)
        tr = [x for k, (_l, t) in enumerate(pack) for x in tag(t, k)]
        kw = {k: True for k in opt.split()}
        res = {}
        for mode in ("both", "rdfs", "owl"):
            with real_code(240):
                res[mode] = real.expand(tr, mode, **kw).triples
            stats["impl"] += 1
            stats["states"] += 1
            stats["transitions"] += len(res[mode])
        for mode in ("rdfs", "owl"):
            miss = {t for t in res[mode] - res["both"] if not isinstance(t[1], BNode)}
            if miss:
                return [Violation("%s, %s | %s" % (opt, pack[0][0], show(miss)[0]), "%s: in the %s expansion, but not in the combined one:\n%s\ninput:\n%s" % (
                    opt, mode, "\n".join(show(miss, 20)), "\n".join(show(tr, 60))))]

    def more(self, mode, tr, R, ex, stats):
        bad = []
        for other in ("rdfs", "owl"):
            with real_code(240):
                o = real.expand(tr, other)
            stats["impl"] += 1
            miss = {TERMS.triple(t) for t in o.triples} - R
            if other == "rdfs":  # blank nodes as predicates are not kept by the OWL closures
                miss = {t for t in miss if not TERMS.is_bn[t[1]]}
            if miss:
                bad.append("in the %s expansion, but not in the combined one: %s" % (other, show(back(miss))))
            if other == "owl" and not set(o.errors) <= set(ex.errors):
                bad.append("errors of the OWL expansion that are not in the combined one: %s" % sorted(set(o.errors) - set(ex.errors))[:3])
        return bad


def ext_space(tier):
    quick = tier == "quick"
    ow = gen.templates(["C02", "C03", "C04", "C05"], (2,))
    yield from self_space()
    for r in ref.EXT_RULES:
        yield from gen.identifications(r.name, r.body, True)
        yield from gen.near_misses(r.name, r.body, {"owl:hasSelf": ["owl:hasValue", "owl:someValuesFrom"],
                                                    "owl:onProperty": ["owl:onProperties", "owl:onClass"]})
    yield from gen.compositions(ref.EXT_RULES, ow, True)
    yield from gen.compositions(ow, ref.EXT_RULES, False)
    yield from gen.delayed_far(ref.EXT_RULES)
    yield from gen.delayed_sub(ref.EXT_RULES)
    for x in ("1.5", "0.25"):
        v = lit(x, "xsd:decimal")
        yield "late decimal", gen.delay_sub([(E("a"), E("p"), v)], 0, 24)
        yield "late decimal", gen.delay([(E("a"), RDF.type, XSD.decimal)], 0, 24, "", True)
    for r in ow:
        env = gen.base_env(gen.variables(r.body))
        yield r.name, gen.instantiate(r.body, env)
    for d in ("decimal integer long byte nonNegativeInteger unsignedByte negativeInteger string float double boolean".split()):
        v = lit("1" if d not in ("negativeInteger",) else "-1", XSD[d])
        yield "literal " + d, [(E("a"), E("p"), v)]
        yield "typed " + d, [(E("a"), RDF.type, XSD[d])]
        yield "derived " + d, [(E("p"), RDFS.range, XSD[d]), (E("a"), E("p"), E("b"))]
    for x in ("1/2", "2/4", "-3/7", "3"):
        yield "rational", [(E("a"), E("p"), lit(x, OWL.rational))]
        yield "rational range", [(E("p"), RDFS.range, OWL.rational), (E("a"), E("p"), lit(x, OWL.rational))]
    yield "rational class", [(E("a"), RDF.type, OWL.rational)]
    yield "rational class", [(OWL.rational, RDFS.subClassOf, E("C")), (E("a"), E("p"), lit("1.5", "xsd:decimal"))]
    if not quick:
        yield from gen.compositions(ow, ow)
        for f in ("C02", "C03", "C04", "C05"):
            yield from subsets(f, ALPHABETS[f], 2)
        yield from datatype_space("quick", small=True)


def self_space():
    base = T("R owl:hasSelf v; R owl:onProperty p")
    opts = T("a a R; a p a; b p b; a p b; b a R; S owl:hasSelf v; S owl:onProperty p; R owl:onProperty q; a q a; q rdfs:subPropertyOf p")
    yield from ((n, base + t) for n, t in subsets("self", opts, 3))
    for v in (lit("true", "xsd:boolean"), lit("false", "xsd:boolean"), BNode("zqvqz"), lit("1", "xsd:boolean")):
        yield "hasSelf %s" % v, [(E("R"), OWL.hasSelf, v), (E("R"), OWL.onProperty, E("p")), (E("a"), RDF.type, E("R")), (E("b"), E("p"), E("b"))]


RAT_ALPHABET = "012/+- ."


def rat_valid(s):
    """OWL 2 structural specification, 4.2: numerator ::= integer, optionally '/' and a positive integer without sign"""
    num, slash, den = s.partition("/")
    if xsdref.p_integer(num) is None:
        return False
    if not slash:
        return True
    return xsdref._digits(den) and xsdref.p_integer(den) > 0


class C23(Packed):
    id = "C23"
    rule = ("both hasSelf rules x identifications, near-misses, premises derived by every OWL rule and vice versa; every OWL rule; "
            "decimal datatypes; with and without RDFS; all strings over '%s' up to length %s as owl:rational literals. Oracle: "
            "expansion == least fixpoint of OWL 2 RL + hasSelf rules + decimal below rational (+ RDFS when requested); a rational "
            "literal has an error report iff it is not an integer optionally followed by '/' and a positive integer." % (
                RAT_ALPHABET, "4 (thorough: 5)"))

    def cases(self, tier):
        n = 14
        for label, tr in (("empty graph", []), ("one triple", T("a p b"))):
            yield label, ("ext", [(label, tr)])
            yield label, ("extr", [(label, tr)])
        for _l, pack in packs(ext_space(tier), n):
            yield "ext", ("ext", pack)
        for _l, pack in packs(itertools.chain(self_space(), (x for x in ext_space("quick") if tier != "quick"),
                                              gen.compositions(ref.EXT_RULES, ref.RDFS_RULES, True),
                                              gen.compositions(ref.RDFS_RULES, ref.EXT_RULES, False)), n):
            yield "extr", ("extr", pack)
        strings = ["".join(c) for k in range(0, 5 if tier == "quick" else 6) for c in itertools.product(RAT_ALPHABET, repeat=k)]
        strings += ["12345678901234567890/98765432109876543210", "1/01", "1/00", "1//2", "1/2/3", "1/-2", "1/ 2", "1 /2", "a", "1/a",
                    "\u0661/2", "1/\u0662", "1e1", "1/1e1", "0x1", "1_0", "1/1_0", "1\n", "\t1", "1/2\n"]
        good, bad = [s for s in strings if rat_valid(s)], [s for s in strings if not rat_valid(s)]
        for kind, xs in (("valid", good), ("invalid", bad)):
            for i in range(0, len(xs), 250):
                yield "rationals " + kind, ("rat", xs[i:i + 250])

    def describe(self, payload):
        if payload[0] == "rat":
            return ["owl:rational"] + payload[1][:20]
        return super().describe(payload)

    def run(self, label, payload, stats):
        if payload[0] != "rat":
            return super().run(label, payload, stats)
        xs = payload[1]
        want = label.endswith("invalid")
        bad = self.rationals(xs, want, stats)
        return [Violation("rational %r" % x, "owl:rational literal %r: %s" % (x, "invalid, but not reported" if want else "valid, but reported"))
                for x in bad[:3]]

    def rationals(self, xs, want, stats):
        """the strings that are judged wrongly"""
        with real_code(240):
            ex = real.expand([(E("a"), E("p"), lit(x, OWL.rational)) for x in xs], "ext")
        stats["impl"] += 1
        stats["literals"] += len(xs)
        stats["transitions"] += len(xs)
        stats["states"] += len(xs)
        stats.see("errors", ex.error_nodes)
        if ex.error_nodes == (len(xs) if want else 0):
            return []
        if len(xs) == 1:
            return xs
        h = len(xs) // 2
        a = self.rationals(xs[:h], want, stats)
        return a or self.rationals(xs[h:], want, stats) or xs


CHECKS = {c.id: c for c in (C12, C13, C23)}
