"""C28: expansion ends normally on every graph."""
import itertools

from .. import gen, real, ref
from ..engine import Check, RealError, Violation, n3, real_code, show
from ..gen import E, T, base_env, const_term, rdf_list, variables
from ..vocab import BNode, Literal, OWL, RDF, RDFS, URIRef, XSD, iri, lit
from .facets import LENGTH_FACETS, ORDER_FACETS, iri_of
from .mixed import tag
import owlrl

B = lambda x: BNode("zqb%sqz" % x)  # noqa: E731


def lists():
    """name -> (head, triples): well-formed and malformed lists"""
    h, c = B("h"), B("c")
    one, m = E("m1"), E("m2")
    w = Literal("w")
    out = {
        "empty": (RDF.nil, []),
        "one": (h, rdf_list(h, [one])),
        "three": (h, rdf_list(h, [one, m, E("m3")])),
        "literals": (h, rdf_list(h, [w, lit("1", "xsd:integer")])),
        "bnodes": (h, rdf_list(h, [B("x"), B("y")])),
        "nil member": (h, rdf_list(h, [RDF.nil, one])),
        "itself as member": (h, rdf_list(h, [h, one])),
        "iri cells": (E("cell"), rdf_list(E("cell"), [one, m])),
        "loop": (h, [(h, RDF.first, one), (h, RDF.rest, h)]),
        "cycle": (h, [(h, RDF.first, one), (h, RDF.rest, c), (c, RDF.first, m), (c, RDF.rest, h)]),
        "long cycle": (h, [(h, RDF.first, one), (h, RDF.rest, c), (c, RDF.first, m), (c, RDF.rest, B("d")), (B("d"), RDF.first, one), (B("d"), RDF.rest, c)]),
        "no first": (h, [(h, RDF.rest, RDF.nil)]),
        "no rest": (h, [(h, RDF.first, one)]),
        "no rest later": (h, [(h, RDF.first, one), (h, RDF.rest, c), (c, RDF.first, m)]),
        "no first later": (h, [(h, RDF.first, one), (h, RDF.rest, c), (c, RDF.rest, RDF.nil)]),
        "literal rest": (h, [(h, RDF.first, one), (h, RDF.rest, w)]),
        "unknown rest": (h, [(h, RDF.first, one), (h, RDF.rest, E("nowhere"))]),
        "two firsts": (h, [(h, RDF.first, one), (h, RDF.first, m), (h, RDF.rest, RDF.nil)]),
        "two rests": (h, [(h, RDF.first, one), (h, RDF.rest, RDF.nil), (h, RDF.rest, c), (c, RDF.first, m), (c, RDF.rest, RDF.nil)]),
        "two rests, loop": (h, [(h, RDF.first, one), (h, RDF.rest, h), (h, RDF.rest, RDF.nil)]),
        "nil goes on": (h, [(h, RDF.first, one), (h, RDF.rest, RDF.nil), (RDF.nil, RDF.rest, RDF.nil), (RDF.nil, RDF.first, m)]),
        "rest is the list's class": (h, [(h, RDF.first, one), (h, RDF.rest, E("alpha"))]),
    }
    return out


LISTS = lists()
PLAIN = {
    "iri": E("other"), "bnode": B("n"), "string": Literal("w"), "lang": lit("w", lang="en"), "0": lit("0", "xsd:nonNegativeInteger"), "1": lit("1", "xsd:nonNegativeInteger"),
    "2": lit("2", "xsd:integer"), "-1": lit("-1", "xsd:integer"), "1.0": lit("1.0", "xsd:decimal"), "ill": lit("many", "xsd:nonNegativeInteger"), "ill double": lit("x", "xsd:double"),
    "NaN": lit("NaN", "xsd:double"), "INF": lit("INF", "xsd:float"), "date": lit("2020-13-45", "xsd:date"), "true": lit("true", "xsd:boolean"), "big": lit("9" * 60, "xsd:integer"),
    "very big": lit("1" * 5000, "xsd:integer"), "unknown type": lit("x", "ex:dt"), "xml": lit("<a", "rdf:XMLLiteral"), "html": lit("<a", "rdf:HTML"), "empty": Literal(""),
    "rational": lit("1/0", "owl:rational"), "percent": Literal("%s %d {0} \\x"), "percent iri": URIRef("http://ex.org/%s{0}"),
}
VOCABULARY = {x: iri(x) for x in (
    "rdf:nil owl:Thing owl:Nothing rdfs:Resource rdfs:Literal rdfs:Class owl:Class rdfs:Datatype xsd:integer rdf:type owl:sameAs owl:differentFrom rdfs:subClassOf rdfs:subPropertyOf "
    "rdfs:domain owl:inverseOf owl:unionOf rdf:first rdf:rest owl:onProperty owl:AllDifferent owl:TransitiveProperty owl:topObjectProperty owl:bottomObjectProperty "
    "owl:topDataProperty owl:equivalentClass owl:equivalentProperty rdf:_1 rdfs:label rdfs:member owl:NamedIndividual").split()}
PREDICATES = [iri(x) for x in (
    "rdf:type rdf:first rdf:rest rdf:value rdf:_1 rdf:_0 rdf:_x rdf:subject rdfs:subClassOf rdfs:subPropertyOf rdfs:domain rdfs:range rdfs:member rdfs:label rdfs:seeAlso "
    "owl:sameAs owl:differentFrom owl:equivalentClass owl:equivalentProperty owl:disjointWith owl:disjointUnionOf owl:complementOf owl:datatypeComplementOf owl:unionOf owl:intersectionOf "
    "owl:oneOf owl:inverseOf owl:propertyChainAxiom owl:propertyDisjointWith owl:hasKey owl:members owl:distinctMembers owl:onProperty owl:onProperties owl:onClass owl:onDataRange "
    "owl:onDatatype owl:withRestrictions owl:someValuesFrom owl:allValuesFrom owl:hasValue owl:hasSelf owl:maxCardinality owl:minCardinality owl:cardinality owl:maxQualifiedCardinality "
    "owl:minQualifiedCardinality owl:qualifiedCardinality owl:sourceIndividual owl:assertionProperty owl:targetIndividual owl:targetValue owl:imports owl:versionInfo owl:deprecated "
    "owl:topObjectProperty owl:bottomDataProperty xsd:minInclusive xsd:pattern rdf:langRange").split()]
CLASSES = [iri(x) for x in (
    "rdf:List rdf:Property rdf:Seq rdf:Statement rdfs:Resource rdfs:Literal rdfs:Class rdfs:Datatype rdfs:Container rdfs:ContainerMembershipProperty owl:Thing owl:Nothing owl:Class "
    "owl:Restriction owl:DataRange owl:ObjectProperty owl:DatatypeProperty owl:AnnotationProperty owl:OntologyProperty owl:FunctionalProperty owl:InverseFunctionalProperty "
    "owl:TransitiveProperty owl:SymmetricProperty owl:AsymmetricProperty owl:IrreflexiveProperty owl:ReflexiveProperty owl:AllDifferent owl:AllDisjointClasses owl:AllDisjointProperties "
    "owl:NegativePropertyAssertion owl:Axiom owl:Ontology owl:NamedIndividual owl:DeprecatedClass xsd:integer xsd:string xsd:anyURI rdf:XMLLiteral rdf:PlainLiteral").split()]

CONTEXTS = {
    "list predicates": ("owl:unionOf owl:intersectionOf owl:oneOf owl:propertyChainAxiom owl:hasKey owl:members owl:distinctMembers owl:disjointUnionOf owl:withRestrictions owl:onProperties", [
        "x a C", "C a owl:Class", "C a owl:AllDifferent", "C a owl:AllDisjointClasses", "C a owl:AllDisjointProperties", "m1 owl:sameAs m2", "a C b; a m1 b; b m2 c; c m1 a",
        "C a rdfs:Datatype; C owl:onDatatype xsd:integer", "x a m1; x a m2; y a C; z a C; y m1 y; z m1 y", "C owl:sameAs D; D rdfs:subClassOf C", 'm1 rdfs:subClassOf owl:Nothing; x a C',
        'C owl:onDatatype xsd:string; x p "w"; y q "1"^^xsd:integer; y a C']),
}


def substitute(atoms, env):
    """like gen.instantiate, but impossible triples are left out"""
    out = []
    for a in atoms:
        t = tuple(env[x] if x in env else const_term(x) for x in a)
        if not isinstance(t[0], Literal) and isinstance(t[1], URIRef) and t not in out:
            out.append(t)
    return out


def pack(scenarios, n):
    scenarios = list(gen.dedup(scenarios))
    for i in range(0, len(scenarios), n):
        yield scenarios[i:i + n]


class C28(Check):
    id = "C28"
    rule = ("every variable of every rule template (OWL, RDFS, false rules, list rules) replaced by each of 24 odd terms (literals of all sorts, ill-typed, huge, format characters), each of 22 "
            "well-formed and malformed lists and each of 33 vocabulary terms (thorough: all pairs of variables); 10 list-valued constructs x 22 lists x 12 contexts; facets x odd values, lists and "
            "base types; all single triples over 62 predicates x odd subjects and objects, RDFS: all triples over 31 vocabulary terms, thorough: all pairs of triples over a small vocabulary; "
            "odd lexical forms of all datatypes; lists of 1100 members. Every expansion must end without exception, keep the input, and be standard RDF but for literal subjects.")
    technique = "bounded exhaustive enumeration of malformed graphs; monitored execution (exceptions, termination, shape of the result)"
    assumptions = ["time limit of 120 s (300 s for the merged vocabulary) stands for non-termination", "huge indices of rdf:_n with axiomatic triples (one axiom per index, by design) are left out"]

    def space(self, tier):
        """name, mode, pack size, scenarios"""
        quick = tier == "quick"
        temps = gen.templates(("C01", "C02", "C03", "C04", "C05", "C06"), (2,) if quick else (1, 2, 3))
        rd = list(ref.RDFS_RULES)

        def mutated(rules, shapes, pairs=False):
            for r in rules:
                vs = variables(r.body)
                for v in vs:
                    for n, (term, more) in shapes.items():
                        env = base_env(vs)
                        env[v] = term
                        yield "%s{%s=%s}" % (r.name, v[1:], n), substitute(r.body, env) + more
                if pairs:
                    for v, w in itertools.combinations(vs, 2):
                        for (n, (t, more)), (k, (u, more2)) in itertools.product(list(shapes.items()), repeat=2):
                            env = base_env(vs)
                            env[v], env[w] = t, u
                            yield "%s{%s=%s %s=%s}" % (r.name, v[1:], n, w[1:], k), substitute(r.body, env) + more + [x for x in more2 if x not in more]
        plain = {n: (t, []) for n, t in PLAIN.items()}
        voc = {n: (t, []) for n, t in VOCABULARY.items()}
        some = {n: plain[n] for n in ("bnode", "string", "1", "ill", "unknown type")}
        yield "odd terms", "owl", 12, mutated(temps, plain)
        yield "lists in rules", "owl", 12, mutated(temps, LISTS)
        yield "odd terms", "rdfs", 12, mutated(rd, plain)
        yield "odd terms, all", "extr", 40, mutated(temps[::3] if quick else temps + rd, some if quick else plain)
        yield "vocabulary in rules", "owl", 1, mutated(temps[::5] if quick else temps, dict(list(voc.items())[::4]) if quick else voc)
        yield "vocabulary in rules", "rdfs", 1, mutated(rd, voc)
        if not quick:
            small = {n: plain[n] for n in ("bnode", "string", "0", "ill")}
            small.update({n: LISTS[n] for n in ("one", "loop", "no rest", "literals")})
            yield "pairs of odd terms", "owl", 20, mutated(temps, small, True)
            yield "vocabulary in rules", "extr", 1, mutated(temps[::4], dict(list(voc.items())[::4]))

        def constructs(preds, contexts):
            for p in preds.split():
                for n, (head, tr) in LISTS.items():
                    for c in contexts:
                        yield "%s %s %s" % (p, n, c), [(E("C"), iri(p), head)] + tr + T(c)
                for n, t in PLAIN.items():
                    yield "%s %s" % (p, n), [(E("C"), iri(p), t)] + T(contexts[0])
        preds, contexts = CONTEXTS["list predicates"]
        yield "lists", "owl", 12, constructs(preds, contexts)
        yield "lists", "ext", 12, constructs("owl:withRestrictions owl:oneOf owl:unionOf", contexts[::2] if quick else contexts)
        yield "lists", "extr", 12, constructs("owl:withRestrictions", contexts[-2:])

        def facets():
            names = [iri_of(x) for x in ORDER_FACETS + LENGTH_FACETS + ("pattern", "langRange")] + [XSD.totalDigits, XSD.fractionDigits, XSD.whiteSpace, RDFS.label]
            bases = [XSD.integer, XSD.string, XSD.double, XSD.dateTime, XSD.hexBinary, RDF.PlainLiteral, XSD.boolean, XSD.anyURI, RDFS.Literal, E("own"), OWL.rational, RDF.XMLLiteral]
            values = list(PLAIN.values()) + [RDF.nil, Literal("["), Literal("*"), Literal("(?"), Literal("en-*"), lit("2020-01-01T00:00:00Z", "xsd:dateTime"), lit("0A", "xsd:hexBinary")]
            lits = [lit("3", "xsd:integer"), Literal("ab"), lit("1.5", "xsd:double"), lit("2020-01-01T00:00:00", "xsd:dateTime"), lit("0A", "xsd:hexBinary"), lit("x", "ex:F"), lit("a@en", "rdf:PlainLiteral"),
                    lit("x", lang="en"), lit("x", "ex:own"), lit("1/2", "owl:rational"), lit("true", "xsd:boolean"), lit("y", "xsd:integer")]
            for b in bases[:6] if quick else bases:
                for f in names:
                    for v in values:
                        h = B("h")
                        yield "facet %s %s %s" % (b, f, v), [(E("F"), RDF.type, RDFS.Datatype), (E("F"), OWL.onDatatype, b), (E("F"), OWL.withRestrictions, h), (B("f"), f, v)] + rdf_list(h, [B("f")]) + [
                            (E("x"), E("p%d" % i), l) for i, l in enumerate(lits)] + T("R owl:allValuesFrom F; R owl:onProperty p1; x a R; y a F")
            for b in list(PLAIN.values()) + [RDF.nil, E("F"), B("f"), OWL.Thing, RDFS.Datatype] + bases[6:]:
                h = B("h")
                yield "onDatatype %s" % n3(b), [(E("F"), RDF.type, RDFS.Datatype), (E("F"), OWL.onDatatype, b), (E("F"), OWL.withRestrictions, h), (B("f"), XSD.minInclusive, lits[0])] + rdf_list(h, [B("f")])
        yield "facets", "ext", 24, facets()

        def triples(P, S, O):
            for p, s, o in itertools.product(P, S, O):
                yield "%s %s %s" % (n3(s), n3(p), n3(o)), [(s, p, o)]
        S = [E("a"), B("s")]
        O = [E("b"), B("o"), E("a"), Literal("w"), lit("many", "xsd:integer"), lit("1", "xsd:integer"), lit("w", "ex:dt")]
        yield "single triples", "owl", 12, triples(PREDICATES, S, O)
        yield "single triples", "ext", 12, triples(PREDICATES, S, O[:4])
        yield "typed", "owl", 12, triples([RDF.type], [E("a"), B("s")], CLASSES)
        yield "typed, used", "owl", 12, ((n, tr + [(E("x"), E("a"), E("y")), (E("y"), E("a"), Literal("w")), (E("z"), RDF.type, E("a"))]) for n, tr in triples([RDF.type], [E("a")], CLASSES))
        vt = list(VOCABULARY.values())
        yield "vocabulary triples", "owl", 1, triples([RDF.type, RDFS.subClassOf, OWL.sameAs, RDFS.domain, RDF.rest] if not quick else [OWL.sameAs, RDFS.subPropertyOf], vt[::1 if not quick else 6], vt[::1 if not quick else 5])
        yield "own and vocabulary", "owl", 1, triples(PREDICATES[::2] if quick else PREDICATES, [E("a")], vt[1::9] if quick else vt)
        yield "vocabulary triples", "rdfs", 1, triples([x for x in vt if str(x).startswith((str(RDF), str(RDFS)))] + [E("p")], vt[::2] if quick else vt, vt[::2] if quick else vt)
        if not quick:
            few = [RDF.type, RDFS.subClassOf, RDFS.subPropertyOf, RDFS.domain, RDFS.range, RDFS.Class, E("a")]
            tr = [t for t in itertools.product(few, few, few + [Literal("w")])]
            yield "pairs of triples", "rdfs", 1, (("pair", [a, b]) for a, b in itertools.combinations(tr, 2))
            fp = [RDF.type, OWL.sameAs, RDFS.subPropertyOf, OWL.inverseOf, RDF.first, E("p")]
            fs = [E("p"), B("s"), RDF.nil, RDF.type]
            tr = list(itertools.product(fs, fp, fs + [Literal("w")]))
            yield "pairs of triples", "owl", 1, (("pair", [a, b]) for a, b in itertools.combinations(tr, 2) if (tr.index(a) + tr.index(b)) % 3 == 0)

        def forms():
            odd = ["", " ", "x", "0", "-", "+", ".", "1e400", "-INF", "nan", "2020", "2020-01-01", "2020-01-01T00:00:00", "2020-02-30T25:61:61", "0000-00-00", "99999-01-01", "24:00:00", "24:00:00.1", "Z", "%", "<a>", "<a/>",
                   "\u0663", "1" * 400, "9" * 5000, "=", "AAA=", "0g", "a@", "@", "1/0", "1/", "/1", "1E9999999", "-1E99999999999999999999", "1E-99999999999999999999", "sNaN", "true ", "TRUE", "http://[", "\u00ff", "\U0001F600", "a b", "-0", "1_0", "0x1", "P1D", "--02-30"]
            for dt in list(owlrl.DatatypeHandling.AltXSDToPYTHON) + [OWL.rational, E("dt"), XSD.duration, XSD.gMonthDay, RDFS.Literal, XSD.nonsense]:
                for i in range(0, len(odd), 11):
                    yield "forms %s" % dt, [(E("x%d" % k), E("p"), lit(f, dt)) for k, f in enumerate(odd[i:i + 11])]
        for mode in ("owl", "rdfs", "ext"):
            yield "odd forms", mode, 3, forms()

        def very_long(props):
            """lists longer than any recursion limit"""
            for p in props:
                h = B("h")
                ms = [E("m%dm" % i) for i in range(1100)]
                head = {OWL.members: [(E("x"), RDF.type, OWL.AllDisjointClasses)], OWL.distinctMembers: [(E("x"), RDF.type, OWL.AllDifferent)],
                        OWL.withRestrictions: [(E("x"), RDF.type, RDFS.Datatype), (E("x"), OWL.onDatatype, XSD.integer)]}.get(p, [])
                yield "very long list %s" % n3(p), head + [(E("x"), p, h)] + rdf_list(h, ms) + [(E("a"), RDF.type, E("m7m")), (E("a"), E("m0m"), E("b"))]
        props = [OWL.unionOf, OWL.intersectionOf, OWL.oneOf, OWL.propertyChainAxiom, OWL.hasKey, OWL.members] + ([] if quick else [OWL.distinctMembers])
        yield "very long lists", "owl", 1, very_long(props)
        yield "very long lists", "ext", 1, very_long([OWL.withRestrictions])
        yield "very long lists", "rdfs", 1, very_long([OWL.unionOf])

    def cases(self, tier):
        for name, mode, n, scenarios in self.space(tier):
            opts = [(False, False)]
            for i, p in enumerate(pack(scenarios, n)):
                if n == 1:
                    yield name, (mode, (False, False), [p])
                else:
                    o = opts[0] if i % 17 else (True, True)
                    yield name, (mode, o, [p])

    def describe(self, payload):
        mode, opts, packs = payload
        return [mode, "axioms %s" % (opts,)] + [[label, show(tr)] for label, tr in packs[0][:3]]

    def run(self, label, payload, stats):
        mode, (ax, dax), packs = payload
        out = []
        for p in packs:
            out += self.check(label, mode, ax, dax, p, stats) or []
        return out

    def check(self, label, mode, ax, dax, scenarios, stats):
        single = len(scenarios) == 1
        tr = []
        for k, (_l, t) in enumerate(scenarios):
            tr += t if single else tag(t, k)
        stats["states"] += len(scenarios)
        bad = None
        try:
            with real_code(120 if "vocabulary" not in label and "very" not in label else 300):
                g = real.graph_of(tr)
                real.deductive(mode, ax, dax).expand(g)
            stats["impl"] += 1
            stats["transitions"] += len(g)
            stats.see("sizes", (label, len(g)))
            owl = mode != "rdfs"
            odd = [t for t in g if isinstance(t[1], Literal) or owl and not isinstance(t[1], URIRef) or not isinstance(t[0], (URIRef, BNode, Literal)) or not isinstance(t[2], (URIRef, BNode, Literal))]
            if odd:
                bad = "not RDF: %s" % show(odd, 4)
            lost = [t for t in tr if t not in g]
            if lost:
                bad = "input triples are gone: %s" % show(lost, 4)
        except RealError as e:
            bad = "%s" % e
        if not bad:
            return None
        if not single and not ax:  # which one is it
            h = len(scenarios) // 2
            vs = self.check(label, mode, ax, dax, scenarios[:h], stats) or self.check(label, mode, ax, dax, scenarios[h:], stats)
            if vs:
                return vs
        return [Violation("%s %s %s | %s" % (label, mode, scenarios[0][0], bad[:200]), "%s closure: %s\ninput:\n%s" % (mode, bad, "\n".join(show(tr, 40))))]


CHECKS = {"C28": C28}
