"""C24 trimming, C25 datasets and destinations, C26 conversion, C27 imports, C28 termination on every graph."""
import contextlib
import io
import itertools
import os

from rdflib import ConjunctiveGraph, Dataset, Graph

from .. import gen, real, ref
from ..engine import Check, RealError, Violation, n3, real_code, show
from ..gen import E, T, rdf_list, user_term
from ..vocab import BNode, Literal, OWL, RDF, RDFS, URIRef, XSD, iri, lit
from .whole import MIXED_ZOO, RDFS_ZOO, rdfs_zoo, zoo
import owlrl

# ------------------------------------------------------------------------------------------------ C24
ANNOTATION = [RDFS.label, RDFS.comment, RDFS.seeAlso, RDFS.isDefinedBy, OWL.deprecated, OWL.versionInfo, OWL.priorVersion,
              OWL.backwardCompatibleWith, OWL.incompatibleWith]
DATATYPES = [RDFS.Literal, RDF.PlainLiteral, RDF.XMLLiteral, RDF.HTML, RDF.langString, OWL.rational] + [XSD[x] for x in (
    "anyURI base64Binary boolean byte date dateTime dateTimeStamp decimal double float hexBinary int integer language long Name NCName negativeInteger NMTOKEN "
    "nonNegativeInteger nonPositiveInteger normalizedString positiveInteger short string time token unsignedByte unsignedInt unsignedLong unsignedShort").split()]
CORE = {OWL.Thing, OWL.Nothing, RDFS.Resource, RDFS.Class, OWL.Class, RDFS.Datatype, OWL.DataRange, OWL.DatatypeProperty}
FIXED = {(iri(a), iri(b), iri(c)) for a, b, c in (x.split() for x in (
    "owl:Nothing rdf:type owl:Class", "owl:Nothing rdf:type rdfs:Class", "owl:Thing rdf:type owl:Class", "owl:Thing rdf:type rdfs:Class",
    "owl:Thing owl:equivalentClass rdfs:Resource", "rdfs:Resource owl:equivalentClass owl:Thing"))}
REFLEXIVE = (OWL.sameAs, OWL.equivalentClass, RDFS.subClassOf, RDFS.subPropertyOf)


def trivial(full, datatypes):
    """documented kinds -> (must be removed, may be removed), as functions of a triple of the full expansion"""
    used = {o for _s, p, o in full if p == RDF.type}

    def must(t):
        s, p, o = t
        if s == o and p in REFLEXIVE:
            return True
        if p == RDFS.subClassOf and (o in (OWL.Thing, RDFS.Resource) or s == OWL.Nothing):
            return True
        if p == RDF.type and o == RDFS.Resource:
            return True
        for d, e in ((s, o), (o, s)):
            if d in datatypes and d not in used and p == OWL.disjointWith:
                return True
        if s in datatypes and s not in used and p == RDF.type and o in (RDFS.Datatype, OWL.DataRange):
            return True
        return p == RDF.type and o == OWL.AnnotationProperty and s in ANNOTATION or t in FIXED

    def may(t):
        s, p, o = t
        return must(t) or s in CORE and o in CORE and p in (RDF.type, RDFS.subClassOf, OWL.equivalentClass)
    return must, may


TRIM_TEXT = [
    ("classes", "A rdfs:subClassOf B; B rdfs:subClassOf C; A a owl:Class; C a rdfs:Class; a a A; owl:Thing rdfs:subClassOf D"),
    ("class of everything", "owl:Thing rdfs:subClassOf D; rdfs:Resource rdfs:subClassOf F; a a A"),
    ("nothing", "A rdfs:subClassOf owl:Nothing; owl:Nothing rdfs:subClassOf B; owl:Nothing owl:equivalentClass N; B owl:disjointWith owl:Nothing"),
    ("own nothing", "A rdfs:subClassOf ex:Nothing; ex:Nothing rdfs:subClassOf B; A rdfs:subClassOf ex:Thing; a a ex:Resource; ex:Resource rdfs:subClassOf ex:Thing"),
    ("properties", "p rdfs:subPropertyOf p; p owl:equivalentProperty p; p owl:inverseOf p; p rdfs:subPropertyOf q; p owl:equivalentProperty q; p a owl:ObjectProperty"),
    ("reflexive relations", "a p a; a owl:differentFrom b; A owl:disjointWith B; a rdfs:seeAlso a; A owl:complementOf B; p rdfs:domain p"),
    ("annotations", "rdfs:label a owl:AnnotationProperty; note a owl:AnnotationProperty; a note \"x\"; a rdfs:label \"y\"; rdfs:label rdfs:subPropertyOf note"),
    ("annotation roles", "rdfs:seeAlso a owl:ObjectProperty; owl:versionInfo a rdf:Property; note rdfs:subPropertyOf rdfs:comment; a rdfs:seeAlso b"),
    ("datatypes used", 'a p "1"^^xsd:byte; b p "x"^^xsd:token; c p "2020-01-01"^^xsd:date'),
    ("datatype as type", "a a xsd:integer; b a xsd:date; p rdfs:range xsd:boolean; a p c"),
    ("datatypes related", "xsd:byte rdfs:subClassOf D; D owl:disjointWith xsd:byte; xsd:date owl:equivalentClass E; xsd:time owl:sameAs F; D a rdfs:Datatype"),
    ("datatype declared", "xsd:byte a rdfs:Datatype; xsd:byte a owl:DataRange; xsd:byte a owl:Class; xsd:byte a C; D a rdfs:Datatype; D owl:disjointWith xsd:byte; D a owl:DataRange"),
    ("own datatypes", "D a rdfs:Datatype; D owl:disjointWith F; F a owl:DataRange; F owl:disjointWith xsd:byte"),
    ("restricted datatype", 'D a rdfs:Datatype; D owl:onDatatype xsd:integer; D owl:withRestrictions _:l; _:l rdf:first _:f; _:l rdf:rest rdf:nil; '
                            '_:f xsd:minInclusive "3"^^xsd:integer; a p "4"^^xsd:integer; b p "2"^^xsd:integer'),
    ("restricted datatype, unused", 'D a rdfs:Datatype; D owl:onDatatype xsd:integer; D owl:withRestrictions _:l; _:l rdf:first _:f; _:l rdf:rest rdf:nil; '
                                    '_:f xsd:minInclusive "3"^^xsd:integer; D rdfs:subClassOf X; D owl:disjointWith F'),
    ("same", "a owl:sameAs b; b owl:sameAs c; a p a; A owl:equivalentClass B"),
    ("individuals", "a a owl:Thing; a a A; A rdfs:subClassOf owl:Thing; owl:Thing a A; owl:Nothing a A; rdfs:Resource a B"),
    ("builtins related", "owl:Class rdfs:subClassOf A; rdfs:Class a B; rdfs:Datatype p owl:DataRange; owl:Thing owl:disjointWith A; owl:Thing p owl:Nothing"),
    ("errors", "C owl:disjointWith D; a a C; a a D; b owl:sameAs c; b owl:differentFrom c"),
    ("self", "R owl:hasSelf \"true\"^^xsd:boolean; R owl:onProperty p; a a R; b p b"),
    ("rational", 'a p "1/2"^^owl:rational; b p "2/4"^^owl:rational; c p "0.5"^^xsd:decimal'),
    ("only rational", 'owl:rational rdfs:subClassOf C; a p "1/2"^^owl:rational; owl:rational owl:disjointWith xsd:string'),
]


def user_extension(base):
    class WithRule(base):
        def rules(self, t, cycle_num):
            super().rules(t, cycle_num)
            s, p, o = t
            if p == E("mark"):
                self.store_triple((o, RDFS.subClassOf, OWL.Thing))
                self.store_triple((o, E("marked"), s))
                self.store_triple((s, RDFS.subClassOf, o))
    return WithRule


class C24(Check):
    id = "C24"
    rule = ("trimming closure vs. extended closure, both with and without RDFS rules and axioms: one graph per rule of all OWL and RDFS families, hand-written graphs around each "
            "documented kind (and around their near misses), all single triples over {2 user terms, blank node, 9 to 19 built-in terms} x 9 to 12 predicates, a user rule mixed in. "
            "Nothing may be removed but the documented kinds, and all of these must be; errors and all other triples agree.")
    technique = "bounded exhaustive enumeration; executable removal predicate over the documented kinds vs. implementation"
    assumptions = ["type, subclass and equivalence triples among the eight built-in classes (owl:Thing, owl:Class, rdfs:Datatype, ...) other than those the documentation lists may stay or go"]

    def cases(self, tier):
        quick = tier == "quick"
        texts = [(n, T(t)) for n, t in TRIM_TEXT]
        opts = list(itertools.product((False, True), repeat=2))
        for n, tr in texts:
            for mode in ("", "r"):
                for o in opts if not quick or n in ("classes", "datatypes related", "builtins related") else opts[:1]:
                    yield n, (mode, o, tr, None)
            yield n, ("r", (False, False), tr, "rule")
        yield "user rule", ("", (False, False), T("A mark B; B mark owl:Thing; C rdfs:subClassOf A"), "rule")
        yield "user rule", ("", (False, False), T("A mark B; B mark owl:Thing; C rdfs:subClassOf A"), "mixin")
        yield "user rule", ("r", (False, False), T("A mark B; B mark owl:Thing; C rdfs:subClassOf A; a a C"), "mixin")
        for p in REFLEXIVE + (OWL.equivalentProperty, E("p")):  # almost reflexive
            for a, b in ((E("a"), Literal(str(E("a")))), (E("a"), URIRef(str(E("a")) + "/")), (E("a"), E("A")), (BNode("zqbqz"), E("zqbqz")), (OWL.Thing, E("Thing")), (OWL.Nothing, E("Nothing"))):
                yield "almost reflexive", ("", (False, False), [(a, p, b)], None)
        z = zoo(lengths=(2,)) + MIXED_ZOO
        for n, tr in z:
            yield n, ("", (False, False), tr, None)
        for n, tr in z[::6] if quick else z:
            yield n, ("r", (False, False), tr, None)
        S = [E("a"), BNode("zqbqz"), OWL.Thing, OWL.Nothing, RDFS.Resource, RDFS.Class, XSD.byte, RDFS.label]
        O = [E("b"), OWL.Thing, OWL.Nothing, RDFS.Resource, OWL.Class, RDFS.Datatype, XSD.byte, OWL.AnnotationProperty]
        P = [RDF.type, RDFS.subClassOf, RDFS.subPropertyOf, OWL.sameAs, OWL.equivalentClass, OWL.equivalentProperty, OWL.disjointWith, OWL.differentFrom, E("p")]
        if not quick:
            S += [OWL.Class, RDFS.Datatype, OWL.DataRange, OWL.DatatypeProperty, OWL.rational, XSD.integer, OWL.versionInfo, RDFS.Literal]
            O = [E("b")] + S[1:] + [OWL.AnnotationProperty, RDF.Property, Literal("x"), lit("1", "xsd:byte")]
            P += [RDFS.range, RDFS.domain, OWL.complementOf]
        for s, p, o in itertools.product(S, P, O):
            if quick and p == OWL.sameAs and s in CORE and o in CORE:
                continue
            yield "%s %s %s" % (n3(s), n3(p), n3(o)), ("", (False, False), [(s, p, o)], None)
            if s == E("a"):
                yield "%s twice" % n3(p), ("", (False, False), [(s, p, o), (o, p, s)] if not isinstance(o, Literal) else [(s, p, o)], None)
                yield "%s reflexive" % n3(p), ("", (False, False), [(o, p, o), (s, RDF.type, o)] if not isinstance(o, Literal) else [(s, p, o)], None)

    def describe(self, payload):
        return ["trim" + payload[0], "axioms, datatype axioms: %s" % (payload[1],), payload[3]] + show(payload[2])

    def run(self, label, payload, stats):
        m, (ax, dax), tr, how = payload
        ext, trim = owlrl.OWLRL_Extension, owlrl.OWLRL_Extension_Trimming
        if how == "rule":
            ext, trim = user_extension(ext), user_extension(trim)
        elif how == "mixin":
            ext = user_extension(ext)
            trim = type("Mixed", (trim, ext), {})
        with real_code(200):
            full = real.expand(tr, "ext" + m, ax, dax, ext)
            cut = real.expand(tr, "trim" + m, ax, dax, trim)
        stats["impl"] += 2
        stats["states"] += 1
        restricted = [s for s, p, o in tr if p == OWL.withRestrictions]
        must, may = trivial(full.triples, set(DATATYPES) | set(restricted))
        removed = full.triples - cut.triples
        stats["transitions"] += len(full.triples)
        stats.see("removed", frozenset(removed))
        bad = []
        if cut.triples - full.triples:
            bad.append("only with trimming: %s" % show(cut.triples - full.triples))
        wrong = [t for t in removed if not may(t)]
        if wrong:
            bad.append("removed: %s" % show(wrong))
        left = [t for t in cut.triples if must(t)]
        if left:
            bad.append("not removed: %s" % show(left))
        if full.errors != cut.errors:
            bad.append("errors %s instead of %s" % (cut.errors[:3], full.errors[:3]))
        if bad:
            return [Violation("%s %s %s %s | %s" % (label, m, (ax, dax), how, bad[0][:200]),
                              "trimming (%s, axioms %s): %s\ninput:\n%s" % ("with RDFS" if m else "no RDFS", (ax, dax), "\n".join(bad), "\n".join(show(tr))))]


# ------------------------------------------------------------------------------------------------ C25
G1, G2, OUT = E("graph1"), E("graph2"), E("out")
DATA = [
    ("rdfs", "rdfs", "p rdfs:subPropertyOf q; q rdfs:domain C; C rdfs:subClassOf D; a p b"),
    ("rdfs literals", "rdfs", 'a p "1"^^xsd:integer; b p "01"^^xsd:integer; p rdfs:range C; c q "1"^^xsd:byte'),
    ("rdfs containers", "rdfs", "a rdf:_1 b; a rdf:_3 c; rdf:_2 rdfs:subPropertyOf q; q rdfs:range D"),
    ("owl chain", "owl", "p owl:propertyChainAxiom _:l; _:l rdf:first q; _:l rdf:rest _:m; _:m rdf:first r; _:m rdf:rest rdf:nil; a q b; b r c"),
    ("owl same", "owl", "a owl:sameAs b; b p c; c owl:sameAs d; p owl:inverseOf q"),
    ("owl restriction", "owl", "R owl:someValuesFrom C; R owl:onProperty p; a p b; b a D; D rdfs:subClassOf C"),
    ("owl errors", "owl", "C owl:disjointWith D; a a C; b a D; a owl:sameAs b; a owl:differentFrom b"),
    ("owl literals", "owl", 'p a owl:FunctionalProperty; a p "1"^^xsd:integer; a p "01"^^xsd:int; a q "x"^^xsd:integer'),
    ("both", "both", "C rdfs:subClassOf D; p rdfs:range C; a p b; D owl:equivalentClass F"),
    ("bnode predicates", "owl", "a _:1 b; p owl:inverseOf _:1; a p c; _:1 rdfs:domain C"),
    ("ext", "ext", 'D a rdfs:Datatype; D owl:onDatatype xsd:integer; D owl:withRestrictions _:l; _:l rdf:first _:f; _:l rdf:rest rdf:nil; '
                   '_:f xsd:minInclusive "3"^^xsd:integer; a p "4"^^xsd:integer; a q "x"^^ex:D'),
    ("ext self", "ext", 'R owl:hasSelf "true"^^xsd:boolean; R owl:onProperty p; a a R; b p b'),
    ("extr", "extr", "R owl:hasSelf a; R owl:onProperty p; R rdfs:subClassOf S; b p b"),
    ("trim", "trim", "C rdfs:subClassOf D; D rdfs:subClassOf owl:Thing; a a C; rdfs:label a owl:AnnotationProperty"),
    ("trimr", "trimr", "C rdfs:subClassOf D; a p b; p rdfs:domain C"),
    ("trim datatypes", "trim", "a a xsd:byte; b a xsd:date; xsd:time owl:disjointWith xsd:float; C rdfs:subClassOf D"),
]
CONTAINERS = ("dataset", "union dataset", "conjunctive")
DESTS = ("none", "name", "iri", "graph", "bnode graph", "bnode name", "source iri", "source graph", "default graph", "itself")


def contents(store):
    """graph identifier -> triples (graphs without triples left out)"""
    out = {}
    for (s, p, o), contexts in store.triples((None, None, None), None):
        for c in contexts:
            if c is not None:
                out.setdefault(getattr(c, "identifier", c), set()).add((s, p, o))
    return out


class C25(Check):
    id = "C25"
    rule = ("scenarios of 2 to 8 triples for all closures x all distributions of the triples over default graph and two named graphs (quick: all for short RDFS scenarios, otherwise "
            "all one-graph, round-robin and one-triple-apart distributions), copies of triples in several graphs included, x Dataset (with and without default_union) and ConjunctiveGraph x "
            "10 ways to name the destination; plain graphs sharing a store with a destination graph: all 2-colourings. All graphs of the store are compared before and after; "
            "a second expansion to the same destination adds nothing. Destinations that cannot work are rejected.")
    technique = "bounded exhaustive enumeration of distributions and destinations; differential against the expansion of the merged graph"
    assumptions = ["the default_union flag of the user's dataset is switched on by the library, by design", "the expansion of the merged plain graph is what C01 to C24 decide"]

    def distributions(self, n, full):
        if full:
            return list(itertools.product((0, 1, 2), repeat=n))
        out = [(k,) * n for k in (0, 1, 2)] + [tuple((i + k) % 3 for i in range(n)) for k in (0, 1, 2)]
        for i in range(n):
            out.append(tuple(2 if j == i else 1 for j in range(n)))
            out.append(tuple(0 if j == i else 1 for j in range(n)))
        return list(dict.fromkeys(out))

    def cases(self, tier):
        quick = tier == "quick"
        for name, mode, text in DATA:
            tr = T(text)
            ds = self.distributions(len(tr), name == "rdfs" or not quick and len(tr) <= 5)
            opts = [(False, False)] if quick and mode != "rdfs" else list(itertools.product((False, True), repeat=2)) if mode == "rdfs" else [(False, False), (True, True)]
            jobs = []
            for k, (c, d) in enumerate(itertools.product(CONTAINERS, DESTS)):
                for j, dist in enumerate(ds):
                    if quick and mode != "rdfs" and (k + j) % (5 if mode in ("owl", "ext", "trim") else 11):
                        continue
                    jobs.append((c, d, dist))
            for j, dist in enumerate(ds[:3] + ds[3::4] if quick else ds):  # copies in two graphs
                jobs.append((CONTAINERS[j % 3], DESTS[j % len(DESTS)], tuple((x, (x + 1) % 3) for x in dist)))
            for d in ("graph", "itself"):
                cols = list(itertools.product((0, 1), repeat=len(tr)))
                for j, dist in enumerate(cols if not quick or mode == "rdfs" else [x for x in cols if sum(x) in (0, 1, len(tr) - 1, len(tr))]):
                    if d == "graph" or j % 4 == 0:
                        jobs.append(("plain", d, dist))
            for o in opts:
                sel = jobs if o == (False, False) or mode != "rdfs" else jobs[::9]
                if o != (False, False) and mode == "rdfs":
                    sel = sel + [j for j in jobs if j[0] == "plain"]
                size = 60 if mode == "rdfs" else 12
                for i in range(0, len(sel), size):
                    yield name, (mode, o, tr, sel[i:i + size])

        for name, mode, text in DATA:
            yield name, (mode, "rejected", T(text), None)

    def describe(self, payload):
        return [payload[0], "axioms %s" % (payload[1],), payload[3]] + show(payload[2])

    def rejected(self, label, mode, tr, stats):
        """destinations that cannot work: another store, the name of a graph without a dataset"""
        def shared():
            return Graph(identifier=G1)
        for source in (Graph, shared, Dataset, ConjunctiveGraph):
            for dest in ("other graph", "other dataset", "name", "iri"):
                g = source()
                if dest in ("name", "iri") and source in (Dataset, ConjunctiveGraph):  # fine
                    continue
                for t in tr:
                    g.add(t)
                other = {"other graph": Graph, "other dataset": Dataset, "name": lambda: str(OUT), "iri": lambda: OUT}[dest]()
                before = contents(g.store)
                raised = None
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        real.deductive(mode).expand(g, destination=other)
                except Exception as e:
                    raised = e
                stats["impl"] += 1
                stats["states"] += 1
                bad = []
                if not isinstance(raised, ValueError):
                    bad.append("the destination is not rejected (%r)" % (raised,))
                if contents(g.store) != before or isinstance(other, Graph) and len(other):
                    bad.append("graphs are changed")
                if bad:
                    return [Violation("rejected %s %s %s" % (mode, source.__name__, dest), "%s closure of a %s into %s: %s" % (mode, source.__name__, dest, "; ".join(bad)))]

    def run(self, label, payload, stats):
        if payload[1] == "rejected":
            return self.rejected(label, payload[0], payload[2], stats)
        mode, (ax, dax), tr, jobs = payload
        if (label, mode, ax, dax) not in _MERGED:
            with real_code(200):
                _MERGED[label, mode, ax, dax] = real.expand(tr, mode, ax, dax)
        full = _MERGED[label, mode, ax, dax]
        for job in jobs:
            with real_code(200):
                bad = self.one(mode, ax, dax, tr, job, full, stats)
            if bad:
                return [Violation("%s %s %s %s | %s" % (label, mode, (ax, dax), job, bad[0][:200]),
                                  "%s closure, axioms %s, %s, destination: %s, triples in graphs %s: %s\ninput:\n%s" % (
                                      (mode, (ax, dax)) + job + ("\n".join(bad), "\n".join(show(tr)))))]

    def one(self, mode, ax, dax, tr, job, full, stats):
        container, dest, dist = job
        if container == "plain":
            base = Graph(identifier=G1)
            target = Graph(store=base.store, identifier=OUT)
            for t, d in zip(tr, dist):
                for k in d if isinstance(d, tuple) else (d,):
                    (base, target)[k].add(t) if dest == "graph" else base.add(t)
            g, destination, out = base, base if dest == "itself" else target, G1 if dest == "itself" else OUT
            other = Graph(store=base.store, identifier=G2)  # not concerned
            other.add((E("not"), E("our"), E("business")))
        else:
            g = {"dataset": Dataset, "union dataset": lambda: Dataset(default_union=True), "conjunctive": ConjunctiveGraph}[container]()
            graphs = [g.default_context, g.get_context(G1), g.get_context(G2)]
            for t, d in zip(tr, dist):
                for k in d if isinstance(d, tuple) else (d,):
                    graphs[k].add(t)
            b = BNode("zqoutqz")
            destination, out = {
                "none": (None, g.default_context.identifier), "name": (str(OUT), OUT), "iri": (OUT, OUT), "graph": (g.get_context(OUT), OUT), "bnode graph": (g.get_context(b), b), "bnode name": (b, b),
                "source iri": (G1, G1), "source graph": (g.get_context(G2), G2), "default graph": (g.default_context, g.default_context.identifier),
                "itself": (g, g.default_context.identifier)}[dest]
        store = g.store
        before = contents(store)
        if dest == "itself" and mode != "rdfs":  # the destination is everything: triples with blank nodes as predicates go
            before = {c: {t for t in ts if not isinstance(t[1], BNode)} for c, ts in before.items()}
        dc = real.deductive(mode, ax, dax)
        dc.expand(g, destination=destination)
        after = contents(store)
        stats["impl"] += 1
        stats["states"] += 1
        stats["transitions"] += sum(map(len, after.values()))
        bad = []
        for c in sorted(set(before) | set(after), key=str):
            if c != out and before.get(c, set()) != after.get(c, set()):
                new, gone = after.get(c, set()) - before.get(c, set()), before.get(c, set()) - after.get(c, set())
                bad.append("graph %s has changed: %s" % (c, show(new or gone, 5)))
        was = before.get(out, set())
        trim = mode.startswith("trim")
        if trim and dest == "itself":  # the destination is the whole dataset
            before, bad, was = {}, [], set()
        gone = {t for t in was - after.get(out, set()) if mode == "rdfs" or not isinstance(t[1], BNode)}
        if gone and not trim:
            bad.append("triples of the destination are gone: %s" % show(gone, 5))
        alone = {OUT, G1} if container == "plain" and dest == "graph" else {G1} if container == "plain" else set(after)
        union = set().union(*(after.get(c, set()) for c in alone))
        ex = real.Expanded(union)
        want = full.triples
        if trim:  # what the sources say stays there
            want = want | set().union(*(before.get(c, set()) for c in before if c != out and c in alone))
        elif mode != "rdfs":  # triples with blank nodes as predicates are removed from the destination only
            want = want | {t for c in before if c != out and c in alone for t in before[c] if isinstance(t[1], BNode)}
        if ex.triples != want:
            bad.append("all graphs together: missing %s, too many %s" % (show(want - ex.triples, 5), show(ex.triples - want, 5)))
        if ex.errors != full.errors:
            bad.append("errors %s instead of %s" % (ex.errors[:3], full.errors[:3]))
        stats.see("destination contents", (mode, frozenset(after.get(out, set()) & full.triples)))
        if not bad and not full.errors and not trim and (mode == "rdfs" or stats["states"] % 4 == 0):
            dc.expand(g, destination=destination)
            again = contents(store)
            stats["impl"] += 1
            if again != after:
                bad.append("a second expansion changes %s" % [str(c) for c in again if again[c] != after.get(c)])
        return bad


_MERGED = {}

CHECKS = {"C24": C24, "C25": C25}
