"""Properties of whole expansions: C14 axioms, C15 monotonicity, C16 histories, C17 enumeration orders, C18 names."""
import contextlib
import hashlib
import itertools
import json
import os
import re
import subprocess
import sys

from .. import gen, real, ref
from ..axioms import axioms
from ..engine import Check, RealError, Violation, real_code, show
from ..gen import E, T, rdf_list, user_term
from ..vocab import BNode, ERR_MSG_CLASS, ERR_MSG_PROP, Literal, OWL, RDF, RDFS, URIRef, XSD, iri, lit
from .closure import TERMS, back, ladder_domain_hv, ladder_meta, rdf_clash_pairs


# ------------------------------------------------------------------------------------------------ scenarios
def zoo(families=("C02", "C03", "C04", "C05", "C06"), lengths=(2, 3), rdfs=True):
    """one scenario per rule (list rules for the given lengths), without duplicates"""
    rules = gen.templates(families, lengths) + (ref.RDFS_RULES if rdfs else [])
    out = []
    for r in rules:
        out.append((r.name, gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))))
    return list(gen.dedup(out))


MIXED_ZOO = [
    ("fp literals", 'p a owl:FunctionalProperty; a p "1"^^xsd:integer; a p "01"^^xsd:integer; b q "1"^^xsd:byte'),
    ("ill-typed", 'a p "ten"^^xsd:integer; a q "x"^^xsd:byte; p rdfs:range C; p rdfs:domain C'),
    ("typed", 'a p "1"^^xsd:integer; q rdfs:range xsd:string; b q c; c owl:sameAs d'),
    ("typed late", "b q0 xsd:byte; q0 owl:inverseOf q1; q1 owl:inverseOf q2; q2 owl:inverseOf q3; q3 owl:inverseOf rdf:type"),
    ("typed late, clash", "b q0 xsd:byte; b a xsd:token; q0 owl:inverseOf q1; q1 owl:inverseOf q2; q2 owl:inverseOf q3; q3 owl:inverseOf rdf:type"),
    ("clashing types", "a a xsd:integer; a a xsd:string; b owl:sameAs a; b a xsd:token"),
    ("same/different", "a owl:sameAs b; b owl:sameAs c; c owl:differentFrom a; b owl:differentFrom d"),
    ("chain of chains", "p owl:propertyChainAxiom _:1; _:1 rdf:first q; _:1 rdf:rest _:2; _:2 rdf:first p; _:2 rdf:rest rdf:nil; a q b; b p c; d q a"),
    ("fp cascade", "p a owl:FunctionalProperty; a p b; a p c; b p d; c p e; d q e"),
    ("ifp cascade", "p a owl:InverseFunctionalProperty; a p b; c p b; d p a; e p c"),
    ("disjoint classes", "C owl:disjointWith D; E owl:disjointWith C; a a C; a a D; a a E; b a D; b a C"),
    ("all different", "x a owl:AllDifferent; x owl:distinctMembers _:1; _:1 rdf:first a; _:1 rdf:rest _:2; _:2 rdf:first b; _:2 rdf:rest _:3; "
                      "_:3 rdf:first c; _:3 rdf:rest rdf:nil; a owl:sameAs c; b owl:sameAs c"),
    ("disjoint properties", "p owl:propertyDisjointWith q; a p b; a q b; c p d; c q d; r rdfs:subPropertyOf p; r rdfs:subPropertyOf q; e r a"),
    ("asymmetric", "p a owl:AsymmetricProperty; p a owl:IrreflexiveProperty; a p b; b p a; c p c"),
    ("negative", "x owl:sourceIndividual a; x owl:assertionProperty p; x owl:targetIndividual b; a q b; q rdfs:subPropertyOf p"),
    ("complement", "C owl:complementOf D; a a C; a a D; b a D; b owl:sameAs a"),
    ("nothing", "C rdfs:subClassOf owl:Nothing; a a C; b a owl:Nothing"),
    ("max 0", 'C owl:maxCardinality "0"^^xsd:nonNegativeInteger; C owl:onProperty p; a a C; a p b; a p c'),
    ("max 1", 'C owl:maxCardinality "1"^^xsd:nonNegativeInteger; C owl:onProperty p; a a C; a p b; a p c; b owl:differentFrom c'),
    ("qualified max 1", 'C owl:maxQualifiedCardinality "1"^^xsd:nonNegativeInteger; C owl:onProperty p; C owl:onClass D; a a C; a p b; a p c; b a D; c a D'),
    ("keys", "C owl:hasKey _:1; _:1 rdf:first p; _:1 rdf:rest _:2; _:2 rdf:first q; _:2 rdf:rest rdf:nil; a a C; b a C; c a C; a p d; b p d; a q e; b q e; c p d"),
    ("keys, many values", "C owl:hasKey _:1; _:1 rdf:first p; _:1 rdf:rest rdf:nil; a a C; b a C; c a C; a p d; a p e; b p e; b p f; c p f"),
    ("same list members", "C owl:unionOf _:1; _:1 rdf:first A; _:1 rdf:rest _:2; _:2 rdf:first B; _:2 rdf:rest rdf:nil; A owl:sameAs D; a a D; b a B"),
    ("same list cells", "C owl:intersectionOf _:1; _:1 rdf:first A; _:1 rdf:rest _:2; _:2 rdf:first B; _:2 rdf:rest rdf:nil; _:2 owl:sameAs cell; a a A; a a B"),
    ("derived list", "C q _:1; q rdfs:subPropertyOf owl:unionOf; _:1 rdf:first A; _:1 rdf:rest rdf:nil; a a A; B owl:equivalentClass C"),
    ("subclass cycle", "A rdfs:subClassOf B; B rdfs:subClassOf C; C rdfs:subClassOf A; a a B"),
    ("restrictions", "R owl:someValuesFrom C; R owl:onProperty p; S owl:allValuesFrom D; S owl:onProperty p; R rdfs:subClassOf S; a p b; b a C"),
    ("symmetric transitive", "p a owl:SymmetricProperty; p a owl:TransitiveProperty; a p b; c p b; q owl:inverseOf p; d q c"),
    ("meta", "p rdfs:subPropertyOf rdfs:subClassOf; A p B; B p C; a a A"),
    ("oneOf", "C owl:oneOf _:1; _:1 rdf:first a; _:1 rdf:rest _:2; _:2 rdf:first b; _:2 rdf:rest rdf:nil; C rdfs:subClassOf D"),
]
MIXED_ZOO = [(n, T(t)) for n, t in MIXED_ZOO]
RDFS_ZOO = [
    ("hierarchies", "p rdfs:subPropertyOf q; q rdfs:domain C; C rdfs:subClassOf D; a p b; q rdfs:range E; E a rdfs:Class"),
    ("containers", "a rdf:_1 b; a rdf:_3 c; rdf:_1 a rdfs:ContainerMembershipProperty; p rdfs:subPropertyOf rdf:_3; c p a"),
    ("values", 'a p "1"^^xsd:integer; b p "01"^^xsd:integer; c q "1.0"^^xsd:decimal; c q "true"^^xsd:boolean; q rdfs:range C'),
    ("meta", "p rdfs:subPropertyOf rdfs:subPropertyOf; q p r; a q b; r rdfs:domain D"),
    ("types", "C rdfs:subClassOf rdfs:Class; D a C; E rdfs:subClassOf D; a a E; dt a rdfs:Datatype"),
]
RDFS_ZOO = [(n, T(t)) for n, t in RDFS_ZOO]


def rdfs_zoo(both=True):
    out = [(r.name, gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))) for r in ref.RDFS_RULES]
    out += list(gen.compositions(ref.RDFS_RULES, ref.RDFS_RULES)) if both else []
    return list(gen.dedup(out + RDFS_ZOO))


def branches(tr, mode="ext"):
    """does a list cell get two members or two continuations"""
    try:
        return ref.branching(ref.model(mode).closure(tr, cap=3000).G)
    except ref.TooBig:
        return True


def run(triples, mode, axioms=False, daxioms=False):
    with real_code(120):
        return real.expand(triples, mode, axioms, daxioms)


# ------------------------------------------------------------------------------------------------ C14
CONTAINER = lambda i: [(RDF["_%d" % i], p, o) for p, o in (  # noqa: E731
    (RDF.type, RDF.Property), (RDFS.domain, RDFS.Resource), (RDFS.range, RDFS.Resource), (RDF.type, RDFS.ContainerMembershipProperty))]


class C14(Check):
    id = "C14"
    rule = ("7 closure configurations x axioms on/off x datatype axioms on/off x graphs: all subsets of rdf:_1..rdf:_5 as predicates, larger and "
            "repeated indices, similar names that are no container properties, one graph per RDFS rule and a selection of OWL rules; inputs that contain "
            "(parts of) the tables; histories of two or three expansions with different options and triples added in between. "
            "Oracle: expansion == least fixpoint of the input and the tables of mc/axioms.txt for the chosen options (container axioms: at least for "
            "the used indices, at most up to the largest one).")
    assumptions = ["mc/axioms.txt transcribes the axiomatic triples of RDFS, of the XSD datatypes and of the OWL vocabulary as listed by the implementation's "
                   "documentation at the pinned commit", "trimming closures: only 'nothing else is added' is checked, see C24 for what stays"]

    def cases(self, tier):
        quick = tier == "quick"
        graphs = []
        idx = [1, 2, 3, 4, 5]
        for k in range(0, 6):
            for c in itertools.combinations(idx, k):
                graphs.append(("containers %s" % (c,), [(E("a"), RDF["_%d" % i], E("b")) for i in c]))
        for c in ((9,), (10,), (12,), (10, 2), (11, 10, 9), (20, 3), (2, 2), (13, 12, 1, 4), (99, 100), (101, 7), (128,)):
            graphs.append(("containers %s" % (c,), [(E("a%d" % j), RDF["_%d" % i], E("b")) for j, i in enumerate(c)]))
        for n in ("_0", "_01", "_", "_x", "_1a", "_1_2", "_-1", "_+2", "li", "_\u0663", "_2 ", "x_2", "_2#"):
            graphs.append(("name %r" % n, [(E("a"), URIRef(str(RDF) + n), E("b"))]))
        graphs.append(("not a predicate", [(RDF._3, E("p"), RDF._4), (E("a"), RDF._2, E("b"))]))
        graphs.append(("other namespace", [(E("a"), E("_5"), E("b")), (E("a"), URIRef(str(RDF) + "x_7"), E("b"))]))
        graphs.append(("other namespace", [(E("a"), URIRef("http://x/" + str(RDF) + "_5"), E("b")), (E("a"), RDF._1, E("b"))]))
        small = graphs[:]
        graphs += [("empty", [])] + rdfs_zoo(False) + [(n, T(t)) for n, t in (
            ("literals", 'a p "1"^^xsd:integer; b p "x"@en; c p "y"; d p "2020-01-01"^^xsd:date; e p "z"^^ex:dt'),
            ("owl", "p a owl:FunctionalProperty; a p b; a p c; C a owl:Class; owl:Thing a C; R owl:onProperty p; R owl:hasSelf x; R a owl:Restriction"))]
        ow = [x for x in zoo(("C03", "C04", "C05"), (2,), rdfs=False)]
        for opt in itertools.product((False, True), repeat=2):
            for n, tr in graphs + (rdfs_zoo() if not quick else []):
                yield n, ("rdfs", opt, tr)
            for mode in ("owl", "both", "ext", "extr", "trim", "trimr"):
                some = [g for g in small if g in (small[0], small[1], small[2], small[3], small[9]) or g[0].startswith(("containers (10, 2", "not a", "name"))]
                some = some if mode == "both" else some[:5]
                some = some + graphs[-2:] + [("empty", [])] + (ow[::7] if quick and mode == "owl" else [] if quick else ow)
                for n, tr in some if quick else graphs + ow:
                    yield n, (mode, opt, tr)

        yield "containers (1000,)", ("rdfs", (True, False), [(E("a"), RDF["_1000"], E("b"))])
        # histories: expanded with some options, then more triples and other options
        A, B = [(E("a"), RDF._1, E("b")), (E("a"), E("p"), lit("1", XSD.integer))], [(E("b"), RDF._3, E("c")), (E("b"), E("q"), lit("x", XSD.token))]
        opts = list(itertools.product((False, True), repeat=2))
        for mode in ("rdfs", "owl", "both", "ext", "extr") if quick else ("rdfs", "owl", "both", "ext", "extr", "trim", "trimr"):
            for o1, o2 in itertools.product(opts, repeat=2):
                if mode == "rdfs" or o1[0] == o1[1] and o2[0] == o2[1] and o2[0] or not quick:
                    yield "history", (mode, None, [(o1, A), (o2, B)])
        for o1, o2, o3 in itertools.product(opts, repeat=3) if not quick else ((opts[3], opts[3], opts[3]), (opts[3], opts[0], opts[3])):
            yield "history", ("rdfs", None, [(o1, A), (o2, B), (o3, [(E("c"), RDF._5, E("d"))])])
        # the input contains (part of) the tables
        for names in (("RDFS",), ("RDFS-D",), ("RDFS", "RDFS-D")):
            for opt in opts[1:]:
                ts = list(axioms(*names))
                yield "input contains %s" % (names,), ("rdfs", opt, A + B + ts)
                yield "input contains half of %s" % (names,), ("rdfs", opt, A + B + ts[::2])
                yield "input contains most of %s" % (names,), ("rdfs", opt, A + B + ts[:-1])
        for names in (("OWL",), ("OWL", "RDFS-D", "OWL-D-EXTRA")):
            ts = list(axioms(*names))
            yield "input contains %s" % (names,), ("owl", (True, True), A + ts)
            yield "input contains half of %s" % (names,), ("owl", (True, True), A + ts[1::2])

    def describe(self, payload):
        if payload[1] is None:
            return [payload[0]] + [["axioms, datatype axioms: %s" % (o,)] + show(t) for o, t in payload[2]]
        return [payload[0], "axioms, datatype axioms: %s" % (payload[1],)] + show(payload[2])

    def run(self, label, payload, stats):
        mode, opts, tr = payload
        steps = [(opts, tr)] if opts is not None else tr
        m = ref.model(mode.replace("trim", "ext"))
        extra, lower, upper, tr = [], [], [], []
        for (ax, dax), more in steps:
            tr = tr + more
            if m.rdfs:
                if ax:
                    extra += axioms("RDFS")
                    used = sorted({int(x) for x in (re.fullmatch(re.escape(str(RDF)) + "_([1-9][0-9]*)", str(t[1])) for t in tr) if x for x in x.groups()})
                    for i in used:
                        lower += CONTAINER(i)
                    for i in range(1, max(used, default=0) + 1):
                        upper += CONTAINER(i)
                if dax:
                    extra += axioms("RDFS-D") + [(o, RDF.type, o.datatype) for _s, _p, o in tr if isinstance(o, Literal) and o.datatype]
            if m.owl:
                if ax:
                    extra += axioms("OWL")
                if dax:
                    extra += axioms("RDFS-D", "OWL-D-EXTRA")
            if m.ext and ax:
                extra += axioms("EXT")
        lo = m.closure(tr, extra=extra + lower)
        hi = m.closure(tr, extra=extra + upper) if upper != lower else lo
        stats["states"] += lo.transitions + hi.transitions + 1
        stats["transitions"] += lo.transitions + hi.transitions
        if opts is not None:
            ex = run(tr, mode, *opts)
        else:
            with real_code(120):
                g = real.graph_of([])
                for (ax, dax), more in steps:
                    for t in more:
                        g.add(t)
                    real.deductive(mode, ax, dax).expand(g)
                    stats["transitions"] += 1
            ex = real.Expanded(set(g))
        stats["impl"] += 1
        R = {TERMS.triple(t) for t in ex.triples}
        stats.see("expansions", frozenset(R))
        bad = []
        miss = lo.visible() - R
        if miss and not mode.startswith("trim"):
            bad.append("missing: %s" % show(back(miss)))
        if R - hi.visible():
            bad.append("not derivable: %s" % show(back(R - hi.visible())))
        if ex.errors:
            bad.append("errors: %s" % ex.errors[:3])
        if not bad:
            return None
        what = [o for o, _t in steps]
        return [Violation("%s %s %s | %s" % (label, mode, what, bad[0][:200]),
                          "%s closure, axioms, datatype axioms %s: %s\ninput:\n%s" % (mode, what, "\n".join(bad), "\n".join(show(tr))))]


# ------------------------------------------------------------------------------------------------ C15
BRANCH = [("finding:branching list", T("C owl:unionOf l; l rdf:rest rdf:nil; x a A; y a B; l rdf:first B; l rdf:first A"))]


def finding_key(label, key):
    return label if label.startswith("finding:") else key


class C15(Check):
    id = "C15"
    rule = ("all subsets of the premises of every rule (OWL, RDFS, rules concluding false), of hand-written inconsistent and literal-heavy graphs and "
            "(RDFS: full lattices, OWL: the lattice's upper part) of compositions of two rules; every covering pair of the lattice is checked: "
            "each triple and each error message of the smaller graph's expansion is in the larger one's, and each expansion contains its input.")
    assumptions = ["lists stay rdf:Lists (adding a second value to a list cell makes it something else)", "trimming closures are excluded"]

    def cases(self, tier):
        quick = tier == "quick"
        for n, tr in BRANCH:
            yield n, ("owl", tr, 1)
        for n, tr in rdfs_zoo():
            yield n, ("rdfs", tr, 99)
        for n, tr in zoo(lengths=(2,)) + MIXED_ZOO:
            yield n, ("owl", tr, 99 if len(tr) <= (4 if quick else 8) else 1 if quick else 3)
        for n, tr in zoo(lengths=(2,)) if not quick else zoo(lengths=(2,))[::6]:
            yield n, ("both", tr, 1)
        for n, tr in MIXED_ZOO if not quick else []:
            yield n, ("both", tr, 1)
        rules = gen.templates(["C02", "C03", "C04", "C05", "C06"], (2,))
        for n, tr in itertools.chain(gen.doubled(rules), gen.two_lists(rules)):
            yield n, ("owl", tr, 1)
        for n, tr in gen.doubled(ref.RDFS_RULES):
            yield n, ("rdfs", tr, 99)
        # growing numbers of instances and of values
        for n, tr in gen.dedup(gen.many(rules + ref.RDFS_RULES, 5)):
            yield n, ("rdfs" if n.split()[0] in {r.name for r in ref.RDFS_RULES} else "owl", tr, 1)
        for n in (1, 2, 3):
            tr = T("K owl:hasKey _:l; x a K; y a K; z a K") + rdf_list(BNode("zqlqz"), [E("k%d" % i) for i in range(n)])
            for i in range(n):
                for j in range(4 if n < 3 else 2):
                    tr += [(E("x"), E("k%d" % i), E("v%d" % j)), (E("y"), E("k%d" % i), E("v%d" % (j + 1)))]
                tr += [(E("z"), E("k%d" % i), E("v4"))]
            yield "key of %d" % n, ("owl", tr, 1 if quick else 2)
        comps = list(gen.dedup(gen.compositions(rules, rules, False)))
        for n, tr in comps[::16] if quick else comps[::2]:
            if not branches(tr):
                yield n, ("owl", tr, 1)
        for n, tr in gen.dedup(gen.compositions(rules, ref.EXT_RULES, False)):
            if not branches(tr):
                yield n, ("ext", tr, 1)
        yield "meta", ("rdfs", ladder_meta(4), 1)

    def describe(self, payload):
        return [payload[0], "removing up to %s triples" % payload[2]] + show(payload[1])

    def run(self, label, payload, stats):
        mode, tr, depth = payload
        n = len(tr)
        done = {}

        def expansion(s):
            if s not in done:
                ex = run([tr[i] for i in s], mode)
                stats["impl"] += 1
                stats["states"] += 1
                stats.see("expansions", frozenset(ex.triples))
                done[s] = ex
            return done[s]
        for k in range(n, max(-1, n - depth - 1), -1):
            for s in itertools.combinations(range(n), k):
                big = expansion(s)
                lost = {tr[i] for i in s if mode == "rdfs" or not isinstance(tr[i][1], BNode)} - big.triples
                if lost:
                    return [self.bad(label, mode, [tr[i] for i in s], [], "input triples are lost: %s" % show(lost))]
                if k == n - depth:
                    continue
                for j in s:
                    small = expansion(tuple(i for i in s if i != j))
                    stats["transitions"] += 1
                    lost = small.triples - big.triples
                    if lost:
                        return [self.bad(label, mode, [tr[i] for i in s], [tr[j]], "adding the triple loses %s" % show(lost))]
                    lost = set(small.errors) - set(big.errors)
                    if lost:
                        return [self.bad(label, mode, [tr[i] for i in s], [tr[j]], "adding the triple loses the errors %s" % sorted(lost)[:3])]

    def bad(self, label, mode, tr, new, what):
        return Violation(finding_key(label, "%s %s | %s" % (label, mode, what[:200])), "%s closure: %s\n%s\ninput:\n%s" % (
            mode, what, ("triple: " + show(new)[0]) if new else "", "\n".join(show(tr))))


# ------------------------------------------------------------------------------------------------ C16
def strip_errors(triples):
    """without error nodes and everything about them"""
    nodes = {s for s, p, o in triples if p == RDF.type and o == ERR_MSG_CLASS}
    msgs = {o for s, p, o in triples if s in nodes and p == ERR_MSG_PROP}
    out = nodes | msgs | {ERR_MSG_CLASS, ERR_MSG_PROP}
    return {t for t in triples if not (t[0] in out or t[1] in out or t[2] in out)}, {str(m) for m in msgs}


def ordered_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    for k in range(1, len(items) + 1):
        for first in itertools.combinations(items, k):
            rest = [x for x in items if x not in first]
            for p in ordered_partitions(rest):
                yield [list(first)] + p


class C16(Check):
    id = "C16"
    rule = ("per scenario (one per rule, rules concluding false, literal-heavy and inconsistent graphs, long derivations): all histories that split the "
            "triples into two parts with an expansion after each (quick), all ordered partitions of up to 4 triples into any number of parts (thorough; quick: RDFS "
            "and part of OWL), followed by one more expansion. Oracle: same triples (error reports apart) and same error messages as one expansion of "
            "all triples; the extra expansion adds nothing.")
    assumptions = ["error reports of earlier expansions stay in the graph and are left out of the comparison", "no blank nodes as predicates",
                   "trimming closures: only the extra expansion is checked"]

    def cases(self, tier):
        quick = tier == "quick"
        for n, tr in rdfs_zoo(not quick):
            yield n, ("rdfs", tr, "all" if len(tr) <= 4 else "two")
        for n, tr in (rdfs_zoo() if quick else []):
            yield n, ("rdfs", tr, "two")
        for n, tr in zoo(lengths=(2,)) + MIXED_ZOO:
            if len(tr) <= 3 or not quick and len(tr) <= 4:
                yield n, ("owl", tr, "all")
            else:
                yield n, ("owl", tr, "two" if len(tr) <= (4 if quick else 7) else "one")
        for n, tr in (zoo(lengths=(2,)) + MIXED_ZOO)[::7 if quick else 1]:
            yield n, ("both", tr, "none" if quick else "one")
            yield n, ("ext", tr, "one")
            yield n, ("trim", tr, "none")
        rules = gen.templates(["C02", "C03", "C04", "C05", "C06"], (2,))
        for n, tr in gen.delayed_rules(rules, (4,) if quick else (2, 4), not quick):
            yield n, ("owl", tr, "none")
        for n, tr in itertools.chain(gen.doubled(rules), gen.two_lists(rules)):
            yield n, ("owl", tr, "none" if quick else "one")
        for n, tr in gen.doubled(ref.RDFS_RULES):
            yield n, ("rdfs", tr, "two")
        for k in (3, 5, 8):
            yield "ladder", ("rdfs", ladder_meta(k), "one")
            yield "ladder", ("owl", ladder_domain_hv(k), "one")
        for k in (130, 260):
            for mode in ("rdfs", "owl") if quick else ("rdfs", "owl", "both", "ext"):
                yield "ladder", (mode, ladder_meta(k), "none")

    def describe(self, payload):
        return [payload[0], payload[2]] + show(payload[1])

    def histories(self, tr, kind):
        n = range(len(tr))
        if kind == "all":
            return ordered_partitions(n)
        if kind == "two":
            return [[list(n)]] + [[[i for i in n if i not in c], list(c)] for k in range(1, len(tr)) for c in itertools.combinations(n, k)]
        if kind == "one":
            return [[list(n)]] + [[[i for i in n if i != j], [j]] for j in n if len(tr) > 1] + [[[j], [i for i in n if i != j]] for j in n if len(tr) > 1]
        return [[list(n)]]

    def run(self, label, payload, stats):
        mode, tr, kind = payload
        with real_code(120):
            g = real.graph_of(tr)
            real.deductive(mode).expand(g)
        want, errors = strip_errors(set(g))
        stats.see("expansions", frozenset(want))
        firsts = {}
        for h in self.histories(tr, kind):
            with real_code(120):
                # the graph after the first part is shared between histories
                key = tuple(h[0])
                if key in firsts:
                    g = real.graph_of(firsts[key])
                    rest = h[1:]
                else:
                    g = real.graph_of([tr[i] for i in h[0]])
                    real.deductive(mode).expand(g)
                    firsts[key] = set(g)
                    rest = h[1:]
                    stats["states"] += 1
                for part in rest:
                    for i in part:
                        g.add(tr[i])
                    real.deductive(mode).expand(g)
                    stats["transitions"] += 1
                    stats["states"] += 1
                if len(h) == 1:
                    real.deductive(mode).expand(g)
                    stats["transitions"] += 1
            stats["impl"] += 1
            got, errs = strip_errors(set(g))
            hist = " / ".join(",".join(map(str, p)) for p in h) + (" / again" if len(h) == 1 else "")
            bad = []
            if mode == "trim" and not got - want or got == want:
                pass
            else:
                bad.append("missing: %s, additional: %s" % (show(want - got), show(got - want)))
            if errs != errors:
                bad.append("error messages: missing %s, additional %s" % (sorted(errors - errs)[:3], sorted(errs - errors)[:3]))
            if bad:
                return [Violation("%s %s %s | %s" % (label, mode, hist, bad[0][:150]), "%s closure, history %s: %s\ninput:\n%s" % (
                    mode, hist, "\n".join(bad), "\n".join(show(tr, 40))))]


# ------------------------------------------------------------------------------------------------ C17
def ordered_store(policy):
    """an RDFLib store that enumerates the matches of a pattern in the order chosen by policy(pattern, list)"""
    from rdflib.plugins.stores.memory import SimpleMemory

    class OrderedStore(SimpleMemory):
        def triples(self, triple_pattern, context=None):
            found = list(super().triples(triple_pattern, context))
            if len(found) > 1:
                found = policy(triple_pattern, found)
            return iter(found)
    return OrderedStore()


def expand_with(policy, triples, mode):
    from rdflib import Graph
    with real_code(120):
        g = real.graph_of(triples, Graph(store=ordered_store(policy)))
        real.deductive(mode).expand(g)
        return real.Expanded(set(g))


SET_ORDERS = [("sorted", lambda x: str(x), False), ("reversed", lambda x: str(x), True), ("by the end of the names", lambda x: str(x)[::-1], False)]


@contextlib.contextmanager
def ordered_sets(key, rev):
    """the sets that the package makes with set() and frozenset() are enumerated in a given order"""
    def make(base):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, base)

        class Ordered(base, metaclass=Meta):
            def __iter__(self):
                return iter(sorted(base.__iter__(self), key=key, reverse=rev))
        return Ordered
    mods = [m for n, m in list(sys.modules.items()) if n == "owlrl" or n.startswith("owlrl.")]
    new = {b.__name__: make(b) for b in (set, frozenset)}
    todo = [(m, n) for m in mods for n in new if n not in vars(m)]
    for m, n in todo:
        setattr(m, n, new[n])
    try:
        yield
    finally:
        for m, n in todo:
            delattr(m, n)


def user_terms(triples):
    out = []
    for t in triples:
        for x in t:
            if (isinstance(x, BNode) or isinstance(x, URIRef) and x.startswith("http://ex.org/")) and x not in out:
                out.append(x)
    return out


def orders(triples, limit):
    """global enumeration orders: permutations of the user terms as first sort key, by subject or by object"""
    us = user_terms(triples)
    if limit < 0:  # a few rotations
        k = max(1, len(us) // -limit)
        perms = [tuple(us[i:] + us[:i]) for i in range(0, len(us), k)][:-limit]
    elif len(us) <= limit:
        perms = list(itertools.permutations(us))
    else:  # rotations of the order and of the reversed order, and all transpositions
        perms = [tuple(us[i:] + us[:i]) for i in range(len(us))] + [tuple((us[i:] + us[:i])[::-1]) for i in range(len(us))]
    for n, p in enumerate(perms):
        rank = {x: i for i, x in enumerate(p)}
        far = len(p) if n % 2 else -1
        idx = ((0, 1, 2), (2, 1, 0), (1, 2, 0))[n % 3]

        def policy(_pat, found, rank=rank, far=far, idx=idx):
            return sorted(found, key=lambda f: tuple((rank.get(f[0][i], far), str(f[0][i]) if f[0][i] not in rank else "") for i in idx))
        yield "order %s by %s, vocabulary %s" % ([str(x).split("/")[-1] for x in p], "spo"[idx[0]], "last" if far > 0 else "first"), policy


def reverse_all(_pat, found):
    return found[::-1]


class C17(Check):
    id = "C17"
    rule = ("per scenario (one per rule, inconsistent, list-heavy, key and literal-heavy graphs): a store that enumerates matches in the order induced by "
            "every permutation of the user terms (by subject, object or predicate, vocabulary first or last), reversed order, the sets made by the package enumerated in three orders, and one run per distinct "
            "enumerated pattern with only this pattern's matches reversed (all choice points, deviation bound 1; thorough: also rotated); "
            "all insertion orders of small graphs in the default store; and processes with different hash seeds. Oracle: identical triples and messages.")
    assumptions = ["lists with two members in one cell are not rdf:Lists and not judged", "hash seeds: those listed in the evidence (the store orders are exhaustive within "
                   "the bound; the iteration order of other Python sets than those made with set() is only varied by hash seeds)"]
    HASH_SEEDS = {"quick": range(0, 8), "thorough": range(0, 64)}

    def coverage(self, stats):
        return {"hash_seeds": list(self.HASH_SEEDS[self.tier])}

    def cases(self, tier):
        quick = tier == "quick"
        for n, tr in BRANCH:
            yield n, ("insertions", "owl", tr, 24)
        for s in self.HASH_SEEDS[tier]:
            yield "hash seed %d" % s, ("hash", "", s)
        for n, tr in rdfs_zoo(not quick) + ([] if quick else []):
            yield n, ("orders", "rdfs", tr, 4 if quick else 5)
            yield n, ("patterns", "rdfs", tr, not quick)
            if len(tr) <= 5:
                yield n, ("insertions", "rdfs", tr, 99)
        for i, (n, tr) in enumerate(MIXED_ZOO + zoo(lengths=(2,), rdfs=False)):
            yield n, ("orders", "owl", tr, (4 if i < len(MIXED_ZOO) else 3) if quick else 5)
            if not quick and len(tr) <= 4:
                yield n, ("insertions", "owl", tr, 24)
        for n, tr in MIXED_ZOO[::1 if not quick else 4] + (zoo(lengths=(2,), rdfs=False) if not quick else []):
            yield n, ("patterns", "owl", tr, not quick)
        for n, tr in MIXED_ZOO[::9] if quick else MIXED_ZOO + zoo(lengths=(2,)):
            yield n, ("orders", "both", tr, 2)
        rules = gen.templates(["C02", "C03", "C04", "C05", "C06"], (2,))
        for n, tr in itertools.chain(gen.doubled(rules), gen.two_lists(rules)):
            yield n, ("orders", "owl", tr, -3 if quick else 3)
        for n, tr in gen.doubled(ref.RDFS_RULES):
            yield n, ("orders", "rdfs", tr, 4)

    def describe(self, payload):
        return [payload[0], payload[1]] + (show(payload[2]) if payload[0] != "hash" else [payload[2]])

    def run(self, label, payload, stats):
        kind, mode, tr = payload[:3]
        if kind == "hash":
            return self.hash_seed(tr, stats)
        base = run(tr, mode)
        stats["impl"] += 1
        if kind == "orders":
            runs = itertools.chain([("reversed", reverse_all)], [("sets " + o[0], o) for o in SET_ORDERS], orders(tr, payload[3]))
        elif kind == "patterns":
            seen = {}

            def watch(pat, found):
                seen[pat] = max(seen.get(pat, 0), len(found))
                return found
            expand_with(watch, tr, mode)
            pats = sorted(seen, key=str)
            mine = set(user_terms(tr)) | {RDF.type, OWL.sameAs, RDF.first, RDF.rest, None}
            if mode != "rdfs" and not payload[3]:  # quick: patterns about user terms
                pats = [p for p in pats if any(x in mine and x is not None for x in p)]
            stats["choice_points"] += len(pats)

            def single(q, how):
                def policy(pat, found):
                    return found if pat != q else found[::-1] if how < 0 else found[how:] + found[:how]
                return policy
            runs = [("pattern %s reversed" % (p,), single(p, -1)) for p in pats]
            if payload[3]:
                runs += [("pattern %s rotated" % (p,), single(p, 1)) for p in pats if seen[p] > 2]
        else:
            runs = [("insertion order %s" % (c,), list(c)) for c in itertools.islice(itertools.permutations(range(len(tr))), 0, payload[3] if payload[3] != 99 else 10 ** 6)]
        for name, policy in runs:
            if kind == "insertions":
                ex = run([tr[i] for i in policy], mode)
            elif name.startswith("sets "):
                with ordered_sets(*policy[1:]):
                    ex = run(tr, mode)
            else:
                ex = expand_with(policy, tr, mode)
            stats["impl"] += 1
            stats["states"] += 1
            stats["transitions"] += 1
            if ex.triples != base.triples or ex.errors != base.errors:
                return [Violation(finding_key(label, "%s %s %s" % (label, mode, name)), "%s closure, %s: additional %s, missing %s, errors %s instead of %s\ninput:\n%s" % (
                    mode, name, show(ex.triples - base.triples), show(base.triples - ex.triples), ex.errors, base.errors, "\n".join(show(tr))))]
        stats.see("expansions", frozenset(base.triples))

    def hash_seed(self, seed, stats):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.run([sys.executable, "-m", "mc.checks.whole", self.tier], env=env, capture_output=True, text=True, timeout=600,
                           cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        if p.returncode:
            raise RealError("hash seed %d: %s" % (seed, p.stderr[-500:]))
        got = json.loads(p.stdout.splitlines()[-1])
        want = dict(digests(self.tier))
        stats["impl"] += len(got)
        stats["states"] += len(got)
        stats["transitions"] += len(got)
        for k in want:
            if got.get(k) != want[k]:
                return [Violation("hash seed %s" % k, "the expansion of %s differs between hash seeds %s and %s" % (k, seed, os.environ.get("PYTHONHASHSEED")))]


_digests = {}


def digests(tier):
    """name -> digest of the expansion (the same for every hash seed)"""
    if not _digests:
        n = 0
        todo = [("rdfs", x) for x in rdfs_zoo(False)] + [("owl", x) for x in MIXED_ZOO + (zoo(lengths=(2,)) if tier != "quick" else zoo(lengths=(2,))[::4])]
        todo += [("ext", x) for x in MIXED_ZOO[::3]] + [("both", x) for x in MIXED_ZOO[::9]]
        for mode, (name, tr) in todo:
            ex = run(tr, mode)
            n += 1
            text = "\n".join(sorted(" ".join(x.n3() for x in t) for t in ex.triples) + ex.errors)
            _digests["%s %s %d" % (mode, name, n)] = hashlib.sha256(text.encode()).hexdigest()
    return _digests


# ------------------------------------------------------------------------------------------------ C18
ADVERSARIAL = [
    ["http://ex.org/a", "http://ex.org/ab", "http://ex.org/abc", "http://ex.org/abcd", "http://ex.org/abcde", "http://ex.org/abcdef", "http://ex.org/abcdefg"],
    ["urn:z", "urn:y", "urn:x", "urn:w", "urn:v", "urn:u", "urn:t"],
    ["http://ex.org/Thing", "http://ex.org/owl#Class", "http://ex.org/sameAs", "http://ex.org/type", "http://ex.org/_1", "http://ex.org/Nothing", "http://ex.org/nil"],
    ["http://\u00e9x.org/\u4e2d", "tag:%s", "tag:%d%%", "tag:{0}", "a:b", "http://www.w3.org/2001/XMLSchema-instance#int", "http://ex.org/" + "long" * 40],
    ["http://x/1", "http://x/10", "http://x/2", "http://x/01", "http://x/1.0", "http://x/true", "http://x/0"],
    ["http://EX.org/A", "http://ex.org/A", "http://ex.org/a", "http://ex.org/a/", "http://ex.org/a#", "http://ex.org/a?b", "http://ex.org/%61"],
    ["http://ex.org/#_5", "http://ex.org/ns#_1", "http://ex.org/_2", "http://ex.org/rdf#_12", "http://ex.org/rdf-syntax-ns#_3", "http://ex.org/22-rdf-syntax-ns#_7", "urn:_9"],
    ["http://ex.org/" + "".join(c.upper() if i >> j & 1 else c for j, c in enumerate("name")) for i in range(16)],
    ["http://ex.org/" + "n" * 250 + "%02d" % i for i in range(20)],
    ["http://ex.org/%02d" % i + "n" * 250 for i in range(20)],
    ["http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/2002/07/owl#", "http://www.w3.org/2000/01/rdf-schema#", "http://www.w3.org/2001/XMLSchema#",
     "http://www.w3.org/2001/XMLSchema#x/y", "http://www.w3.org/2002/07/owl#NothingElse", "http://www.w3.org/2002/07/owlThing"],
]


def renamed(triples, m):
    return [tuple(m.get(x, x) for x in t) for t in triples]


def rename_text(text, m):
    names = {str(k): str(v) for k, v in m.items()}
    if not names:
        return text
    pat = re.compile("|".join(re.escape(k) for k in sorted(names, key=len, reverse=True)))
    return pat.sub(lambda x: names[x.group(0)], text)


class C18(Check):
    id = "C18"
    rule = ("per scenario (one per rule, inconsistent, list, key and literal graphs): all permutations of the names of the user terms (more than %s terms: rotations and "
            "transpositions), eleven adversarial namings (prefixes of each other, differing in case only, long with a common start or end, other namespaces, format characters, non-ASCII, numbers, case, container membership look-alikes, near the vocabularies), every user term "
            "alone and all together as blank nodes, blank nodes as IRIs. Oracle: the renamed expansion, error messages included "
            "(blank nodes as predicates: without the triples that have them as predicate).")
    rule = rule % 4
    assumptions = ["the names are no vocabulary terms"]

    def cases(self, tier):
        quick = tier == "quick"
        for n, tr in rdfs_zoo():
            yield n, ("rdfs", tr, 4 if quick else 6)
            yield n, ("rdfs axioms", tr, 0)
        for i, (n, tr) in enumerate(MIXED_ZOO[::6 if quick else 1]):
            yield n, ("owl axioms", tr, 0)
        for i, (n, tr) in enumerate(MIXED_ZOO + zoo(lengths=(2,), rdfs=False)):
            yield n, ("owl", tr, 3 if quick else 5)
        for n, tr in (MIXED_ZOO + zoo(lengths=(2,)))[::10 if quick else 1]:
            yield n, ("both", tr, 0)
            yield n, ("ext", tr, 0)
        rules = gen.templates(["C02", "C03", "C04", "C05", "C06"], (2,))
        for n, tr in list(gen.two_lists(rules))[::4 if quick else 1]:
            yield n, ("owl", tr, 0)
        for i, (same, tr) in enumerate(rdf_clash_pairs()):
            if same or i % 8 == 0 or not quick:
                yield "two clashes", ("owl", tr, 0)
        if not quick:
            for n, tr in list(gen.dedup(gen.compositions(rules, rules, False)))[::5]:
                yield n, ("owl", tr, 2)

    def describe(self, payload):
        return [payload[0]] + show(payload[1])

    def renamings(self, tr, limit):
        us = user_terms(tr)
        iris = [u for u in us if isinstance(u, URIRef)]
        n = len(iris)
        if n <= limit:
            perms = list(itertools.permutations(iris))[1:]
        elif limit:
            perms = [iris[i:] + iris[:i] for i in range(1, n)] + [iris[::-1]]
            for i, j in itertools.combinations(range(n), 2):
                p = list(iris)
                p[i], p[j] = p[j], p[i]
                perms.append(p)
        else:
            perms = [iris[::-1]]
        for p in perms:
            yield "permutation", dict(zip(iris, p))
        for a in ADVERSARIAL:
            for names in (a, a[::-1]) if limit else (a,):
                m = {u: URIRef(names[i] if i < len(names) else "http://more.org/%dx" % i) for i, u in enumerate(iris)}
                yield "naming %s" % names[0], m
        for u in us:
            if isinstance(u, URIRef):
                yield "blank node for %s" % u, {u: BNode("bn1nb")}
        yield "blank nodes", {u: BNode("bn%dnb" % i) for i, u in enumerate(iris)}
        bns = [u for u in us if isinstance(u, BNode)]
        if bns:
            yield "IRIs for blank nodes", {u: URIRef("http://cells.org/c%d" % i) for i, u in enumerate(bns)}
            yield "other blank nodes", {u: BNode("aa%d" % (9 - i)) for i, u in enumerate(bns)}

    def run(self, label, payload, stats):
        mode, tr, limit = payload
        ax = mode.endswith(" axioms")
        mode = mode.split()[0]
        base = run(tr, mode, ax, ax)
        stats["impl"] += 1
        stats.see("expansions", frozenset(base.triples))
        for what, m in self.renamings(tr, limit):
            if any(t[1] in m and isinstance(m[t[1]], BNode) for t in tr) and mode == "rdfs":
                pass  # kept by RDFS
            ex = run(renamed(tr, m), mode, ax, ax)
            stats["impl"] += 1
            stats["states"] += 1
            stats["transitions"] += 1
            want = set(renamed(base.triples, m))
            if mode != "rdfs":
                want = {t for t in want if not isinstance(t[1], BNode)}
            errs = sorted(rename_text(e, m) for e in base.errors)
            bad = []
            if ex.triples != want:
                bad.append("additional %s, missing %s" % (show(ex.triples - want), show(want - ex.triples)))
            if ex.errors != errs:
                bad.append("errors %s instead of %s" % (ex.errors, errs))
            if bad:
                return [Violation("%s %s %s" % (label, mode, what), "%s closure, %s %s: %s\ninput:\n%s" % (
                    mode, what, {str(k): str(v) for k, v in m.items()}, "\n".join(bad), "\n".join(show(tr))))]


CHECKS = {c.id: c for c in (C14, C15, C16, C17, C18)}

if __name__ == "__main__":
    print(json.dumps(digests(sys.argv[1])))
