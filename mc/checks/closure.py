"""Closure checks: the implementation against the least fixpoint of the rule tables (C01-C07, C10, C11, C13, C23)."""
import itertools

from .. import gen, real, ref
from ..engine import Check, RealError, Violation, real_code, show
from ..gen import E, T, rdf_list, subsets, user_term
from ..vocab import (BNode, DISJOINT_TOP, EX, Literal, OWL, RDF, RDFS, RL_DATATYPES, URIRef, XSD, lit)

TERMS = ref.TERMS
SIZE_CAP = {"rdfs": 700, "owl": 420, "both": 500, "ext": 420, "extr": 500}


def back(ts):
    return [TERMS.back(t) for t in ts]


class Run:
    """one scenario through model and implementation"""
    __slots__ = ("triples", "mode", "model", "cl", "R", "bn", "full", "errors", "expanded")

    def __init__(self, triples, mode, stats, cap=None, limit=90, known=False, **kw):
        self.triples, self.mode = triples, mode
        self.model = ref.model(mode)
        self.cl = self.model.closure(triples, cap=cap or SIZE_CAP[mode])
        stats["transitions"] += self.cl.transitions
        stats["states"] += self.cl.transitions + 1
        if self.model.owl and not known and ref.branching(self.cl.G):
            raise Skip("branching_list")
        with real_code(limit):
            self.expanded = real.expand(triples, mode, **kw)
        stats["impl"] += 1
        self.errors = self.expanded.errors
        self.R = {TERMS.triple(t) for t in self.expanded.triples}
        bn = TERMS.is_bn
        self.bn = {t for t in self.cl.G.T if bn[t[1]]} if self.model.owl else set()
        self.full = ref.Store.of(self.R | self.bn | {TERMS.triple(t) for t in triples})
        stats.see("expansions", frozenset(self.R))


class Skip(Exception):
    pass


def missing(run, families):
    """conclusions of rules of the families whose premises are in the expansion, but which are not"""
    out = []
    bn = TERMS.is_bn
    for fam, rule, h in run.model.unclosed(run.full, families):
        if bn[h[1]] and run.model.owl:
            continue
        if h[0] < 2 or h[2] < 2:
            continue
        out.append((rule, h))
    return out


def extras(run):
    return run.R - run.cl.visible()


def user_terms(run):
    out = set()
    for t in run.cl.G.T:
        for i in t:
            x = TERMS.terms[i]
            if isinstance(x, URIRef):
                if x.startswith(EX):
                    out.add(i)
            elif isinstance(x, BNode) or (isinstance(x, Literal) and len(x) >= 5):
                out.add(i)
    return out


def text(i):
    return str(TERMS.terms[i])


def aliased_cells(run):
    """a list cell that is owl:sameAs another term (recorded finding, see known_findings.json)"""
    G = run.full
    return any(o != s for s, _r in G.P.get(ref.REST, ()) for o in G.SP.get((s, ref.SAMEAS), ()))


def unreported(run, strict=False):
    """instances of rules concluding 'false' for which there is no error message naming the clashing resources"""
    out = []
    G = run.full
    br = None
    for rule, clash, _all in ref.false_instances(G):
        if any(all(text(c) in m for c in clash) for m in run.errors):
            continue
        if rule in ("eq-diff2", "eq-diff3", "prp-adp", "cax-adc"):
            # the members of a list and their owl:sameAs aliases are interchangeable
            cls = [{c} | set(G.SP.get((c, ref.SAMEAS), ())) for c in clash]
            if rule.startswith("eq-diff"):
                if aliased_cells(run) and not strict:
                    continue
                if any(sum(1 for c in cls[0] if text(c) in m) > 1 for m in run.errors):
                    continue
            elif any(all(any(text(c) in m for c in k) for k in cls) for m in run.errors):
                continue
        out.append((rule, clash))
    return out


def unjustified(run, instances=None):
    """error messages that name no clash of the closure"""
    out = []
    if not run.errors:
        return out
    from .. import xsdref
    inst = ref.false_instances(run.full) if instances is None else instances
    ut = user_terms(run)
    lits = {o for t in run.triples for o in t if isinstance(o, Literal)}
    for m in run.errors:
        named = {u for u in ut if text(u) in m}
        if any(named <= set(al) | set(clash) and all(text(c) in m for c in clash) for _r, clash, al in inst):
            continue
        if any(str(x) in m and x.datatype is not None and str(x.datatype) in m and x.datatype in xsdref.BY_IRI and
               not xsdref.valid(str(x), x.datatype) for x in lits):
            continue
        out.append(m)
    return out


# ------------------------------------------------------------------------------------------------ scenario spaces
ALPHABETS = {
    "C02": T("""a owl:sameAs b; b owl:sameAs c; a p d; d q a; p owl:sameAs q; e p b; a a C; C owl:sameAs D;
                _:b owl:sameAs a; b owl:sameAs "wort9trow"; p owl:sameAs _:r; c d "wort8trow" """),
    "C03": T("""p a owl:FunctionalProperty; p a owl:InverseFunctionalProperty; p a owl:SymmetricProperty;
                p a owl:TransitiveProperty; p rdfs:subPropertyOf q; q owl:inverseOf p; p owl:equivalentProperty q;
                a p b; b p c; a q b; q rdfs:domain C; p rdfs:range C"""),
    "C04": T("""R owl:someValuesFrom C; R owl:onProperty p; a p b; b a C; C rdfs:subClassOf D; a a R;
                R owl:allValuesFrom C; R owl:hasValue b; a p c; D owl:equivalentClass R; D rdfs:subClassOf C""") + [
        (E("R"), OWL.maxCardinality, gen.ONE_LIT)],
    "C05": T("""A rdfs:subClassOf B; B rdfs:subClassOf C; C rdfs:subClassOf A; A owl:equivalentClass B; A a owl:Class;
                p rdfs:domain A; q rdfs:subPropertyOf p; p rdfs:subPropertyOf q; q rdfs:range B;
                B owl:equivalentClass C; q owl:equivalentProperty p; p a owl:ObjectProperty"""),
    "C06": T("""a owl:sameAs b; a owl:differentFrom b; p a owl:IrreflexiveProperty; a p a; p a owl:AsymmetricProperty;
                a p b; b p a; p owl:propertyDisjointWith q; a q b; A owl:disjointWith B; a a A; a a B;
                A owl:complementOf B; q rdfs:subPropertyOf p; B rdfs:subClassOf A"""),
}
RESTRICTIONS = {
    "hv": T("R owl:hasValue i; R owl:onProperty p; S owl:hasValue i; S owl:onProperty q; p rdfs:subPropertyOf q; "
            "q rdfs:subPropertyOf p; R owl:hasValue j; S owl:onProperty p; q rdfs:subPropertyOf r"),
    "svf": T("R owl:someValuesFrom A; R owl:onProperty p; S owl:someValuesFrom B; S owl:onProperty p; A rdfs:subClassOf B;"
             "S owl:onProperty q; p rdfs:subPropertyOf q; S owl:someValuesFrom A; B rdfs:subClassOf A"),
    "avf": T("R owl:allValuesFrom A; R owl:onProperty p; S owl:allValuesFrom B; S owl:onProperty p; A rdfs:subClassOf B;"
             "S owl:onProperty q; p rdfs:subPropertyOf q; S owl:allValuesFrom A; B rdfs:subClassOf A"),
}


def ladder_meta(n):
    """s1 sub-property of subPropertyOf; each next one is stated with the previous one: one round per step (RDFS, OWL)"""
    s = [RDFS.subPropertyOf] + [E("m%dm" % i) for i in range(1, n + 1)]
    out = [(s[1], s[0], s[0])]
    for i in range(2, n + 1):
        out.append((s[i], s[i - 1], s[0]))
    return out


def ladder_domain_hv(n):
    """x p1 v -> x a C1 -> x p2 v -> ...: two rounds per step (OWL)"""
    out = [(E("x"), E("p1p"), E("v"))]
    for i in range(1, n + 1):
        out += [(E("p%dp" % i), RDFS.domain, E("C%dC" % i)), (E("C%dC" % i), OWL.hasValue, E("v")),
                (E("C%dC" % i), OWL.onProperty, E("p%dp" % (i + 1)))]
    return out


def ladder_svf_hv(n):
    """x a R1 -> x p1 v (hasValue) -> x a S1 (someValuesFrom Thing) -> x a R2 (subClassOf) -> ..."""
    out = [(E("x"), RDF.type, E("R1R"))]
    for i in range(1, n + 1):
        r, s, p = E("R%dR" % i), E("S%dS" % i), E("p%dp" % i)
        out += [(r, OWL.hasValue, E("v")), (r, OWL.onProperty, p), (s, OWL.someValuesFrom, OWL.Thing),
                (s, OWL.onProperty, p), (s, RDFS.subClassOf, E("R%dR" % (i + 1)))]
    return out


def ladder_inter(n):
    """x in the intersection of C_i and K -> C_(i+1): class derived through two-member intersections, one round a step"""
    out = [(E("x"), RDF.type, E("C0C")), (E("x"), RDF.type, E("K"))]
    for i in range(n):
        l = BNode("zqci%dcqz" % i)
        out += [(E("C%dC" % (i + 1)), OWL.intersectionOf, l)] + rdf_list(l, [E("C%dC" % i), E("K")], "i%d" % i)
    return out


def ladder_chain(n):
    """property chains q_(i+1) = q_i o p"""
    out = [(E("x"), E("q0q"), E("x")), (E("x"), E("p"), E("x"))]
    for i in range(n):
        l = BNode("zqcj%dcqz" % i)
        out += [(E("q%dq" % (i + 1)), OWL.propertyChainAxiom, l)] + rdf_list(l, [E("q%dq" % i), E("p")], "j%d" % i)
    return out


def ladder_sameas(n):
    """functional property: y_i = z_i forces y_(i+1) = z_(i+1)"""
    out = [(E("p"), RDF.type, OWL.FunctionalProperty), (E("x"), E("p"), E("y1y")), (E("x"), E("p"), E("z1z"))]
    for i in range(1, n):
        out += [(E("y%dy" % i), E("p"), E("y%dy" % (i + 1))), (E("z%dz" % i), E("p"), E("z%dz" % (i + 1)))]
    return out


def ladder_trans(n):
    """a transitive property along a path"""
    return [(E("p"), RDF.type, OWL.TransitiveProperty)] + [
        (E("n%dn" % i), E("p"), E("n%dn" % (i + 1))) for i in range(n)]


def ladder_sub(n, prop=RDFS.subClassOf):
    return [(E("n%dn" % i), prop, E("n%dn" % (i + 1))) for i in range(n)]


def ladders(tier):
    k = 1 if tier == "quick" else 2
    yield "ladder meta", ladder_meta(12 * k)
    yield "ladder domain/hasValue", ladder_domain_hv(30 * k)
    yield "ladder someValuesFrom/hasValue", ladder_svf_hv(12 * k)
    yield "ladder intersectionOf", ladder_inter(24 * k)
    yield "ladder propertyChain", ladder_chain(24 * k)
    yield "ladder functional", ladder_sameas(8 * k)
    yield "ladder transitive", ladder_trans(14 * k)
    yield "ladder subClassOf", ladder_sub(14 * k)
    yield "ladder subPropertyOf", ladder_sub(14 * k, RDFS.subPropertyOf)
    yield "ladder equivalentClass", ladder_sub(8 * k, OWL.equivalentClass)
    yield "ladder sameAs", ladder_sub(8 * k, OWL.sameAs)


def long_lists(families, lengths=(3, 4, 5, 8, 13, 21, 40)):
    """list rules with longer lists (all members distinct)"""
    for n in lengths:
        for r in ref.parse("\n".join(gen.list_templates(n, n > 8))):
            if r.family in families:
                if n == 8 and r.false and not r.name.endswith(("0.1", "0.7", "6.7", "3.5")):
                    continue
                yield r.name, gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))


def gaps_in_long_lists(lengths=(5, 8, 13, 21, 40)):
    """rules with a premise per list member, one of which is missing"""
    for n in lengths:
        for r in ref.parse("\n".join(gen.list_templates(n, True))):
            tr = gen.instantiate(r.body, gen.base_env(gen.variables(r.body)))
            if r.false:
                for t in tr[-2:]:
                    yield r.name + " gap", [x for x in tr if x != t]
            elif r.name.startswith(("cls-int1", "prp-spo2", "prp-key")):
                facts = [t for t in tr if t[1] not in (RDF.first, RDF.rest) and not isinstance(t[2], BNode)]
                for k in sorted({0, 1, n // 2, len(facts) // 2, len(facts) - 2, len(facts) - 1}):
                    yield "%s gap %d" % (r.name, k), [x for x in tr if x != facts[k]]


def key_space(nkeys, nvals, two=True):
    """individuals x, y in a class with nkeys key properties; all combinations of values per individual and property"""
    base = [(E("C"), OWL.hasKey, E("zqkey")), (E("x"), RDF.type, E("C")), (E("y"), RDF.type, E("C"))]
    base += rdf_list(E("zqkey"), [E("k%dk" % i) for i in range(nkeys)], "k")
    opts = [(s, E("k%dk" % i), E("v%dv" % v)) for i in range(nkeys) for s in (E("x"), E("y")) for v in range(nvals)]
    for k in range(len(opts) + 1):
        for c in itertools.combinations(opts, k):
            yield "key%dx%d%s" % (nkeys, nvals, [opts.index(x) for x in c]), base + list(c)


def key_values():
    """individuals with many key values, which agree in one combination of values only"""
    ks = [E("k%dk" % i) for i in range(3)]
    base = [(E("C"), OWL.hasKey, E("zqkey")), (E("x"), RDF.type, E("C")), (E("y"), RDF.type, E("C"))]

    def vals(who, k, common, n):  # n values of one individual, of which one is common
        return [(E(who), ks[k], E("v%d%dv" % (k, v) if v == common else "v%d%d%sv" % (k, v, who))) for v in range(n)]
    three = base + rdf_list(E("zqkey"), ks, "k")
    for c in itertools.product(range(3), repeat=3):
        yield "key values %s" % (c,), three + [t for who in "xy" for k in range(3) for t in vals(who, k, c[k], 3)]
    one = base + rdf_list(E("zqkey"), ks[:1], "k")
    for v in range(12):
        yield "key value %d of 12" % v, one + vals("x", 0, v, 12) + vals("y", 0, v, 12)
    for i, j in ((0, 1), (0, 11), (5, 6), (10, 11), (3, 8)):
        yield "key of individuals %d, %d of 12" % (i, j), base[:1] + rdf_list(E("zqkey"), ks[:2], "k") + [
            t for n in range(12) for t in ((E("i%di" % n), RDF.type, E("C")), (E("i%di" % n), ks[0], E("w")),
                                           (E("i%di" % n), ks[1], E("v%dv" % (i if n == j else n))))]


def chain_space():
    """chains of length 2..4 over two properties x all edge sets of a small graph"""
    edges = [(E(s), E(p), E(o)) for s, o in (("a", "b"), ("b", "c"), ("b", "d"), ("c", "a")) for p in ("p", "q")]
    for n in (2, 3, 4):
        for ps in itertools.product("pq", repeat=n):
            if ps[0] != "p":
                continue
            ax = [(E("z"), OWL.propertyChainAxiom, E("zqchain"))] + rdf_list(E("zqchain"), [E(p) for p in ps], "h")
            yield "chain %s full" % "".join(ps), ax + edges
            for e in edges:
                yield "chain %s -%s" % ("".join(ps), "".join(x[-1] for x in e)), ax + [x for x in edges if x != e]


CARD_TYPES = "integer nonNegativeInteger positiveInteger int long short byte unsignedInt unsignedByte unsignedLong".split()
CARD_LEX = "0 1 00 01 001 +1 +0 -0 2 10 100 -1 11".split()


def card_space():
    for dt in CARD_TYPES:
        for lex in CARD_LEX:
            v = lit(lex, XSD[dt])
            common = T("R owl:onProperty p; a a R; a p b; a p c")
            yield "maxCardinality %s^^%s" % (lex, dt), common + [(E("R"), OWL.maxCardinality, v)]
            q = common + [(E("R"), OWL.maxQualifiedCardinality, v)]
            yield "maxQualifiedCardinality %s^^%s" % (lex, dt), q + T("R owl:onClass C; b a C; c a C; a p d")
            yield "maxQualifiedCardinality Thing %s^^%s" % (lex, dt), q + [(E("R"), OWL.onClass, OWL.Thing)]


def qualified_space():
    base = T("R owl:onProperty p; R owl:onClass C")
    opts = T("a a R; a p b; a p c; a p d; b a C; c a C; d a C; b a D; D rdfs:subClassOf C")
    for one in (gen.ZERO_LIT, gen.ONE_LIT):
        for k in range(2, 6):
            for c in itertools.combinations(opts, k):
                yield "qualified %s %s" % (one, [opts.index(x) for x in c]), \
                    base + [(E("R"), OWL.maxQualifiedCardinality, one)] + list(c)


FINDINGS = {
    "C04": [("finding:branching unionOf list", T("""C owl:unionOf _:l; _:l rdf:first A; _:l rdf:first B;
             _:l rdf:rest rdf:nil; a a A; b a B""")),
            ("finding:branching intersectionOf list", T("""C owl:intersectionOf _:l; _:l rdf:first A; _:l rdf:first B;
             _:l rdf:rest rdf:nil; a a C"""))],
    "C05": [("finding:branching unionOf list", T("""C owl:unionOf _:l; _:l rdf:first A; _:l rdf:first B;
             _:l rdf:rest rdf:nil"""))],
    "C06": [("finding:AllDifferent list joined through sameAs cells", T("""x a owl:AllDifferent; x owl:members l;
             l rdf:first a; l rdf:rest m; n rdf:first b; n rdf:rest rdf:nil; m owl:sameAs n; a owl:sameAs b"""))],
}
INCOMPLETE = [
    ("unterminated unionOf list", T("C owl:unionOf _:l; _:l rdf:first A; a a A")),
    ("unterminated AllDifferent list", T("""x a owl:AllDifferent; x owl:members l;
        l rdf:first a; l rdf:rest m; m rdf:first b; a owl:sameAs b""")),
    ("unionOf list without member", T("C owl:unionOf _:l; _:l rdf:rest _:m; _:m rdf:first A; _:m rdf:rest rdf:nil; a a A")),
    ("nil with a member", T("C owl:unionOf rdf:nil; rdf:nil rdf:first A; a a A")),
    ("end of the list derived late", T("""z owl:propertyChainAxiom _:l; _:l rdf:first p; k rdfs:subPropertyOf h;
        h rdfs:subPropertyOf rdf:rest; _:l k _:m; _:m rdf:first q; _:m rdf:rest rdf:nil; a p b; b q c""")),
    ("member derived late", T("""C owl:intersectionOf _:l; _:l k A; k rdfs:subPropertyOf h; h rdfs:subPropertyOf rdf:first;
        _:l rdf:rest _:m; _:m rdf:first B; _:m rdf:rest rdf:nil; a a B""")),
]
OWL_FAMILIES = ["C02", "C03", "C04", "C05"]
# vocabulary terms that can be interesting as classes, properties or individuals, without blowing up the closure
VOCAB_OTHERS = [RDFS.label, OWL.Thing]
VOCAB_QUICK = [OWL.Thing, OWL.Nothing, OWL.Class, RDFS.Class, RDFS.Datatype, XSD.integer, RDF.type, OWL.sameAs,
               RDFS.subClassOf, RDFS.subPropertyOf, RDFS.label, RDF.nil]


def special(fam, tier):
    """focused spaces of a rule family"""
    if fam == "C03":
        yield from key_space(2, 2)
        yield from key_values()
        yield from chain_space()
        if tier != "quick":
            yield from key_space(3, 2)
    if fam == "C04":
        yield from card_space()
        yield from qualified_space()
    if fam == "C05":
        for n, a in RESTRICTIONS.items():
            yield from subsets(n, a, 5 if tier == "quick" else 9, 4)
    if fam == "C06":
        yield from card_space()
        yield from qualified_space()


def more_instances(fams, lengths, near=False):
    """several instances of rules in one graph, complete and incomplete, of the same and of different rules"""
    rules = gen.templates(fams, lengths)
    yield from gen.doubled(rules)
    yield from gen.many(rules, 5)
    yield from gen.decoys(rules)
    yield from gen.merged(rules)
    yield from gen.joined(rules)
    yield from gen.two_lists(rules)
    yield from gen.same_text(rules)
    yield from gen.decorated(rules, near)


def family_space(fam, tier):
    quick = tier == "quick"
    yield from FINDINGS.get(fam, ())
    tm = gen.templates([fam])
    prod = gen.templates(OWL_FAMILIES, (2,))
    for r in tm:
        big = len([v for v in gen.variables(r.body) if not gen.is_cell(v)])
        yield from gen.identifications(r.name, r.body, True, min_blocks=big - 2 if quick and big > 5 else 1)
    yield from special(fam, tier)
    yield from subsets(fam, ALPHABETS[fam], 3 if quick else 5)
    yield from long_lists([fam])
    yield from more_instances([fam], (2,) if quick else (1, 2, 3))
    if not quick:
        yield from gen.many(gen.templates([fam], (2,)), 12)
        yield from gen.merged(gen.templates(OWL_FAMILIES + ["C06"], (2,)))
    yield from gen.delayed_rules(gen.templates([fam], (2,)), (4,) if quick else (2, 4, 6), True)
    yield from gen.delayed_far(gen.templates([fam], (2,)))
    yield from gen.compositions(tm, prod, general=not quick)
    for r in tm:
        yield from gen.vocabulary(r.name, r.body, VOCAB_QUICK if quick else gen.VOCAB)
        yield from gen.vocabulary(r.name, r.body, VOCAB_OTHERS if quick else gen.VOCAB, ("bn", "lit"))
    if quick:
        tm1 = gen.templates([fam], (2,))
        yield from gen.compositions(tm1, gen.templates([fam], (2,)))


class ClosureCheck(Check):
    mode = "owl"
    families = ()
    assumptions = ["the rule tables in mc/rules.py transcribe the W3C documents",
                   "scenario graphs whose model closure exceeds the size cap, or that contain branching lists, are skipped "
                   "and counted"]

    def describe(self, payload):
        return show(payload, 60)

    def run(self, label, payload, stats):
        try:
            cap = 200000 if label.startswith("ladder") else None
            run = Run(payload, self.mode, stats, cap=cap, limit=300 if cap else 90, known=label.startswith("finding:"))
        except ref.TooBig:
            stats["skipped_size"] += 1
            return
        except Skip as e:
            stats["skipped_" + str(e)] += 1
            return
        vs = self.judge(label, run, stats)
        if label.startswith("finding:"):
            # one entry per recorded input: which of the conclusions is missing may depend on the order of the store
            for v in vs or ():
                v.key = label
        return vs


class Completeness(ClosureCheck):
    rule = ("all rules of the family x all identifications of their variables x IRI/blank node/literal for one block; one "
            "premise derived by each other rule; all subsets of a focused alphabet; list lengths 1-8, 13, 21 and 40; derivation ladders; two "
            "and five instances of each rule that differ in one variable, also with a premise missing, pairs of rules of the family on the same terms, list axioms with two lists; each premise, and all but one, derived only after 4 rounds, the first and last one after 24 and 64 rounds. "
            "Oracle: the expansion (plus the model's blank-node-predicate triples) is closed under every rule of the family. "
            "A case is non-trivial if its expansion differs from that of every other case.")

    def cases(self, tier):
        fam = self.families[0]
        out = list(ladders(tier)) if self.ladders else []
        return list(gen.dedup(itertools.chain(out, family_space(fam, tier))))

    ladders = True

    def judge(self, label, run, stats):
        miss = missing(run, self.families)
        for r, _h in miss:
            stats.see("rules_violated", r)
        fams = set()
        if miss:
            r, h = miss[0]
            return [Violation("%s | %s" % (label, r), "rule %s: premises hold but the conclusion %s is missing\n%d missing\ninput:\n%s" % (
                r, show(back([h])), len(miss), "\n".join(show(run.triples, 40))))]


class C02(Completeness):
    id, families = "C02", ("C02",)


class C03(Completeness):
    id, families = "C03", ("C03",)


class C04(Completeness):
    id, families = "C04", ("C04",)


class C05(Completeness):
    id, families = "C05", ("C05",)


def near_miss_space(families, lengths=(1, 2)):
    for r in gen.templates(families, lengths):
        yield from gen.near_misses(r.name, r.body, gen.SWAPS)


class Soundness(ClosureCheck):
    rule = ("every rule (of every family) with its premises damaged in one place (a premise dropped, one occurrence of a "
            "variable replaced, a constant replaced by a related one, subject and object exchanged), every rule x all "
            "identifications of its variables, all subsets of focused alphabets. Oracle: the expansion is contained in the "
            "least fixpoint of the rule tables plus the documented one-time statements.")


class C01(Soundness):
    id = "C01"

    def cases(self, tier):
        quick = tier == "quick"
        fams = OWL_FAMILIES + ["C06"]

        def space():
            yield from INCOMPLETE
            yield from near_miss_space(fams)
            for r in gen.templates(fams, (2,)):
                n = len([v for v in gen.variables(r.body) if not gen.is_cell(v)])
                for label, tr in gen.identifications(r.name, r.body, True, min_blocks=n - 1 if quick else 1):
                    yield label, tr
            for f in fams:
                yield from subsets(f, ALPHABETS[f], 2 if quick else 4)
            for n, a in RESTRICTIONS.items():
                yield from subsets(n, a, 4, 3 if quick else 1)
            yield from card_space()
            yield from chain_space()
            yield from qualified_space()
            yield from datatype_space(tier, small=True)
            yield from long_lists(fams, (3,) if quick else (3, 4, 5, 40))
            yield from gaps_in_long_lists((5, 13, 40) if quick else (5, 8, 13, 21, 40))
            for r in gen.templates(fams, (2,)):
                yield from gen.vocabulary(r.name, r.body, [OWL.Thing, RDF.type, OWL.sameAs] if quick else VOCAB_QUICK)
            for f in fams:
                yield from more_instances([f], (2,) if quick else (1, 2, 3), True)
            yield from ((n, t) for _f, n, t in gen.long_near_misses())
            if not quick:
                yield from gen.delayed_rules(gen.templates(fams, (2,)), (4,), False)
                yield from near_miss_space(fams, (3,))
                yield from key_space(2, 2)
                prod = gen.templates(OWL_FAMILIES, (2,))
                yield from gen.compositions(prod, prod, True)
        return list(gen.dedup(space()))

    def judge(self, label, run, stats):
        ex = extras(run)
        if ex:
            return [Violation("%s | %s" % (label, show(back(ex))[0]),
                              "added, but not derivable:\n%s\ninput:\n%s" % ("\n".join(show(back(ex))), "\n".join(show(run.triples, 40))))]


class C06(ClosureCheck):
    id = "C06"
    rule = ("every rule concluding 'false' x all identifications of its variables and kinds of terms, one premise derived by "
            "each other rule, lists of 2-40 members with the clash in every pair of positions, all subsets of an alphabet of "
            "clash premises. Oracle: each match of such a rule in the expansion has an error node naming the clashing resources.")

    def cases(self, tier):
        return list(gen.dedup(itertools.chain(family_space("C06", tier), derived_clashes(tier))))

    def judge(self, label, run, stats):
        un = unreported(run, label.startswith("finding:"))
        stats["clashes"] += len(ref.false_instances(run.full))
        stats["errors"] += len(run.errors)
        bad = []
        if run.expanded.malformed:
            bad.append(("error node", "an error node without exactly one message"))
        for rule, clash in un:
            bad.append((rule, show([[TERMS.terms[c] for c in clash]])))
        if bad:
            return [Violation("%s | %s" % (label, bad[0][0]), "%s: clash %s is not reported\nmessages: %s\ninput:\n%s" % (
                bad[0][0], bad[0][1], run.errors, "\n".join(show(run.triples, 40))))]


def derived_clashes(tier):
    """the clash shows up only after several rounds"""
    lad = {"domain/hasValue": (ladder_domain_hv(6), (E("x"), RDF.type, E("C6C"))),
           "intersection": (ladder_inter(6), (E("x"), RDF.type, E("C6C")))}
    for n, (tr, (x, _p, c)) in lad.items():
        yield "late " + n + " disjointWith", tr + [(c, OWL.disjointWith, E("Z")), (x, RDF.type, E("Z"))]
        yield "late " + n + " Nothing", tr + [(c, RDFS.subClassOf, OWL.Nothing)]
        yield "late " + n + " complementOf", tr + [(E("Z"), OWL.complementOf, c), (x, RDF.type, E("Z"))]
        yield "late " + n + " AllDisjointClasses", tr + [
            (E("ad"), RDF.type, OWL.AllDisjointClasses), (E("ad"), OWL.members, E("zqadl")), (x, RDF.type, E("Z"))] + rdf_list(
            E("zqadl"), [E("Y"), E("Z"), E("W"), c], "ad")
    tr = ladder_sameas(5)
    a, b = E("y5y"), E("z5z")
    yield "late sameAs differentFrom", tr + [(a, OWL.differentFrom, b)]
    for p in (OWL.members, OWL.distinctMembers):
        yield "late sameAs " + p, tr + [(E("ad"), RDF.type, OWL.AllDifferent), (E("ad"), p, E("zqadl"))] + rdf_list(
            E("zqadl"), [E("k"), a, E("m"), b], "ad")
    tr = ladder_chain(5)
    yield "late irreflexive", tr + [(E("q5q"), RDF.type, OWL.IrreflexiveProperty)]
    yield "late asymmetric", tr + [(E("q5q"), RDF.type, OWL.AsymmetricProperty)]
    yield "late propertyDisjointWith", tr + [(E("q5q"), OWL.propertyDisjointWith, E("r")), (E("x"), E("r"), E("x"))]
    yield "late AllDisjointProperties", tr + [
        (E("ad"), RDF.type, OWL.AllDisjointProperties), (E("ad"), OWL.members, E("zqadl")), (E("x"), E("r"), E("x"))] + rdf_list(
        E("zqadl"), [E("o"), E("r"), E("n"), E("q5q")], "ad")
    for tgt in (OWL.targetIndividual, OWL.targetValue):
        yield "late negative assertion " + tgt, tr + [
            (E("n"), OWL.sourceIndividual, E("x")), (E("n"), OWL.assertionProperty, E("q5q")), (E("n"), tgt, E("x"))]
    # many clashes of one kind
    yield "many disjoint", [(E("C"), OWL.disjointWith, E("D"))] + [(E("m%dm" % i), RDF.type, c) for i in range(130) for c in (E("C"), E("D"))]
    yield "many irreflexive", [(E("p"), RDF.type, OWL.IrreflexiveProperty)] + [(E("m%dm" % i), E("p"), E("m%dm" % i)) for i in range(130)]
    # one clash per kind, all together: distinct clashes are all reported
    for i, (_same, tr) in enumerate(rdf_clash_pairs()):
        yield "two clashes %d" % i, tr


def rdf_clash_pairs():
    rules = [r for r in gen.templates(["C06"], (2,))]
    inst = []
    for r in rules:
        env = gen.base_env(gen.variables(r.body))
        inst.append((r, gen.instantiate(r.body, env)))
    for (r1, a), (r2, b) in itertools.combinations_with_replacement(inst, 2):
        ren = {t: (E("%s_2" % str(t)[len(EX):]) if isinstance(t, URIRef) and t.startswith(EX) else BNode("r" + t))
               for tr in b for t in tr if (isinstance(t, URIRef) and t.startswith(EX)) or isinstance(t, BNode)}
        # names of the second copy must not contain those of the first
        ren = {k: (E("zz%szz" % str(k)[len(EX) + 1:]) if isinstance(k, URIRef) else v) for k, v in ren.items()}
        yield r1 is r2, a + [tuple(ren.get(x, x) for x in t) for t in b]


class C07(ClosureCheck):
    id = "C07"
    rule = ("the premises of every rule concluding 'false', damaged in one place (a premise dropped, an occurrence of a "
            "variable replaced, a constant replaced, subject and object exchanged), undamaged with all identifications of "
            "variables, and consistent scenarios of all other rules. Oracle: every error message names exactly terms of one "
            "match of a 'false' rule in the closure, or an ill-typed literal; no clash, no error node.")

    def cases(self, tier):
        quick = tier == "quick"

        def space():
            yield from INCOMPLETE
            yield from near_miss_space(["C06"], (1, 2, 3))
            for r in gen.templates(["C06"], (2,)):
                n = len([v for v in gen.variables(r.body) if not gen.is_cell(v)])
                yield from gen.identifications(r.name, r.body, True, min_blocks=n - 1 if quick else 1)
            yield from subsets("C06", ALPHABETS["C06"], 3 if quick else 5)
            yield from card_space()
            yield from qualified_space()
            yield from near_miss_space(OWL_FAMILIES, (2,))
            yield from long_lists(["C06"], (3, 4, 21))
            yield from gaps_in_long_lists((13,))
            yield from consistent_lists()
            yield from more_instances(["C06"], (2,) if quick else (1, 2, 3), True)
            yield from ((n, t) for f, n, t in gen.long_near_misses() if f == "C06" or not quick)
            yield from gen.delayed_rules(gen.templates(["C06"], (2,)), (4,), not quick)
            yield from datatype_space(tier, small=True)
            yield from ((n, t) for n, t in derived_clashes(tier) if not n.startswith("two") or not quick)
        return list(gen.dedup(space()))

    def judge(self, label, run, stats):
        inst = ref.false_instances(run.full)
        # judged against the model closure: a report is only right if the clash is derivable
        inst += ref.false_instances(ref.Store.of(run.cl.G.T)) if run.errors else []
        stats["errors"] += len(run.errors)
        if run.errors:
            stats["inconsistent_cases"] += 1
        else:
            stats["cases_without_error"] += 1
        bad = unjustified(run, [x for x in inst if x[0]] if run.errors else [])
        if not bad and run.expanded.error_nodes and not run.errors:
            bad = ["error node without message"]
        if bad:
            return [Violation("%s | %s" % (label, bad[0][:60]), "report without a clash: %s\ninput:\n%s" % (
                bad, "\n".join(show(run.triples, 40))))]


def consistent_lists():
    """lists of n different members, each pair related by something harmless"""
    for n in (2, 3, 5):
        ms = [user_term(i) for i in range(n)]
        for typ, prop in ((OWL.AllDifferent, OWL.members), (OWL.AllDifferent, OWL.distinctMembers)):
            tr = [(E("ad"), RDF.type, typ), (E("ad"), prop, E("zqadl"))] + rdf_list(E("zqadl"), ms, "ad")
            yield "consistent %s %d" % (prop, n), tr + [(m, E("p"), E("o")) for m in ms]
            yield "consistent %s %d sameAs other" % (prop, n), tr + [(m, OWL.sameAs, user_term(10 + i)) for i, m in enumerate(ms)]
        tr = [(E("ad"), RDF.type, OWL.AllDisjointClasses), (E("ad"), OWL.members, E("zqadl"))] + rdf_list(E("zqadl"), ms, "ad")
        yield "consistent classes %d" % n, tr + [(user_term(10 + i), RDF.type, m) for i, m in enumerate(ms)]
        tr = [(E("ad"), RDF.type, OWL.AllDisjointProperties), (E("ad"), OWL.members, E("zqadl"))] + rdf_list(E("zqadl"), ms, "ad")
        yield "consistent properties %d" % n, tr + [(E("a"), m, user_term(10 + i)) for i, m in enumerate(ms)]
        yield "consistent properties' %d" % n, tr + [(user_term(10 + i), m, E("a")) for i, m in enumerate(ms)]
        yield "consistent properties'' %d" % n, tr + [(E("a"), m, E("b")) if i % 2 else (E("b"), m, E("a")) for i, m in enumerate(ms[:2])]


# ------------------------------------------------------------------------------------------------ datatypes
SAMPLE = {
    "integer": "10", "decimal": "1.5", "nonNegativeInteger": "3", "nonPositiveInteger": "-3", "negativeInteger": "-4",
    "positiveInteger": "4", "long": "5", "int": "6", "short": "7", "byte": "8", "unsignedLong": "9", "unsignedInt": "11",
    "unsignedShort": "12", "unsignedByte": "13", "float": "1.5E0", "double": "2.5E0", "string": "text one",
    "normalizedString": "text two", "token": "text three", "language": "en-GB", "Name": "a:name", "NCName": "ncname",
    "NMTOKEN": "1token", "boolean": "true", "hexBinary": "0AFF", "base64Binary": "QUJD", "anyURI": "http://ex.org/u",
    "dateTimeStamp": "2020-01-02T03:04:05Z", "dateTime": "2020-01-02T03:04:05", "time": "03:04:05", "date": "2020-01-02",
}


def dt_literal(dt):
    if dt.startswith(str(XSD)):
        return lit(SAMPLE[dt[len(str(XSD)):]], dt)
    return lit({RDF.PlainLiteral: "plain@en", RDF.XMLLiteral: "<a>x</a>", RDF.HTML: "<b>y</b>"}.get(dt, "z"), dt)


LITERAL_DTS = [d for d in RL_DATATYPES if d not in (RDFS.Literal, RDF.langString)]


def datatype_space(tier, small=False):
    a, b, p, q = E("a"), E("b"), E("p"), E("q")
    for d in LITERAL_DTS:
        yield "literal %s" % d, [(a, p, dt_literal(d))]
        if small:
            continue
        yield "literal twice %s" % d, [(a, p, dt_literal(d)), (b, q, dt_literal(d)), (b, p, a)]
    for d in RL_DATATYPES:
        yield "typed %s" % d, [(a, RDF.type, d)]
    for d in [XSD.byte, XSD.string] if small else RL_DATATYPES:
        yield "typed bnode %s" % d, [(BNode("zq1qz"), RDF.type, d)]
        for s, o in ((a, b), (b, a)):
            yield "typed sameAs %s" % d, [(a, RDF.type, d), (s, OWL.sameAs, o)]
        yield "range %s" % d, [(p, RDFS.range, d), (a, p, b)]
        yield "range literal %s" % d, [(p, RDFS.range, d), (a, p, lit("5", "xsd:byte"))]
        yield "subclass %s" % d, [(E("C"), RDFS.subClassOf, d), (a, RDF.type, E("C"))]
        yield "superclass %s" % d, [(d, RDFS.subClassOf, E("C")), (a, RDF.type, d)]
        yield "allValues %s" % d, [(E("R"), OWL.allValuesFrom, d), (E("R"), OWL.onProperty, p), (a, RDF.type, E("R")), (a, p, b)]
        yield "chain sameAs %s" % d, [(a, RDF.type, d), (a, OWL.sameAs, b), (b, OWL.sameAs, E("c"))]
        yield "functional %s" % d, [(p, RDF.type, OWL.FunctionalProperty), (a, p, b), (a, p, E("c")), (b, RDF.type, d)]
        yield "used as class only %s" % d, [(p, RDFS.range, d)]
        for k in (2, 4):
            yield "typed late %s %d" % (d, k), gen.delay([(a, RDF.type, d)], 0, k)
            yield "typed late %s %d, other value" % (d, k), gen.delay([(a, RDF.type, d)], 0, k) + [(b, RDF.type, XSD.token)]
        n = BNode("zq1qz")
        yield "range bnode %s" % d, [(p, RDFS.range, d), (a, p, n)]
        yield "subclass bnode %s" % d, [(E("C"), RDFS.subClassOf, d), (n, RDF.type, E("C"))]
    for d in [] if small else LITERAL_DTS:
        yield "literal sameAs %s" % d, [(a, OWL.sameAs, dt_literal(d))]
        yield "literal functional %s" % d, [(p, RDF.type, OWL.FunctionalProperty), (a, p, dt_literal(d)), (a, p, b)]
    yield "no datatype", [(a, p, lit("text seven")), (a, p, lit("text eight", lang="en"))]
    yield "unknown datatype", [(a, p, lit("text seven", E("dt"))), (a, RDF.type, E("dt"))]
    yield "gYear", [(a, p, lit("2020", "xsd:gYear"))]
    if small:
        return
    for d, e in itertools.combinations(RL_DATATYPES, 2):
        yield "typed twice %s %s" % (d, e), [(a, RDF.type, d), (a, RDF.type, e)]
    for d, e in itertools.combinations(LITERAL_DTS, 2):
        if tier == "quick" and not (d in DISJOINT_TOP or e in DISJOINT_TOP):
            continue
        yield "two literals %s %s" % (d, e), [(a, p, dt_literal(d)), (a, p, dt_literal(e))]
    for d, e in itertools.permutations(LITERAL_DTS, 2):
        if tier == "quick" and not (d in DISJOINT_TOP and e in DISJOINT_TOP):
            continue
        yield "literal in range %s %s" % (d, e), [(p, RDFS.range, e), (a, p, dt_literal(d))]
        yield "literal and type %s %s" % (d, e), [(a, p, dt_literal(d)), (b, RDF.type, e)]
        if tier != "quick":
            yield "literals via functional %s %s" % (d, e), [(p, RDF.type, OWL.FunctionalProperty), (a, p, dt_literal(d)),
                                                           (a, p, dt_literal(e))]


class C10(ClosureCheck):
    id = "C10"
    rule = ("every supported datatype as literal, as explicit and as derived type (range, subclass, allValuesFrom, sameAs, "
            "functional property), and all pairs of datatypes on one value or in one graph. Oracle: rdf:type triples with a "
            "datatype or rdfs:Datatype as object and disjointness of datatypes are exactly those of the model; a value typed "
            "with two disjoint datatypes has an error report.")

    def cases(self, tier):
        return list(gen.dedup(datatype_space(tier)))

    def judge(self, label, run, stats):
        dts = run.model.dtid | {ref.C("rdfs:Datatype")}

        def relevant(t):
            return (t[1] == ref.TYPE and t[2] in dts) or (t[1] == run.model.DISJ and t[0] in dts and t[2] in dts)
        want = {t for t in run.cl.visible() if relevant(t)}
        have = {t for t in run.R if relevant(t)}
        bad = []
        if want - have:
            bad.append("missing: %s" % show(back(want - have)))
        if have - want:
            bad.append("wrong: %s" % show(back(have - want)))
        clash = [x for x in unreported(run) if x[0] == "cax-dw"]
        if clash:
            bad.append("disjoint datatypes of one value not reported: %s" % show([[TERMS.terms[c] for c in clash[0][1]]]))
        no_clash = not [x for x in ref.false_instances(run.full) if x[0] == "cax-dw"]
        if no_clash and any("isjoint" in m for m in run.errors):
            bad.append("error without a clash: %s" % run.errors)
        stats["errors"] += len(run.errors)
        if bad:
            return [Violation("%s | %s" % (label, bad[0][:150]), "\n".join(bad) + "\ninput:\n" + "\n".join(show(run.triples)))]


# ------------------------------------------------------------------------------------------------ RDFS
class Exact(ClosureCheck):
    """expansion == model closure"""

    def judge(self, label, run, stats):
        want = run.cl.visible()
        bad = []
        miss, ex = want - run.R, run.R - want
        if miss:
            rules = sorted({r for r, _h in missing(run, None)})
            bad.append("missing (%s): %s" % (", ".join(rules), show(back(miss))))
        if ex:
            bad.append("not derivable: %s" % show(back(ex)))
        if bad:
            return [Violation("%s | %s" % (label, bad[0][:150]), "\n".join(bad) + "\ninput:\n" + "\n".join(show(run.triples, 40)))]


RDFS_PREDS = [RDF.type, RDFS.subClassOf, RDFS.subPropertyOf, RDFS.domain, RDFS.range, E("p"), RDF._1]
RDFS_SUBJ = [E("a"), E("b"), E("p"), RDF.type, RDFS.subClassOf, RDFS.subPropertyOf, RDFS.Resource, BNode("zq1qz")]
RDFS_OBJ = [E("a"), E("b"), E("p"), RDFS.Class, RDF.Property, RDFS.Datatype, RDFS.ContainerMembershipProperty,
            RDFS.Resource, RDFS.subPropertyOf, RDF.type, lit("wort"), BNode("zq1qz")]


def rdfs_pairs(tier):
    small = [(s, p, o) for p in RDFS_PREDS[:6] for s in (E("a"), E("b"), E("p"), RDF.type, RDFS.subPropertyOf)
             for o in (E("a"), E("b"), E("p"), RDFS.Class, RDF.Property, RDFS.Datatype, RDFS.subPropertyOf, lit("wort"))]
    full = [(s, p, o) for p in RDFS_PREDS for s in RDFS_SUBJ for o in RDFS_OBJ]
    for t in full:
        yield "single", [t]
    al = small if tier == "quick" else full
    for i, t in enumerate(al):
        for u in al[i + 1:]:
            yield "pair", [t, u]


RDFS_ALPHABET = T("""C rdfs:subClassOf D; D rdfs:subClassOf A; a a C; p rdfs:domain C; p rdfs:range D; a p b;
    q rdfs:subPropertyOf p; a q c; p rdfs:subPropertyOf r; C a rdfs:Class; d a rdfs:Datatype; _:x q "wort";
    s a rdfs:ContainerMembershipProperty; a s b""")


def rdfs_space(tier):
    yield "ladder meta", ladder_meta(60 if tier == "quick" else 130)
    yield "ladder subClassOf", ladder_sub(30)
    yield "ladder subPropertyOf", ladder_sub(30, RDFS.subPropertyOf)
    yield "ladder meta", ladder_meta(260 if tier == "quick" else 520)
    yield from gen.delayed_sub(ref.RDFS_RULES, 24)
    yield from gen.delayed_sub(ref.RDFS_RULES, 60)
    yield from gen.delayed_label(ref.RDFS_RULES, 24)
    yield from subsets("RDFS", RDFS_ALPHABET, 4 if tier == "quick" else 6)
    rules = ref.RDFS_RULES
    for r in rules:
        yield from gen.identifications(r.name, r.body, True)
        yield from gen.doubled([r])
        yield from gen.vocabulary(r.name, r.body, others=("iri", "bn", "lit"))
        yield from gen.near_misses(r.name, r.body, {
            k: [x for x in "rdf:type rdfs:subClassOf rdfs:subPropertyOf rdfs:domain rdfs:range".split() if x != k]
            for k in "rdfs:subClassOf rdfs:subPropertyOf rdfs:domain rdfs:range".split()})
    yield from gen.compositions(rules, rules, True)
    # three rules in a row
    for label, tr in gen.compositions(rules, rules, False):
        yield label + "+member", tr + [(E("zz"), E("alpha"), E("yy")), (E("yy"), RDF.type, E("bravo"))]
    yield from rdfs_pairs(tier)


class C11(Exact):
    id, mode = "C11", "rdfs"
    rule = ("all graphs of one or two triples over the RDFS vocabulary and user terms in every position, every RDFS rule x all "
            "identifications of variables and kinds of terms, all pairs of rules composed, all subsets of a mixed alphabet, "
            "derivations of 260 rounds, each premise derived only after 24 and 60 rounds. Oracle: expansion == least fixpoint of rdf1, rdfs2-13 plus copies under value-equal literals.")

    def cases(self, tier):
        return list(gen.dedup(rdfs_space(tier)))


CHECKS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C10, C11)}
