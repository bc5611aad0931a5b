"""Enumeration of bounded scenario spaces.  Every generator is deterministic and yields (label, [triples])."""
import itertools

from rdflib import BNode, Literal, URIRef

from . import ref
from .vocab import EX, OWL, RDF, RDFS, XSD, iri, lit

NAMES = ("alpha bravo charlie delta echo foxtrot golf hotel india juliett kilo lima mike november oscar papa quebec "
         "romeo sierra tango uniform victor whiskey xray yankee zulu").split()
ZERO_LIT, ONE_LIT = lit("0", "xsd:nonNegativeInteger"), lit("1", "xsd:nonNegativeInteger")


def E(x):
    return URIRef(EX + x)


def user_term(i, kind="iri"):
    """i-th user term; no name is a substring of another one"""
    if kind == "iri":
        return E(NAMES[i]) if i < len(NAMES) else E("w%dw" % i)
    if kind == "bn":
        return BNode("zq%dqz" % i)
    if kind == "lit":
        return Literal("wort%dtrow" % i)
    if kind == "int":
        return lit(str(70010 + i), "xsd:integer")
    raise ValueError(kind)


# ------------------------------------------------------------------------------------------------ rule templates
def _list_template(head, members):
    """triples of an rdf:List with the given member tokens; cells ?_1 ?_2 ...; head: 's p' that points to it"""
    out = ["%s ?_1" % head]
    for i, m in enumerate(members, 1):
        out.append("?_%d rdf:first %s" % (i, m))
        out.append("?_%d rdf:rest %s" % (i, "?_%d" % (i + 1) if i < len(members) else "rdf:nil"))
    return ", ".join(out)


def _chain(n):
    ps = ["?p%d" % i for i in range(1, n + 1)]
    return "prp-spo2/%d [C03]: %s, %s -> ?u1 ?p ?u%d" % (
        n, _list_template("?p owl:propertyChainAxiom", ps),
        ", ".join("?u%d ?p%d ?u%d" % (i, i, i + 1) for i in range(1, n + 1)), n + 1)


def _key(n):
    ps = ["?p%d" % i for i in range(1, n + 1)]
    return "prp-key/%d [C03]: %s, ?x a ?c, ?y a ?c, %s -> ?x owl:sameAs ?y" % (
        n, _list_template("?c owl:hasKey", ps),
        ", ".join("?x ?p%d ?z%d, ?y ?p%d ?z%d" % (i, i, i, i) for i in range(1, n + 1)))


def list_templates(n=2, few=False):
    """the rules about lists for lists of length n, with each of the members (few: with some of them)"""
    some = sorted({0, n // 2, n - 2, n - 1}) if few else list(range(n))
    cs = ["?c%d" % i for i in range(1, n + 1)]
    out = [_chain(n), _key(n)]
    out.append("cls-int1/%d [C04]: %s, %s -> ?y a ?c" % (n, _list_template("?c owl:intersectionOf", cs),
                                                        ", ".join("?y a %s" % x for x in cs)))
    for k in some:
        m = "%d.%d" % (n, k)
        c = cs[k]
        out.append("cls-int2/%s [C04]: %s, ?y a ?c -> ?y a %s" % (m, _list_template("?c owl:intersectionOf", cs), c))
        out.append("cls-uni/%s [C04]: %s, ?y a %s -> ?y a ?c" % (m, _list_template("?c owl:unionOf", cs), c))
        out.append("cls-oo/%s [C04]: %s -> %s a ?c" % (m, _list_template("?c owl:oneOf", cs), c))
        out.append("scm-int/%s [C05]: %s -> ?c rdfs:subClassOf %s" % (m, _list_template("?c owl:intersectionOf", cs), c))
        out.append("scm-uni/%s [C05]: %s -> %s rdfs:subClassOf ?c" % (m, _list_template("?c owl:unionOf", cs), c))
    for i in some:
        for j in some[some.index(i) + 1:]:
            m = "%d.%d.%d" % (n, i, j)
            a, b = cs[i], cs[j]
            for nm, pr in (("eq-diff2", "owl:members"), ("eq-diff3", "owl:distinctMembers")):
                out.append("%s/%s [C06]: ?x a owl:AllDifferent, %s, %s owl:sameAs %s -> FALSE(%s %s)" % (
                    nm, m, _list_template("?x " + pr, cs), a, b, a, b))
            out.append("prp-adp/%s [C06]: ?x a owl:AllDisjointProperties, %s, ?u %s ?v, ?u %s ?v -> FALSE(%s %s)" % (
                m, _list_template("?x owl:members", cs), a, b, a, b))
            out.append("cax-adc/%s [C06]: ?x a owl:AllDisjointClasses, %s, ?u a %s, ?u a %s -> FALSE(%s %s)" % (
                m, _list_template("?x owl:members", cs), a, b, a, b))
    return out


def templates(families, lengths=(1, 2)):
    """rules as generation templates (list rules instantiated for the given lengths)"""
    fam = set(families)
    out = [r for r in ref.OWL_RULES if r.family in fam]
    for n in lengths:
        out += [r for r in ref.parse("\n".join(list_templates(n))) if r.family in fam]
    return out


# ------------------------------------------------------------------------------------------------ instantiation
def const_term(t):
    if t == "ZERO":
        return ZERO_LIT
    if t == "ONE":
        return ONE_LIT
    if isinstance(t, (URIRef, BNode, Literal)):
        return t
    return iri(t)


def is_cell(v):
    return v.startswith("?_")


def instantiate(atoms, env):
    out = []
    for a in atoms:
        t = tuple(env[x] if x in env else const_term(x) for x in a)
        if isinstance(t[0], Literal) or isinstance(t[1], Literal):
            return None
        if t not in out:
            out.append(t)
    return out


def variables(atoms):
    out = []
    for a in atoms:
        for x in a:
            if isinstance(x, str) and x[:1] == "?" and x not in out:
                out.append(x)
    return out


def var_positions(atoms):
    pos = {}
    for a in atoms:
        for x, w in zip(a, "spo"):
            if isinstance(x, str) and x[:1] == "?":
                pos.setdefault(x, set()).add(w)
    return pos


def partitions(items):
    """all set partitions, coarsest last"""
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


def kinds(pos, bn_pred=False):
    if "p" in pos:
        return ["iri", "bn"] if bn_pred and pos == {"p"} else ["iri"]
    if "s" in pos:
        return ["iri", "bn"]
    return ["iri", "bn", "lit", "int"]


def base_env(vs, offset=0):
    env = {}
    n = offset
    for v in vs:
        if is_cell(v):
            env[v] = BNode("zqc%scqz" % v[2:])
        else:
            env[v] = user_term(n)
            n += 1
    return env


def identifications(name, atoms, bn_pred=False, min_blocks=1):
    """A: all ways to identify variables, each block an IRI, one block at a time replaced by another kind of term."""
    pos = var_positions(atoms)
    vs = variables(atoms)
    cells = [v for v in vs if is_cell(v)]
    vs = [v for v in vs if not is_cell(v)]
    parts = sorted(partitions(vs), key=lambda p: -len(p))
    for part in parts:
        if len(part) < min_blocks:
            continue
        bpos = [set().union(*(pos[v] for v in b)) for b in part]
        options = [kinds(bp, bn_pred) for bp in bpos]
        choices = [tuple("iri" for _ in part)]
        for i, o in enumerate(options):
            for k in o[1:]:
                choices.append(tuple(k if j == i else "iri" for j in range(len(part))))
        if len(part) > 1:  # all terms, or two of them, of the same other kind
            for k in ("bn", "lit"):
                more = [tuple(k if k in o and "p" not in bp else "iri" for o, bp in zip(options, bpos))]
                if len(part) == len(vs):
                    may = [i for i, (o, bp) in enumerate(zip(options, bpos)) if k in o and "p" not in bp]
                    more += [tuple(k if j in c else "iri" for j in range(len(part))) for c in itertools.combinations(may, 2)]
                choices += [c for c in dict.fromkeys(more) if c not in choices]
        for ch in choices:
            env = {c: BNode("zqc%scqz" % c[2:]) for c in cells}
            for i, (b, k) in enumerate(zip(part, ch)):
                for v in b:
                    env[v] = user_term(i, k)
            tr = instantiate(atoms, env)
            if tr is not None:
                yield "%s{%s}" % (name, " ".join("=".join(v[1:] for v in b) + ":" + k for b, k in zip(part, ch))), tr
    if cells:  # list cells that are IRIs
        env = base_env(vs + cells)
        for i, c in enumerate(cells):
            env[c] = E("zqcell%dcell" % i)
        yield name + "{iri cells}", instantiate(atoms, env)


VOCAB = [OWL.Thing, OWL.Nothing, OWL.Class, RDFS.Class, RDFS.Resource, RDFS.Literal, RDFS.Datatype, XSD.integer,
         XSD.string, RDF.type, OWL.sameAs, OWL.differentFrom, RDFS.subClassOf, RDFS.subPropertyOf, RDFS.label,
         OWL.equivalentClass, OWL.inverseOf, RDFS.domain, OWL.FunctionalProperty, RDF.nil, RDF.Property, OWL.ObjectProperty]


def vocabulary(name, atoms, terms=VOCAB, others=("iri",)):
    """one variable at a time is a vocabulary term; the others, or one of them, are of the given kind, where possible"""
    vs = variables(atoms)
    pos = var_positions(atoms)
    for v in vs:
        if is_cell(v):
            continue
        for t in terms:
            for k in others:
                may = [w for w in vs if w != v and not is_cell(w) and k in kinds(pos[w])] if k != "iri" else []
                if k != "iri" and not may:
                    continue
                for some in dict.fromkeys([tuple(may)] + [(w,) for w in may]):
                    env = base_env(vs)
                    for i, w in enumerate(vs):
                        if w in some:
                            env[w] = user_term(i, k)
                    env[v] = t
                    tr = instantiate(atoms, env)
                    if tr is not None:
                        yield "%s{%s=%s%s}" % (name, v[1:], t.n3(), "" if k == "iri" else ", %s %s" % (" ".join(w[1:] for w in some), k)), tr


def unify(a, b):
    """most general unifier of two atoms (variables are disjoint) or None"""
    sub = {}

    def walk(x):
        while x in sub:
            x = sub[x]
        return x
    for x, y in zip(a, b):
        x, y = walk(x), walk(y)
        if x == y:
            continue
        if isinstance(x, str) and x[:1] == "?":
            if is_cell(x) and not (isinstance(y, str) and y[:1] == "?"):
                return None
            sub[x] = y
        elif isinstance(y, str) and y[:1] == "?":
            if is_cell(y):
                return None
            sub[y] = x
        else:
            return None
    return walk


def rename(atoms, suffix):
    return [tuple(x + suffix if isinstance(x, str) and x[:1] == "?" else x for x in a) for a in atoms]


def compositions(consumers, producers, general=True):
    """B: one premise of the consumer is not asserted but derived by the producer.
    general=False: skip premises without constants (they unify with everything)."""
    for c in consumers:
        for i, atom in enumerate(c.body):
            generic = all(x[0] == "?" for x in atom)
            if generic and not general:
                continue
            for q in producers:
                if q.false:
                    continue
                qb, qh = rename(q.body, "'"), rename(q.head, "'")
                for h in qh:
                    w = unify(atom, h)
                    if w is None:
                        continue
                    atoms = [tuple(w(x) for x in a) for k, a in enumerate(c.body) if k != i]
                    atoms += [tuple(w(x) for x in a) for a in qb]
                    env = base_env(variables(atoms))
                    tr = instantiate(atoms, env)
                    if tr is not None:
                        yield "%s.%d<-%s" % (c.name, i, q.name), tr


GENERAL = [OWL.Thing, RDFS.Resource, RDFS.Literal]


def near_misses(name, atoms, swaps):
    """the premises of a rule, slightly damaged"""
    vs = variables(atoms)
    env = base_env(vs)

    def other_kinds(label, left, env):
        """the terms of the damaged rule are literals or blank nodes, where possible"""
        pos = var_positions(left)
        for k in ("lit", "bn"):
            may = [v for v in pos if not is_cell(v) and k in kinds(pos[v])]
            for some in dict.fromkeys(([] if k == "bn" else [(v,) for v in may]) + [tuple(may)]):
                t = instantiate(left, dict(env, **{v: user_term(j, k) for j, v in enumerate(vs + ["?fresh"]) if v in some}))
                if some and t is not None:
                    yield "%s{%s %s}" % (label, " ".join(v[1:] for v in some), k), t
    for i, a in enumerate(atoms):  # a premise is missing
        rest = [b for k, b in enumerate(atoms) if k != i]
        if rest:
            yield "%s -%d" % (name, i), instantiate(rest, env)
            yield from other_kinds("%s -%d" % (name, i), rest, env)
            for v in variables([a]):  # and the terms it restricts are very general ones
                if v in variables(rest) and not is_cell(v):
                    for c in GENERAL:
                        t = instantiate(rest, dict(env, **{v: c}))
                        if t is not None:
                            yield "%s -%d{%s=%s}" % (name, i, v[1:], c.n3()), t
        for k in range(3):
            x = a[k]
            if isinstance(x, str) and x[:1] == "?":  # one occurrence of a variable is another term
                if sum(1 for b in atoms for y in b if y == x) > 1 and not is_cell(x):
                    e2 = dict(env)
                    e2["?fresh"] = user_term(20)
                    b = tuple("?fresh" if j == k else y for j, y in enumerate(a))
                    left = atoms[:i] + [b] + atoms[i + 1:]
                    yield "%s ~%d.%d" % (name, i, k), instantiate(left, e2)
                    if k == 2:  # ... that looks the same
                        e3 = dict(env)
                        e3["?fresh"] = Literal(str(env[x]))
                        yield "%s ~%d.%d{same text}" % (name, i, k), instantiate(left, e3)
                    yield from other_kinds("%s ~%d.%d" % (name, i, k), left, e2)
            elif x in swaps:  # another constant
                for y in swaps[x]:
                    b = tuple(y if j == k else z for j, z in enumerate(a))
                    t = instantiate(atoms[:i] + [b] + atoms[i + 1:], env)
                    if t is not None:
                        yield "%s %d:%s" % (name, i, y), t
        b = (a[2], a[1], a[0])  # subject and object exchanged
        if b != a and a[1] != "rdf:type" and a[1] not in ("rdf:first", "rdf:rest"):
            t = instantiate(atoms[:i] + [b] + atoms[i + 1:], env)
            if t is not None:
                yield "%s %d^-1" % (name, i), t


def doubled(rules):
    """two instances of a rule body that share all variables but one: a second value, type, member, ... of the same thing"""
    for r in rules:
        no = listy(r.body)
        for v in variables(r.body):
            if v in no or is_cell(v):
                continue
            body = list(r.body) + [b for b in (tuple(v + "2" if x == v else x for x in a) for a in r.body) if b not in r.body]
            yield "%s x2 %s" % (r.name, v[1:]), instantiate(body, base_env(variables(body)))


def listy(atoms):
    """variables in the list atoms of a body"""
    return {x for a in atoms if a[1] in ("rdf:first", "rdf:rest") for x in a if x[:1] == "?"}


def many(rules, n):
    """n instances of a rule body that share all variables but one"""
    for r in rules:
        no = listy(r.body)
        for v in variables(r.body):
            if v in no or is_cell(v):
                continue
            body = list(r.body)
            for k in range(2, n + 1):
                body += [b for b in (tuple("%sk%d" % (v, k) if x == v else x for x in a) for a in r.body) if b not in body]
            yield "%s x%d %s" % (r.name, n, v[1:]), instantiate(body, base_env(variables(body)))


def decoys(rules):
    """the premises of a rule, and a second instance (another value of one variable) of which one premise is missing"""
    for r in rules:
        no = listy(r.body)
        for v in variables(r.body):
            if v in no or is_cell(v):
                continue
            more = [tuple(v + "2" if x == v else x for x in a) for a in r.body if v in a]
            if len(more) < 2:
                continue
            for k in range(len(more)):
                body = list(r.body) + more[:k] + more[k + 1:]
                yield "%s +%s-%d" % (r.name, v[1:], k), instantiate(body, base_env(variables(body)))


def merged(rules):
    """the premises of two rules, with the same terms for variables of the same name (but different list cells)"""
    for a, b in itertools.combinations(rules, 2):
        other = [tuple(x + "B" if is_cell(x) else x for x in t) for t in b.body]
        body = list(a.body) + [t for t in other if t not in a.body]
        tr = instantiate(body, base_env(variables(body)))
        if tr is not None:
            yield "%s & %s" % (a.name, b.name), tr


def joined(rules):
    """the premises of two rules that share the term of one variable only"""
    for a, b in itertools.combinations(rules, 2):
        va, vb = variables(a.body), variables(b.body)
        for v in va:
            if v not in vb or is_cell(v):
                continue
            other = [tuple(x + "J" if x[:1] == "?" and x != v else x for x in t) for t in b.body]
            body = list(a.body) + [t for t in other if t not in a.body]
            tr = instantiate(body, base_env(variables(body)))
            if tr is not None:
                yield "%s & %s on %s" % (a.name, b.name, v[1:]), tr


def two_lists(rules):
    """a list axiom with two lists; each other premise is about a member of the first, the second or of both lists"""
    for r in rules:
        members = {a[2] for a in r.body if a[1] == "rdf:first"}
        if not members:
            continue
        ren = lambda a: tuple(x + "B" if is_cell(x) or x in members else x for x in a)  # noqa: E731
        lists = [a for a in r.body if a[1] in ("rdf:first", "rdf:rest") or any(is_cell(x) for x in a)]
        rest = [a for a in r.body if a not in lists]
        var = [a for a in rest if set(a) & members]
        both = lists + [a for a in map(ren, lists) if a not in lists] + [a for a in rest if a not in var]
        choices = list(itertools.product((0, 1), repeat=len(var))) if len(var) <= 4 else []
        for ch in choices + [None]:
            body = both + (var + [ren(a) for a in var] if ch is None else [ren(a) if c else a for c, a in zip(ch, var)])
            yield "%s two lists %s" % (r.name, ch), instantiate(body, base_env(variables(body)))


def same_text(rules):
    """two of the terms of a rule are different, but look the same when written without their kind, datatype or language"""
    for r in rules:
        pos = var_positions(r.body)
        vs = [v for v in variables(r.body) if not is_cell(v)]
        for v, w in itertools.permutations(vs, 2):
            env = base_env(variables(r.body))
            if "lit" not in kinds(pos[w]):
                continue
            pairs = [(env[v], Literal(str(env[v])))]
            if "lit" in kinds(pos[v]) and v < w:
                pairs += [(Literal("1"), Literal("1", datatype=XSD.integer)), (Literal("a", lang="en"), Literal("a", datatype=XSD.string)), (Literal("a", lang="en"), Literal("a", lang="fr")),
                          (Literal("01", datatype=XSD.integer, normalize=False), Literal("1", datatype=XSD.integer))]
            for a, b in pairs:
                tr = instantiate(r.body, dict(env, **{v: a, w: b}))
                if tr is not None:
                    yield "%s{%s=%s %s=%s}" % (r.name, v[1:], a.n3(), w[1:], b.n3()), tr


DECORATION = (
    "x a owl:NamedIndividual; x rdfs:label \"l\"; x rdfs:comment \"c\"@en; x owl:deprecated \"true\"^^xsd:boolean; x rdfs:seeAlso F; x rdfs:isDefinedBy F; x a D; x owl:differentFrom F; x q F; "
    "x a owl:ObjectProperty; x rdfs:subPropertyOf F; x owl:inverseOf G; x rdfs:domain H; x rdfs:range H; x owl:propertyDisjointWith K",
    "x a owl:Class; x rdfs:subClassOf F; x owl:complementOf G; x owl:disjointWith H; x owl:unionOf rdf:nil; x owl:someValuesFrom K; x owl:allValuesFrom K; x owl:hasValue L; x owl:onProperty M; "
    "x owl:maxCardinality \"3\"^^xsd:integer; x owl:hasKey rdf:nil; x owl:versionInfo \"v\"; owl:Thing owl:differentFrom x")


def decorate(tr, terms, which):
    """the same graph, with more statements about the terms"""
    out = list(tr)
    for i, x in enumerate(terms):
        for s, p, o in T(DECORATION[which]):
            fresh = lambda t: x if t == E("x") else E("dec%s%dd" % (str(t)[-1], i)) if t in PLACES else t  # noqa: E731
            out.append((fresh(s), p, fresh(o)))
    return list(dict.fromkeys(out))


PLACES = {URIRef(str(E("x"))[:-1] + c) for c in "FGHKLMDx"}


def decorated(rules, near=True):
    """the premises of a rule, complete or with one missing, whose terms have many other statements about them"""
    for r in rules:
        env = base_env(variables(r.body))
        terms = [env[v] for v in variables(r.body) if not is_cell(v)]
        for k in range(len(DECORATION)):
            yield "%s decorated %d" % (r.name, k), decorate(instantiate(r.body, env), terms, k)
            for i in range(len(r.body)) if near else ():
                yield "%s -%d decorated %d" % (r.name, i, k), decorate(instantiate(r.body[:i] + r.body[i + 1:], env), terms, k)


def long_near_misses():
    """rules about lists of three to five members, a premise missing"""
    for n in (3, 4, 5):
        for r in ref.parse("\n".join(list_templates(n))):
            if n > 3 and not r.name.startswith(("prp-spo2", "prp-key", "cls-int1")):
                continue
            atoms = list(r.body)
            env = base_env(variables(atoms))
            for i in range(len(atoms)):
                yield r.family, "%s -%d" % (r.name, i), instantiate(atoms[:i] + atoms[i + 1:], env)


def delay(tr, i, k, tag="", far=False):
    """the i-th triple is not there, but derived after k (even) rounds"""
    s, p, o = tr[i]
    rest = tr[:i] + tr[i + 1:]
    q = lambda j: E("zqd%s%ddq" % (tag, j))  # noqa: E731
    if far or isinstance(o, Literal):  # domains and hasValue restrictions in turn: two rounds a step
        e, out = E("zqe%seq" % tag), []
        out.append((s, q(0), e))
        for j in range(k // 2):
            last = j == k // 2 - 1
            c = E("zqD%s%dDq" % (tag, j))
            out += [(q(j), RDFS.domain, c), (c, OWL.hasValue, o if last else e), (c, OWL.onProperty, p if last else q(j + 1))]
        return rest + out
    out = [(s, q(0), o)]
    for j in range(k):
        out.append((q(j), OWL.inverseOf, p if j == k - 1 else q(j + 1)))
    return rest + out


def delay_sub(tr, i, k, tag=""):
    """the i-th triple is derived after k rounds, by sub-properties of rdfs:subPropertyOf (RDFS and OWL)"""
    s, p, o = tr[i]
    m = [RDFS.subPropertyOf] + [E("zqm%s%dmq" % (tag, j)) for j in range(1, k)]
    q = E("zqn%snq" % tag)
    out = [(m[1], m[0], m[0])] + [(m[j], m[j - 1], m[0]) for j in range(2, k)]
    return tr[:i] + tr[i + 1:] + out + [(q, m[-1], p), (s, q, o)]


def delayed_sub(rules, k=24):
    for r in rules:
        tr = instantiate(r.body, base_env(variables(r.body)))
        for i in range(len(tr)):
            yield "%s, %d after %d rounds" % (r.name, i, k), delay_sub(tr, i, k)


def delayed_label(rules, k=24):
    """the same with annotation properties in place of the properties"""
    for r in rules:
        pos = var_positions(r.body)
        for v, p in itertools.product([v for v in pos if "p" in pos[v]], (RDFS.label, RDFS.seeAlso)):
            tr = instantiate(r.body, dict(base_env(variables(r.body)), **{v: p}))
            for i in range(len(tr or ())):
                yield "%s{%s=%s}, %d after %d rounds" % (r.name, v[1:], p.n3(), i, k), delay_sub(tr, i, k)


def delayed(name, tr, rounds=(2, 4), most=True):
    """one premise at a time, or all but one, become true only after some rounds (OWL)"""
    for k in rounds:
        for i in range(len(tr)):
            yield "%s, %d after %d rounds" % (name, i, k), delay(tr, i, k)
    if most and len(tr) > 2:
        for i in range(len(tr)):
            out = list(tr)
            for j in range(len(tr) - 1, -1, -1):
                if j != i:
                    new = delay(out, out.index(tr[j]), rounds[-1], "%sj" % "abcdefghijklmnopqrstuvwxyz"[j])
                    out = new
            yield "%s, all but %d after %d rounds" % (name, i, rounds[-1]), out


def delayed_rules(rules, rounds=(4,), most=False):
    for r in rules:
        yield from delayed(r.name, instantiate(r.body, base_env(variables(r.body))), rounds, most)


def delayed_far(rules, near=24, far=64):
    """the first and the last premise become true only after many rounds"""
    for r in rules:
        tr = instantiate(r.body, base_env(variables(r.body)))
        for i in sorted({0, len(tr) - 1}):
            yield "%s, %d after %d rounds" % (r.name, i, near), delay(tr, i, near, "", True)
        if far:
            yield "%s, last after %d rounds" % (r.name, far), delay(tr, len(tr) - 1, far, "", True)


_GROUPS = [
    "owl:FunctionalProperty owl:InverseFunctionalProperty owl:SymmetricProperty owl:AsymmetricProperty "
    "owl:TransitiveProperty owl:IrreflexiveProperty owl:ObjectProperty owl:DatatypeProperty rdf:Property owl:Class",
    "rdfs:subPropertyOf owl:equivalentProperty owl:inverseOf owl:propertyDisjointWith rdfs:domain rdfs:range "
    "owl:propertyChainAxiom owl:sameAs",
    "rdfs:subClassOf owl:equivalentClass owl:disjointWith owl:complementOf owl:sameAs owl:differentFrom",
    "owl:someValuesFrom owl:allValuesFrom owl:hasValue owl:onClass owl:maxCardinality owl:maxQualifiedCardinality "
    "owl:cardinality owl:minCardinality",
    "owl:intersectionOf owl:unionOf owl:oneOf owl:hasKey owl:members owl:distinctMembers owl:propertyChainAxiom "
    "owl:disjointUnionOf",
    "owl:AllDifferent owl:AllDisjointClasses owl:AllDisjointProperties",
    "owl:sourceIndividual owl:assertionProperty owl:targetIndividual owl:targetValue owl:onProperty",
    "owl:Thing owl:Nothing",
]
SWAPS = {}
for _g in _GROUPS:
    _g = _g.split()
    for _x in _g:
        SWAPS.setdefault(_x, []).extend(y for y in _g if y != _x)
SWAPS["ZERO"] = ["ONE", lit("2", "xsd:nonNegativeInteger"), lit("00", "xsd:string"), lit("10", "xsd:nonNegativeInteger")]
SWAPS["ONE"] = ["ZERO", lit("2", "xsd:nonNegativeInteger"), lit("1", "xsd:string"), lit("11", "xsd:nonNegativeInteger"),
                lit("-1", "xsd:integer")]


# ------------------------------------------------------------------------------------------------ parsing of text
def T(text, **env):
    """triples from text: 's p o; s p o' with prefixed names, _:b, 'a', "lex"^^dt, "lex"@lang"""
    out = []
    for line in text.replace("\n", ";").split(";"):
        w = line.split()
        if not w:
            continue
        w = w[:2] + [" ".join(w[2:])]
        out.append((term(w[0], True), term(w[1]), term(w[2], True)))
    return out


def term(x, node=False):
    if x == "a" and not node:
        return RDF.type
    if x.startswith("_:"):
        return BNode("zq%sqz" % x[2:])
    if x.startswith('"'):
        i = x.rindex('"')
        lex, rest = x[1:i], x[i + 1:]
        if rest.startswith("@"):
            return lit(lex, lang=rest[1:])
        return lit(lex, rest[2:]) if rest else lit(lex)
    if x.startswith("<"):
        return URIRef(x[1:-1])
    return iri(x if ":" in x else "ex:" + x)


def subsets(name, alphabet, kmax, kmin=1):
    """C: all subsets of an alphabet of triples"""
    for k in range(kmin, kmax + 1):
        for c in itertools.combinations(range(len(alphabet)), k):
            yield "%s{%s}" % (name, ",".join(map(str, c))), [alphabet[i] for i in c]


def rdf_list(head, members, tag="l"):
    """cells of an rdf:List; head is the first cell (or rdf:nil for an empty list)"""
    out, cell = [], head
    for i, m in enumerate(members):
        nxt = RDF.nil if i == len(members) - 1 else BNode("zqc%s_%dcqz" % (tag, i))
        out += [(cell, RDF.first, m), (cell, RDF.rest, nxt)]
        cell = nxt
    return out


def dedup(scenarios):
    seen = set()
    for label, tr in scenarios:
        if not tr:
            continue
        k = frozenset(tr)
        if k not in seen:
            seen.add(k)
            yield label, tr
