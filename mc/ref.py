"""Reference model: least fixpoint of the rule tables in rules.py over interned triples.

A *state* of the model is the set of triples derived so far; a *transition* is one rule application that adds a triple.
The tables are compiled once into nested-loop joins; the fixpoint is computed with a work list (every new triple is
matched against every body atom, the other atoms are joined with what has been derived).  Rules over rdf:Lists are
evaluated naively until nothing changes.
"""
from rdflib import BNode, Literal

from . import rules as R
from .vocab import (ANNOTATION_PROPERTIES, DISJOINT_PAIRS, DISJOINT_TOP, OWL, RDF, RDFS, RL_DATATYPES, SUPERS, XSD,
                    iri, xsd_supers)

INTEGER_TYPES = {XSD.integer} | {XSD[k] for k in
                                 "long int short byte nonNegativeInteger positiveInteger unsignedLong unsignedInt "
                                 "unsignedShort unsignedByte nonPositiveInteger negativeInteger".split()}


class Terms:
    """Interning of RDF terms."""

    def __init__(self):
        self.ids = {}
        self.terms = []
        self.is_lit = []
        self.is_bn = []
        for name in ("ZERO", "ONE"):  # internal constants, never in a graph
            self.id(("internal", name))

    def id(self, t):
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.terms)
            self.terms.append(t)
            self.is_lit.append(isinstance(t, Literal))
            self.is_bn.append(isinstance(t, BNode))
        return i

    def triple(self, t):
        i = self.id
        return (i(t[0]), i(t[1]), i(t[2]))

    def back(self, t):
        x = self.terms
        return (x[t[0]], x[t[1]], x[t[2]])


TERMS = Terms()
ZERO, ONE = TERMS.ids[("internal", "ZERO")], TERMS.ids[("internal", "ONE")]
C = lambda q: TERMS.id(iri(q))  # noqa: E731
TYPE, SAMEAS, DIFF = C("rdf:type"), C("owl:sameAs"), C("owl:differentFrom")
FIRST, REST, NIL = C("rdf:first"), C("rdf:rest"), C("rdf:nil")
MAXC, MAXQC = C("owl:maxCardinality"), C("owl:maxQualifiedCardinality")
SUBCLASS = C("rdfs:subClassOf")


# ----------------------------------------------------------------------------------------------- rule compilation
class Rule:
    def __init__(self, name, family, body, head, false):
        self.name, self.family, self.body, self.head, self.false = name, family, body, head, false
        self.vars = []
        for a in body:
            for t in a:
                if t[0] == "?" and t not in self.vars:
                    self.vars.append(t)


def _tok(x):
    return "rdf:type" if x == "a" else x


def parse(text):
    out = []
    for line in text.strip().splitlines():
        line = line.strip()
        if not line:
            continue
        nf, rule = line.split("]:", 1)
        name, family = nf.split("[")
        body, head = rule.split("->")
        atoms = [tuple(_tok(x) for x in a.split()) for a in body.split(",")]
        head = head.strip()
        if head.startswith("FALSE("):
            out.append(Rule(name.strip(), family, atoms, [], head[6:-1].split()))
        else:
            out.append(Rule(name.strip(), family, atoms,
                            [tuple(_tok(x) for x in a.split()) for a in head.split(",")], None))
    return out


OWL_RULES = parse(R.OWL_RULES)
RDFS_RULES = parse(R.RDFS_RULES)
EXT_RULES = parse(R.EXT_RULES)
RULES = {r.name: r for r in OWL_RULES + RDFS_RULES + EXT_RULES}


def const(x):
    if x == "ZERO":
        return ZERO
    if x == "ONE":
        return ONE
    return C(x)


def compile_rule(rule, trigger, consumer):
    """Source of f(s, p, o, G, out): all instances of the rule in which body atom `trigger` is the triple (s p o)."""
    bound = {}
    lines, ind = [], 1

    def emit(x):
        lines.append("    " * ind + x)

    names = ("s", "p", "o")
    for t, n in zip(rule.body[trigger], names):
        if t[0] == "?":
            if t in bound:
                emit("if %s != %s: return" % (n, bound[t]))
            else:
                bound[t] = n
        else:
            emit("if %s != %d: return" % (n, const(t)))

    def val(t):
        return bound[t] if t[0] == "?" else str(const(t))

    todo = [a for i, a in enumerate(rule.body) if i != trigger]
    k = 0
    while todo:
        def score(a):
            return sum(1 for t in a if t[0] != "?" or t in bound)
        todo.sort(key=score, reverse=True)
        a = todo.pop(0)
        s, p, o = a
        free = [t for t in a if t[0] == "?" and t not in bound]
        k += 1
        kn = [t[0] != "?" or t in bound for t in a]
        new = {}
        for t in free:
            new.setdefault(t, "v%d_%s" % (k, t[1:]))
        if not free:
            emit("if (%s,%s,%s) in G.T:" % (val(s), val(p), val(o)))
            ind += 1
            continue
        if kn == [True, True, False]:
            emit("for %s in G.SP.get((%s,%s),E):" % (new[o], val(s), val(p)))
        elif kn == [False, True, True]:
            emit("for %s in G.PO.get((%s,%s),E):" % (new[s], val(p), val(o)))
        elif kn == [False, True, False]:
            if s == o:
                emit("for %s, _o in G.P.get(%s,E):" % (new[s], val(p)))
                ind += 1
                emit("if _o != %s: continue" % new[s])
                ind -= 1
            else:
                emit("for %s, %s in G.P.get(%s,E):" % (new[s], new[o], val(p)))
        elif kn == [True, False, False]:
            emit("for %s, %s in G.S.get(%s,E):" % (new[p], new[o], val(s)))
        elif kn == [False, False, True]:
            emit("for %s, %s in G.O.get(%s,E):" % (new[s], new[p], val(o)))
        elif kn == [True, False, True]:
            emit("for %s, _o in G.S.get(%s,E):" % (new[p], val(s)))
            ind += 1
            emit("if _o != %s: continue" % val(o))
            ind -= 1
        else:
            raise AssertionError((rule.name, a))
        ind += 1
        bound.update(new)
    if consumer == "head":
        for h in rule.head:
            emit("t = (%s,%s,%s)" % tuple(val(x) for x in h))
            emit("if t not in G.T: out.append(t)")
    else:  # all instances, with their bindings
        emit("out.append((%s,))" % ",".join(bound[v] for v in rule.vars))
    src = "def f(s, p, o, G, out):\n" + "\n".join(lines)
    env = {"E": ()}
    exec(src, env)
    return env["f"]


class Index:
    """dispatch: which compiled functions to run for a triple"""

    def __init__(self):
        self.any, self.p, self.po = [], {}, {}

    def add(self, atom, f):
        s, p, o = atom
        if p[0] == "?":
            self.any.append(f)
        elif o[0] == "?":
            self.p.setdefault(const(p), []).append(f)
        else:
            self.po.setdefault((const(p), const(o)), []).append(f)


class Store:
    __slots__ = ("T", "SP", "PO", "P", "S", "O")

    def __init__(self):
        self.T, self.SP, self.PO, self.P, self.S, self.O = set(), {}, {}, {}, {}, {}

    def add(self, t):
        s, p, o = t
        self.T.add(t)
        self.SP.setdefault((s, p), set()).add(o)
        self.PO.setdefault((p, o), set()).add(s)
        self.P.setdefault(p, set()).add((s, o))
        self.S.setdefault(s, set()).add((p, o))
        self.O.setdefault(o, set()).add((s, p))

    def copy(self):
        n = Store.__new__(Store)
        n.T = set(self.T)
        for a in ("SP", "PO", "P", "S", "O"):
            setattr(n, a, {k: set(v) for k, v in getattr(self, a).items()})
        return n

    @classmethod
    def of(cls, triples):
        st = cls()
        for t in triples:
            st.add(t)
            extra = cardinality(t)
            if extra:
                st.add(extra)
        return st


def cardinality(t):
    """(x maxCardinality "0"^^int) also counts as (x maxCardinality ZERO)"""
    if t[1] in (MAXC, MAXQC) and TERMS.is_lit[t[2]]:
        lt = TERMS.terms[t[2]]
        if lt.datatype in INTEGER_TYPES:
            try:
                n = int(str(lt))
            except ValueError:
                return None
            if n in (0, 1):
                return (t[0], t[1], ZERO if n == 0 else ONE)
    return None


class TooBig(Exception):
    """The model closure is larger than the bound on sizes."""


class ListTooWide(TooBig):
    pass


def lists(G, head, limit=4096):
    """All member sequences of well-formed lists starting at head."""
    out = []

    def walk(cell, acc, seen):
        if len(out) > limit:
            raise ListTooWide()
        if cell == NIL:
            out.append(tuple(acc))
            return
        if cell in seen:
            return
        for f in G.SP.get((cell, FIRST), ()):
            for r in G.SP.get((cell, REST), ()):
                walk(r, acc + [f], seen | {cell})

    walk(head, [], frozenset())
    return sorted(set(out))


def branching(G):
    """A list cell with two members or two continuations that are not owl:sameAs each other: not an rdf:List."""
    for pred in (FIRST, REST):
        by = {}
        for s, o in G.P.get(pred, ()):
            by.setdefault(s, []).append(o)
        for os_ in by.values():
            if len(os_) > 1 and any((os_[0], SAMEAS, x) not in G.T for x in os_[1:]):
                return True
    return False


def malformed(G):
    """a list-valued property whose value is not the start of a complete rdf:List"""
    for q in LIST_VALUED:
        for _s, cell in G.P.get(q, ()):
            seen = set()
            todo = [cell]
            while todo:
                c = todo.pop()
                if c == NIL or c in seen:
                    continue
                seen.add(c)
                if (c, FIRST) not in G.SP or (c, REST) not in G.SP:
                    return True
                todo.extend(G.SP[(c, REST)])
    return False


_L = {q: C("owl:" + q) for q in "members distinctMembers AllDifferent AllDisjointProperties AllDisjointClasses "
      "propertyChainAxiom hasKey intersectionOf unionOf oneOf".split()}


def list_rules(G, want_false=False):
    """Instances of the rules over lists: yields (name, head triple) or, for 'false', (name, clashing terms, all terms)."""
    get = lambda d, k: d.get(k, ())  # noqa: E731
    L = _L
    if want_false:
        for x in sorted(get(G.PO, (TYPE, L["AllDifferent"]))):
            for name, prop in (("eq-diff2", L["members"]), ("eq-diff3", L["distinctMembers"])):
                for y in sorted(get(G.SP, (x, prop))):
                    for zs in lists(G, y):
                        for i in range(len(zs)):
                            for j in range(i + 1, len(zs)):
                                if (zs[i], SAMEAS, zs[j]) in G.T and zs[i] != zs[j]:
                                    yield name, (zs[i], zs[j]), (x, y, zs[i], zs[j])
        for x in sorted(get(G.PO, (TYPE, L["AllDisjointProperties"]))):
            for y in sorted(get(G.SP, (x, L["members"]))):
                for ps in lists(G, y):
                    for i in range(len(ps)):
                        for j in range(i + 1, len(ps)):
                            for u, v in sorted(get(G.P, ps[i])):
                                if (u, ps[j], v) in G.T:
                                    yield "prp-adp", (ps[i], ps[j], u, v), (x, y, ps[i], ps[j], u, v)
        for x in sorted(get(G.PO, (TYPE, L["AllDisjointClasses"]))):
            for y in sorted(get(G.SP, (x, L["members"]))):
                for cs in lists(G, y):
                    for i in range(len(cs)):
                        for j in range(i + 1, len(cs)):
                            for z in sorted(get(G.PO, (TYPE, cs[i]))):
                                if (z, TYPE, cs[j]) in G.T:
                                    yield "cax-adc", (cs[i], cs[j], z), (x, y, cs[i], cs[j], z)
        return
    for p, l in get(G.P, L["propertyChainAxiom"]):
        for ps in lists(G, l):
            if not ps:
                continue
            ends = set(get(G.P, ps[0]))
            for q in ps[1:]:
                ends = {(u, w) for u, v in ends for w in get(G.SP, (v, q))}
            for u, v in ends:
                yield "prp-spo2", (u, p, v)
    for c, l in get(G.P, L["hasKey"]):
        members = get(G.PO, (TYPE, c))
        for ps in lists(G, l):
            if not ps:
                continue
            for x in members:
                for y in members:
                    if x != y and all(not set(get(G.SP, (x, q))).isdisjoint(get(G.SP, (y, q))) for q in ps):
                        yield "prp-key", (x, SAMEAS, y)
    for c, l in get(G.P, L["intersectionOf"]):
        for cs in lists(G, l):
            if cs:
                common = set(get(G.PO, (TYPE, cs[0])))
                for d in cs[1:]:
                    common &= set(get(G.PO, (TYPE, d)))
                for y in common:
                    yield "cls-int1", (y, TYPE, c)
            for d in cs:
                yield "scm-int", (c, SUBCLASS, d)
                for y in get(G.PO, (TYPE, c)):
                    yield "cls-int2", (y, TYPE, d)
    for c, l in get(G.P, L["unionOf"]):
        for cs in lists(G, l):
            for d in cs:
                yield "scm-uni", (d, SUBCLASS, c)
                for y in get(G.PO, (TYPE, d)):
                    yield "cls-uni", (y, TYPE, c)
    for c, l in get(G.P, L["oneOf"]):
        for ys in lists(G, l):
            for y in ys:
                yield "cls-oo", (y, TYPE, c)


LIST_VALUED = [_L[q] for q in "members distinctMembers propertyChainAxiom hasKey intersectionOf unionOf oneOf".split()]
LIST_PREDICATES = [_L[q] for q in "propertyChainAxiom hasKey intersectionOf unionOf oneOf".split()]


# ----------------------------------------------------------------------------------------------------- the model
class Result:
    __slots__ = ("G", "transitions", "model")

    def __init__(self, model, G, transitions):
        self.model, self.G, self.transitions = model, G, transitions

    def visible(self):
        """Triples a standard RDF graph can show: no internal constants, no blank node predicates in OWL closures."""
        bn, keep = TERMS.is_bn, self.model.keep_bnode_predicates
        return {t for t in self.G.T if t[0] > 1 and t[2] > 1 and (keep or not bn[t[1]])}


class Model:
    def __init__(self, mode):
        """mode: rdfs | owl | both | ext | extr (= ext with RDFS)"""
        self.mode = mode
        self.owl = mode != "rdfs"
        self.rdfs = mode in ("rdfs", "both", "extr")
        self.ext = mode in ("ext", "extr")
        self.keep_bnode_predicates = not self.owl
        rules = []
        if self.owl:
            rules += [r for r in OWL_RULES if not r.false]
        if self.rdfs:
            rules += RDFS_RULES
        if self.ext:
            rules += EXT_RULES
        self.supers = {k: list(v) for k, v in SUPERS.items()}
        self.datatypes = list(RL_DATATYPES)
        if self.ext:
            rat = OWL.rational
            for k in list(self.supers):
                if XSD.decimal in self.supers[k]:
                    self.supers[k].append(rat)
            self.supers[XSD.decimal] = [rat]
            self.datatypes.append(rat)
        if self.owl:
            for k, sup in self.supers.items():
                for s in sup:
                    r = Rule("dt-super", "C10", [("?x", "rdf:type", str(k))], [("?x", "rdf:type", str(s))], None)
                    rules.append(self._full(r))
        self.rules = rules
        self.index = Index()
        for r in rules:
            for i, a in enumerate(r.body):
                self.index.add(a, compile_rule(r, i, "head"))
        self.dtid = {TERMS.id(d) for d in self.datatypes}
        self.disj = {}
        for i, a in enumerate(DISJOINT_TOP):
            for b in DISJOINT_TOP[i + 1:]:
                if frozenset((a, b)) in DISJOINT_PAIRS:
                    self.disj.setdefault(TERMS.id(a), []).append((TERMS.id(b), True))
                    self.disj.setdefault(TERMS.id(b), []).append((TERMS.id(a), False))
        self.DISJ = C("owl:disjointWith")
        base = []
        if self.owl:
            base += [(OWL.Thing, RDF.type, OWL.Class), (OWL.Nothing, RDF.type, OWL.Class)]
            base += [(a, RDF.type, OWL.AnnotationProperty) for a in ANNOTATION_PROPERTIES]
            base += [(d, RDF.type, RDFS.Datatype) for d in self.datatypes]
            if mode != "owl":
                base += [tuple(iri(x) for x in t) for t in R.COMBINED_TRIPLES]
        self.empty = Store()
        self._run(self.empty, [TERMS.triple(t) for t in base])

    @staticmethod
    def _full(r):
        # full IRIs in dt rules
        def conv(a):
            return tuple(t if t[0] == "?" else ("=" + t if t.startswith("http") else t) for t in a)
        r.body = [conv(a) for a in r.body]
        r.head = [conv(a) for a in r.head]
        return r

    # .............................................................................................. fixpoint
    def _run(self, G, todo, cap=10 ** 9):
        n = 0
        is_lit = TERMS.is_lit
        idx = self.index
        any_, byp, bypo = idx.any, idx.p, idx.po
        todo = list(todo)
        T = G.T
        while True:
            while todo:
                t = todo.pop()
                if t in T:
                    continue
                s, p, o = t
                if is_lit[p]:
                    continue
                G.add(t)
                n += 1
                if n > cap:
                    raise TooBig()
                out = todo
                for f in byp.get(p, ()):
                    f(s, p, o, G, out)
                for f in bypo.get((p, o), ()):
                    f(s, p, o, G, out)
                for f in any_:
                    f(s, p, o, G, out)
                if self.owl:
                    if p == MAXC or p == MAXQC:
                        extra = cardinality(t)
                        if extra:
                            todo.append(extra)
                    if p == TYPE and o in self.disj:
                        for other, fwd in self.disj[o]:
                            if (TYPE, other) in G.PO:
                                todo.append((o, self.DISJ, other) if fwd else (other, self.DISJ, o))
            if self.owl and any(q in G.P for q in LIST_PREDICATES):
                todo = [h for _n, h in list_rules(G) if h not in T and not is_lit[h[1]]]
                if todo:
                    continue
            return n

    def initial(self, triples):
        """one-time statements about the literals of the input"""
        out = []
        if self.owl:
            dts = set(self.datatypes)
            for t in triples:
                lt = t[2]
                if isinstance(lt, Literal) and lt.datatype in dts:
                    out.append((lt, RDF.type, lt.datatype))
        return out

    def closure(self, triples, extra=(), cap=10 ** 9):
        """triples: RDF terms; TooBig if more than cap triples are added to the base closure"""
        triples = list(triples)
        if self.rdfs:
            triples = value_equal_copies(triples)
        G = self.empty.copy()
        n = self._run(G, [TERMS.triple(t) for t in triples + self.initial(triples) + list(extra)], cap)
        return Result(self, G, n)

    # .............................................................................................. one step
    def _instances(self, rule):
        if not hasattr(rule, "_inst"):
            rule._inst = compile_rule(rule, 0, "inst")
        return rule._inst

    def unclosed(self, triples, families=None):
        """One-step closedness of a set of (interned) triples: yields (family, rule name, missing head)."""
        G = triples if isinstance(triples, Store) else Store.of(triples)
        is_lit = TERMS.is_lit
        for r in self.rules:
            if families and r.family not in families:
                continue
            if not hasattr(r, "_one"):
                r._one = compile_rule(r, 0, "head")
            f = r._one
            s0, p0, o0 = r.body[0]
            if p0[0] == "?":
                cands = G.T
            elif o0[0] == "?":
                cands = [(s, const(p0), o) for s, o in G.P.get(const(p0), ())]
            else:
                cands = [(s, const(p0), const(o0)) for s in G.PO.get((const(p0), const(o0)), ())]
            out = []
            for s, p, o in list(cands):
                f(s, p, o, G, out)
            for h in sorted(set(out)):
                if not is_lit[h[1]]:
                    yield r.family, r.name, h
        if self.owl:
            for name, h in list_rules(G):
                if h not in G.T and not is_lit[h[1]] and (not families or R.LIST_RULES[name] in families):
                    yield R.LIST_RULES[name], name, h
            if not families or "C10" in families:
                for a, others in self.disj.items():
                    for b, fwd in others:
                        if fwd and (TYPE, a) in G.PO and (TYPE, b) in G.PO and (a, self.DISJ, b) not in G.T:
                            yield "C10", "dt-disjoint", (a, self.DISJ, b)


def false_instances(triples):
    """All matches of rules concluding 'false' in a set of interned triples:
    list of (rule, clashing terms, all terms of the instance)."""
    G = triples if isinstance(triples, Store) else Store.of(triples)
    out = []
    for r in OWL_RULES:
        if not r.false:
            continue
        if not hasattr(r, "_inst"):
            r._inst = compile_rule(r, 0, "inst")
        s0, p0, o0 = r.body[0]
        if o0[0] == "?":
            cands = [(s, const(p0), o) for s, o in G.P.get(const(p0), ())]
        else:
            cands = [(s, const(p0), const(o0)) for s in G.PO.get((const(p0), const(o0)), ())]
        inst = []
        for s, p, o in cands:
            r._inst(s, p, o, G, inst)
        for b in sorted(set(inst)):
            env = dict(zip(r.vars, b))
            out.append((r.name, tuple(env[x] if x[0] == "?" else const(x) for x in r.false), b))
    out.extend(list_rules(G, want_false=True))
    return out


# ------------------------------------------------------------------------------- RDFS: value-equal literals (C12)
def value_key(lt):
    """Canonical value of a literal, for the datatypes the model knows; None: only equal to itself."""
    from . import xsdref
    if lt.language:
        return ("lang", str(lt), lt.language.lower())
    if lt.datatype is None:
        return ("str", str(lt))
    return xsdref.value_key(str(lt), lt.datatype)


def value_equal_copies(triples):
    lits = {t[2] for t in triples if isinstance(t[2], Literal)}
    if len(lits) < 2:
        return list(triples)
    classes = {}
    for lt in lits:
        k = value_key(lt)
        if k is not None:
            classes.setdefault(k, []).append(lt)
    out = list(triples)
    for c in classes.values():
        if len(c) > 1:
            for s, p, o in triples:
                if o in c:
                    out.extend((s, p, x) for x in c)
    return out


def _const_patch():
    """constants written as =<full IRI>"""
    global const
    old = const

    def const(x):  # noqa: F811
        if x[0] == "=":
            from rdflib import URIRef
            return TERMS.id(URIRef(x[1:]))
        return old(x)
    globals()["const"] = const


_const_patch()
_models = {}


def model(mode):
    if mode not in _models:
        _models[mode] = Model(mode)
    return _models[mode]
