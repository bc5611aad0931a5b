"""Properties of histories of expansions: C19 no leaks, C20 failures, C29 user-defined closure classes."""
import collections
import itertools
import os
import pickle
import sys
import traceback
import types

import rdflib
import rdflib.term
from rdflib.plugins.stores.memory import Memory

from .. import gen, real, ref, xsdref
from ..engine import Check, RealError, Stats, Violation, n3, real_code, show
from ..gen import E, T, rdf_list
from ..vocab import BNode, ERR_MSG_CLASS, ERR_MSG_PROP, Literal, OWL, RDF, RDFS, URIRef, XSD, lit
from ..real import owlrl
from rdflib import Graph
from .closure import TERMS, back
from .mixed import packs, tag
from .whole import MIXED_ZOO, rdfs_zoo, zoo


def start(f, args):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, f(*args))
            except BaseException as e:
                out = (False, (isinstance(e, RealError), "%s: %s" % (type(e).__name__, e), traceback.format_exc()))
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def finish(child):
    pid, r = child
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child died")
    ok, out = pickle.loads(data)
    if not ok:
        if out[0]:
            raise RealError(out[1])
        raise RuntimeError(out[2])
    return out


def forked(f, *args):
    """the result of f(*args), computed in a child process (its changes of global state are lost)"""
    return finish(start(f, args))


def forked_many(jobs, n=8):
    """the results of several (f, args), in order, computed in up to n concurrent children"""
    out, running = [], collections.deque()
    for f, args in jobs:
        if len(running) == n:
            out.append(finish(running.popleft()))
        running.append(start(f, args))
    return out + [finish(c) for c in running]


# ------------------------------------------------------------------------------------------------ observations
PROBES = [(l, d) for d, ls in (
    (XSD.nonNegativeInteger, ("-1", "1")), (XSD.integer, ("1.5", "7", "ten", " 7")), (XSD.byte, ("200", "12")), (XSD.boolean, ("maybe", "true", "1")),
    (XSD.date, ("2020-02-30", "2020-02-20")), (XSD.dateTime, ("2020-01-01T00:00:00", "soon")), (XSD.token, ("a  b", "a")), (XSD.language, ("en", "-")),
    (XSD.hexBinary, ("0g", "0A")), (XSD.base64Binary, ("YQ==",)), (XSD.double, ("1e3", "abc")), (XSD.string, ("x",)), (XSD.anyURI, ("http://x/",)),
    (XSD.Name, ("a b", "ab")), (OWL.rational, ("1/3", "x")), (E("F"), ("2", "4", "9")), (E("even"), ("3", "4")), (E("mine"), ("zz",)), (XSD.gYear, ("2020",)),
    (RDF.PlainLiteral, ("a@en",)), (RDF.XMLLiteral, ("<a/>",))) for l in ls]
ALT_KNOWN = {XSD.nonNegativeInteger, XSD.byte, XSD.boolean, XSD.Name, XSD.hexBinary}


def probe():
    """what a literal created now looks like"""
    out = []
    for l, d in PROBES:
        x = Literal(l, datatype=d, normalize=False)
        v = x.value
        out.append((type(v).__name__, str(v.toxml()) if hasattr(v, "toxml") else "node" if hasattr(v, "childNodes") else repr(v), x.ill_typed))
    return tuple(out)


ROOT_IDS = set()


def freeze(x, depth=0):
    if isinstance(x, (str, int, float, bool, type(None), bytes)):
        return x
    if depth > 6:
        return "..."
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(k), freeze(v, depth + 1)) for k, v in list(x.items())), key=repr)))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(freeze(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(v) for v in x)))
    if isinstance(x, types.FunctionType):
        return ("function", x.__qualname__, id(x) if id(x) in ROOT_IDS else "new", freeze(x.__defaults__ or (), depth + 1))
    return (type(x).__name__, id(x) if isinstance(x, type) else "object")


def modules():
    return [m for n, m in sorted(sys.modules.items()) if n == "owlrl" or n.startswith("owlrl.")]


def snapshot():
    """all module and class level state of the package, and RDFLib's conversion table"""
    out = []
    for m in modules():
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == m.__name__:
                    out.append((m.__name__, k, tuple((a, freeze(b)) for a, b in sorted(vars(v).items()) if not a.startswith("__") or a == "__init__")))
            else:
                out.append((m.__name__, k, freeze(v)))
    out.append(freeze(rdflib.term._toPythonMapping))
    return tuple(out)


def remember_root():
    for m in modules() + [rdflib.term]:
        for v in list(vars(m).values()):
            if isinstance(v, types.FunctionType):
                ROOT_IDS.add(id(v))
            elif isinstance(v, dict):
                ROOT_IDS.update(id(x) for x in v.values() if isinstance(x, types.FunctionType))
            elif isinstance(v, type):
                ROOT_IDS.update(id(x) for x in vars(v).values() if isinstance(x, types.FunctionType))


# ------------------------------------------------------------------------------------------------ C19
FACET = "ex:F a rdfs:Datatype; ex:F owl:onDatatype xsd:integer; ex:F owl:withRestrictions _:1; _:1 rdf:first _:2; _:1 rdf:rest rdf:nil; "
SVF = "R owl:someValuesFrom ex:F; R owl:onProperty p"
GRAPHS = {
    "lit": 'a p "-1"^^xsd:nonNegativeInteger; a p "1"^^xsd:integer; b p "01"^^xsd:byte; b q "x"@en; c q "ten"^^xsd:integer; c q "0A"^^xsd:hexBinary; '
           'c q "2020-01-01"^^xsd:date; p rdfs:subPropertyOf q',
    "owl": "p a owl:TransitiveProperty; a p b; b p c; b owl:sameAs d; C owl:unionOf _:1; _:1 rdf:first A; _:1 rdf:rest _:2; _:2 rdf:first B; "
           "_:2 rdf:rest rdf:nil; d a A; a owl:differentFrom e; e owl:sameAs a",
    "F1": FACET + '_:2 xsd:minInclusive "3"^^xsd:integer; ' + SVF + '; a p "4"^^xsd:integer; b p "2"^^xsd:integer; c q "5"^^ex:F; c q "1"^^ex:F',
    "F2": FACET + '_:2 xsd:maxExclusive "3"^^xsd:integer; ' + SVF + '; a p "4"^^xsd:integer; b p "2"^^xsd:integer; c q "5"^^ex:F; c q "1"^^ex:F',
    "F?": SVF + '; a p "4"^^xsd:integer; b p "2"^^xsd:integer; c q "5"^^ex:F; c q "1"^^ex:F; d a ex:F; c q "2"^^ex:even',
    "rat": 'a p "1/3"^^owl:rational; a p "1/0"^^owl:rational; b q "0.5"^^xsd:decimal; b q "1/2"^^owl:rational; p a owl:FunctionalProperty; c p "2/6"^^owl:rational',
    "bag": "a rdf:_3 b; rdf:_1 a rdf:Property; p a owl:FunctionalProperty; a p b; a p c",
    "none": "a p b",
}


def even(v):
    n = int(v)
    if n % 2:
        raise ValueError(v)
    return n


def user_class(base, datatype=True):
    tables = sys.modules["owlrl.XsdDatatypes"]

    class Even(getattr(owlrl, base)):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            if datatype:
                self.add_new_datatype(E("even"), even, tables.OWL_RL_Datatypes, subsumption_dict=tables.OWL_Datatype_Subsumptions,
                                      subsumption_key=E("even"), subsumption_list=[XSD.integer])

        def pre_process(self):
            super().pre_process()
            Even.inside = probe()

        def post_process(self):
            super().post_process()
            Even.inside += probe()

        def rules(self, t, cycle_num):
            super().rules(t, cycle_num)
            if t[1] == E("p"):
                self.store_triple((t[0], E("seen"), E("p")))
    return Even


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def raising_class(base, where):
    def boom(self, *a, **k):
        raise Boom(where)
    return type("Raising", (getattr(owlrl, base),), {where: boom})


OPS = collections.OrderedDict()
for _m, _gs in (("rdfs", "lit bag"), ("owl", "lit owl F?"), ("both", "F?"), ("ext", "F1 F2 F? rat"), ("extr", "F1"), ("trim", "rat F2"), ("trimr", "rat")):
    for _g in _gs.split():
        OPS["%s %s" % (_m, _g)] = ("expand", _m, _g, {})
OPS["rdfs bag axioms"] = ("expand", "rdfs", "bag", dict(axioms=True, daxioms=True))
OPS["owl owl axioms"] = ("expand", "owl", "owl", dict(axioms=True, daxioms=True))
for _m, _g in (("rdfs", "lit"), ("owl", "lit"), ("ext", "F1")):
    OPS["%s %s not improved" % (_m, _g)] = ("expand", _m, _g, dict(improved=False))
OPS["user both F?"] = ("expand", "both", "F?", dict(user=True))
OPS["user extr F1"] = ("expand", "extr", "F1", dict(user=True))
OPS["user ext F1 not improved"] = ("expand", "ext", "F1", dict(user=True, improved=False))
OPS["user owl lit"] = ("expand", "owl", "lit", dict(user="plain"))
OPS["user owl lit not improved"] = ("expand", "owl", "lit", dict(user="plain", improved=False))
OPS["no closure"] = ("nothing",)
OPS["convert rdfs"] = ("convert", "rdfs")
OPS["convert ext"] = ("convert", "ext")
OPS["fail: store, ext F1"] = ("fail", "store")
OPS["fail: rules, extr"] = ("fail", "rules")
OPS["fail: class, not improved"] = ("fail", "init")
OPS["fail: destination"] = ("fail", "dest")
OPS["on"] = ("on",)
OPS["off"] = ("off",)
OPS["conversions on"] = ("tables",)
OPS["bind"] = ("bind",)
SWITCHES = ("on", "off", "conversions on", "bind")


class Options:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def perform(op, shared):
    """execute the operation on the real code; returns what it produced"""
    kind = op[0]
    if kind == "expand":
        _k, mode, g, o = op
        key = (mode, tuple(sorted(o.items())))
        dc = shared.get(key)
        if dc is None:
            cls = user_class(real.MODES[mode]["cls"], o["user"] != "plain") if o.get("user") else real.closure_class(mode)
            dc = owlrl.DeductiveClosure(cls, improved_datatypes=o.get("improved", True), rdfs_closure=real.MODES[mode].get("rdfs_closure", False),
                                        axiomatic_triples=o.get("axioms", False), datatype_axioms=o.get("daxioms", False))
            shared[key] = dc
        graph = real.graph_of(T(GRAPHS[g]))
        dc.expand(graph)
        ex = real.Expanded(set(graph))
        inside = vars(dc.closure_class).get("inside")  # what literals looked like during the expansion
        return (frozenset(" ".join(n3(x) for x in t) for t in ex.triples), tuple(ex.errors), ex.error_nodes, ex.malformed, inside)
    if kind == "nothing":
        graph = real.graph_of(T(GRAPHS["lit"]))
        owlrl.DeductiveClosure(None).expand(graph)
        return frozenset(" ".join(n3(x) for x in t) for t in graph)
    if kind == "convert":
        out = owlrl.convert_graph(Options(
            sources=[], text="<http://ex.org/a> <http://ex.org/p> 4, 2 . <http://ex.org/F> a <%s> .\n" % RDFS.Datatype, owlClosure="no" if op[1] == "rdfs" else "yes",
            rdfsClosure="yes", owlExtras="yes", axioms=False, daxioms=False, format="turtle", iformat="turtle", trimming=False))
        g = Graph().parse(data=out, format="turtle")
        return frozenset(" ".join(n3(x) for x in t) for t in g)
    if kind == "fail":
        graph = real.graph_of(T(GRAPHS["F1"]), Graph(store=FailingStore()) if op[1] == "store" else None)
        try:
            if op[1] == "store":
                graph.store.arm(5000)
                owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(graph)
            elif op[1] == "dest":
                owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(graph, destination="http://ex.org/g")
            elif op[1] == "init":
                owlrl.DeductiveClosure(raising_class("OWLRL_Extension", "add_new_datatype"), improved_datatypes=False).expand(graph)
            else:
                owlrl.DeductiveClosure(raising_class("OWLRL_Extension", op[1]), rdfs_closure=True).expand(graph)
        except (Boom, ValueError):
            return "raised"
        return "did not raise"
    if kind == "on":
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    elif kind == "off":
        owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
    elif kind == "tables":
        owlrl.DatatypeHandling.use_Alt_lexical_conversions()
    elif kind == "bind":
        rdflib.term.bind(E("mine"), constructor=list, pythontype=list, datatype_specific=True)
    return None


def step(model, op):
    """the reference: (improved generally, conversion table, user datatype bound)"""
    g, t, b = model
    if op[0] == "on":
        return (True, "alt", b)
    if op[0] == "off":
        return (False, "rdflib", b)
    if op[0] == "tables":
        return (g, "alt", b)
    if op[0] == "bind":
        return (g, t, True)
    return model


START = (False, "rdflib", False)
MODELS = [(g, t, b) for g in (False, True) for t in ("rdflib", "alt") for b in (False, True) if not (g and t == "rdflib")]


def reach(model):
    return [n for n, on in (("on", model[0]), ("conversions on", model[1] == "alt"), ("bind", model[2])) if on]


def baseline(model):
    def produce(name):
        for s in reach(model):
            perform(OPS[s], {})
        if name is None:
            return probe()
        with real_code(120):
            return perform(OPS[name], {})
    return {name: forked(produce, name) for name in [None] + [n for n in OPS if n not in SWITCHES]}


def table_errors(b):
    """the improved conversions accept exactly the valid forms"""
    return ["%s^^<%s>" % (l, d) for (l, d), (tn, _v, ill) in zip(PROBES, b[None]) if d in ALT_KNOWN
            and (tn == "NoneType" or bool(ill)) == xsdref.valid(l, d)]


class C19(Check):
    id = "C19"
    needs_cases = True
    technique = "explicit-state exploration of the implementation: exhaustive tree of operation histories in forked processes, plus breadth-first search with " \
                "state hashing over the module-level state, against a three-variable reference automaton"
    rule = ("37 operations (expansions of 8 graphs with all closure classes, with axioms, with plain conversions, by user classes that register datatypes, file "
            "conversions, four kinds of failing expansions, the two conversion switches, user-registered datatypes). All histories of length 2 (thorough: 3), one "
            "DeductiveClosure object per configuration being reused, and breadth-first search over the reachable states of all module and class level variables "
            "of the package (fresh objects). Scenarios of all rules expanded again with the terms in each other's roles (same size, same names). After each operation: the expansion is that of a fresh process, probe literals of 21 datatypes have the values the "
            "reference automaton (improved generally?, conversions, user datatype?) predicts.")
    assumptions = ["state hashing covers module globals, class attributes and default arguments of the package and RDFLib's conversion table; objects hidden elsewhere "
                   "are covered by the history tree only",
                   "closure classes called directly, without DeductiveClosure, are out of scope (they are documented to leave the datatypes registered)"]

    def cases(self, tier):
        remember_root()
        self.base = dict(zip(MODELS, forked_many([(baseline, (m,)) for m in MODELS])))
        quick = tier == "quick"
        names = list(OPS)
        out = [("search", ("bfs", 4 if quick else 8))]
        for n in names:
            if quick:
                out.append(("history", ("tree", (n,), 2)))
            else:
                out += [("history", ("tree", (n, n2), 3)) for n2 in names]
        sc = {"owl": zoo(lengths=(2,)) + MIXED_ZOO, "rdfs": rdfs_zoo()}
        for mode in ("owl", "rdfs", "ext") if quick else ("owl", "rdfs", "both", "ext", "extr", "trim"):
            todo = sc.get(mode, sc["owl"][::1 if not quick else 2])
            for i in range(0, len(todo), 20):
                out.append(("twins", ("twins", mode, todo[i:i + 20])))
        return out

    def describe(self, payload):
        return repr(payload)

    def run(self, label, payload, stats):
        bad = [m for m in MODELS if m[1] == "alt" and table_errors(self.base[m])]
        if bad:
            return [Violation("conversion table", "with the improved conversions switched on, these literals are not judged as XSD does: %s" % table_errors(self.base[bad[0]]))]
        if payload[0] == "bfs":
            return self.bfs(payload[1], stats)
        if payload[0] == "twins":
            counts, viol = forked(self.twins, payload[1], payload[2])
            stats.update(counts)
            return viol
        _t, prefix, depth = payload
        counts, viol = forked(self.tree, prefix, depth)
        stats.update(counts)
        return viol

    # -------- twins
    def twins(self, mode, scenarios):
        """graphs of the same size and with the same terms, one after the other: the terms have exchanged their roles"""
        counts = collections.Counter()
        dc = owlrl.DeductiveClosure(real.closure_class(mode), rdfs_closure=real.MODES[mode].get("rdfs_closure", False))

        def expand(tr):
            g = real.graph_of(tr)
            dc.expand(g)
            counts["impl"] += 1
            ex = real.Expanded(set(g))
            return frozenset(ex.triples), len(ex.errors)
        for name, tr in scenarios:
            iris = sorted({x for t in tr for x in t if isinstance(x, URIRef) and str(x).startswith(str(E("")))})
            nodes = sorted({x for t in tr for x in t if isinstance(x, BNode)})
            counts["states"] += 1
            try:
                with real_code(240):
                    first, errors = expand(tr)
                    for k in range(1, max(len(iris), 2)):
                        m = dict(zip(iris, iris[k:] + iris[:k]))
                        m.update(zip(nodes, nodes[k % len(nodes):] + nodes[:k % len(nodes)] if nodes else ()))
                        ren = lambda t: tuple(m.get(x, x) for x in t)  # noqa: E731
                        got, n = expand([ren(t) for t in tr])
                        counts["transitions"] += 1
                        want = frozenset(map(ren, first))
                        if got != want or n != errors:
                            return counts, [Violation("twins %s %s" % (mode, name), "%s expansion of a graph after one in which the terms have other roles:\nmissing %s\nextra %s\n%d error reports instead of %d\n%s" % (
                                mode, show(want - got, 6), show(got - want, 6), n, errors, "\n".join(show([ren(t) for t in tr], 30))))]
                    again = expand(tr)
                    if again != (first, errors):
                        return counts, [Violation("twins %s %s again" % (mode, name), "%s expansion of the same graph, later:\n%s" % (mode, "\n".join(show(tr, 30))))]
            except RealError as e:
                return counts, [Violation("twins %s %s raises" % (mode, name), "%s" % e)]
        return counts, None

    # -------- tree
    def tree(self, prefix, depth):
        counts, viol = collections.Counter(), []
        shared, model, history = {}, START, []
        for i, name in enumerate(prefix):
            history.append(name)
            # a prefix shorter than the given one is checked by the case that ends there
            v, model = self.apply(history, model, shared, i == len(prefix) - 1, counts)
            if v:
                return counts, v
        counts["states"] += 1
        if len(prefix) < depth:
            for name in OPS:
                def child(n=name):
                    c = collections.Counter()
                    v, _m = self.apply(history + [n], model, shared, True, c)
                    return c, v
                c, v = forked(child)
                counts.update(c)
                counts["states"] += 1
                if v:
                    viol += v
                    if len(viol) > 2:
                        break
        return counts, viol

    def apply(self, history, model, shared, check, counts):
        name = history[-1]
        op = OPS[name]
        new = step(model, op)
        try:
            with real_code(120):
                got = perform(op, shared)
        except RealError as e:
            return [Violation("raises %s" % name, "history %s raises: %s" % (history, e))], new
        counts["impl"] += 1
        if not check:
            return None, new
        counts["transitions"] += 1
        bad = []
        want = self.base[model].get(name)
        if got != want:
            bad.append("result of the last operation differs from the one in a fresh process: " + difference(want, got))
        p = probe()
        if p != self.base[new][None]:
            bad.append("literals created afterwards: " + "; ".join("%s^^%s is %s, not %s" % (l, n3(d), g, w) for (l, d), g, w in
                                                                  zip(PROBES, p, self.base[new][None]) if g != w)[:600])
        if bad:
            return [Violation("%s | %s" % (history, bad[0][:150]), "history: %s\n%s" % (history, "\n".join(bad)))], new
        return None, new

    # -------- search
    def bfs(self, limit, stats):
        def explore():
            remember_root()
            counts, viol, seen = collections.Counter(), [], set()
            frontier, depth = [[]], 0
            seen.add(hash((snapshot(), START)))
            counts["states"] += 1
            while frontier and depth < limit and not viol and counts["states"] < 80:
                nxt = []
                def child(h, n):
                    c, m = collections.Counter(), START
                    for s in h:
                        perform(OPS[s], {})
                        m = step(m, OPS[s])
                    v, m = self.apply(h + [n], m, {}, True, c)
                    return c, v, hash((snapshot(), m))
                jobs = [(h, n) for h in frontier for n in OPS]
                for (h, n), (c, v, state) in zip(jobs, forked_many([(child, j) for j in jobs])):
                    counts.update(c)
                    if v:
                        viol += v
                    if state not in seen:
                        seen.add(state)
                        nxt.append(h + [n])
                        counts["states"] += 1
                        counts["hashed_states"] += 1
                frontier, depth = nxt, depth + 1
            counts["search_depth"] = depth
            counts["search_complete"] = int(not frontier)
            return counts, viol
        counts, viol = forked(explore)
        stats.update(counts)
        return viol


def difference(want, got):
    if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == 5:
        if want[:4] == got[:4] and want[4] and got[4]:
            return "literals created during the expansion: " + "; ".join("%s^^%s is %s, not %s" % (l, n3(d), g, w) for (l, d), g, w in
                                                                         zip(PROBES * 2, got[4], want[4]) if g != w)[:600]
        return "missing %s; extra %s; errors %s, not %s" % (sorted(want[0] - got[0])[:6], sorted(got[0] - want[0])[:6], got[1:3], want[1:3])
    if isinstance(want, frozenset) and isinstance(got, frozenset):
        return "missing %s; extra %s" % (sorted(want - got)[:6], sorted(got - want)[:6])
    return "%s, not %s" % (got, want)


# ------------------------------------------------------------------------------------------------ C20
class FailingStore(Memory):
    """a store that fails at the k-th access (k = 0: never)"""
    exc = Boom

    def __init__(self, *a, **k):
        self.count, self.at, self.stacks, self.on = 0, 0, None, False
        super().__init__(*a, **k)

    def arm(self, at, stacks=None, exc=Boom):
        self.count, self.at, self.stacks, self.on, self.exc = 0, at, stacks, True, exc

    def tick(self, what):
        if not self.on:
            return
        self.count += 1
        if self.stacks is not None:
            f, st = sys._getframe(2), []
            while f is not None:
                fn = f.f_code.co_filename
                if "owlrl" in fn and "/verif/" not in fn:
                    st.append((os.path.basename(fn), f.f_lineno))
                f = f.f_back
            self.stacks.setdefault((what, tuple(st)), []).append(self.count)
        if self.count == self.at:
            raise self.exc("access %d: %s" % (self.count, what))

    def add(self, *a, **k):
        self.tick("add")
        return super().add(*a, **k)

    def remove(self, *a, **k):
        self.tick("remove")
        return super().remove(*a, **k)

    def triples(self, *a, **k):
        self.tick("triples")
        found = super().triples(*a, **k)

        def results():
            for x in found:
                self.tick("next")
                yield x
        return results()

    def bind(self, *a, **k):
        self.tick("bind")
        return super().bind(*a, **k)


FAULT_GRAPH = {
    "facets": FACET + '_:2 xsd:minInclusive "3"^^xsd:integer; a p "4"^^xsd:integer; R owl:allValuesFrom ex:F; R owl:onProperty p; a a R; a p "1"^^xsd:integer',
    "mixed": 'a p "1"^^xsd:integer; p rdfs:range C; p rdfs:domain owl:Thing; a p _:9; a _:8 b; a q "x"^^xsd:byte; a owl:sameAs b; x rdfs:subClassOf x',
    "small": 'a p "x"^^xsd:byte; p rdfs:domain C; a _:8 b; a owl:differentFrom a',
}
HOOKS = ("__init__", "pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "rules", "post_process", "add_error", "store_triple", "flush_stored_triples",
         "add_new_datatype", "restriction_typing_check")


def hook_class(base, hook, nth, after, exc):
    """a user class whose hook raises at its nth call, before or after the inherited step"""
    state = {"n": 0}
    cls = getattr(owlrl, base)
    if not hasattr(cls, hook):
        return None, state
    orig = getattr(cls, hook)

    def override(self, *a, **k):
        state["n"] += 1
        boom = state["n"] == nth
        if boom and not after:
            raise exc(hook)
        out = orig(*a, **k) if hook == "add_new_datatype" else orig(self, *a, **k)
        if boom:
            raise exc(hook)
        return out
    return type("User", (cls,), {hook: override}), state


class C20(Check):
    id = "C20"
    needs_cases = True
    technique = "exhaustive fault injection on the implementation: every store access (and every call of a user hook) as the failing one, state hashing of the surviving state"
    rule = ("3 graphs, 7 closure configurations, axioms: accesses of the expansion to the store (calls of add, remove, triples, bind, and each result fetched) "
            "fail in turn - at least the first (first and last; first, second, middle and last) access of every distinct call path, for RDFS every single one, in the "
            "thorough tier every single call for RDFS, OWL, extended and trimming closures - with an Exception and, on the call paths, with a BaseException. Every overridable hook raises at its n-th call, before or after the inherited step. After the failure: the exception is the "
            "injected one, probe literals convert as before, all module and class level state equals that of a fresh process (otherwise: four later expansions are "
            "compared), the input triples are there, and expanding the same graph again gives the result without failure.")
    assumptions = ["faults are exceptions raised by a Memory store before the access takes effect; a fault that the code absorbs (the expansion then returns normally) is counted "
                   "and not judged"]

    def cases(self, tier):
        remember_root()
        quick = tier == "quick"
        out = []
        # (mode, graph, axioms, accesses: first / ends / four of each path, or all of them)
        plan = [("rdfs", "mixed", False, "all"), ("owl", "small", False, "four"), ("ext", "facets", False, "ends"), ("trim", "mixed", False, "ends"),
                ("extr", "facets", False, "first")]
        if not quick:
            plan = [("rdfs", "mixed", False, "all"), ("rdfs", "small", True, "all"), ("rdfs", "facets", False, "all"), ("owl", "small", False, "all"),
                    ("owl", "mixed", True, "four"), ("both", "small", False, "four"), ("ext", "facets", False, "all"), ("ext", "mixed", True, "ends"),
                    ("extr", "facets", False, "four"), ("trim", "mixed", False, "all"), ("trim", "facets", False, "four"), ("trimr", "mixed", False, "four")]
        self.ref, self.before = {}, (probe(), snapshot())
        for (mode, g, ax, how), (total, stacks, result) in zip(plan, forked_many([(self.measure, x[:3]) for x in plan])):
            self.ref[mode, g, ax] = result
            ks = set()
            for (what, _stack), occ in stacks.items():
                ks.add(occ[0])
                if how != "first":
                    ks.add(occ[-1])
                if how in ("four", "all"):
                    ks |= {occ[len(occ) // 2], occ[min(1, len(occ) - 1)]}
                if how == "all" and (what != "next" or mode == "rdfs"):
                    ks |= set(occ)
            ks = sorted(ks)
            first = sorted({occ[0] for occ in stacks.values()})
            todo = [(k, 0) for k in ks] + [(k, 1) for k in first[::(3 if quick else 1)]]
            size = 10 if quick else 40
            for i in range(0, len(todo), size):
                out.append(("store faults", ("store", mode, g, ax, todo[i:i + size])))
        later = {}
        for mode, g in (("rdfs", "lit"), ("owl", "lit"), ("ext", "F2"), ("extr", "F?")):
            later[mode, g] = forked(perform, ("expand", mode, g, {}), {})
        self.later = later
        for mode in ("rdfs", "owl", "ext", "trim") if quick else ("rdfs", "owl", "both", "ext", "extr", "trim", "trimr"):
            for hook in HOOKS:
                out.append(("hooks", ("hook", mode, hook, quick)))
        return out

    def describe(self, payload):
        return repr(payload)[:300]

    def measure(self, mode, g, ax):
        stacks = {}
        graph = real.graph_of(T(FAULT_GRAPH[g]), Graph(store=FailingStore()))
        graph.store.arm(0, stacks)
        with real_code(300):
            real.deductive(mode, ax, ax).expand(graph)
        graph.store.on = False
        ex = real.Expanded(set(graph))
        return graph.store.count, stacks, (ex.triples, tuple(ex.errors))

    def run(self, label, payload, stats):
        if payload[0] == "store":
            _k, mode, g, ax, todo = payload
            viol = []
            for i, (at, base) in enumerate(todo):
                c, v = forked(self.fault, mode, g, ax, at, BoomBase if base else Boom, i % 5 == 0)
                stats.update(c)
                stats.see("points", (mode, g, ax, at))
                if v:
                    viol += v
                    if len(viol) > 1:
                        break
            return viol
        _k, mode, hook, quick = payload
        viol = []
        for after in (False, True):
            for exc in (Boom, BoomBase):
                nth = 1
                while nth < (70 if quick else 4000):
                    c, v, called = forked(self.hook, mode, hook, nth, after, exc)
                    stats.update(c)
                    if v:
                        viol += v
                        break
                    if called < nth:
                        break
                    if exc is BoomBase and quick:
                        break
                    nth = nth + 1 if nth < (3 if quick else 8) else nth * 4 if quick else nth + 5
        return viol

    def fault(self, mode, g, ax, at, exc, retry):
        c = collections.Counter()
        inp = T(FAULT_GRAPH[g])
        graph = real.graph_of(inp, Graph(store=FailingStore()))
        graph.store.arm(at, None, exc)
        where = "%s closure%s of graph %r, store access %d fails (%s)" % (mode, " with axioms" if ax else "", g, at, exc.__name__)
        dc = real.deductive(mode, ax, ax)
        c["impl"] += 1
        c["transitions"] += 1
        c["states"] += 1
        if not self.attempt(lambda: dc.expand(graph), c):
            return c, self.after(where, c, None, None, None, None)
        graph.store.on = False
        return c, self.after(where, c, graph, inp, dc if retry else None, self.ref[mode, g, ax])

    @staticmethod
    def attempt(f, c):
        """True if the injected failure came out"""
        try:
            with real_code(300):
                try:
                    f()
                except (Boom, BoomBase) as e:
                    c["failures_" + type(e).__name__] += 1
                    return True
        except RealError as e:
            c["other_exceptions"] += 1
            return True
        c["absorbed"] += 1
        return False

    def hook(self, mode, hook, nth, after, exc):
        c = collections.Counter()
        inp = T(FAULT_GRAPH["facets"])
        graph = real.graph_of(inp)
        cls, state = hook_class(real.MODES[mode]["cls"], hook, nth, after, exc)
        if cls is None:
            return c, None, 0
        c["impl"] += 1
        c["transitions"] += 1
        c["states"] += 1
        where = "user class on %s whose %s raises at call %d (%s the inherited step, %s)" % (mode, hook, nth, "after" if after else "before", exc.__name__)
        raised = self.attempt(lambda: real.deductive(mode, "ax" in hook, "ax" in hook, cls).expand(graph), c)
        if state["n"] >= nth and not raised and hook not in ("restriction_typing_check",):
            c["absorbed_hooks"] += 1
        return c, self.after(where, c, graph if raised else None, inp, None, None), state["n"]

    def after(self, where, c, graph, inp, retry, result):
        bad = []
        p = probe()
        if p != self.before[0]:
            bad.append("literals created afterwards are converted differently: %s" % [
                "%s^^%s: %s, not %s" % (l, n3(d), g, w) for (l, d), g, w in zip(PROBES, p, self.before[0]) if g != w][:4])
        if snapshot() != self.before[1]:
            c["state_differs"] += 1
            for (mode, g), want in self.later.items():
                try:
                    with real_code(120):
                        got = perform(("expand", mode, g, {}), {})
                except RealError as e:
                    got = str(e)
                if got != want:
                    bad.append("a later %s expansion differs: %s" % (mode, difference(want, got)))
        if graph is not None:
            left = set(graph)
            lost = {t for t in inp if t not in left}
            if result is not None:
                lost -= {t for t in inp if t not in result[0]}
            else:
                lost = {t for t in lost if not removable(t)}
            if lost:
                bad.append("input triples are lost: %s" % show(lost))
            if retry is not None and not bad and ERR_MSG_CLASS not in graph.objects():  # half of the report may be there
                c["retries"] += 1
                try:
                    with real_code(300):
                        retry.expand(graph)
                    ex = real.Expanded(set(graph))
                    if ex.triples != result[0] or not set(result[1]) <= set(ex.errors):
                        bad.append("expanding the graph again gives a different result: missing %s extra %s" % (
                            show(result[0] - ex.triples, 5), show(ex.triples - result[0], 5)))
                except RealError as e:
                    bad.append("expanding the graph again fails: %s" % e)
        if bad:
            return [Violation("%s | %s" % (where, bad[0][:160]), "%s\n%s" % (where, "\n".join(bad)))]
        return None


def removable(t):
    """triples an undisturbed expansion may remove: bnode predicates, trivial triples (trimming)"""
    return isinstance(t[1], BNode) or t[0] == t[2] or t[1] in (RDFS.subClassOf, RDF.type)


# ------------------------------------------------------------------------------------------------ C29
def trigger_class(base, links, order="after"):
    """rules: trigger triple -> conclusion"""
    cls = getattr(owlrl, base)

    class User(cls):
        def rules(self, t, cycle_num):
            if order == "after":
                cls.rules(self, t, cycle_num)
            for c in links.get(t, ()):
                self.store_triple(c)
            if order != "after":
                cls.rules(self, t, cycle_num)
    return User


def join_class(base, joins):
    """rules: x p y, y q z -> x r z, looked at from the first premise only (as most rules of the package are)"""
    cls = getattr(owlrl, base)

    class User(cls):
        def rules(self, t, cycle_num):
            cls.rules(self, t, cycle_num)
            for p, q, r in joins:
                if t[1] == p:
                    for z in self.graph.objects(t[2], q):
                        self.store_triple((t[0], r, z))
    return User


def recorder_class(base, log):
    cls = getattr(owlrl, base)
    d = {}
    for h in ("pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "post_process"):
        def hook(self, _h=h):
            log.append(_h)
            return getattr(cls, _h)(self)
        d[h] = hook

    def rules(self, t, cycle_num):
        log.append((cycle_num, t))
        cls.rules(self, t, cycle_num)
    d["rules"] = rules
    return type("Recorder", (cls,), d)


STEPS = ("pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "rules", "post_process")


def step_triple(h, literals):
    """the triple that a step adds; what is there before the one-time rules takes part in them"""
    o = {"pre_process": lit("01", "xsd:byte"), "add_axioms": lit("x", "xsd:byte")}.get(h) if literals else None
    return E("by"), E("p_" + h), o or E("o")


def steps_class(base, chosen, how, literals=False):
    """each chosen step adds a triple (and an error message) of its own"""
    cls = getattr(owlrl, base)
    d = {}

    def add(self, h):
        t = step_triple(h, literals)
        if how == "store":
            self.store_triple(t)
        else:
            self.destination.add(t)
        self.add_error("message of " + h)
        self.add_error("message of all")
    for h in chosen:
        if h == "rules":
            def rules(self, t, cycle_num):
                cls.rules(self, t, cycle_num)
                if t[1] == E("p"):
                    self.store_triple((E("by"), E("p_rules"), E("o")))
                    self.add_error("message of rules")
                    self.add_error("message of all")
            d[h] = rules
        else:
            def hook(self, _h=h):
                if how != "late":
                    getattr(cls, _h)(self)
                add(self, _h)
                if how == "late":
                    getattr(cls, _h)(self)
            d[h] = hook
    return type("Steps", (cls,), d)


def four(v):
    if int(v) != 4:
        raise ValueError(v)
    return 4


def word(v):
    if not v.isalpha():
        raise ValueError(v)
    return v


NEW_TYPES = {"even": (even, [XSD.integer]), "four": (four, [E("even")]), "word": (word, [XSD.token]), "alone": (word, None)}


def datatype_class(base, names, key):
    tables = sys.modules["owlrl.XsdDatatypes"]

    class Types(getattr(owlrl, base)):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            for n in names:
                conv, subs = NEW_TYPES[n]
                kw = dict(subsumption_dict=tables.OWL_Datatype_Subsumptions, subsumption_list=subs) if subs else {}
                if key is True and subs:
                    kw["subsumption_key"] = E(n)
                if key == "only dictionary":
                    kw = dict(subsumption_dict=tables.OWL_Datatype_Subsumptions)
                if key == "only list":
                    kw = dict(subsumption_list=subs)
                self.add_new_datatype(E(n), conv, None if key == "no table" else tables.OWL_RL_Datatypes, **kw)
    return Types


def ref_false(label):
    """is the rule named in 'before NAME/i' one that derives an inconsistency"""
    name = label.split(" ", 1)[1].rsplit("/", 1)[0]
    return any(r.false and r.name == name for r in gen.templates(["C06"], (2,)))


SUPER = {"even": [XSD.integer, XSD.decimal], "four": [E("even"), XSD.integer, XSD.decimal], "word": [XSD.token, XSD.normalizedString, XSD.string], "alone": []}
UNLINKED = {"four": [E("even")]}  # when ex:even itself is not registered


def literal_of(tr):
    return [o for _s, _p, o in tr if isinstance(o, Literal)]


VETO_VALUES = [E("zqvetoqz"), BNode("zqbnodeqz"), Literal("zqtextqz"), Literal("47114", datatype=XSD.integer, normalize=False), Literal("zqlangqz", lang="en")]


class C29(Check):
    id = "C29"
    technique = "exhaustive composition of user-defined rules and steps with the implementation's rules; model (least fixpoint) vs. implementation, call sequences vs. a reference automaton"
    rule = ("(a) for each conclusion of each built-in rule a user rule that fires on it, for each premise of each built-in rule a user rule that derives it, before or after the "
            "inherited rules, and all chains built-in rule -> user rule -> built-in rule (quick: each rule with a fourth of the others), compared with the reference model's least "
            "fixpoint; user rules that join two premises, the second one being derived up to 6 cycles later; (b) call sequences of all steps for all closure classes x axioms x graphs "
            "against the documented order, every triple of the result being passed to the user's rules; (c) all 64 subsets of overridden steps that add triples and error messages x "
            "closure classes x three ways of adding; (d) all registrations of up to three new datatypes (in all orders) x optional arguments x closure classes x values; (e) all subsets of five values rejected by an overridden typing check of allValuesFrom; (f) mixed-in trimming; (g) up to 316 similar messages, each added repeatedly.")
    assumptions = ["user classes call the inherited steps; conclusions of user rules contain no literals that are new to the graph (the datatype rules are documented as one-time rules)"]
    cap = 3000

    def cases(self, tier):
        quick = tier == "quick"
        rules = [(r, gen.instantiate(r.body, e), e) for r in gen.templates(["C02", "C03", "C04", "C05", "C06"], (2,)) for e in [gen.base_env(gen.variables(r.body))]]
        rdfs = [(r, gen.instantiate(r.body, e), e) for r in ref.RDFS_RULES for e in [gen.base_env(gen.variables(r.body))]]
        go = E("go")

        def heads(r, env):
            out = gen.instantiate(r.head, env) if r.head else []
            return [t for t in out or [] if t[0] != t[2]]

        link = lambda t: (E("was"), E("derived"), E("x%d" % (abs(hash(t)) % 97)))  # noqa: E731
        for mode, rs in (("owl", rules), ("rdfs", rdfs), ("both", rdfs)):
            scen = []
            for r, body, env in rs:
                for c in heads(r, env):
                    scen.append(("after " + r.name, body, [(c, link(c))]))
                for i, p in enumerate(body):
                    m = (E("me"), go, E("m"))
                    keep = body[:i] + body[i + 1:]
                    keep = keep + [(E("w"), E("uses"), x) for x in literal_of([p])]
                    scen.append(("before %s/%d" % (r.name, i), keep + [m], [(m, p)]))
            out = []
            for (l, tr, links) in scen:
                out.append((l, tr, links))
            for l, tr, links in out:
                if mode == "owl" and l.startswith("before") and ref_false(l):
                    yield "clashes", ("links", mode, "after", [(l, tr, links)])
            size = 12 if mode == "owl" else 6
            for order in ("after", "first"):
                for i in range(0, len(out), size):
                    yield "links", ("links", mode, order, out[i:i + size])
            # chains
            prods = [(r, body, c) for r, body, env in rs for c in heads(r, env)]
            cons = [(r, body, i) for r, body, _e in rs for i in range(len(body))]
            chains = []
            n = 0
            for a, (r1, b1, c) in enumerate(prods):
                for b, (r2, b2, i) in enumerate(cons):
                    n += 1
                    if quick and ((a + b) % 4 or mode == "both"):
                        continue
                    x1, p = tag(b1, 500), b2[i]
                    c1 = tag([c], 500)[0]
                    tr = x1 + [t for t in b2[:i] + b2[i + 1:] if t not in x1] + [(E("w"), E("uses"), x) for x in literal_of([p])]
                    chains.append(("%s -> user -> %s/%d" % (r1.name, r2.name, i), tr, [(c1, p)]))
            size = 40 if mode == "owl" else 8
            for i in range(0, len(chains), size):
                yield "chains", ("links", mode, "after", chains[i:i + size])
        # joins whose second premise is derived k cycles after the first one
        for mode in ("rdfs", "owl", "both", "ext"):
            for k in range(1, 7):
                yield "joins", ("join", mode, k)
        graphs = [("none", T("a p b")), ("owl", T(GRAPHS["owl"])), ("lit", T(GRAPHS["lit"])), ("bag", T(GRAPHS["bag"])), ("facets", T(FAULT_GRAPH["facets"])), ("empty", [])]
        for mode in ("rdfs", "owl", "both", "ext", "extr", "trim", "trimr"):
            for ax in itertools.product((False, True), repeat=2):
                for n, g in graphs if mode in ("rdfs", "owl") or not quick else graphs[4:5] if ax == (False, False) else graphs[:1]:
                    yield "call sequence", ("calls", mode, ax, g)
        for k in range(len(STEPS) + 1):
            for chosen in itertools.combinations(STEPS, k):
                natural = ("add_axioms" in chosen, "add_d_axioms" in chosen)
                for mode in ("rdfs", "owl", "both", "ext", "extr", "trim"):
                    if quick and (mode == "owl" and k not in (0, 1, 2, 6) or mode in ("both", "ext", "extr", "trim") and k != 6 and chosen != STEPS[:1] + STEPS[3:]):
                        continue
                    for how in ("store", "add", "late") if mode == "rdfs" or not quick else ("store",):
                        for ax in itertools.product((False, True), repeat=2) if not quick or mode == "rdfs" and k == 6 else (natural,):
                            yield "steps", ("steps", mode, chosen, how, ax)
        for k in (1, 2, 3):
            for names in itertools.permutations(NEW_TYPES, k):
                if quick and k == 3 and set(names) != {"even", "four", "word"}:
                    continue
                for mode in ("ext",) if quick and k > 1 else ("both", "ext", "extr", "trim"):
                    for key in (True, False, "only dictionary", "only list", "no table") if k == 1 or not quick else (True,):
                        yield "datatypes", ("types", mode, names, key)
        for k in range(len(VETO_VALUES) + 1):
            for chosen in itertools.combinations(range(len(VETO_VALUES)), k):
                for mode in ("owl",) if quick and k > 1 else ("owl", "both", "ext", "extr", "trim"):
                    yield "typing checks", ("veto", mode, chosen)
        for mixed in range(4):
            yield "mixed in", ("mixin", mixed)
        for mode in ("rdfs", "owl", "both", "ext", "extr", "trim"):
            for k in (1, 60, 300):
                yield "many messages", ("messages", mode, k)

    def describe(self, payload):
        return repr(payload)[:600]

    def run(self, label, payload, stats):
        return getattr(self, "run_" + payload[0])(stats, *payload[1:])

    # -------- messages
    def run_messages(self, stats, mode, k):
        """messages that differ little, each of them added over and over again"""
        texts = ["x", "X", "x ", " x", "x.", "'x'", "x %s", "", "x" * 3000, "x" * 2999 + "y", "\u00e9", "e\u0301", "1", "01", "line\nline", "line line"] + ["message number %d" % i for i in range(k)]
        cls = getattr(owlrl, real.MODES[mode]["cls"])

        class Noisy(cls):
            def rules(self, t, cycle_num):
                cls.rules(self, t, cycle_num)
                if t[1] in (E("p"), E("q")):
                    for x in texts:
                        self.add_error(x)

            def post_process(self):
                cls.post_process(self)
                for x in texts[::-1]:
                    self.add_error(x)
        g = real.graph_of(T("a p b; p rdfs:subPropertyOf q"))
        with real_code(120):
            owlrl.DeductiveClosure(Noisy, rdfs_closure=real.MODES[mode].get("rdfs_closure", False)).expand(g)
        ex = real.Expanded(set(g))
        stats["impl"] += 1
        stats["states"] += 1
        stats["transitions"] += len(texts)
        if sorted(ex.errors) != sorted(texts) or ex.error_nodes != len(texts) or ex.malformed:
            c, d = collections.Counter(ex.errors), collections.Counter(texts)
            return [Violation("messages %s %d" % (mode, k), "%s closure, a rule that reports %d messages: not reported %r; reported too often %r; %d error nodes" % (
                mode, len(texts), [x[:60] for x in (d - c)][:8], [x[:60] for x in (c - d)][:8], ex.error_nodes))]

    # -------- rules
    def run_links(self, stats, mode, order, scens):
        tr, links = [], {}
        for k, (_l, body, ls) in enumerate(scens):
            if len(scens) > 1:
                body = tag(body, k)
                ls = list(zip(tag([a for a, _b in ls], k), tag([b for _a, b in ls], k)))
            tr += [t for t in body if t not in tr]
            for a, b in ls:
                links.setdefault(a, []).append(b)
        m = ref.model(mode)
        have, extra = set(tr), []
        while True:
            try:
                cl = m.closure(tr, extra=extra, cap=self.cap)
            except ref.TooBig:
                return self.halves(stats, mode, order, scens)
            new = [c for a, cs in links.items() if TERMS.triple(a) in cl.G.T for c in cs if c not in extra]
            if not new:
                break
            extra += new
        if ref.branching(cl.G):
            return self.halves(stats, mode, order, scens)
        stats["states"] += cl.transitions + 1
        stats["transitions"] += cl.transitions
        stats["scenarios"] += len(scens)
        with real_code(240):
            ex = real.expand(tr, mode, cls=trigger_class(real.MODES[mode]["cls"], links, order))
        stats["impl"] += 1
        R = {TERMS.triple(t) for t in ex.triples}
        stats.see("expansions", frozenset(R))
        want = cl.visible()
        bad = []
        if want - R:
            bad.append("missing: %s" % show(back(want - R)))
        if R - want:
            bad.append("not derivable: %s" % show(back(R - want)))
        if len(scens) == 1 and mode != "rdfs":
            clash = ref.false_instances(cl.G)
            stats["clashes"] += len(clash)
            if bool(clash) != bool(ex.errors):
                bad.append("%d clashes, error messages: %s" % (len(clash), ex.errors))
        if not bad:
            return None
        if len(scens) > 1:
            v = self.halves(stats, mode, order, scens)
            if v:
                return v
        return [Violation("%s %s | %s" % (mode, scens[0][0], bad[0][:160]),
                          "%s closure with a user rule (%s): %s\n%s\ninput:\n%s" % (mode, scens[0][0], "; ".join("%s -> %s" % (
                              show([a]), show(b)) for a, b in list(links.items())[:3]), "\n".join(bad), "\n".join(show(tr, 40))))]

    def halves(self, stats, mode, order, scens):
        if len(scens) < 2:
            stats["skipped"] += 1
            return None
        h = len(scens) // 2
        return (self.run_links(stats, mode, order, scens[:h]) or []) + (self.run_links(stats, mode, order, scens[h:]) or [])

    def run_join(self, stats, mode, k):
        # p_k -> ... -> p_0 -> q takes k+1 cycles when the rules are applied to the given triples only
        chains = [("p_%d" % i, RDFS.subPropertyOf, "p_%d" % (i - 1)) for i in range(1, k + 1)]
        tr = [(E("a"), E("p"), E("b"))] + [(E(a), b, E(c)) for a, b, c in chains] + [(E("p_0"), RDFS.subPropertyOf, E("q")), (E("b"), E("p_%d" % k), E("c"))]
        tr += [(E("s%d" % i), E("u"), E("s%d" % (i + 1))) for i in range(k)] + [(E("s%d" % k), E("q"), E("e")), (E("u"), RDFS.subPropertyOf, E("v"))]
        joins = [(E("p"), E("q"), E("r")), (E("v"), E("q"), E("q"))]  # the second one is recursive
        if mode != "rdfs":
            tr += [(E("q"), RDF.type, OWL.TransitiveProperty)]
        with real_code(120):
            ex = real.expand(tr, mode, cls=join_class(real.MODES[mode]["cls"], joins))
        stats["impl"] += 1
        stats["states"] += 1
        stats["transitions"] += k
        want = {(E("a"), E("r"), E("c"))} | {(E("s%d" % i), E("q"), E("e")) for i in range(k)}
        if want - ex.triples:
            return [Violation("join %s %d" % (mode, k), "user rules x p y, y q z -> x r z and x v y, y q z -> x q z on the %s closure; missing: %s\ninput:\n%s" % (
                mode, show(want - ex.triples), "\n".join(show(tr, 30))))]

    # -------- steps
    def run_calls(self, stats, mode, ax, triples):
        log, g = [], real.graph_of(triples)
        with real_code(120):
            real.deductive(mode, ax[0], ax[1], recorder_class(real.MODES[mode]["cls"], log)).expand(g)
        stats["impl"] += 1
        want = ["pre_process"] + ["add_axioms"] * ax[0] + ["add_d_axioms"] * ax[1] + ["one_time_rules", "rules", "post_process"]
        seq, cycles, passed = [], [], set()
        for x in log:
            if isinstance(x, tuple):
                passed.add(x[1])
                if not cycles or cycles[-1] != x[0]:
                    cycles.append(x[0])
                x = "rules"
            if not (x == "rules" and seq and seq[-1] == "rules"):
                seq.append(x)
        stats["transitions"] += len(log)
        stats["states"] += len(seq)
        stats.see("sequences", (tuple(seq), tuple(cycles)))
        bad = []
        if seq != want and not (not passed and [x for x in want if x != "rules"] == seq):
            bad.append("steps are called in the order %s, not %s" % (seq, want))
        if cycles != list(range(1, len(cycles) + 1)):
            bad.append("cycle numbers are %s" % cycles)
        ex = real.Expanded(set(g))
        unseen = ex.triples - passed
        if unseen:
            bad.append("never passed to the user's rules: %s" % show(unseen))
        if bad:
            return [Violation("calls %s %s | %s" % (mode, ax, bad[0][:160]), "%s closure, axioms %s\n%s\ninput:\n%s" % (mode, ax, "\n".join(bad), "\n".join(show(triples))))]

    def run_steps(self, stats, mode, chosen, how, ax):
        tr = T("a p b; p rdfs:domain C; b p c; p_pre_process rdfs:range R1; p_one_time_rules rdfs:range R2; p_rules rdfs:range R3; p_add_axioms rdfs:range R4; "
               "p_add_d_axioms rdfs:range R5; p_post_process rdfs:subPropertyOf p_x; c q '1'^^xsd:byte".replace("'", '"'))
        with real_code(120):
            ex = real.expand(tr, mode, ax[0], ax[1], cls=steps_class(real.MODES[mode]["cls"], chosen, how, not ax[1]))
            run = [h for h in chosen if not (h == "add_axioms" and not ax[0] or h == "add_d_axioms" and not ax[1])]
            t = {h: step_triple(h, not ax[1]) for h in STEPS}
            plain = real.expand(tr + [t[h] for h in run if h != "post_process"], mode, ax[0], ax[1])
        stats["impl"] += 2
        stats["states"] += 1
        stats["transitions"] += len(run)
        want = plain.triples | {t[h] for h in run if h == "post_process"}
        bad = []
        if want - ex.triples:
            bad.append("missing: %s" % show(want - ex.triples))
        if ex.triples - want:
            bad.append("not derivable: %s" % show(ex.triples - want))
        msgs = sorted(["message of " + h for h in run] + (["message of all"] if run else []) + plain.errors)
        if ex.errors != msgs or ex.error_nodes != len(msgs) or ex.malformed:
            bad.append("error messages %s in %d nodes, expected %s" % (ex.errors, ex.error_nodes, msgs))
        if bad:
            return [Violation("steps %s %s %s %s | %s" % (mode, chosen, how, ax, bad[0][:120]), "steps %s of a user class on %s add a triple (%s), axioms %s\n%s" % (
                chosen, mode, how, ax, "\n".join(bad)))]

    # -------- datatypes
    def run_types(self, stats, mode, names, key):
        lex = ["4", "3", "06", "x", "abc", "-2"]
        tr = [(E("s_%s_%d" % (n, i)), E("has"), Literal(v, datatype=E(n), normalize=False)) for n in names for i, v in enumerate(lex)]
        tr += T("R owl:someValuesFrom xsd:integer; R owl:onProperty has; S owl:someValuesFrom ex:four; S owl:onProperty has")
        with real_code(120):
            ex = real.expand(tr, mode, cls=datatype_class(real.MODES[mode]["cls"], names, key))
        stats["impl"] += 1
        stats["states"] += 1
        stats["transitions"] += len(tr)
        bad, want_errors = [], 0
        for n in names:
            sup = SUPER[n] if n != "four" or "even" in names else UNLINKED["four"]
            if key in ("only dictionary", "only list"):
                sup = []
            if key == "no table":  # not a datatype of the closure: its literals are no concern of the datatype rules
                typed = [t for t in ex.triples if t[1] == RDF.type and t[2] == E(n) and mode not in ("rdfs", "both", "extr")]
                if typed and mode != "trim":
                    bad.append("typed literals of a datatype that is not in the list: %s" % show(typed, 3))
                continue
            if (E(n), RDF.type, RDFS.Datatype) not in ex.triples and mode != "trim":
                bad.append("ex:%s is not declared as a datatype" % n)
            for i, v in enumerate(lex):
                l = Literal(v, datatype=E(n), normalize=False)
                try:
                    NEW_TYPES[n][0](v)
                    ok = True
                except ValueError:
                    ok = False
                reported = any("'%s'" % v in m and "(%s)" % E(n) in m for m in ex.errors)
                if reported == ok:
                    bad.append("%s is %sreported as ill-typed" % (n3(l), "" if reported else "not "))
                want_errors += not ok
                if not ok:
                    continue
                for d in [E(n)] + sup:
                    if (l, RDF.type, d) not in ex.triples:
                        bad.append("%s is not of type %s" % (n3(l), n3(d)))
                types = {o for o in real_objects(ex, l, RDF.type) if str(o).startswith(str(XSD)) or o in (E("even"), E("four"), E("word"), E("alone"))}
                if types - {E(n)} - set(sup):
                    bad.append("%s is of type %s" % (n3(l), [n3(x) for x in types - {E(n)} - set(sup)]))
                for c, d in ((E("R"), XSD.integer), (E("S"), E("four"))):
                    if ((E("s_%s_%d" % (n, i)), RDF.type, c) in ex.triples) != (d == E(n) or d in sup):
                        bad.append("someValuesFrom %s for the value %s" % (n3(d), n3(l)))
        if len(ex.errors) != want_errors:
            bad.append("%d errors instead of %d: %s" % (len(ex.errors), want_errors, ex.errors))
        if bad:
            return [Violation("types %s %s %s | %s" % (mode, names, key, bad[0][:140]), "user class on %s registering %s\n%s" % (mode, names, "\n".join(bad[:10])))]

    # -------- the typing check of allValuesFrom
    def run_veto(self, stats, mode, chosen):
        tr = T("R owl:allValuesFrom C; R owl:onProperty p; a a R; C rdfs:subClassOf D; S owl:allValuesFrom xsd:decimal; S owl:onProperty q; a q v; a a S; "
               "U owl:allValuesFrom C2; U owl:onProperty p; a a U; X rdfs:subClassOf U; later rdfs:domain X; c later d; c p late")
        tr += [(E("a"), E("p"), v) for v in VETO_VALUES]
        no = {VETO_VALUES[i] for i in chosen}
        asked = set()
        orig = getattr(owlrl, real.MODES[mode]["cls"])

        def check(self, v, t):
            asked.add((v, t))
            return not (v in no and t == E("C")) and orig.restriction_typing_check(self, v, t)
        with real_code(120):
            ex = real.expand(tr, mode, cls=type("User", (orig,), {"restriction_typing_check": check}))
            plain = real.expand([t for t in tr if not (t[1] == E("p") and t[2] in no)], mode)
        stats["impl"] += 2
        stats["states"] += 1
        stats["transitions"] += len(asked)
        bad = []
        want = {(v, t) for v in VETO_VALUES for t in (E("C"), E("C2"))} | {(E("v"), XSD.decimal), (E("late"), E("C2"))}
        if want - asked:
            bad.append("not asked about %s" % show(want - asked))
        for v in VETO_VALUES:
            for t in (E("C"), E("D"), E("C2")):
                if ((v, RDF.type, t) in ex.triples) != (v not in no or t == E("C2")):
                    bad.append("%s is %sof type %s" % (n3(v), "" if (v, RDF.type, t) in ex.triples else "not ", n3(t)))
            n = len([m for m in ex.errors if str(v) in m and str(E("C")) in m])
            if (n > 0) != (v in no):
                bad.append("%d messages about %s" % (n, n3(v)))
        if len(ex.errors) != len(plain.errors) + len(no):
            bad.append("%d messages: %s" % (len(ex.errors), ex.errors[:6]))
        if bad:
            return [Violation("veto %s %s | %s" % (mode, chosen, bad[0][:140]), "user class on %s whose restriction_typing_check rejects %s for C\n%s\ninput:\n%s" % (
                mode, [n3(v) for v in no], "\n".join(bad[:10]), "\n".join(show(tr, 30))))]

    def run_mixin(self, stats, which):
        class Mine(owlrl.OWLRL_Extension):
            def rules(self, t, cycle_num):
                owlrl.OWLRL_Extension.rules(self, t, cycle_num)
                if t[1] == E("p"):
                    self.store_triple((t[0], E("q"), t[2]))
                    self.store_triple((t[0], RDFS.subClassOf, OWL.Thing))

            def one_time_rules(self):
                owlrl.OWLRL_Extension.one_time_rules(self)
                self.store_triple((E("c"), E("p"), E("d")))
        bases = (owlrl.OWLRL_Extension_Trimming, Mine) if which % 2 else (Mine, owlrl.OWLRL_Extension_Trimming)
        cls = type("Both", bases, {})
        g = real.graph_of(T("a p b; q rdfs:range C; C a owl:Class"))
        with real_code(120):
            owlrl.DeductiveClosure(cls, rdfs_closure=which > 1).expand(g)
        stats["impl"] += 1
        stats["states"] += 1
        stats["transitions"] += 1
        bad = ["missing: %s" % show([t]) for t in T("a q b; c q d; b a C; d a C; a p b; c p d") if t not in g]
        bad += ["not trimmed: %s" % show([t]) for t in g if t[1] == OWL.sameAs and t[0] == t[2] or t[1] == RDFS.subClassOf and t[2] == OWL.Thing][:3]
        if bad:
            return [Violation("mixin %d | %s" % (which, bad[0]), "trimming mixed into a user class (%s first, rdfs %s)\n%s" % (
                bases[0].__name__, which > 1, "\n".join(bad)))]


def real_objects(ex, s, p):
    return {o for a, b, o in ex.triples if a == s and b == p}


CHECKS = {"C19": C19, "C20": C20, "C29": C29}
