"""C26 conversion and command line script, C27 owl:imports."""
import contextlib
import io
import itertools
import os
import runpy
import shutil
import sys
import tempfile

from rdflib import Graph

from .. import real
from ..engine import Check, RealError, Violation, real_code, show
from ..gen import E, T
from ..vocab import BNode, Literal, OWL, RDF, RDFS, URIRef, XSD, lit
import owlrl

HOOK = []
OPENED = []


def watch():
    """record the files that are opened (audit hooks stay for the rest of the process)"""
    if not HOOK:
        HOOK.append(1)
        sys.addaudithook(lambda e, a: OPENED.append(str(a[0])) if e == "open" and HOOK[0] and not isinstance(a[0], int) else None)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def write(path, triples, fmt):
    g = Graph()
    for t in triples:
        g.add(t)
    with open(path, "w") as f:
        f.write(g.serialize(format=fmt))


FORMAT = {"ttl": "turtle", "n3": "turtle", "rdf": "xml", "owl": "xml", "xml": "xml", "json": "json-ld", "jsonld": "json-ld", "dat": "xml"}


# ------------------------------------------------------------------------------------------------ C27
class C27(Check):
    id = "C27"
    rule = ("all directed graphs of owl:imports over three documents (512, self-imports and cycles included; thorough: also all 65536 over four documents) from a start document; "
            "document formats by suffix (Turtle, RDF/XML, JSON-LD) and by explicit format; import objects as file IRIs, as string literals and mixed, several spellings of one "
            "document, several import subjects. Result == union of the reachable documents without import statements; the files opened are the reachable ones.")
    technique = "bounded exhaustive enumeration of import graphs; reachability model vs. implementation"
    assumptions = ["documents are read from files (file: IRIs or paths); all imported documents exist and parse"]
    level = "model_checking"

    def cases(self, tier):
        n = 3
        variants = [(("ttl", "rdf", "json"), "auto", "iri"), (("jsonld", "n3", "owl"), "auto", "literal"), (("ttl",) * 3, "turtle", "mixed"),
                    (("dat", "ttl", "dat"), "auto", "mixed"), (("ttl",) * 3, "auto", "two spellings"), (("rdf",) * 3, "xml", "iri"), (("xml",) * 3, "rdfxml", "literal"),
                    (("dat",) * 3, "turtle", "bnode subject"), (("json",) * 3, "json", "iri"), (("dat",) * 3, "json", "literal"), (("ttl", "rdf", "ttl"), "auto", "same name"),
                    (("ttl",) * 3, "auto", "case"), (("ttl",) * 3, "auto", "long names")]
        for v in variants:
            for i in range(0, 512, 64):
                yield "three documents %s" % (v,), (n, list(range(i, i + 64)), v, i % 3)
        if tier != "quick":
            for i in range(0, 65536, 512):
                yield "four documents", (4, list(range(i, i + 512)), (("ttl", "n3", "ttl", "n3"), "auto", "mixed"), 0)
        else:  # chains, cycles and trees of more documents
            for shape in ("chain", "cycle", "star", "tree", "complete"):
                yield shape, (shape, [8], (("ttl",) * 8, "auto", "iri"), 0)

    def edges(self, n, code):
        if n == "chain":
            return [(i, i + 1) for i in range(7)]
        if n == "cycle":
            return [(i, (i + 1) % 8) for i in range(8)]
        if n == "star":
            return [(0, i) for i in range(1, 8)] + [(i, 0) for i in range(1, 8)]
        if n == "tree":
            return [((i - 1) // 2, i) for i in range(1, 8)]
        if n == "complete":
            return [(i, j) for i in range(8) for j in range(8)]
        return [(i, j) for i in range(n) for j in range(n) if code >> (i * n + j) & 1]

    def describe(self, payload):
        n, codes, v, start = payload
        return [str(n), v, "start %s" % start, self.edges(n, codes[0])]

    def run(self, label, payload, stats):
        n, codes, (suffixes, iformat, style), start = payload
        docs = 8 if isinstance(n, str) else n
        watch()
        with scratch() as d:
            paths = ["%s/doc%d.%s" % (d, i, suffixes[i]) for i in range(docs)]
            if style == "same name":  # in different directories
                paths = ["%s/%d/doc.%s" % (d, i, suffixes[i]) for i in range(docs)]
                for i in range(docs):
                    os.mkdir("%s/%d" % (d, i))
            if style == "case":  # names that differ in case, or in the end of a long name
                paths = ["%s/%s.%s" % (d, ("doc", "DOC", "Doc")[i], suffixes[i]) for i in range(docs)]
            if style == "long names":
                paths = ["%s/%s%d.%s" % (d, "o" * 180, i, suffixes[i]) for i in range(docs)]
            for code in codes:
                edges = self.edges(n, code)
                for i in range(docs):
                    tr = T('doc%d p "%d"; all q r; x%d a C; _:b p doc%d' % (i, i, i, i)) if n != 4 else T("doc%d p all; all q r" % i)
                    for k, (a, b) in enumerate(edges):
                        if a == i:
                            tr += self.imports(style, paths[b], i, b)
                    if n == 4:
                        with open(paths[i], "w") as f:
                            f.write("".join("%s %s %s .\n" % tuple(x.n3() for x in t) for t in tr))
                    else:
                        write(paths[i], tr, FORMAT[suffixes[i]] if iformat == "auto" else {"json": "json-ld", "rdfxml": "xml"}.get(iformat, iformat))
                reach, new = set(), {b for a, b in edges if a == start}
                while new:
                    reach |= new
                    new = {b for a, b in edges if a in reach} - reach
                g = Graph()
                g.parse(paths[start], format=FORMAT[suffixes[start]] if iformat == "auto" else {"json": "json-ld", "rdfxml": "xml"}.get(iformat, iformat))
                del OPENED[:]
                with real_code(60):
                    owlrl.interpret_owl_imports(iformat, g)
                opened = {p for p in OPENED if p.startswith(d)} | {p[7:] for p in OPENED if p.startswith("file://" + d)}
                stats["impl"] += 1
                stats["states"] += 1
                stats["transitions"] += len(edges)
                bad = []
                if list(g.triples((None, OWL.imports, None))):
                    bad.append("import statements are left")
                got = {(str(s), str(p), str(o)) for s, p, o in g if not isinstance(s, BNode)}
                want = set()
                for i in reach | {start}:
                    for s, p, o in T('doc%d p "%d"; all q r; x%d a C' % (i, i, i)) if n != 4 else T("doc%d p all; all q r" % i):
                        want.add((str(s), str(p), str(o)))
                if got != want:
                    bad.append("missing: %s, too many: %s" % (sorted(want - got)[:4], sorted(got - want)[:4]))
                if n != 4:
                    about = {str(o) for s, p, o in g if isinstance(s, BNode) and p == E("p")}
                    if about != {str(E("doc%d" % i)) for i in reach | {start}}:
                        bad.append("blank node triples of documents %s" % sorted(about))
                if opened != {paths[i] for i in reach}:
                    bad.append("documents read: %s, reachable: %s" % (sorted(x[len(d) + 1:] for x in opened), sorted(reach)))
                stats.see("results", (frozenset(edges), frozenset(reach)))
                if bad:
                    return [Violation("%s %s %s | %s" % (label, edges, start, bad[0][:200]),
                                      "imports %s of document %d (%s, %s): %s" % (edges, start, iformat, style, "\n".join(bad)))]

    def imports(self, style, path, i, b):
        u, l = URIRef("file://" + path), Literal(path)
        s = E("onto%d" % i)
        if style in ("iri", "same name", "case", "long names"):
            return [(s, OWL.imports, u)]
        if style == "literal":
            return [(s, OWL.imports, l)]
        if style == "mixed":
            return [(s, OWL.imports, u if (i + b) % 2 else l)]
        if style == "two spellings":
            return [(s, OWL.imports, u), (E("other"), OWL.imports, l), (E("third"), OWL.imports, u)]
        return [(BNode(), OWL.imports, u)]


# ------------------------------------------------------------------------------------------------ C26
class Options:
    def __init__(self, **k):
        self.sources, self.text, self.owlClosure, self.rdfsClosure, self.owlExtras = [], None, "no", "no", "no"
        self.axioms, self.daxioms, self.format, self.iformat, self.trimming = "no", "no", "turtle", "auto", "no"
        self.__dict__.update(k)

    def without(self, *names):
        for n in names:
            delattr(self, n)
        return self


SWITCHES = ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms", "trimming")
TRUE = (True, "yes", "Yes", "True", "true")
FALSE = (False, "no", "No", "False", "false", None, "")
PARSE = {"turtle": "turtle", "rdfxml": "xml", "xml": "xml", "json": "json-ld"}

DOC_A = 'C rdfs:subClassOf D; p rdfs:domain C; a p b; p a owl:FunctionalProperty; a p c; a q "1"^^xsd:integer'
DOC_B = 'D owl:disjointWith F; b a F; q rdfs:range xsd:integer; d q "2"; p owl:inverseOf r'
DOC_C = "R owl:hasSelf a; R owl:onProperty s; x a R; D rdfs:label \"d\"@en"
DOC_T = "a a F; F rdfs:subClassOf G; y r z"
DOC_N = "a p _:n; _:n q b; _:n p _:m; p rdfs:range C; p owl:inverseOf _:i"


def closure_of(owl, rdfs, extras, trimming):
    """documented choice of the closure"""
    if owl and extras:
        return owlrl.OWLRL_Extension_Trimming if trimming else owlrl.OWLRL_Extension
    if owl:
        return owlrl.RDFS_OWLRL_Semantics if rdfs else owlrl.OWLRL_Semantics
    return owlrl.RDFS_Semantics if rdfs else None


def merged(parts):
    """(path or text, format) ... -> graph"""
    g = Graph()
    for what, fmt in parts:
        if "\n" in what or " " in what:
            g.parse(data=what, format=fmt)
        else:
            g.parse(what, format=fmt)
    return g


def expansion(g, sw, cls=None):
    owl, rdfs, extras, axioms, daxioms, trimming = sw
    owlrl.DeductiveClosure(cls or closure_of(owl, rdfs, extras, trimming), rdfs_closure=rdfs, axiomatic_triples=axioms, datatype_axioms=daxioms).expand(g)
    return [t for t in g if not isinstance(t[0], Literal) and isinstance(t[1], URIRef)]


def canonical(triples):
    """triples with blank nodes replaced by what is known about them (three rounds)"""
    triples = list(triples)
    name = {x: "_" for t in triples for x in t if isinstance(x, BNode)}
    for _ in range(3):
        about = {b: [] for b in name}
        for t in triples:
            for k in (0, 2):
                if t[k] in about:
                    about[t[k]].append((k,) + tuple(name.get(x) or x.n3() for x in t))
        name = {b: "_:%s" % hash(tuple(sorted(map(str, v)))) for b, v in about.items()}
    out = {}
    for t in triples:
        k = tuple(name.get(x) or x.n3() for x in t)
        out[k] = out.get(k, 0) + 1
    return out


def diff(want, got):
    miss = [" ".join(k) for k in want if want[k] != got.get(k)]
    more = [" ".join(k) for k in got if got[k] != want.get(k)]
    return "missing: %s\nnot expected: %s" % (sorted(miss)[:6], sorted(more)[:6])


class C26(Check):
    id = "C26"
    rule = ("conversion: all 64 combinations of the six switches x 3 output formats (4 spellings) over two documents, Turtle text and imports; each switch x all spellings of yes (5) "
            "and no (7); sources in 4 formats by suffix and by input format, as path, file IRI and standard input, all subsets of sources and text, missing optional attributes, the "
            "same options twice, an explicit closure class. Command line script: all 64 combinations in short and in long spelling, each format option, -m, -f, standard input. "
            "The output, parsed again, equals the expansion (by the documented closure) of the merged input without literal subjects and blank node predicates.")
    technique = "bounded exhaustive enumeration of the option matrix; differential against parse + documented closure + parse of the output"
    assumptions = ["rdflib's parsers and serialisers round-trip the graphs used", "no RDFa parser is installed; web access is not available: files only"]

    def cases(self, tier):
        quick = tier == "quick"
        for sw in itertools.product((False, True), repeat=6):
            yield "matrix", ("matrix", sw, ("turtle", "rdfxml", "xml", "json"))
            yield "script", ("script", sw, "short")
            if not quick or sum(sw) in (0, 1, 3, 5):
                yield "script", ("script", sw, "long")
        for i, s in enumerate(SWITCHES):
            for v in TRUE:
                for others in (False, True) if not quick else (i % 2 == 0,):
                    yield "spelling", ("spelling", i, v, True, others)
            for v in FALSE:
                for others in (False, True) if not quick else (i % 2 == 1,):
                    yield "spelling", ("spelling", i, v, False, others)
        for k in range(1, 16):
            for how in ("path", "iri"):
                yield "sources", ("sources", k, how)
        for fmt in ("turtle", "xml", "rdfxml", "json"):
            yield "input format", ("iformat", fmt)
        for what in ("stdin", "stdin turtle", "stdin rdfxml", "stdin json", "twice", "again", "no iformat", "no trimming", "source", "imports", "no imports", "imports rdfs", "class",
                     "class over switches", "nothing", "blank text", "bnodes", "text and rdf", "many", "same name", "relative"):
            yield what, ("special", what)
        for args in (["-m"], ["--maximal"], ["-f", "@a.ttl"], ["--file=@a.ttl", "@b.rdf"], ["-f", "-"], [], ["-"], ["-o", "xml", "@a.ttl"], ["-s", "json", "@a.ttl"],
                     ["--serialization=turtle", "@a.ttl"], ["--syntax", "xml", "@a.ttl"], ["-i", "turtle", "@a.dat"], ["--input_syntax=json", "@a.dat"], ["-i", "xml", "@a.dat"],
                     ["-i", "auto", "@a.ttl"], ["-i", "xml", "-"], ["-r", "@a.ttl", "@b.rdf", "@c.jsonld"], ["-m", "-o", "json", "@a.ttl"], ["-w", "--owlrl=no", "@a.ttl"],
                     ["--rdfs=no", "-r", "@a.ttl"], ["--trimming=no", "-w", "-e", "@a.ttl"]):
            yield "script arguments", ("args", args)

    def describe(self, payload):
        return repr(payload)

    def run(self, label, payload, stats):
        with scratch() as d:
            with real_code(200):
                bad = list(getattr(self, "do_" + payload[0])(d, stats, *payload[1:]))
        if bad:
            return [Violation("%s | %s" % (payload, bad[0][:200]), "%s: %s" % (payload, "\n".join(bad[:3])))]

    # helpers
    def doc(self, d, text, name):
        path = os.path.join(d, name)
        write(path, T(text), FORMAT[name.split(".")[-1]])
        return path

    def convert(self, options, fmt, want, stats, what="", cls=None, stdin=None):
        old = sys.stdin
        try:
            if stdin is not None:
                sys.stdin = io.StringIO(stdin)
            out = owlrl.convert_graph(options, cls) if cls is not None else owlrl.convert_graph(options)
        finally:
            sys.stdin = old
        return self.judge(out, fmt, want, stats, what)

    def judge(self, out, fmt, want, stats, what):
        stats["impl"] += 1
        stats["states"] += 1
        g = Graph()
        try:
            g.parse(data=out, format=PARSE[fmt])
        except Exception as e:
            return ["%s the output is not %s: %r\n%s" % (what, fmt, e, str(out)[:300])]
        got = canonical(g)
        stats["transitions"] += len(got)
        stats.see("graphs", frozenset(got))
        if got != want:
            return ["%s the output is not the expansion\n%s" % (what, diff(want, got))]
        return []

    def do_matrix(self, d, stats, sw, formats):
        a, b = self.doc(d, DOC_A, "a.ttl"), self.doc(d, DOC_B, "b.rdf")
        text = Graph()
        for t in T(DOC_T):
            text.add(t)
        text = text.serialize(format="turtle")
        want = canonical(expansion(merged([(a, "turtle"), (b, "xml"), (text, "turtle")]), sw))
        for k, f in enumerate(formats):
            if sum(sw[3:5]) and k in (1,):
                continue  # two spellings of RDF/XML: once is enough with axioms
            yes, no = TRUE[(sum(sw) + k) % len(TRUE)], FALSE[(sum(sw) + k) % len(FALSE)]
            o = Options(sources=[a, b], text=text, format=f, **{n: yes if v else no for n, v in zip(SWITCHES, sw)})
            yield from self.convert(o, f, want, stats, f)

    def do_spelling(self, d, stats, i, value, meaning, others):
        a = self.doc(d, DOC_A, "a.ttl")
        sw = [others] * 6
        sw[3] = sw[4] = False
        sw[i] = meaning
        if others and i > 0:
            sw[0] = True
        want = canonical(expansion(merged([(a, "turtle")]), sw))
        o = Options(sources=[a], **dict(zip(SWITCHES, sw)))
        setattr(o, SWITCHES[i], value)
        yield from self.convert(o, "turtle", want, stats, "%s=%r" % (SWITCHES[i], value))

    def do_sources(self, d, stats, k, how):
        docs = [(self.doc(d, DOC_A, "a.ttl"), "turtle"), (self.doc(d, DOC_B, "b.rdf" if how == "path" else "b.owl"), "xml"),
                (self.doc(d, DOC_C, "c.jsonld" if how == "path" else "c.json"), "json-ld"), (self.doc(d, DOC_T, "t.n3"), "turtle")]
        use = [x for j, x in enumerate(docs) if k >> j & 1]
        want = canonical(expansion(merged(use), (False, True, False, False, False, False)))
        o = Options(sources=[p if how == "path" else "file://" + p for p, _f in use], rdfsClosure=True)
        yield from self.convert(o, "turtle", want, stats)
        if k & 1:  # the Turtle document as text
            o = Options(sources=[p for p, _f in use[1:]], text=open(use[0][0]).read(), rdfsClosure=True, format="json")
            yield from self.convert(o, "json", want, stats, "text")

    def do_iformat(self, d, stats, fmt):
        path = os.path.join(d, "doc.html" if fmt == "turtle" else "doc.ttl")
        write(path, T(DOC_B), PARSE[fmt])
        want = canonical(expansion(merged([(path, PARSE[fmt])]), (True, False, False, False, False, False)))
        yield from self.convert(Options(sources=[path], iformat=fmt, owlClosure="yes"), "turtle", want, stats)

    def do_special(self, d, stats, what):
        N = (False,) * 6
        R = (False, True, False, False, False, False)
        W = (True, False, False, False, False, False)
        a = self.doc(d, DOC_A, "a.ttl")
        if what.startswith("stdin"):
            fmt = PARSE[what[6:] or "turtle"]
            g = merged([(a, "turtle")])
            want = canonical(expansion(merged([(a, "turtle")]), R))
            o = Options(sources=["-"], rdfsClosure="yes", iformat=what[6:] or "auto", format="rdfxml")
            yield from self.convert(o, "xml", want, stats, stdin=g.serialize(format=fmt))
        elif what == "twice":
            n = self.doc(d, DOC_N, "n.ttl")
            want = canonical(expansion(merged([(n, "turtle")]), R))
            yield from self.convert(Options(sources=[n, n], rdfsClosure="yes"), "turtle", want, stats)
        elif what == "again":
            o = Options(sources=[a], owlClosure="yes", source=a)
            want = canonical(expansion(merged([(a, "turtle")]), W))
            for i in range(3):
                yield from self.convert(o, "turtle", want, stats, "call %d:" % (i + 1))
        elif what in ("no iformat", "no trimming"):
            want = canonical(expansion(merged([(a, "turtle")]), (True, False, True, False, False, False)))
            o = Options(sources=[a], owlClosure=True, owlExtras=True).without(what[3:])
            yield from self.convert(o, "turtle", want, stats)
        elif what == "source":
            b = self.doc(d, DOC_B, "b.rdf")
            want = canonical(expansion(merged([(a, "turtle"), (b, "xml")]), R))
            yield from self.convert(Options(sources=[a], source=b, rdfsClosure=True), "turtle", want, stats)
            yield from self.convert(Options(sources=[a, b], source=None, rdfsClosure=True), "turtle", want, stats)
        elif "imports" in what:
            b = self.doc(d, DOC_B, "b.rdf")
            c = self.doc(d, DOC_C, "c.ttl")
            with open(b, "w") as f:
                g = Graph()
                for t in T(DOC_B) + [(E("o2"), OWL.imports, URIRef("file://" + c))]:
                    g.add(t)
                f.write(g.serialize(format="xml"))
            imp = os.path.join(d, "imp.ttl")
            write(imp, T(DOC_A) + [(E("o1"), OWL.imports, URIRef("file://" + b))], "turtle")
            if what == "imports":
                want = canonical(expansion(merged([(a, "turtle"), (b, "xml"), (c, "turtle")]).remove((None, OWL.imports, None)), W))
                yield from self.convert(Options(sources=[imp], owlClosure="yes"), "turtle", want, stats)
                yield from self.convert(Options(sources=[], text=open(imp).read(), owlClosure="yes"), "turtle", want, stats)
            else:
                sw = N if what == "no imports" else R
                want = canonical(expansion(merged([(imp, "turtle")]), sw))
                yield from self.convert(Options(sources=[imp], rdfsClosure=sw[1]), "turtle", want, stats)
        elif what.startswith("class"):
            class Own(owlrl.RDFS_Semantics):
                def rules(self, t, cycle_num):
                    owlrl.RDFS_Semantics.rules(self, t, cycle_num)
                    if t[1] == E("p"):
                        self.store_triple((t[2], E("own"), t[0]))
            sw = N if what == "class" else W
            for cls in (Own, owlrl.OWLRL_Semantics, owlrl.RDFS_Semantics):
                want = canonical(expansion(merged([(a, "turtle")]), sw, cls))
                yield from self.convert(Options(sources=[a], owlClosure=sw[0]), "turtle", want, stats, cls.__name__, cls)
        elif what in ("nothing", "blank text"):
            stats["impl"] += 1
            try:
                owlrl.convert_graph(Options(text=None if what == "nothing" else " \n "))
            except Exception:
                return
            yield "no input, but no error"
        elif what == "bnodes":
            n = self.doc(d, DOC_N, "n.ttl")
            for sw in (N, R, W, (True, True, False, False, False, False), (True, True, True, False, False, True)):
                want = canonical(expansion(merged([(n, "turtle")]), sw))
                for f in ("turtle", "xml", "json"):
                    yield from self.convert(Options(sources=[n], format=f, **dict(zip(SWITCHES, sw))), f, want, stats, "%s %s" % (sw, f))
        elif what == "text and rdf":
            b = self.doc(d, DOC_B, "b.rdf")
            want = canonical(expansion(merged([(a, "turtle"), (b, "xml")]), W))
            yield from self.convert(Options(sources=[b], iformat="xml", text=open(a).read(), owlClosure="yes"), "turtle", want, stats)
        elif what == "same name":  # in different directories, and names that differ in case only
            parts = []
            for i, n in enumerate(("x/doc.ttl", "y/doc.ttl", "x/Doc.ttl", "y/x/doc.ttl", "x/doc.n3")):
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                parts.append((self.doc(d, (DOC_A, DOC_B, DOC_C, DOC_T, DOC_N)[i], n), FORMAT[n.split(".")[-1]]))
            for use in (parts, parts[:2], parts[1:4]):
                want = canonical(expansion(merged(use), R))
                yield from self.convert(Options(sources=[p for p, _f in use], rdfsClosure="yes"), "turtle", want, stats)
        elif what == "relative":
            b = self.doc(d, DOC_B, "b.rdf")
            want = canonical(expansion(merged([(a, "turtle"), (b, "xml")]), R))
            old = os.getcwd()
            os.chdir(d)
            try:
                yield from self.convert(Options(sources=["a.ttl", "./b.rdf"], rdfsClosure="yes"), "turtle", want, stats)
            finally:
                os.chdir(old)
        elif what == "many":
            parts = []
            for i in range(12):
                parts.append((self.doc(d, "c%d rdfs:subClassOf c%d; i%d a c%d" % (i, i + 1, i, i), "m%d.ttl" % i), "turtle"))
            want = canonical(expansion(merged(parts), R))
            yield from self.convert(Options(sources=[p for p, _f in parts], rdfsClosure="yes"), "turtle", want, stats)

    # the script
    def script(self, args, stdin=""):
        out = io.StringIO()
        old = sys.argv, sys.stdin
        try:
            sys.argv, sys.stdin = ["owlrl"] + args, io.StringIO(stdin)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    runpy.run_path(os.path.join(real.REPO, "scripts", "owlrl"), run_name="__main__")
                except SystemExit as e:
                    if e.code not in (0, None):
                        raise RuntimeError("the script exits with %s: %s" % (e.code, out.getvalue()[-300:]))
        finally:
            sys.argv, sys.stdin = old
        return out.getvalue()

    LONG = ("--owlrl", "--rdfs", "--extras", "--axioms", "--daxioms", "--trimming")
    SHORT = ("-w", "-r", "-e", "-a", "-d", "-t")

    def do_script(self, d, stats, sw, how):
        a, b = self.doc(d, DOC_A, "a.ttl"), self.doc(d, DOC_B, "b.rdf")
        want = canonical(expansion(merged([(a, "turtle"), (b, "xml")]), sw))
        if how == "short":
            args = [x for x, v in zip(self.SHORT, sw) if v]
        else:
            args = ["%s=%s" % (x, "yes" if v else "no") for x, v in zip(self.LONG, sw)]
        fmt = ("turtle", "xml", "json")[sum(v << k for k, v in enumerate(sw)) % 3]
        yield from self.judge(self.script(args + ["-o", fmt, a, b]), fmt, want, stats, str(args))

    def do_args(self, d, stats, args):
        a, b, c = self.doc(d, DOC_A, "a.ttl"), self.doc(d, DOC_B, "b.rdf"), self.doc(d, DOC_C, "c.jsonld")
        text = " ".join(args)
        ifmt = "json" if "json" in text and "@a.dat" in args else "xml" if "@a.dat" in args and "xml" in text or args == ["-i", "xml", "-"] else "turtle"
        if "@a.dat" in args:
            write(os.path.join(d, "a.dat"), T(DOC_A), PARSE[ifmt])
        used = [x for x in (a, b, c) if "@" + os.path.basename(x) in text]
        stdin = ""
        parts = [(x, FORMAT[x.split(".")[-1]]) for x in used]
        if not used:
            g = merged([(a, "turtle")])
            parts = [(a, "turtle")]
            stdin = g.serialize(format=PARSE[ifmt])
            if "@a.dat" in args:
                stdin = ""
        sw = [False] * 6
        if "-m" in args or "--maximal" in args:
            sw = [True, True, True, False, False, True]
        if "-r" in args:
            sw[1] = True
        if "-w" in args and "--owlrl=no" not in args:
            sw[0] = True
        if "-e" in args:
            sw[2] = True
        fmt = "xml" if "-o xml" in text or "--syntax xml" in text else "json" if "-s json" in text or "-o json" in text else "turtle"
        want = canonical(expansion(merged(parts), sw))
        yield from self.judge(self.script([x.replace("@", d + "/") for x in args], stdin), fmt, want, stats, text)


CHECKS = {"C26": C26, "C27": C27}
