"""C30 the CGI service."""
import contextlib
import io
import itertools
import os
import re
import runpy
import subprocess
import sys
import urllib.parse
import warnings

from .. import real
from ..engine import Check, Violation, real_code
from ..gen import E, T
from ..vocab import OWL, URIRef
from .files import C26, DOC_A, DOC_B, DOC_C, DOC_N, DOC_T, canonical, expansion, merged, scratch, write
from rdflib import Graph

SWITCHES = ("owlClosure", "rdfsClosure", "owlExtras", "axioms", "daxioms")
TYPES = {"turtle": "text/turtle", "xml": "application/rdf+xml", "json": "application/ld+json"}
FIELDS = ("source_1", "source_2", "uri", "source", "text")
MARK = "<zqtag qz='1'>\"&amp;"


class C30(Check):
    id = "C30"
    rule = ("all 32 combinations of the closure and axiom fields x 4 spellings of the output format, with and without fullClosure; each field x all values; all subsets of the 5 input fields, "
            "input formats, as GET and as POST requests; requests without input, with a missing document or with documents that do not parse, and every field holding markup. The reply is the "
            "expansion of the merged input, in the format asked for and declared as such, or an error page with status 400 that shows the input escaped.")
    technique = "bounded exhaustive enumeration of requests (the script runs in-process, some requests as a process of their own); differential against parse + documented closure + parse of the reply"
    assumptions = ["Python's cgi module parses the request", "web access is not available: the sources are files"]
    judge = C26.judge
    doc = C26.doc

    def cases(self, tier):
        quick = tier == "quick"
        for sw in itertools.product((False, True), repeat=5):
            for k, f in enumerate((None, "turtle", "xml", "json", "rdfxml", "other")):
                if not quick or k < 4 and (k == sum(sw) % 4 or not any(sw[3:])) or k >= 4 and sum(sw) == 1:
                    yield "switches", ("switches", sw, f, None)
            if sum(sw) in (0, 1, 5):
                yield "full closure", ("switches", sw, None, "yes")
                yield "full closure", ("switches", sw, None, "no")
        for i in range(5):
            for v in ("Yes", "true", "True", "no", "maybe", "0", "1"):
                yield "values", ("values", i, v)
        for k in range(1, 32):
            for method in ("GET", "POST"):
                if not quick or k % 2 == (method == "GET"):
                    yield "inputs", ("inputs", k, method)
        for what in ("xml", "turtle", "auto", "json", "rdfxml", "nonsense"):
            yield "input format", ("iformat", what)
        for what in ("imports", "no imports", "bnodes", "blank text", "unicode"):
            yield what, ("special", what)
        for what in ("nothing", "missing", "broken text", "broken file", "wrong format", "markup"):
            for method in ("GET", "POST"):
                yield "errors", ("errors", what, method)
        for what in ("fine", "broken"):
            yield "process", ("process", what)

    def describe(self, payload):
        return repr(payload)

    def run(self, label, payload, stats):
        with scratch() as d:
            with real_code(200):
                bad = list(getattr(self, "do_" + payload[0])(d, stats, *payload[1:]))
        if bad:
            return [Violation("%s | %s" % (payload, bad[0][:200]), "%s: %s" % (payload, "\n".join(bad[:3])))]

    # ---------------------------------------------------------------------------------------- requests
    def environment(self, fields, method):
        query = urllib.parse.urlencode(fields)
        env = {"REQUEST_METHOD": method, "GATEWAY_INTERFACE": "CGI/1.1", "QUERY_STRING": query if method == "GET" else ""}
        if method == "POST":
            env.update(CONTENT_TYPE="application/x-www-form-urlencoded", CONTENT_LENGTH=str(len(query.encode())))
        return env, query.encode() if method == "POST" else b""

    def request(self, fields, method="GET"):
        env, data = self.environment(fields, method)
        script = os.path.join(real.REPO, "scripts", "RDFConvertService")
        old = os.environ.copy(), sys.argv, sys.stdin, list(sys.path), sys.excepthook
        out = io.StringIO()
        try:
            os.environ.update(env)
            sys.argv, sys.stdin = [script], io.TextIOWrapper(io.BytesIO(data))
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_path(script, run_name="__main__")
        finally:
            os.environ.clear()
            os.environ.update(old[0])
            sys.argv, sys.stdin, sys.path[:], sys.excepthook = old[1:]
        return out.getvalue()

    def reply(self, out):
        head, _, body = out.replace("\r\n", "\n").partition("\n\n")
        headers = {}
        for l in head.split("\n"):
            k, _, v = l.partition(":")
            headers[k.strip().lower()] = v.strip()
        return headers, body

    def fine(self, out, fmt, want, stats, what):
        headers, body = self.reply(out)
        bad = []
        if not headers.get("status", "200").startswith("200"):
            return ["%s status %s: %s" % (what, headers["status"], re.sub(r"\s+", " ", body)[:300])]
        if headers.get("content-type", "").split(";")[0].strip() != TYPES[fmt]:
            bad.append("%s the reply is declared as %s, not as %s" % (what, headers.get("content-type"), TYPES[fmt]))
        return bad + self.judge(body, fmt, want, stats, what)

    def error(self, out, stats, what, shown=(), raw=()):
        stats["impl"] += 1
        stats["states"] += 1
        headers, body = self.reply(out)
        stats["transitions"] += len(headers)
        if not headers.get("status", "200").startswith("400"):
            return ["%s no error is reported: %s %s" % (what, headers, body[:200])]
        bad = []
        if not headers.get("content-type", "").startswith("text/html"):
            bad.append("%s the error page is declared as %s" % (what, headers.get("content-type")))
        if "</html>" not in body:
            bad.append("%s the error page is incomplete" % what)
        bad += ["%s the error page does not show %r" % (what, x) for x in shown if x not in body]
        bad += ["%s the error page contains %r" % (what, x) for x in raw if x in body]
        return bad

    # ---------------------------------------------------------------------------------------- cases
    def do_switches(self, d, stats, sw, fmt, full):
        a, b = self.doc(d, DOC_A, "a.ttl"), self.doc(d, DOC_B, "b.rdf")
        eff = (True, True, False, False, False) if full == "yes" else sw
        want = canonical(expansion(merged([(a, "turtle"), (b, "xml")]), eff + (False,)))
        fields = [("source_1", a), ("source_2", b)] + [(n, "yes" if v else "no") for n, v in zip(SWITCHES, sw) if v or sum(sw) % 2]
        if fmt:
            fields.append(("format", fmt))
        if full:
            fields.insert(0, ("fullClosure", full))
        fmt = {None: "turtle", "rdfxml": "xml", "other": "turtle"}.get(fmt, fmt)
        yield from self.fine(self.request(fields), fmt, want, stats, str(fields))

    def do_values(self, d, stats, i, value):
        a = self.doc(d, DOC_A, "a.ttl")
        sw = [i in (2, 3, 4), False, False, False, False, False]
        sw[i] = value in ("Yes", "true", "True")
        fields = [("uri", a)] + [("owlClosure", "yes")] * (i in (2, 3, 4)) + [(SWITCHES[i], value)]
        want = canonical(expansion(merged([(a, "turtle")]), sw))
        yield from self.fine(self.request(fields), "turtle", want, stats, str(fields))

    def do_inputs(self, d, stats, k, method):
        docs = [(self.doc(d, DOC_A, "a.ttl"), "turtle"), (self.doc(d, DOC_B, "b.rdf"), "xml"), (self.doc(d, DOC_C, "c.jsonld"), "json-ld"), (self.doc(d, DOC_T, "t.n3"), "turtle"),
                (self.doc(d, "t p u; u q w; C rdfs:subClassOf H", "text.ttl"), "turtle")]
        use = [(f, x) for j, (f, x) in enumerate(zip(FIELDS, docs)) if k >> j & 1]
        want = canonical(expansion(merged([x for _f, x in use]), (False, True, False, False, False, False)))
        fields = [("rdfsClosure", "yes")] + [(f, open(p).read() if f == "text" else p) for f, (p, _fmt) in use]
        yield from self.fine(self.request(fields, method), "turtle", want, stats, "%s %s" % (method, [f for f, _x in fields]))

    def do_iformat(self, d, stats, what):
        fmt = "turtle" if what == "turtle" else "xml"
        path = os.path.join(d, "doc.html" if what == "turtle" else "doc.ttl" if what == "xml" else "doc.dat")
        write(path, T(DOC_B), fmt)
        want = canonical(expansion(merged([(path, fmt)]), (True, False, False, False, False, False)))
        yield from self.fine(self.request([("source", path), ("iformat", what), ("owlClosure", "yes")]), "turtle", want, stats, what)

    def do_special(self, d, stats, what):
        a, c = self.doc(d, DOC_A, "a.ttl"), self.doc(d, DOC_C, "c.ttl")
        if "imports" in what:
            imp = os.path.join(d, "imp.ttl")
            write(imp, T(DOC_A) + [(E("o1"), OWL.imports, URIRef("file://" + c))], "turtle")
            if what == "imports":
                want = canonical(expansion(merged([(a, "turtle"), (c, "turtle")]), (True, True, False, False, False, False)))
                yield from self.fine(self.request([("fullClosure", "yes"), ("text", open(imp).read())]), "turtle", want, stats, what)
            else:
                want = canonical(expansion(merged([(imp, "turtle")]), (False, True, False, False, False, False)))
                yield from self.fine(self.request([("rdfsClosure", "yes"), ("source", imp)]), "turtle", want, stats, what)
        elif what == "bnodes":
            n = self.doc(d, DOC_N, "n.ttl")
            want = canonical(expansion(merged([(n, "turtle")]), (True, True, False, False, False, False)))
            for f in ("turtle", "xml", "json"):
                yield from self.fine(self.request([("fullClosure", "yes"), ("source", n), ("format", f)]), f, want, stats, f)
        elif what == "blank text":
            want = canonical(merged([(a, "turtle")]))
            yield from self.fine(self.request([("source", a), ("text", " \n ")]), "turtle", want, stats, what)
        else:
            text = '<http://ex.org/\u4e2d> <http://ex.org/p> "\u00e9 \U0001F600 & + % =\\n;"@fr .'
            want = canonical(merged([(text, "turtle")]))
            for method in ("GET", "POST"):
                for f in ("turtle", "xml", "json"):
                    yield from self.fine(self.request([("text", text), ("format", f)], method), f, want, stats, "%s %s" % (method, f))

    def do_errors(self, d, stats, what, method):
        good = self.doc(d, DOC_A, "a.ttl")
        path = os.path.join(d, "zqfileqz.ttl")
        if what == "nothing":
            for fields in ([], [("text", "  ")], [("owlClosure", "yes"), ("format", "xml")]):
                yield from self.error(self.request(fields, method), stats, str(fields))
        elif what == "missing":
            yield from self.error(self.request([("source", path)], method), stats, what, [path])
            yield from self.error(self.request([("source_1", good), ("source_2", path), ("format", "json")], method), stats, what, [path, good])
        elif what == "broken text":
            yield from self.error(self.request([("text", "zqtextqz zqtextqz")], method), stats, what, ["zqtextqz zqtextqz"])
        elif what == "broken file":
            with open(path, "w") as f:
                f.write("zqtextqz zqtextqz")
            yield from self.error(self.request([("source", path), ("owlClosure", "yes")], method), stats, what, [path])
            yield from self.error(self.request([("source", path), ("source_1", good), ("uri", good), ("text", "<a> <b> <c> .")], method), stats, what, [good])
        elif what == "wrong format":
            yield from self.error(self.request([("source", good), ("iformat", "xml")], method), stats, what, [good])
        else:
            for f in FIELDS:
                yield from self.error(self.request([(f, "zq" + MARK)], method), stats, f, ["zq&lt;zqtag"], ["<zqtag"])
            for f in SWITCHES + ("format", "iformat", "fullClosure"):
                yield from self.error(self.request([(f, MARK), ("source", path)], method), stats, f, [path], ["<zqtag"])
            for f in SWITCHES + ("format", "iformat"):
                yield from self.error(self.request([(f, MARK), ("text", "zqtextqz")], method), stats, f, [], ["<zqtag"])

    def do_process(self, d, stats, what):
        a = self.doc(d, DOC_A, "a.ttl")
        text = "<http://ex.org/a> <http://ex.org/q> \"\u00e9\" ." if what == "fine" else "\u00e9 \u00e9"
        for method in ("GET", "POST"):
            env, data = self.environment([("fullClosure", "yes"), ("source", a), ("text", text), ("format", "xml")], method)
            p = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(real.REPO, "scripts", "RDFConvertService")], input=data, capture_output=True,
                               env=dict(os.environ, PYTHONPATH=real.REPO, **env), cwd=d)
            out = p.stdout.decode()
            if what == "fine":
                want = canonical(expansion(merged([(a, "turtle"), (text, "turtle")]), (True, True, False, False, False, False)))
                yield from self.fine(out, "xml", want, stats, method)
            else:
                yield from self.error(out, stats, method, ["\u00e9 \u00e9", a])


CHECKS = {"C30": C30}
