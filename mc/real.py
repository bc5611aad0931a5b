"""The implementation side: everything here goes through owlrl's public API."""
import contextlib
import io
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from .vocab import ERR_MSG_CLASS, ERR_MSG_PROP, RDF  # noqa: E402
from rdflib import Graph, Literal  # noqa: E402
import owlrl  # noqa: E402

if not os.path.abspath(owlrl.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.exit("owlrl is not imported from %s" % REPO)

MODES = {
    "rdfs": dict(cls="RDFS_Semantics"),
    "owl": dict(cls="OWLRL_Semantics"),
    "both": dict(cls="RDFS_OWLRL_Semantics"),
    "ext": dict(cls="OWLRL_Extension"),
    "extr": dict(cls="OWLRL_Extension", rdfs_closure=True),
    "trim": dict(cls="OWLRL_Extension_Trimming"),
    "trimr": dict(cls="OWLRL_Extension_Trimming", rdfs_closure=True),
}


def closure_class(mode):
    return getattr(owlrl, MODES[mode]["cls"])


def deductive(mode, axioms=False, daxioms=False, cls=None):
    return owlrl.DeductiveClosure(cls or closure_class(mode), rdfs_closure=MODES[mode].get("rdfs_closure", False),
                                  axiomatic_triples=axioms, datatype_axioms=daxioms)


def graph_of(triples, graph=None):
    g = Graph() if graph is None else graph
    for t in triples:
        g.add(t)
    return g


class Expanded:
    """An expanded graph, split into triples and error messages."""
    __slots__ = ("triples", "errors", "error_nodes", "malformed")

    def __init__(self, triples):
        nodes = {}
        for s, p, o in triples:
            if p == RDF.type and o == ERR_MSG_CLASS:
                nodes.setdefault(s, [])
        rest = set()
        for t in triples:
            s, p, o = t
            if s in nodes and p == ERR_MSG_PROP:
                nodes[s].append(str(o))
            elif s in nodes and p == RDF.type and o == ERR_MSG_CLASS:
                pass
            else:
                rest.add(t)
        self.triples = rest
        self.errors = sorted(m for ms in nodes.values() for m in ms)
        self.error_nodes = len(nodes)
        self.malformed = any(len(ms) != 1 for ms in nodes.values())


def expand(triples, mode, axioms=False, daxioms=False, cls=None):
    g = graph_of(triples)
    with contextlib.redirect_stdout(io.StringIO()):
        deductive(mode, axioms, daxioms, cls).expand(g)
    return Expanded(set(g))
