"""The axiomatic triples (axioms.txt)."""
import os

from .vocab import iri

_tables = {}


def _load():
    cur = None
    for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "axioms.txt"), encoding="utf-8"):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if line.startswith("["):
            cur = _tables.setdefault(line[1:-1], [])
        else:
            cur.append(tuple(iri(x) for x in line.split()))


def axioms(*names):
    if not _tables:
        _load()
    return [t for n in names for t in _tables[n]]
