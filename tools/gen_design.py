#!/usr/bin/env python3
"""Writes the per-property part of /verif/DESIGN.md (between the two markers) from properties.jsonl, the check classes, WHY below, the last
evidence files and tools/catches.json."""
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from mc import registry  # noqa: E402

WHY = {
    "C01": "A test states a triple that should appear; soundness is about all triples that must not. The near-miss enumeration visits, for each rule, every graph that is one damage away from its premises.",
    "C02": "Equality interacts with every rule and with itself; each position, coincidence of terms and derivation order is a separate code path (`_owl_eq*`, dispatch on the predicate).",
    "C03": "Premises can be derived in a later round, by any of the other rules, and chains and keys have any length; tests use one length with asserted premises.",
    "C04": "As C03; in addition every list position is a loop boundary.",
    "C05": "As C03; hierarchies contain cycles and reflexive cases no test has.",
    "C06": "17 rules conclude `false`, most without a test; the position of the clash in a list, and whether it is asserted or derived, matter.",
    "C07": "False alarms need consistent graphs that nearly clash: these are enumerated, a test samples none.",
    "C08": "Lexical spaces are infinite languages; all strings up to a length over the relevant characters find missing anchors, wrong character classes and ranges.",
    "C09": "As C08, values instead of acceptance; order and equality are relations over all pairs.",
    "C10": "All datatypes, all pairs; each may come in by a literal, by a type statement or by inference.",
    "C11": "Equality with the least fixpoint in both directions, for derivations of any number of rounds and over the vocabulary itself.",
    "C12": "An equivalence over all pairs of literals.",
    "C13": "Interactions between two rule sets: a premise of one derived by the other.",
    "C14": "Option matrix x presence and absence of several hundred triples.",
    "C15": "A relation between the expansions of two different graphs, over all covering pairs of the subset lattice.",
    "C16": "A property of histories of expansions.",
    "C17": "A property of schedules: the order in which the store and Python enumerate triples, which a test does not control. The checks do (an instrumented store is the scheduler; every choice point is flipped).",
    "C18": "A relation between two runs, over all renamings.",
    "C19": "A property of operation histories over global tables; the reachable states of these tables are explored breadth first.",
    "C20": "A property of fault points: each store access of an expansion is made the failing one.",
    "C21": "Facets x literals x closure; tests have no facet at all.",
    "C22": "All combinations and orders of facets and all tags against all ranges, up to a length.",
    "C23": "As C03/C04 for the extension, plus all strings for owl:rational.",
    "C24": "The complete difference between two expansions is judged, for graphs around each documented kind and its near misses.",
    "C25": "All distributions of triples over graphs, all ways to name a destination.",
    "C26": "The complete option matrix of the library call and of the script.",
    "C27": "All import graphs up to a size.",
    "C28": "All odd terms and list shapes in all positions of all constructs.",
    "C29": "User rules may feed and be fed by every built-in rule; call orders and subsets of hooks are enumerated.",
    "C30": "The option matrix of requests, and escaping in each field.",
}
props = [json.loads(x) for x in open("properties.jsonl")]
catches = json.load(open("tools/catches.json")) if os.path.exists("tools/catches.json") else {}
out = []
for p in props:
    i = p["id"]
    c = registry.get(i)
    out.append("### %s — %s\n" % (i, p["title"]))
    w = lambda label, text: out.append(textwrap.fill("* **%s**: %s" % (label, text), 118, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False))  # noqa: E731
    w("Technique", c.technique + ".")
    w("Enumerated, and oracle", c.rule)
    w("Assumptions", "; ".join(c.assumptions) + ".")
    w("Beyond the tests", WHY[i])
    s = [k for k, v in sorted(catches.items()) if i in v["caught"]]
    if s:
        w("Planted bugs it catches", ", ".join("`%s`" % x for x in s) + ".")
    out.append("")
a, b = "<!-- properties -->\n", "<!-- end of properties -->"
d = open("DESIGN.md").read()
d = d[:d.index(a) + len(a)] + "\n" + "\n".join(out) + d[d.index(b):]
open("DESIGN.md", "w").write(d)
