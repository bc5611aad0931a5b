"""mkseed(id, prop, [(file, old, new)], demo_python, needs, breaks)"""
import json, os, shutil, subprocess, tempfile
def mkseed(id, prop, edits, demo, needs, breaks):
    d = os.environ.get("SEEDS","/verif/seeded")+"/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p, encoding="utf-8", newline="").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
            open(p, "w", encoding="utf-8", newline="").write(s)
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
PRE = '''
from rdflib import *
from rdflib.namespace import *
from rdflib.collection import Collection
import owlrl
EX = Namespace("http://ex.org/")
def expand(g, cls=None, **kw):
    owlrl.DeductiveClosure(cls or owlrl.OWLRL_Semantics, **kw).expand(g)
    return g
def lst(g, *ms):
    h = BNode(); Collection(g, h, list(ms)); return h
'''
