"""property id -> check"""
import importlib

MODULES = {
    "closure": "C01 C02 C03 C04 C05 C06 C07 C10 C11",
    "mixed": "C12 C13 C23",
    "whole": "C14 C15 C16 C17 C18",
    "lexical": "C08 C09",
    "facets": "C21 C22", "system": "C24 C25", "files": "C26 C27", "service": "C30", "robust": "C28",
    "histories": "C19 C20 C29",
}


def get(prop):
    for m, ids in MODULES.items():
        if prop in ids.split():
            return importlib.import_module("mc.checks." + m).CHECKS[prop]()
    raise SystemExit("no check for %s" % prop)
