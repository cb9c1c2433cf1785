#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rule modules present."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NA = {
    "N01": "convergence quantifies over real-valued flows and refinements; no static argument bounds discretisation error",
    "N02": "overflow depends on the runtime values of two timescales (user input); no static range bounds them and the code has no check to verify",
    "N03": "accuracy of the fast summation is a numerical bound over all particle distributions, not a property of program text",
    "N04": "correct connection of line pieces is a functional property of runtime sign patterns; deciding it needs execution or a solver",
    "C24": "what makes a byte sequence malformed is defined only by the readers themselves, and that two of them (particle lists, text and binary) stop silently at the first bad record is pinned by the repository's own tests, so the statement has "
           "no independent oracle in the source; the parts that have one are decided elsewhere: failing HDF5 reads (C03), record layouts (C05), scan widths and terminators (C22), series shapes (C06, C26), command lines (C25)",
    "C27": "whether a list is empty where an element is taken depends on invariants between lists that scripts set up at run time (bodies, their segments, tree ranges, matrix rows); no dataflow in reach proves them without an invariant for each "
           "container, and reporting every unproved access would alarm on correct code; positions given by scripts are decided in C31, rows of data sets in C26, matrix sizes in C17",
    "C29": "objects are handed to scripts as raw pointers whose lifetime is decided by the garbage collector and the script's own history, a runtime quantity; of the rest, identifiers and buffers released on every exit are decided in C04 and C22, "
           "script objects and their native types in C31",
    "N05": "numerical statistics of interpreted awk programs; no static rule expresses their correctness",
}
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = VERIF + "/engine/rules/%s.py" % i.lower()
    if os.path.exists(f):
        src = open(f).read()
        doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
        tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M).group(1)
        note = re.search(r'^NOTE = """(.*?)"""', src, re.M | re.S).group(1)
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other", "level_note": " ".join(note.split())})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it")})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: clang AST/CFG facts of every translation unit are extracted from /repo's working tree on every run "
              "(cached per content), rules are decided on a value-numbered supergraph. No hooks in /repo. See DESIGN.md."}
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
