#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C27": "the unit packages the code depends on (unyt, swiftsimio) are not installed here and the result is an expression of those packages: no contract on the repository's own functions can express the property without modelling them, and neither the code nor its result can be run",
 "C28": "the wrapper is generated Fortran around the HDF5 Fortran API: no deductive verifier for Fortran is installed and its behaviour is that of the HDF5 library calls it makes",
}
try: LEVELS = json.load(open(os.path.join(HERE, "tools", "levels.json")))
except OSError: LEVELS = {}
checks = []
for i in range(1, 27):
    p = "C%02d" % i
    if p in NA: continue
    l = LEVELS.get(p, {})
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
        technique=l.get("technique", "run time evaluation of the contracts on the real code (bounded stand-in)"),
        level=l.get("level", "exploration"), level_note=l.get("note", "bounded: contracts evaluated on generated inputs on the real code")))
m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks: the contracts are kept beside the code (prover/contracts) and applied to the syntax tree of /repo's files on every run.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
