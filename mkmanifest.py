#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json, os
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
NA = {
    "C27": "The Rust crate cannot be compiled here: its dependencies (enum-map, thiserror, ...) are not in the offline cargo cache, so neither Kani nor a MIR dump can be produced from the current source.",
}
CPP = {"C23", "C24", "C25", "C26", "C28"}
NOTE = "Bounded: the solver covers every value of the symbolic inputs within the bounds in the evidence file and DESIGN.md; nothing is claimed outside them. Trusts z3, the symbolic proxies in bbv/ and the harness oracle; every counterexample is replayed on the unpatched code before it is reported."
checks, na = [], []
for i in ids:
    if os.path.exists("props/%s.py" % i.lower()) and i not in NA:
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
            thorough_cmd="./check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the real code (%s) with SMT (z3), counterexamples replayed" % ("LLVM IR of the C++ sources" if i in CPP else "the Python source"),
            level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && test -x /opt/venv/bin/python",
    checks=checks, not_applicable=na,
    notes="No hooks are needed in /repo. See DESIGN.md."), open("MANIFEST.json", "w"), indent=1)
