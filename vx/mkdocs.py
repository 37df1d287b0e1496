#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vx/props.py and vx/registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from registry import CHECKS
import registry
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        f.write(json.dumps({a: b for a, b in P[k].items() if a != "note"}, ensure_ascii=False) + "\n")
checks = []
for k in sorted(CHECKS):
    assert k in P, k
    c = CHECKS[k]
    note = "Verus discharges every obligation of the extracted functions for all inputs, no bound; " \
           "extraction from /repo is mechanical and redone on every run. Trusted: Verus and Z3, the std contracts listed in the evidence, " \
           "the extraction rewrites listed there. A bounded run of the real code against an executable specification accompanies it and stands in, labelled, where a function cannot be brought under proof."
    if c["level"] != "proof":
        note = c["level_note"]
    if P[k]["note"]:
        note += " " + P[k]["note"]
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py " + k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": c.get("technique", "contract-based deductive verification of extracted Rust (Verus); bounded replay on the real code"),
        "level": c["level"], "level_note": note,
    })
na = [{"property": k, "reason": registry.NOT_APPLICABLE.get(k, "not claimed")} for k in sorted(P) if k not in CHECKS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's sources and link its crates as they are", "source_commits": []},
     "notes": "check.py regenerates the Verus units from /repo on every run; see DESIGN.md"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")


def inject(text, mark, body):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]


import re
rows = ["Functions under contract (extracted from /repo on every run):", ""]
total = set()
for k in sorted(CHECKS):
    fns = []
    todo = [u + ".vu" for u in CHECKS[k]["units"]]
    while todo:
        t = open(os.path.join(HERE, "units", todo.pop(0))).read()
        fns += re.findall(r"^//@fn (.+?) from (\S+)", t, re.M)
        todo += re.findall(r"^//@include (\S+)", t, re.M)
    total |= set(fns)
    by = {}
    for f, p in fns:
        by.setdefault(p, []).append("`%s`" % f)
    rows.append("* %s (%s): " % (k, P[k]["title"]) + "; ".join("%s: %s" % (p, ", ".join(v)) for p, v in by.items()))
rows.append("")
rows.append("%d functions in all." % len(total))
p = os.path.join(HERE, "DESIGN.md")
t = inject(open(p).read(), "functions", "\n".join(rows) + "\n")
seeds = ["| change | property | needs | caught |", "|---|---|---|---|"]
try:
    caught = json.load(open(os.path.join(HERE, "vx", "caught.json")))
except OSError:
    caught = {}
sd = os.path.join(HERE, "seeded")
if os.path.isdir(sd):
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, "not run")))
    t = inject(t, "seeds", "\n".join(seeds) + "\n")
open(p, "w").write(t)
