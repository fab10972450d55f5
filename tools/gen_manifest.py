#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {}


def c(p, technique, level, note, thorough=True):
    CL[p] = (technique, level, note)


c("P02", "call-graph cycle detection on resolved MIR", "other",
  "Every cycle of the resolved call graph that contains library code is reported unless bounded by construction; calls through the caller's own types are outside. Two recursive grammar rules are listed findings.")
c("P04", "effect analysis on the resolved call graph, field types and statics", "other",
  "Table of effectful library items, matched against every leaf reachable from the public API; std internals below a leaf are trusted.")
c("P05", "MIR equality across feature sets and bisimulation of MIR across build profiles", "proof",
  "Every function present without serde has identical MIR with serde; with and without debug assertions every body is bisimilar up to overflow checks and effect-free assertion code. Trusts rustc.")
c("P24", "type-level compile-fail witnesses with compiling twins", "proof",
  "Each guarantee is one program rejected by rustc with the expected error code, plus its accepted twin; the listed programs stand for the guarantee.")

REL = "relational abstract interpretation of MIR against a reviewed reference model"
RELNOTE = {
    "P01": "Reports a reachable panic the model does not have, on any function of the library.",
    "P03": "Reports a loop that goes round without a decision or change, and readers that continue where the model ends.",
}
for p in ["P01", "P03"] + ["P%02d" % i for i in range(6, 24)] + ["P25", "P26", "P27", "P28", "P29"]:
    c(p, REL, "other", RELNOTE.get(p, "Every function the property rests on is compared with its model on all cells of its abstract arguments.") +
      " Loops are compared for their first iterations; cells the analysis cannot decide are listed as undecided, never alarmed on.")

NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in CL:
        t, l, n = CL[p]
        cmd = "python3 checks/check.py %s" % p
        checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": cmd + (" --thorough" if t == REL else ""), "technique": t, "level": l, "level_note": n})
na = [{"property": p, "reason": NA.get(p, "no check yet: the relational analysis it needs is under construction")} for p in ids if p not in CL]
m = {"version": 1, "setup_cmd": "bash checks/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read the MIR rustc produces for /repo's unmodified source."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
