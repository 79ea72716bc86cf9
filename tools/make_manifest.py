#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "B": "model-based random histories (set of bits), shrinking",
 "C": "model-based random histories (multiset of fingerprints), shrinking",
 "L": "property-based testing over generated streams with exact cone arithmetic",
 "R": "model-based histories; statistical property-based testing over random seeds",
 "K": "model-based histories with a counting allocator; statistical property-based testing",
 "E": "model-based random histories, shrinking",
 "U": "property-based testing against mathematical definitions and laws",
 "N": "differential property-based testing against a batch computation; metamorphic relations",
 "P": "differential property-based testing against a reference network and numeric gradients",
 "H": "model-based random streams against a reference tree, shrinking",
 "M": "model-based random streams against a reference model, shrinking",
 "F": "model-based random streams over the node graph; differential and statistical testing of three forests",
 "X": "property-based testing over programs and memory: generated include orders, counted allocations, metamorphic runs",
}
STAT = "Statistical decisions use a bound of 1e-12 per comparison. "
NOTES = {
 "B": "Every generated history is compared step by step with a set of bits, under address and undefined-behaviour sanitizers and without; trusts the harness and its hash tables (hash values below the size, as the class requires).",
 "C": "Every generated history is compared with a multiset of (fingerprint, bucket pair); where the outcome depends on where evictions put entries only what must hold in all cases is asserted.",
 "L": "Generated streams in many styles and types; comparisons leave a margin for rounding, so streams whose answer rounding decides are not judged at that sample.",
 "R": STAT + "Slot discipline is exact for every random function, also one that returns 0 or 1.",
 "K": STAT + "Slot discipline, successors and allocation are exact; timestamps increase and start at 1, as the class requires.",
 "E": "Exact model of the counters; degenerate kappa (0/0) is not judged.",
 "U": STAT + "Exact checks at and next to every boundary of the random number.",
 "N": "Compared with a two-pass computation in long double; scores that rounding or underflow decide are skipped and counted as such.",
 "P": "Compared with an independent network in long double; diverging weights end a case.",
 "H": "Compared with a reference tree; a case ends when a decision is closer than rounding, so such ties are not judged.",
 "M": "Compared with a reference model; a case ends when a decision (nearest cluster, weakest cluster, attribute) is closer than rounding.",
 "F": "All nodes are inspected through the public accessors; " + STAT + "Trees deeper than 90 levels end a case (the predictors use fixed stacks of 100).",
 "X": "Runs generated programs or histories; trusts the compiler.",
}
checks = []
for p in props:
    i = p["id"]
    if not (os.path.exists(os.path.join(V, "harness", i + ".cpp")) or os.path.exists(os.path.join(V, "harness", i + ".py"))):
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[i[0]], "level": "exploration",
                   "level_note": "Generated-input search: it can miss, not prove. " + NOTES[i[0]]})
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "no check was built"} for p in props if p["id"] not in done],
     "notes": "No hooks in /repo. python3 check.py ID --replay FILE replays a violation. VP_REPO=DIR runs a check against another copy of the repository."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
