#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
T = {
 "C01": "online model-based monitor of index histories",
 "C02": "online differential monitor of query forms against an exact model",
 "C03": "online conservation monitor (accounting model, per-band bucket counts)",
 "C04": "differential monitor: bulk against one-by-one, on several worker pools",
 "C05": "lockstep differential monitor across containers and constructors",
 "C06": "before/after snapshot monitor around maintenance calls",
 "C07": "fault-injecting monitor: rejected calls with before/after snapshots",
 "C08": "metamorphic and cross-process runtime monitor of signatures",
 "C09": "statistical runtime monitor with binomial bounds",
 "C10": "runtime oracle in exact arithmetic",
 "C11": "runtime oracle re-evaluating the collision probability",
 "C12": "runtime oracle counting band values",
 "C13": "online monitor against a linear scan",
 "C14": "online differential monitor of query forms and bulk inserts",
 "C15": "runtime oracle counting bit votes; statistical angle monitor",
 "C16": "runtime oracle counting bits",
 "C17": "runtime oracle from an independent definition over characters",
 "C18": "runtime monitor with injected read faults against a one-by-one reference",
 "C19": "runtime oracle: greedy model of the clustering",
 "C20": "stress with injected delays; partition checker on every result",
 "C21": "ThreadSanitizer, AddressSanitizer and Miri executions of stress workloads",
 "C22": "online model-based monitor of Python call histories",
 "C23": "online model-based monitor of Python call histories",
 "C24": "metamorphic runtime monitor with independently computed features",
 "C25": "runtime heap monitor (counting global allocator)",
 "C26": "statistical end-to-end runtime monitor with binomial bounds",
}
N = {
 "C09": "Samples pairs; statistical bounds (6 sigma plus an allowance), so only deviations above them are seen.",
 "C26": "Samples pairs; statistical bounds (6 sigma plus 0.8 % of the pairs), so only deviations above them are seen.",
 "C15": "Bits are compared exactly on sampled multisets; the angle on averages only.",
 "C20": "Only the schedules that occurred; delays are injected at neighbour queries and allocations to vary them.",
 "C21": "Only executed schedules and paths; results are compared natively, reports of the tools count as violations. Trusts the tools; Miri runs small inputs.",
 "C25": "Measures heap bytes seen by the global allocator with a constant-factor tolerance.",
}
D = "Held on every generated execution; inputs beyond the generators are not covered. Trusts the model or oracle in the harness, which is written from the property."
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every property is observed at the public Rust and Python interfaces, by a counting allocator, or by sanitizers. Repairs are the fix: commits listed in known-findings.txt."}
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    p = json.loads(l)["id"]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": N.get(p, D)})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
