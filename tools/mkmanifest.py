#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": ("recorded output histories of the instrumented decoder under many schedules", "single-thread run is the reference; schedules are stressed, not enumerated"),
 "C02": ("ThreadSanitizer plus task-history monitor", "races only on paths and interleavings the workloads reach"),
 "C03": ("API trace monitor against a sequential dictionary model, AddressSanitizer", "sampled strings and interleavings"),
 "C04": ("output monitor of the sanitized decoder against exhaustive derivation enumeration", "small trees and tables, so that all derivations can be enumerated"),
 "C05": ("differential monitor over storage back ends of the sanitized decoder", "sampled tables and inputs"),
 "C06": ("output monitor against exhaustive synchronous parsing", "short sentences, small grammars"),
 "C07": ("output monitor against exhaustive search with an independent ARPA evaluator", "small forests for exactness; all hypotheses re-scored"),
 "C08": ("API monitor against brute-force derivation enumeration, sanitizers", "small random hypergraphs"),
 "C09": ("format round-trip monitor with independent parsers", "sampled trees and forests"),
 "C10": ("before/after monitor of derivation sets and yields", "sampled trees and forests"),
 "C11": ("output monitor against an independent extraction model", "sampled small trees"),
 "C12": ("output monitor against an independent extraction model", "sampled short sentence pairs"),
 "C13": ("output monitor against independent metric definitions, sanitizers", "TER judged by bounds, the other measures exactly to printed precision"),
 "C14": ("API history monitor against exact sums, sanitizers", "sampled operation sequences"),
 "C15": ("API monitor against brute-force line search; tuner runs re-scored", "sampled n-best lists"),
 "C16": ("API monitor against finite differences and independent objectives", "sampled n-best lists and weights"),
 "C17": ("API history monitor against reference update rules", "sampled update histories"),
 "C18": ("API monitor against dense vectors, sanitizers", "sampled operation sequences"),
 "C19": ("query-trace monitor against the ARPA back-off definition, sanitizers", "sampled small models"),
 "C20": ("API monitor against std::set/map model, sanitizers", "sampled key sets"),
 "C21": ("output monitor against text-preservation and optimality oracles", "sampled text"),
 "C22": ("output monitor against independent rescoring", "sampled n-best lists"),
 "C23": ("AddressSanitizer/UBSan over mutated and malformed inputs of every tool", "no report on the inputs tried; not absence of errors"),
 "C24": ("output monitor against independent estimation", "sampled corpora"),
}
checks, na = [], []
for i in ids:
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "python3 %s" % f, "thorough_cmd": "VERIF_TIER=thorough python3 %s" % f,
                       "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n + ". Held on the executions observed; not a proof."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 vf/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild /repo's current sources with sanitizers into /verif/.build (content addressed). Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
