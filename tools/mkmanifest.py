#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness lists."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
have = set(re.findall(r"\b(?:&)?\w+::(P\d\d)\b", (root / "harness/src/checks/mod.rs").read_text()))
REF = ("Property-based testing (proptest over a choice sequence, shrinking): generated documents rendered by velato and "
       "compared call by call with an independent reference renderer")
T = {
 "P01": "Property-based testing and fuzzing: generated and mutated inputs against a no-panic oracle, differential between the three import entry points",
 "P02": "Property-based testing: generated documents with arbitrary reference graphs and odd keyframes, oracle termination and finite output",
 "P03": "Property-based testing: stack-discipline invariant over recorded sink calls of generated documents",
 "P04": REF + " (layer notifications)",
 "P14": "Property-based testing: metamorphic comparison of trimmed outlines with independently computed arc-length sub-paths",
 "P19": "Property-based testing: parse-serialise round trip over generated full-schema documents",
 "P20": "Property-based testing: single-defect mutation of generated documents, oracle rejection naming the asset",
 "P21": "Stateful property-based testing: random render histories on shared renderers and threads, oracle a fresh render",
 "P22": "Property-based differential testing: scene backend against replay of recorded sink calls",
 "P23": "Metamorphic property-based testing: transform and opacity applied outside versus inside",
 "P24": "Metamorphic property-based testing: equivalent spellings of generated documents",
 "P25": "Metamorphic property-based testing: shifted timelines, constant keyframes, refined segments",
 "P26": "Property-based testing: generated repeater models against an independent model of the copies",
 "P27": "Property-based testing: imported model fields of generated documents against the document",
 "P28": "Property-based testing: generated model values against independent evaluation, differential fixed versus animated and model versus import",
}
NOTE = ("Random search against an explicit oracle: no violation among the generated cases counted in the evidence file. "
        "Assumes the generator's bounds (document sizes, magnitudes) stated there and trusts the harness's reference and the kurbo/peniko types.")
m = {"version": 1,
     "setup_cmd": "./run.sh build && ./run.sh P22 build-only",
     "checks": [], "not_applicable": [],
     "notes": "No hooks: everything is decided through the public API. Replays: ./run.sh <id> replay <file>."}
m["setup_cmd"] = "./run.sh build"
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": T.get(p, REF), "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
