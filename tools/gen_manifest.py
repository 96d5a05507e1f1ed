#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness implements."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
done = set()
for f in os.listdir(os.path.join(here, "harness/props")):
    if f.endswith(".go"):
        done |= set(re.findall(r'ID:\s*"(C\d\d)"', open(os.path.join(here, "harness/props", f)).read()))
METHOD = {
 "C01": "property-based testing: generated grammars and texts, differential against an independent PEG interpreter",
 "C02": "property-based testing: generated grammars and texts, productions compared with an independent PEG interpreter",
 "C03": "property-based testing: generated left-recursive grammars, compared with a seed-growing interpreter and with equivalent iterative grammars",
 "C04": "property-based testing: metamorphic (cache disabled on random subsets), model of at-most-once evaluation, work bounds on adversarial grammars",
 "C05": "stateful property-based testing: generated histories of builds and parses, every outcome compared with the reference model",
 "C06": "property-based testing: generated trace settings, differential against the muted grammar",
 "C07": "property-based testing: generated partially matching texts, positions compared with an independent interpreter",
 "C08": "stateful property-based testing: generated operation sequences against a cursor model",
 "C09": "stateful property-based testing: generated tokenizations and operation sequences against a cursor and position model",
 "C10": "property-based testing: generated Go token sequences and mutated texts, round-trip through go/scanner",
 "C11": "property-based testing: generated rule texts, differential between bootstrap generations",
 "C12": "property-based testing: metamorphic (equivalent spellings of a rule), and model of precedence",
 "C13": "property-based testing: metamorphic (rank versus choice), compared with the reference interpreter",
 "C14": "property-based testing: generated grammars with callbacks, exact invocation log compared with an independent interpreter",
 "C15": "property-based testing: generated grammars with node callbacks, spans compared with an independent interpreter",
 "C16": "fuzzing: arbitrary bytes, deep nesting and long inputs, with crash, hang and metamorphic oracles",
 "C17": "stateful property-based testing: generated operation sequences against model containers",
 "C18": "property-based testing: generated arguments against independent specifications of the helpers",
 "C19": "property-based testing: generated environment values against a model of the settings",
 "C20": "grammar-based fuzzing: valid and mutated rule texts against an independent recognizer of the rule language",
 "C21": "property-based testing: generated programs of the example languages against independent evaluators",
 "C23": "stateful property-based testing: generated sessions of the real program, answers compared with an independent evaluator",
 "C24": "property-based testing: generated trees of lines, listings and walks compared with the notation of the model; stateful (inspected between parses)",
 "C22": "randomized concurrency testing: generated workloads on goroutines under the race detector, compared with sequential outcomes",
}
checks = []
for p in props:
    if p["id"] not in done:
        continue
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": METHOD[i],
        "level": "exploration",
        "level_note": "Held on every generated case; counts, classes and samples are in the evidence file. Domain and trusted parts: DESIGN.md, section " + i + ". A pass does not establish absence.",
    })
na = [{"property": p["id"], "reason": "the check is not built yet"} for p in props if p["id"] not in done]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: everything goes through the exported API. Replay a failure with ./check.sh replay FILE.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
