#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, os, props; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the LLVM IR of the real C functions (apexsym) with z3 deciding branch feasibility and the assertions; counterexamples replayed natively under ASan"
NOTE = "Every value of the symbolic bytes within the bounds of the jobs is decided by the solver, on the IR compiled from /repo at each run. Trusted: clang's IR, the executor, z3, the C models of libc (cross-checked by native replay of solver models). Outside: inputs beyond the stated templates and sizes, allocation failure. "
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("obs", [m[0] for m in p["mech"]]), "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": [], "notes": "All checks share run.py and engine/; harness/*.c declare the jobs (//@job lines) with their bounds. No hooks in /repo."}
for p in props.P:
    if p.get("na"): m["not_applicable"].append({"property": p["id"], "reason": p["na"]}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": NOTE + p.get("note", "")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(json.loads(l), ps) for l in open(V + "/properties.jsonl")]
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in props.P: assert len(p["title"]) <= 80, p["id"]
print(len(props.P), "properties", len(m["checks"]), "checks")
