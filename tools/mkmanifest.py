#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(root + "/checks.json"))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
na = json.load(open(root + "/tools/not_applicable.json"))
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": [],
    "hooks": {"guard": "verif", "enable": "none: harnesses enter through a build overlay, /repo has no hooks", "source_commits": []},
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3, cvc5), counterexamples replayed on the compiled code",
            "level": "model_checking",
            "level_note": c["bounds"],
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
