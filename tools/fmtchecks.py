"""Rewrites a checks table (stdin) in the layout of checks.json (stdout)."""
import json, sys

out = []
for k, v in json.load(sys.stdin).items():
    hs = ",\n".join("   " + json.dumps(h, ensure_ascii=False) for h in v["harnesses"])
    out.append(' "%s": {"bounds": %s,\n  "assumptions": %s,\n  "harnesses": [\n%s]}' % (
        k, json.dumps(v.get("bounds", ""), ensure_ascii=False), json.dumps(v.get("assumptions", []), ensure_ascii=False), hs))
print("{\n" + ",\n".join(out) + "\n}")
