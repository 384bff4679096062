"""Writes MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    tech, note = registry.NOTES[p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p,
                   "thorough_cmd": "./check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
man = {"version": 1, "setup_cmd": "./setup", "checks": checks,
       "not_applicable": [{"property": p, "reason": registry.NOT_APPLICABLE.get(
           p, "no check yet: under construction")} for p in props if p not in registry.CHECKS],
       "notes": "TLA+ specifications in specs/ checked with TLC; the harness in harness/ binds them "
                "to the library through its public interface only, so no hooks are needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
