"""MANIFEST.json from the registered contracts and the properties file."""
import json, sys, importlib
sys.path.insert(0, "/verif")
import check
from pydv import spec
check.load_contracts()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
exec(open("/verif/tools/na.py").read(), NA)
checks, na = [], []
for p in props:
    cs = [c for c in spec.REGISTRY.values() if p["id"] in c.props]
    if not cs:
        na.append({"property": p["id"], "reason": NA["REASONS"].get(p["id"], "no contract built yet")})
        continue
    fns = sorted({f for c in cs for f in c.functions})
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.py {p['id']} quick",
        "thorough_cmd": f"./check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "contract-based deductive verification: contracts on the real functions, loop and monitor invariants, "
                     "obligations generated from /repo's current source and discharged by z3 (cvc5 as second back end in thorough)",
        "level": "proof",
        "level_note": NA["NOTES"].get(p["id"], "") + (" " if NA["NOTES"].get(p["id"]) else "") +
                      f"{len(cs)} contracts over {len(fns)} functions, for all inputs and interleavings within the contracts' rely; assumes the "
                      "models of asyncio/stdlib/containers in pydv, reals for floats, and the environment conditions listed in DESIGN.md; "
                      "bounded runs of the real code cross-check and replay.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo is verified as it is (instrumented in memory on every run)."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
