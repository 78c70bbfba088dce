"""contracts/constructs.json: the kinds of comprehensions each contract meets on the current tree."""
import json, multiprocessing, sys
sys.path.insert(0, "/verif")
import check
check.load_contracts()
from pydv import spec
if __name__ == "__main__":
    p = "/verif/contracts/constructs.json"
    old = {} if "--all" in sys.argv else spec.baseline()
    names = [n for n in spec.REGISTRY if n not in old]
    with multiprocessing.get_context("fork").Pool(6) as pool:
        rs = pool.map(check._one, [(n, dict(timeout_ms=10000, max_seconds=240)) for n in names], chunksize=1)
    old.update({r.name: r.constructs for r in rs})
    json.dump({k: old[k] for k in sorted(old) if k in spec.REGISTRY}, open(p, "w"), indent=1)
    for r in rs:
        if r.unsupported or any(o["status"] != "proved" for o in r.obligations): print("NOT PROVED", r.name)
