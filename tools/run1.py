import sys, importlib, os, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, "/verif")
from pydv import spec
importlib.import_module("contracts." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
for n, c in spec.REGISTRY.items():
    if pat and pat not in n: continue
    r = spec.run_contract(c, timeout_ms=int(os.environ.get("TMO","8000")))
    bad = [o for o in r.obligations if o.status != "proved"]
    print(f"{n}: {len(r.obligations)} obligations, {len(bad)} bad, paths {r.paths}/{r.complete}, {r.seconds:.1f}s (solver {r.solver_time:.1f}, feasibility {r.feas[0]:.1f}/{r.feas[1]}), weak {r.weak}", "covers missing %s" % (r.want_covers - set(k for k,v in r.covers.items() if v)) )
    if r.unsupported: print("   UNSUPPORTED", r.unsupported); print(r.trace if os.environ.get("TB") else "")
    seen=set()
    for o in bad:
        if (o.name,o.where) in seen: continue
        seen.add((o.name,o.where)); print("   ", o.status, o.name, "|", o.where, o.reason, o.path)
