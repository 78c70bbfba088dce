"""Writes DESIGN.md: the text below plus the tables that follow from the contracts and the planted bugs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pydv import spec                                   # noqa: E402
import check                                            # noqa: E402
check.load_contracts()
from contracts.assumptions import ASSUME                # noqa: E402
from tools.design_text import HEAD, HOW, TAIL           # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
out = [HEAD]
out.append("## The properties, one by one\n")
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m["needs"]))
for p in props:
    i = p["id"]
    cs = [c for c in spec.REGISTRY.values() if i in c.props]
    out.append(f"### {i} {p['title']}\n")
    out.append(HOW[i].strip() + "\n")
    out.append("Contracts: " + ", ".join(f"`{c.name}`" for c in cs) + ".\n")
    fns = sorted({f for c in cs for f in c.functions})
    out.append("Functions under contract: " + ", ".join(f"`{f}`" for f in fns) + ".\n")
    out.append("Taken for granted: " + "; ".join(ASSUME[i]) + ".\n")
    s = seeds.get(i, [])
    if s:
        out.append(f"Planted bugs caught by `check.py {i}`:\n\n" + "\n".join(f"* `{d}` — {n}" for d, n in s) + "\n")
out.append(TAIL)
with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out))
