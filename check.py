#!/opt/veriftools/pyvenv/bin/python
"""Decide one property: discharge its contracts on /repo's current source, cross-check by bounded runs.

usage: check.py PROPERTY [quick|thorough]
"""
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("PYDV_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
TAG = re.compile(r"((?:C\d\d,?)+)\|")

TRUSTED = [
    "CPython 3.12 executes the instrumented source as it executes the original (the instrumentation is listed in pydv/loader.py)",
    "pydv: path exploration, loop rule, heap and container models (pydv/core.py, containers.py, rt.py)",
    "z3 (python bindings 5.x) for every discharged obligation",
    "models of asyncio, time, random, math, heapq, collections, copy, json (pydv/aio.py and friends) as assumed contracts of the standard library",
]


def tags(name):
    m = TAG.search(name)
    return set(m.group(1).strip(",").split(",")) if m else set()


def load_contracts():
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("contracts." + f[:-3])


def _one(args):
    name, opts = args
    from pydv import spec
    r = spec.run_contract(spec.REGISTRY[name], **opts)
    # plain data only
    r.obligations = [dict(name=o.name, status=o.status, where=o.where, model=o.model, reason=str(o.reason),
                          secs=o.secs, backend=o.backend, path=list(o.path)) for o in r.obligations]
    return r


def assumptions(prop):
    from contracts.assumptions import ASSUME
    return list(ASSUME.get(prop, []))


def inconclusive(r, prop):
    """Left open by the solver's time limits (not refuted, not outside the verifier's subset)."""
    bad = [o for o in r.obligations if o["status"] != "proved"]
    return (r.unsupported == "out of time" if r.unsupported else bool(bad)) and all(o["status"] == "unproved" for o in bad)


def second_attempt(results, opts, prop, tier, t0, h):
    """A loaded machine can make z3 give up: whatever was left open is run once more, alone and with more time."""
    again = [r.name for r in results if inconclusive(r, prop)]
    spent = time.time() - t0
    limit = 380 if tier == "quick" else 3000
    if not again or h["failures"] or spent > limit or os.environ.get("PYDV_ONCE"):
        return results
    opts = dict(opts, patience=4, timeout_ms=2 * opts["timeout_ms"],
                max_seconds=min(opts["max_seconds"], 400) if tier == "quick" else opts["max_seconds"])
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(4, len(again))) as pool:
        new = {r.name: r for r in pool.map(_one, [(n, opts) for n in again], chunksize=1)}
    return [new.get(r.name, r) for r in results]


def start_harness(prop, tier, seed, out):
    budget = float(os.environ.get("PYDV_BUDGET", "0")) or (10.0 if tier == "quick" else 60.0)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.Popen([PYTHON, os.path.join(HERE, "replay", "run.py"), prop, str(budget), str(seed), out],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd="/", env=env)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, "evidence", f".work-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, "harness.json")
    try:
        return decide(prop, tier, seed, t0, work, out)
    finally:
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)


def decide(prop, tier, seed, t0, work, out):
    harness = start_harness(prop, tier, seed, out)
    from pydv import spec
    load_contracts()
    cs = [c for c in spec.REGISTRY.values() if prop in c.props]
    opts = dict(timeout_ms=10_000, max_seconds=240 if tier == "quick" else 700, second=(tier == "thorough"), focus=prop)
    results = []
    if cs:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(6, max(1, len(cs)))) as pool:
            results = pool.map(_one, [(c.name, opts) for c in cs], chunksize=1)
    try:
        _, err = harness.communicate(timeout=600)
    except subprocess.TimeoutExpired:
        harness.kill()
        _, err = harness.communicate()
    try:
        h = json.load(open(out))
    except (OSError, ValueError):
        h = {"evaluations": 0, "failures": [], "errors": [{"what": (err or b"").decode()[-1500:], "scenario": "-", "key": "-"}],
             "samples": [], "scenarios": {}, "seconds": 0}

    results = second_attempt(results, opts, prop, tier, t0, h)

    failed, support, undecided = [], [], []
    n_obl = n_ok = 0
    backends, functions, assumed, weak_used = {}, {}, set(), []
    listed = {c.name: c for c in cs}
    for r in results:
        mine = [o for o in r.obligations if prop in tags(o["name"]) or not tags(o["name"])]
        n_obl += len(mine)
        bad = []
        for o in mine:
            if o["status"] == "proved":
                n_ok += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                bad.append(o)
        others = [o for o in r.obligations if o["status"] != "proved" and tags(o["name"]) and prop not in tags(o["name"])]
        for f, k in r.functions.items():
            functions[f] = functions.get(f, 0) + k
        assumed |= set(r.assumed)
        if r.unsupported and not bad:
            undecided.append((r.name, r.unsupported))
            continue
        tagged = [o for o in bad if prop in tags(o["name"])]
        if tagged and not r.weak:
            failed += [(r.name, o) for o in tagged]
        elif tagged:
            undecided.append((r.name, f"loop without an invariant in the contract ({', '.join(r.weak)}): "
                                      f"{tagged[0]['name']}"))
        elif bad:
            undecided.append((r.name, f"supporting obligation not discharged: {bad[0]['name']} {bad[0]['where']}"))
        elif others:
            undecided.append((r.name, f"relies on an obligation of another property that fails: {others[0]['name']}"))
        elif r.complete == 0 or not r.obligations or (r.want_covers - {k for k, v in r.covers.items() if v}):
            undecided.append((r.name, "vacuous: no complete path or an unreachable cover point"))

    known = known_findings(prop)
    hits, news = [], []
    for f in h["failures"]:
        k = next((d for pat, d in known if pat and pat in f["what"]), None)
        (hits if k else news).append((f, k))
    new_failed = []
    for name, o in failed:
        k = next((d for pat, d in known if pat and pat in f"{name}: {o['name']}"), None)
        if k:
            hits.append(({"what": o["name"]}, k))
        else:
            new_failed.append((name, o))

    violation = None
    rdir = os.path.join(HERE, "evidence")
    rpath = os.path.join("evidence", f"{prop}.replay.json")
    full = os.path.join(HERE, rpath)
    if os.path.exists(full):
        os.unlink(full)
    if news or new_failed:
        doc = {"property": prop,
               "failed_obligations": [dict(contract=n, **o) for n, o in new_failed[:20]]}
        if news:
            f = news[0][0]
            doc["replay"] = f
            doc["how_to_replay"] = f"{PYTHON} /verif/replay/run.py replay /verif/{rpath}"
        with open(full, "w") as fh:
            json.dump(doc, fh, indent=1)
        violation = f"VIOLATION property={prop} replay={rpath}" + ("" if news else " no-failing-input-found")

    for d in sorted({k for _, k in hits if k}):
        print(f"KNOWN-FINDING: property={prop} {d}")
    for n, o in new_failed[:8]:
        print(f"FAILED obligation {n}: {o['name']} [{o['where']}] {o['status']} {o['reason']}")
    for f, _ in news[:3]:
        print(f"FAILING INPUT {f['scenario']} ({f['key']}): {f['what'][:700]}")
    for n, why in undecided:
        print(f"BOUNDED {n}: not proved here ({why.splitlines()[0][:300]}); only the bounded runs stand in for it")
    for f in h["errors"]:
        print(f"HARNESS could not run {f['scenario']}: {f['what'].strip().splitlines()[-1] if f['what'].strip() else ''}")
    proved = [r.name for r in results if r.name not in {n for n, _ in undecided} and r.name not in {n for n, _ in failed}]
    under = sorted({f for n in proved for f in listed[n].functions})
    solver = sum(r.solver_time for r in results)
    print(f"{prop} {tier}: {n_ok}/{n_obl} obligations discharged in {len(results)} contracts, "
          f"{len(proved)} contracts proved; {h['evaluations']} bounded runs; {time.time() - t0:.1f} s")
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": n_obl, "discharged": n_ok,
            "checker_cmd": f"cd /verif && ./check.py {prop} {tier}",
            "trusted_base": TRUSTED,
            "contracts": [{"name": r.name, "functions": list(listed[r.name].functions),
                           "obligations": len(r.obligations), "paths": r.paths, "complete_paths": r.complete,
                           "state": ("bounded only: " + dict(undecided)[r.name]) if r.name in dict(undecided) else
                           ("failed" if r.name in {n for n, _ in failed} else "proved"),
                           "seconds": round(r.seconds, 2), "solver_seconds": round(r.solver_time, 2),
                           "loops": r.loops} for r in results],
            "functions_under_contract": under,
            "functions_executed": sorted(functions),
            "backends": backends, "solver_seconds": round(solver, 2),
            "solver_calls": sum(r.solver_calls for r in results),
            "bounded_contracts": [{"contract": n, "why": w} for n, w in undecided],
            "bounded_runs": {"evaluations": h["evaluations"], "scenarios": h["scenarios"],
                             "errors": [e["what"][-300:] for e in h["errors"]],
                             "note": "cross-check and replay on the real code; never counted as proved"},
            "evaluations": h["evaluations"],
            "samples": h["samples"],
        },
        "assumptions": assumptions(prop) + sorted(assumed) + ["floats are treated as mathematical reals",
                                          "opaque caller values: == and `is` coincide, hashing and comparison have no effects"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(news) + len(new_failed),
    }
    with open(os.path.join(rdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
