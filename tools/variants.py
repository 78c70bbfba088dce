"""Behaviour-preserving edits: the checks must stay quiet on them.   variants.py SPEC.py [--props ..] [-v]
SPEC: VARIANTS = [dict(id, props="C01 C02", files={file: [(old, new), ...]})]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def one(v):
    tmp = tempfile.mkdtemp(prefix="var-", dir="/tmp")
    repo = tmp + "/repo"
    try:
        sh(f"cp -a {os.environ.get("BASE_REPO","/repo")} {repo}")
        for f, edits in v["files"].items():
            p = repo + "/" + f
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    return f"{v['id']}: EDIT DOES NOT APPLY ({s.count(old)}): {old[:60]!r}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=40 --continue-on-collection-errors -o python_functions= aiok8s 2>&1 | tail -1", cwd=repo, env=dict(os.environ, PYTHONPATH=repo)).stdout.strip()
        out = []
        for p in v["props"].split():
            if PROPS and p not in PROPS: continue
            c = sh(f"./check.py {p}", cwd="/verif", env=dict(os.environ, PYDV_REPO=repo))
            lines = [l[:260] for l in c.stdout.splitlines() if l.startswith(("FAILED", "FAILING", "BOUNDED", "HARNESS"))]
            out.append(f"{p}: {'QUIET' if c.returncode == 0 else 'ALARM %d' % c.returncode}" + (" bounded" if any(l.startswith('BOUNDED') for l in lines) else "") + ("".join("\n      " + l for l in lines[:4]) if lines else "") + c.stderr[-300:])
        return f"{v['id']} | {t[:20]} | " + "; ".join(out)
    finally:
        shutil.rmtree(tmp)

ns = {}
exec(open(sys.argv[1]).read(), ns)
PROPS = sys.argv[sys.argv.index("--props") + 1].split(",") if "--props" in sys.argv else None
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ns["VARIANTS"]):
        print(r, flush=True)
