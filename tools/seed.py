"""Make and try planted bugs.
  seed.py make SPEC.py      SPEC defines BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)]
  seed.py try [ID...] [--props C01,C02]   tests, demo and checks against each bug in a scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = "/verif/seeded"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(HERE, b["id"])
        os.makedirs(d, exist_ok=True)
        for f, edits in (b["files"].items() if "files" in b else [(b["file"], b["edits"])]):
            p = "/repo/" + f
            s = open(p).read()
            for old, new in edits:
                assert s.count(old) == 1, (b["id"], s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git -C /repo diff").stdout
        sh("git -C /repo checkout -- .")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\ncd /repo && exec timeout 120 /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n' if False else
            '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 120 env PYTHONPATH="${DEMO_REPO:-$PWD}" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])

def try_(ids, props):
    ids = ids or sorted(os.listdir(HERE))
    for i in ids:
        d = os.path.join(HERE, i)
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        repo = tmp + "/repo"
        try:
            sh(f"cp -a /repo {repo}")
            a = sh(f"bash {d}/demo.sh", cwd=repo)
            r = sh(f"git -C {repo} apply {d}/patch.diff")
            if r.returncode: print(i, "PATCH FAILS", r.stderr[:200]); continue
            b = sh(f"bash {d}/demo.sh", cwd=repo)
            t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=40 --continue-on-collection-errors -o python_functions= aiok8s 2>&1 | tail -1", cwd=repo, env=dict(os.environ, PYTHONPATH=repo))
            out = []
            for p in props or [meta["property"]]:
                c = sh(f"./check.py {p}", cwd="/verif", env=dict(os.environ, PYDV_REPO=repo))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                fo = [l for l in c.stdout.splitlines() if l.startswith("FAILED")]
                bo = [l for l in c.stdout.splitlines() if l.startswith("BOUNDED")]
                fi = [l for l in c.stdout.splitlines() if l.startswith("FAILING INPUT")]
                out.append(f"{p}: exit {c.returncode} {'proof-fail' if fo else ''} {'input' if fi else ''} {'bounded' if bo else ''}")
                if "-v" in sys.argv: print("\n".join(x[:300] for x in fo[:3] + fi[:2] + bo[:3]), c.stderr[-500:])
            print(i, "| demo clean", a.returncode, "patched", b.returncode, "| tests", t.stdout.strip().splitlines()[-1:], "|", "; ".join(out), flush=True)
        finally:
            shutil.rmtree(tmp)

if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    props = None
    if "--props" in sys.argv:
        props = sys.argv[sys.argv.index("--props") + 1].split(",")
        a.remove(sys.argv[sys.argv.index("--props") + 1])
    try_(a, props)
