import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lib  # noqa: E402

MODULES = [f[:-3] for f in sorted(os.listdir(HERE)) if f.endswith(".py") and f not in ("lib.py", "run.py", "server.py")]


def load():
    for m in MODULES:
        importlib.import_module(m)


if __name__ == "__main__":
    load()
    if sys.argv[1] == "replay":
        import json
        import random
        rec = json.load(open(sys.argv[2]))
        rec = rec.get("replay", rec)
        for name, fn, _ in lib.SCENARIOS[rec["key"].split("/")[0]]:
            if name == rec["scenario"]:
                print(lib.run_case(fn, random.Random(rec["key"])))
    else:
        lib.main(sys.argv[1:])
