#!/bin/bash
# Nothing to build: the verifier is Python, run by the preinstalled tool environment.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -B -c "import z3, sys; sys.path.insert(0, '.'); import pydv.spec, pydv.aio"
/opt/venv/bin/python -B -c "import kubernetes, kubernetes_asyncio"
