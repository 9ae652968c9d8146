#!/bin/bash
# Nothing is compiled: the explorer is plain Python and imports rubin_sim from /repo.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence/replay
PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mc.core, numpy, json; json.load(open('MANIFEST.json')); json.load(open('KNOWN_FINDINGS.json'))"
