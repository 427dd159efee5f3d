#!/bin/bash
# nothing to compile: verifies that the code under test and the harness import
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" exec /opt/venv/bin/python -W ignore -c 'import numpy, mdp, bimdp, harness.runner; print("ok", mdp.__file__)'
