#!/bin/bash
# Nothing to compile: checks import /repo's working tree.  Make sure that works.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${HV_REPO:-/repo}/hypothesis-python/src:." \
  /opt/venv/bin/python -c 'import hypothesis, hv.worker, hv.util, hv.trees; print("ok", hypothesis.__file__)'
