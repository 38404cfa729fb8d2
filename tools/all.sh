#!/bin/bash
# run every registered check; prints one line each
cd "$(dirname "$0")/.."
for p in $(/opt/venv/bin/python -c "import sys; sys.path.insert(0,'.'); from sa.registry import CHECKS; print(*CHECKS)"); do
  /opt/venv/bin/python check.py $p "$@" 2>&1 | cut -c1-300 | tail -3; done
