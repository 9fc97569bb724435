#!/bin/bash
# Nothing to build: confirm that the oracles agree with each other.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="/repo:$here"
cd "$here" && exec /opt/venv/bin/python -W ignore selftest.py
