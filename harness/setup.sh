#!/bin/bash
# Nothing to build: parse every specification module once so that a broken
# specification is noticed before any check runs.
set -e
cd "$(dirname "$0")/../spec"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
for f in *.tla; do
  tla-sany "$f" > "$work/out" 2>&1 || { cat "$work/out"; exit 1; }
  if grep -q -i "abort\|\*\*\* Errors" "$work/out"; then cat "$work/out"; exit 1; fi
done
/opt/venv/bin/python -c "import numpy, pymatgen, numba"
