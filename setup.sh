#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo's working tree.
# This only verifies that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
for t in java g++ python3 mpirun; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import h5py, numpy'
mkdir -p evidence
echo setup ok
