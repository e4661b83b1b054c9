#!/bin/bash
# nothing to build: the verifier is plain Python; check that its tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, cvc5, pyvc.verify, props.table'
/opt/venv/bin/python -c 'import capstone, numpy, bitarray, pygraph, constraint'
mkdir -p evidence replays
