#!/bin/bash
# Nothing to compile: the checks are Python.  Confirm that the interpreter and its libraries are here.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numpy, scipy, h5py, Cython, lmfit; print("ok")'
mkdir -p evidence replays
