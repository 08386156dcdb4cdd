#!/bin/sh
# Nothing to compile: check that the interpreter and its packages are there.
cd "$(dirname "$0")" && mkdir -p evidence replays && exec /opt/venv/bin/python -c "import numpy, scipy, spglib, irrep, irreptables; print('setup ok')"
