#!/bin/bash
# Nothing to build: the checks are Python code that imports /repo.  Verifies that
# the tools they need are present.
cd "$(dirname "$0")" || exit 1
source /opt/vp/env.sh
chmod +x run.sh
/opt/venv/bin/python -W ignore -c 'import hypothesis, numpy, h5py, scipy, sys; print("hypothesis", hypothesis.__version__)'
