#!/bin/bash
# Nothing to build: the checks import the Python sources of /repo. Only verify the tools.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, wulfric, h5py, sys; print('ready', sys.version)"
