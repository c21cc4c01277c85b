#!/bin/bash
# Nothing to compile: checks that the interpreter can import the library and the oracle.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 1
mkdir -p evidence
PYTHONPATH="${SMOLGP_REPO:-/repo}/src:$here" JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 \
  /opt/venv/bin/python -c "import smolgp, vlib.oracle; print('ready', smolgp.__file__)"
