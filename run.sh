#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
: "${SMOLGP_REPO:=/repo}"
export SMOLGP_REPO
export PYTHONPATH="$SMOLGP_REPO/src:$here"
export JAX_ENABLE_X64=1 JAX_PLATFORMS=cpu PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false"
# compiling dominates the quick tier: skip LLVM optimisation there (the thorough
# tier runs the code as users compile it)
case "$*" in *thorough*) ;; *) export XLA_FLAGS="$XLA_FLAGS --xla_backend_optimization_level=0" ;; esac
export TF_CPP_MIN_LOG_LEVEL=3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m vlib.main "$@"
