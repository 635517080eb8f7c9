#!/bin/bash
# usage: check.sh CNN [--tier quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYKEOPS_VERBOSE=0
KEOPS_CACHE_FOLDER=$(mktemp -d /tmp/vkeops.XXXXXX) && export KEOPS_CACHE_FOLDER
trap 'rm -rf "$KEOPS_CACHE_FOLDER"' EXIT
cd "$here" || exit 3
/opt/venv/bin/python -m mc.core "$@" 2> >(grep -v KeOps >&2)
exit $?
