#!/bin/bash
# Nothing to compile: the checks import /repo/src directly. Verify that the interpreter and the tree are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__, 'scipy', scipy.__version__)"
