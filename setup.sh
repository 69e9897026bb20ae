#!/bin/bash
# Nothing is compiled: the framework is plain Python run by the interpreter coax is installed in.
# Fail early if the environment cannot run it.
cd "$(dirname "$0")" || exit 1
. ./env.sh
/opt/venv/bin/python - <<'PY' || exit 1
import sys
sys.path.insert(0, '/repo')
import coax, jax, numpy
assert coax.__file__.startswith('/repo/'), coax.__file__
print('coax', coax.__version__, 'jax', jax.__version__, 'numpy', numpy.__version__)
PY
