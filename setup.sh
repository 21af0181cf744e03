#!/bin/bash
# Nothing to build: the checks are Python. Verify that what they need is there and that svgio imports from /repo.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
python3-vt -c "
import hypothesis, numpy, scipy.integrate, scipy.special
from vf import core
core.no_bytecode_import()
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'ready')
"
