#!/bin/bash
# Nothing has to be built; makes sure that the interpreter and the harness are usable.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path[:0] = ['/repo', '.']
import numpy, scipy, pandas, yaml
import harness.core, harness.gen, harness.hist, harness.odes
import plaschem.chemistry, pygmo_fwork.pygmol.equations
print('harness ready: python', sys.version.split()[0], 'pandas', pandas.__version__)
P
