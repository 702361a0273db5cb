#!/bin/bash
# Nothing to build: marcel is pure Python, imported from /repo. Check that what the checks need is present.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis
print('hypothesis', hypothesis.__version__, 'python', sys.version.split()[0])
PY
