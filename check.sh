#!/bin/bash
# check.sh PROPERTY [--replay FILE]. Environment: VERIF_SEED, VERIF_TIER.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8
exec /opt/venv/bin/python harness/driver.py "$@"
