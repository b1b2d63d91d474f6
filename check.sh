#!/bin/bash
# Usage: check.sh <property> [--tier quick|thorough] [--replay FILE] ...
# Rebuilds the Cython extensions of /repo if needed and runs one property check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec "$PY" run.py "$@"
