#!/bin/bash
# Run once: builds the extensions and checks that everything needed is there.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec "$PY" run.py --setup
