#!/bin/bash
# all checks, one after another: tools/all.sh SEED
cd "$(dirname "$0")/.."
for f in checks/[A-Z]*.py; do id=$(basename $f .py); VERIF_SEED=${1:-1} PP_OUT=${PP_OUT:-/tmp/w/all} /opt/venv/bin/python run.py $id 2>&1 | cut -c1-700 | tail -${2:-4} | grep -v "^$"; done
