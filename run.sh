#!/bin/bash
# usage: run.sh <property id> [--replay FILE];  VERIF_TIER=quick|thorough, VERIF_SEED=n
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python -X utf8 -W ignore pbt/main.py "$@"
