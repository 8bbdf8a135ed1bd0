#!/bin/sh
# check.sh <property> [args]: run one check from /verif
cd "$(dirname "$0")" && exec python3-vt engine/check.py "$@"
