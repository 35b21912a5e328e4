#!/bin/bash
# check.sh PROPERTY quick|thorough: rebuild from /repo's working tree, then search
cd "$(dirname "$0")" || exit 3
ulimit -c 0
python3 build.py >build.log 2>&1 || { cat build.log >&2; exit 3; }
exec build/simrun check "$1" "$2"
