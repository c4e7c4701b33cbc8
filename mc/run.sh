#!/bin/bash
# mc/run.sh <check> [args]: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
exec /usr/bin/env python3 "$(pwd)/$1.py" "${@:2}"
