#!/bin/bash
# check.sh PROPERTY quick|thorough
exec python3 "$(dirname "$0")/lib/run.py" "$1" "${2:-quick}"
