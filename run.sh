#!/bin/bash
# run.sh <property> [tier]: one check
cd "$(dirname "$0")" && exec python3 check.py "$1" ${2:+--tier "$2"}
