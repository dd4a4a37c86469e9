#!/bin/bash
# Nothing to build: TLC, Java and the Python environment are pre-installed. Fails if something needed is missing.
cd "$(dirname "$0")" || exit 1
set -e
test -r /opt/veriftools/tla/tla2tools.jar && test -r /opt/veriftools/tla/CommunityModules-deps.jar
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import at, numpy, pySC'
mkdir -p evidence
