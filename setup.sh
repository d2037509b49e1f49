#!/bin/bash
# Checks that the tools the checks use are there; nothing is built.
set -e
cd "$(dirname "$(readlink -f "$0")")"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import cryptography'
mkdir -p work evidence
