#!/bin/bash
# Nothing to compile: checks are Python and build the C side they need on each run.
cd "$(dirname "$0")" || exit 1
command -v gcc >/dev/null || { echo "gcc missing"; exit 1; }
/opt/venv/bin/python -c 'import pyparsing' || exit 1
mkdir -p evidence
echo ok
