#!/bin/sh
# Builds the MIR facts driver and the dependencies' metadata; extracts the facts of /repo once.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3 rules/facts.py || exit 1
