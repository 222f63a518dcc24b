#!/bin/sh
# Builds the engine and warms the harness builds (checks rebuild whatever is missing).
cd "$(dirname "$0")" || exit 1
exec python3 check.py --setup
