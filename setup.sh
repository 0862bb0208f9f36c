#!/usr/bin/env bash
# Nothing to compile: the checks run the Python code of /repo directly. Only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B -c "import sys, numpy, torch; assert sys.version_info >= (3, 12)"
mkdir -p evidence replays
echo ok
