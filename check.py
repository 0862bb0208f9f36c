#!/opt/venv/bin/python
"""CLI: check.py run C01 | replay FILE [--log] | determinism C01 | worker ... | minimise ..."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner  # noqa

if __name__ == "__main__":
    runner.main()
