#!/opt/venv/bin/python
"""usage: run_check.py <property> [--tier quick|thorough] [--seed N] | --replay FILE"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kvp import boot  # noqa: E402,F401  (environment and import paths)
from kvp import harness  # noqa: E402
if __name__ == '__main__':
    sys.exit(harness.main())
