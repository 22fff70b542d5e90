#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]   (see DESIGN.md)"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness          # noqa: E402

if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1:]))
