#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]: decides one property of /repo's working tree by simulation (see DESIGN.md)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from sim import checks, core
if __name__ == '__main__':
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    sys.exit(core.main(checks.get(sys.argv[1]), sys.argv[2:]))
