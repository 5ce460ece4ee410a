#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: decide one property of /repo by static analysis."""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    importlib.import_module(pid.lower()).main()
