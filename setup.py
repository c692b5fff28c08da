#!/usr/bin/env python3-vt
"""Builds the harnesses once (the checks rebuild by themselves whenever /repo changes)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, run
if __name__ == '__main__':
    t = [k for k, v in build.TARGETS.items() if os.path.exists(os.path.join(build.VERIF, v[0]))]
    run.build_all([(k, v) for k in t for v in ('plain', 'san', 'valgrind')])
    print('built', t)
