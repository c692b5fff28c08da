#!/usr/bin/env python3-vt
"""check.py <property> : runs the monitors of one property (VERIF_TIER quick|thorough, VERIF_SEED)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
import checks  # noqa: registers
if __name__ == '__main__':
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
        args.remove('--thorough')
    if '--quick' in args:
        tier = 'quick'
        args.remove('--quick')
    sys.exit(core.main(args[0], tier, int(os.environ.get('VERIF_SEED', '1'))))
