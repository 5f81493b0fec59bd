#!/usr/bin/env python3
"""Builds the drivers and the programs once (the checks build again what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from checks_flow import EXES
drivers = [f[:-4] for f in sorted(os.listdir(vp.HARN)) if f.startswith('drv_') and f.endswith('.cpp')]
vp.build(drivers + [d + '.plain' for d in drivers] + list(EXES))
print('built')
