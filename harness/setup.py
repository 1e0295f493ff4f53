#!/usr/bin/env python3
"""Check the machinery itself: the Java accelerators agree with the TLA+ definitions they replace, and every module parses."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
vp.classes()
r = vp.tlc('FixTest', workers=8, timeout=900)
print('FixTest', 'ok' if r.ok else r.out[-2000:], '%.0fs' % r.wall)
sys.exit(0 if r.ok else 1)
