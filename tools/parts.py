#!/usr/bin/env python3
"""lists the parts of all the checks (for DESIGN.md)"""
import sys, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('FIXIF_REPO', '/repo')
sys.path[:0] = [R, V + '/harness', V + '/stubs', V + '/vendor']
import warnings
warnings.simplefilter('ignore')
import core
for f in sorted(glob.glob(V + '/harness/props/c*.py')):
	c = core.load_check(os.path.basename(f)[:-3])
	for p in c.parts:
		print('| %s | %s | %s | %d / %d |' % (c.pid if hasattr(c, 'pid') else os.path.basename(f)[:-3].upper(), p.name, p.rule, p.n['quick'], p.n['thorough']))
	for k, what, _ in c.probes:
		print('| %s | probe %s | %s | 1 |' % (os.path.basename(f)[:-3].upper(), k, what))
