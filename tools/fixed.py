#!/usr/bin/env python3
"""tools/fixed.py MAP: appends to known_findings.txt the "fixed:" lines of the commits listed in MAP (lines: hash property)"""
import subprocess, sys
K = '/verif/known_findings.txt'
done = open(K).read()
with open(K, 'a') as f:
	for line in open(sys.argv[1]):
		h, pid = line.split()
		if h in done:
			continue
		s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], text=True).strip()
		f.write('fixed: property=%s %s %s\n' % (pid, h, s[5:]))
