#!/usr/bin/env python3
"""updates the generated tables of DESIGN.md (parts of the checks; planted bugs, from tools/catch.txt = output of tools/plant.py --eval)"""
import os, re, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = subprocess.check_output(['/opt/venv/bin/python', V + '/tools/parts.py'], text=True)
s = open(V + '/DESIGN.md', encoding='utf-8').read()
def sub(name, text):
	global s
	a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
	i, j = s.index(a) + len(a), s.index(b)
	s = s[:i] + '\n' + text + s[j:]
sub('parts', '| property | part | rule | cases |\n|---|---|---|---|\n' + parts)
rows = ''
res = {}
if os.path.exists(V + '/tools/catch.txt'):
	for l in open(V + '/tools/catch.txt', encoding='utf-8'):
		f = l.split(None, 2)
		if len(f) == 3:
			res[f[0]] = f[2].strip().replace('|', '/')
for b in sorted(os.listdir(V + '/seeded')):
	m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
	rows += '| %s | %s | %s | %s |\n' % (b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), res.get(b, '?')[:140])
sub('seeded', '| bug | breaks | needs | result |\n|---|---|---|---|\n' + rows)
open(V + '/DESIGN.md', 'w', encoding='utf-8').write(s)
