#!/usr/bin/env python3
# coding: utf-8
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing; both results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(pid, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None, na=None):
	P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or []), technique=technique, note=note, na=na))

exec(open(os.path.join(V, 'tools', 'properties_table.py'), encoding='utf-8').read())

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
	for p in P:
		assert len(p['title']) <= 80, p['title']
		d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
		f.write(json.dumps(d, ensure_ascii=False) + '\n')
		built = os.path.exists(os.path.join(V, 'harness', 'props', p['id'].lower() + '.py'))
		if built and not p['na']:
			checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
				evidence_file='evidence/%s.json' % p['id'], technique=p['technique'] or 'property-based testing (Hypothesis) against a reference model',
				level='exploration', level_note=p['note'] or 'Generated-input search, no proof of absence; bounds and generators in DESIGN.md.'))
		else:
			na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
	notes='No hooks in /repo. ./check ID --replay FILE replays a shrunk failure without the search; known_findings.txt lists the genuine defects (repaired or not).'),
	open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(P), 'properties,', len(checks), 'checks')
