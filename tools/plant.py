#!/usr/bin/env python3
"""tools/plant.py SPEC.py...: builds /verif/seeded/<id>/ from a specification and evaluates it
(stable tests, demonstration with and without the change, check of the property) in a scratch copy of /repo.
tools/plant.py --eval [ID...]: evaluates the bugs already planted (all by default) -> table of the checks that catch them."""
import os, sys, json, shutil, subprocess, tempfile, runpy, concurrent.futures as cf
V = '/verif'
TESTS = ["test_add", "test_add_exact", "test_construction", "test_inv_lowtr", "test_mul", "test_mul_exact", "test_sub", "test_to_numpy"]
HEADER = '''import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd(), os.path.join(H, 'stubs')]
import warnings
warnings.simplefilter('ignore')
'''
def sh(cmd, **kw):
	return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy_repo(tmp):
	d = os.path.join(tmp, 'repo')
	sh(['cp', '-a', '/repo', d])
	return d

def build(spec):
	S = runpy.run_path(spec)
	for b in S['BUGS']:
		d = os.path.join(V, 'seeded', b['id'])
		shutil.rmtree(d, ignore_errors=True)
		os.makedirs(d)
		tmp = tempfile.mkdtemp(prefix='plant-')
		try:
			r = copy_repo(tmp)
			for f, old, new in b['edits']:
				p = os.path.join(r, f)
				s = open(p, encoding='utf-8').read()
				assert s.count(old) == 1, "%s: %d occurrences of %r" % (b['id'], s.count(old), old)
				open(p, 'w', encoding='utf-8').write(s.replace(old, new))
			diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
			open(os.path.join(d, 'patch.diff'), 'w').write(diff)
		finally:
			shutil.rmtree(tmp)
		open(os.path.join(d, 'demo.py'), 'w').write(HEADER + b['demo'])
		open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
		os.chmod(os.path.join(d, 'demo.sh'), 0o755)
		shutil.copytree(V + '/stubs', d + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
		json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
		for f, old, new in b['edits']:
			# (the lines changed should be lines of the original repository)
			src = open('/repo/' + f, encoding='utf-8').read()
			a = src[:src.index(old)].count('\n') + 1
			bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (a, a + max(0, old.rstrip('\n').count('\n'))), '--', f], capture_output=True, text=True, errors='replace').stdout
			if not any(l.startswith(('^', '2b2efea')) for l in bl.splitlines()):
				print(b['id'], 'EDITS A LINE OF OUR OWN:', f, a, bl.strip()[:150])
		print(evaluate(b['id']), flush=True)

def evaluate(bid, extra=()):
	d = os.path.join(V, 'seeded', bid)
	meta = json.load(open(d + '/meta.json'))
	tmp = tempfile.mkdtemp(prefix='plant-')
	out = [bid, meta['property']]
	try:
		r = copy_repo(tmp)
		env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
		a = sh(['bash', d + '/demo.sh'], cwd=r, env=env)
		if a.returncode != 0:
			out.append('DEMO FAILS ON THE UNCHANGED TREE: ' + a.stdout[-400:])
		x = sh(['git', '-C', r, 'apply', d + '/patch.diff'])
		if x.returncode:
			return ' '.join(out + ['PATCH DOES NOT APPLY ' + x.stdout])
		b = sh(['bash', d + '/demo.sh'], cwd=r, env=env)
		if b.returncode == 0:
			out.append('DEMO PASSES WITH THE CHANGE')
		t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'fixif/func_aux/test/test_MPFmatrix.py', '-k', ' or '.join(TESTS)], cwd=r, env=dict(env, PYTHONPATH=r, PYTHONHASHSEED='0'))
		if 'failed' in t.stdout and 'test_to_sollya' not in t.stdout or ' passed' not in t.stdout:
			out.append('TESTS: ' + t.stdout[-300:])
		for pid in [meta['property']] + list(extra):
			c = sh([V + '/check', pid, '--no-evidence'], cwd=V, env=dict(os.environ, FIXIF_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_JOBS=os.environ.get('VERIF_JOBS', '4')))
			caught = c.returncode == 1 and 'VIOLATION property=%s' % pid in c.stdout
			msg = [l for l in c.stdout.splitlines() if 'VIOLATION' not in l and 'KNOWN' not in l and ' cases,' not in l]
			out.append('%s:%s' % (pid, 'caught' if caught else 'MISSED (rc %d)' % c.returncode) + (' [%s]' % msg[0][:160] if msg and caught else ''))
	finally:
		shutil.rmtree(tmp)
	return ' '.join(out)

def trial(b):
	"""only the check of the property (or the checks b['checks']) against the change, without demonstration"""
	tmp = tempfile.mkdtemp(prefix='plant-')
	out = [b['id']]
	try:
		r = copy_repo(tmp)
		for f, old, new in b['edits']:
			p = os.path.join(r, f)
			s = open(p, encoding='utf-8').read()
			if s.count(old) != 1:
				return "%s: %d occurrences of %r" % (b['id'], s.count(old), old)
			open(p, 'w', encoding='utf-8').write(s.replace(old, new))
		for pid in b.get('checks', [b.get('property', b['id'][:3])]):
			c = sh([V + '/check', pid, '--no-evidence'], cwd=V, env=dict(os.environ, FIXIF_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_JOBS='3', VERIF_SHRINK='0'))
			caught = c.returncode == 1 and 'VIOLATION property=%s' % pid in c.stdout
			msg = [l for l in c.stdout.splitlines() if 'VIOLATION' not in l and 'KNOWN' not in l and ' cases,' not in l]
			out.append('%s:%s' % (pid, 'caught' if caught else '##### MISSED (rc %d)' % c.returncode) + (' [%s]' % msg[0][:140] if msg else ''))
	finally:
		shutil.rmtree(tmp)
	return ' '.join(out)

if __name__ == '__main__':
	if sys.argv[1] == '--eval':
		ids = sys.argv[2:] or sorted(x for x in os.listdir(V + '/seeded') if os.path.isdir(V + '/seeded/' + x))
		os.environ['VERIF_JOBS'] = '2'
		with cf.ThreadPoolExecutor(4) as ex:
			for r in ex.map(evaluate, ids):
				print(r, flush=True)
	elif sys.argv[1] == '--try':
		with cf.ThreadPoolExecutor(3) as ex:
			for r in ex.map(trial, [b for s in sys.argv[2:] for b in runpy.run_path(s)['BUGS']]):
				print(r, flush=True)
	else:
		for s in sys.argv[1:]:
			build(s)
