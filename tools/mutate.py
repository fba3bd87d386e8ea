#!/usr/bin/env python3
"""
Small automatic changes of the code (one operator, constant, condition, statement...), and the checks that report them.
usage: mutate.py OUT [--n N] [--seed S] [--files PATTERN] [--workers W] [--scale F]
Each line of OUT: CAUGHT/SURVIVED/INVALID file:line kind "old" -> "new" [checks]. Works on copies (under /tmp/mut, removed).
"""
import ast, sys, os, re, random, subprocess, shutil, argparse, fnmatch, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, L, S, T = 'fixif/func_aux/', 'fixif/LTI/', 'fixif/SIF/', 'fixif/Structures/'
CHECKS = [(A + 'MPFMatrix.py', 'C01 C02 C03 C05'), (A + 'MatlabHelper.py', 'C14 C20'), (A + 'mpf_matrix_f*', 'C01 C10'), (A + 'mpf_matrix_lt*', 'C02'), (A + 'mp*_poly*', 'C04 C11'), (A + 'mpf_poly*', 'C04 C11'), (A + '*', 'C03 C04 C05'),
	(L + 'dTF.py', 'C06 C07 C12 C30 C29'), (L + 'dSS.py', 'C08 C09 C07 C12'), (L + 'dTFmp.py', 'C11 C07 C12 C29'), (L + 'dSSmp.py', 'C10 C11 C07'), (L + 'Filter.py', 'C12'), (L + 'Butter.py', 'C13 C12'), (L + 'Elliptic.py', 'C13 C12'), (L + 'Gabarit.py', 'C14 C29 C30'),
	(S + 'SIF.py', 'C15 C16 C17 C19'), (S + 'SIF_sens*', 'C18 C16'), (S + 'SIF_tilde*', 'C27'), (S + 'Realization.py', 'C20 C27 C23 C24'), (S + 'Realization_alg*', 'C23'), (S + 'Realization_impl*', 'C24'), (S + 'Realization_FxP.py', 'C26'),
	(T + 'Simulink/*', 'C28'), (T + 'rho*', 'C22 C20'), (T + 'Structure.py', 'C31 C20'), (T + 'LWDF/*', 'C20'), (T + '*', 'C20 C31'), ('fixif/SoP/*', 'C25 C23')]
SKIP = ['*/test/*', '*/__init__.py', '*Nastia*', '*/config.py', '*_print.py', '*/templates/*']

def swap(node):
	c = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
	b = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '*', ast.Mod: '*'}
	return c.get(type(node)) or b.get(type(node))

def mutants(path):
	src = open(path, 'rb').read()
	tree = ast.parse(src)
	lines = [0]
	for l in src.split(b'\n'):
		lines.append(lines[-1] + len(l) + 1)
	pos = lambda n: (lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset)
	out = []
	def add(kind, a, b, new):
		out.append((kind, a, b, new))
	def text(n):
		a, b = pos(n)
		return src[a:b].decode()
	main = [pos(n) for n in tree.body if isinstance(n, ast.If) and '__main__' in text(n)]
	docs = [pos(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)]
	for n in ast.walk(tree):
		if not hasattr(n, 'lineno'):
			continue
		a, b = pos(n)
		if isinstance(n, ast.Compare) and len(n.ops) == 1 and swap(n.ops[0]):
			l, r = pos(n.left)[1], pos(n.comparators[0])[0]
			op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[type(n.ops[0])]
			t = src[l:r].decode()
			if op in t:
				add('compare', l, r, t.replace(op, swap(n.ops[0]), 1))
		elif isinstance(n, ast.BinOp) and swap(n.op) and not isinstance(n.left, ast.Constant | ast.JoinedStr if False else ast.JoinedStr):
			if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
				continue
			l, r = pos(n.left)[1], pos(n.right)[0]
			op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
			t = src[l:r].decode()
			if t.count(op) == 1 or op == '**':
				add('arith', l, r, t.replace(op, swap(n.op), 1))
		elif isinstance(n, ast.Constant):
			if n.value is True or n.value is False:
				add('bool', a, b, str(not n.value))
			elif isinstance(n.value, int):
				add('const', a, b, str(n.value + 1))
				if n.value > 0:
					add('const', a, b, str(n.value - 1))
			elif isinstance(n.value, float):
				add('const', a, b, repr(n.value * 2 + (1. if n.value == 0 else 0)))
		elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
			add('unary', a, b, '(' + text(n.operand) + ')')
		elif isinstance(n, ast.BoolOp):
			l, r = pos(n.values[0])[1], pos(n.values[1])[0]
			t = src[l:r].decode()
			x, y = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
			if x in t:
				add('boolop', l, r, t.replace(x, y, 1))
		elif isinstance(n, (ast.If, ast.IfExp)):
			for v in ('True', 'False'):
				add('cond', *pos(n.test), v)
		elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
			add('delete', a, b, 'pass')
		elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
			add('delete', a, b, 'pass')
		elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
			add('delete', a, b, 'pass')
		elif isinstance(n, ast.Call):
			if isinstance(n.func, ast.Attribute) and n.func.attr in ('transpose', 'copy', 'flatten') and not n.args:
				add('call', a, b, text(n.func.value))
			elif isinstance(n.func, ast.Name) and n.func.id in ('abs', 'deepcopy', 'float', 'matrix', 'mat', 'sorted', 'list', 'reversed', 'real') and len(n.args) == 1:
				add('call', a, b, '(' + text(n.args[0]) + ')')
			if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
				(p, q), (r, s) = pos(n.args[0]), pos(n.args[1])
				if src[p:q] != src[r:s]:
					add('swapargs', p, s, (src[r:s] + src[q:r] + src[p:q]).decode())
		elif isinstance(n, ast.Attribute) and n.attr == 'T':
			add('call', a, b, text(n.value))
		if isinstance(n, ast.Attribute) and n.attr in '_n _l _p _q n l p q rows cols'.split() and isinstance(n.ctx, ast.Load):
			o = {'n': 'p', 'p': 'n', 'q': 'p', 'l': 'n', 'rows': 'cols', 'cols': 'rows'}[n.attr.strip('_')]
			add('dim', a, b, text(n.value) + '.' + n.attr.replace(n.attr.strip('_'), o))
	res = []
	for kind, a, b, new in out:
		if any(x <= a and b <= y for x, y in main + docs) or src[a:b].decode() == new:
			continue
		line = src[src.rfind(b'\n', 0, a) + 1:src.find(b'\n', a)].decode()
		if line.strip().startswith(('print', 'import', 'from', 'assert')):
			continue
		res.append((kind, a, b, new))
	return src, res

def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('out')
	ap.add_argument('--n', type=int, default=100)
	ap.add_argument('--seed', type=int, default=0)
	ap.add_argument('--files', default='*')
	ap.add_argument('--workers', type=int, default=4)
	ap.add_argument('--scale', default='0.4')
	ap.add_argument('--only')		# "file:line,..." 
	a = ap.parse_args()
	todo = []
	for d, _, fs in os.walk('/repo/fixif'):
		for f in fs:
			p = os.path.relpath(os.path.join(d, f), '/repo')
			if p.endswith('.py') and not any(fnmatch.fnmatch(p, s) for s in SKIP) and fnmatch.fnmatch(p, a.files):
				src, m = mutants('/repo/' + p)
				todo += [(p,) + x for x in m]
	todo.sort()
	print(len(todo), 'possible changes')
	random.Random(a.seed).shuffle(todo)
	todo = todo[:a.n]
	q = queue.Queue()
	for t in todo:
		q.put(t)
	lock = threading.Lock()
	done = set()
	if os.path.exists(a.out):
		done = set(l.split(' ', 1)[1].split(' [')[0].strip() for l in open(a.out) if ' ' in l)
	out = open(a.out, 'a')
	def work(i):
		W = '/tmp/mut/%s-%d' % (os.path.basename(a.out), i)
		shutil.rmtree(W, ignore_errors=True)
		shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('.git', '__pycache__', 'test'))
		while True:
			try:
				p, kind, x, y, new = q.get_nowait()
			except queue.Empty:
				break
			src = open('/repo/' + p, 'rb').read()
			lineno = src[:x].count(b'\n') + 1
			line = src[src.rfind(b'\n', 0, x) + 1:src.find(b'\n', x)].decode().strip()
			desc = '%s:%d %s %r -> %r | %s' % (p, lineno, kind, src[x:y].decode()[:80], new[:80], line[:110])
			if desc in done:
				continue
			res, hist = 'SURVIVED', []
			try:
				mut = src[:x] + new.encode() + src[y:]
				compile(mut, p, 'exec')
			except SyntaxError:
				res = 'INVALID'
			else:
				open(W + '/' + p, 'wb').write(mut)
				for c in next(v for k, v in CHECKS if fnmatch.fnmatch(p, k)).split():
					env = dict(os.environ, FIXIF_REPO=W, VERIF_JOBS='2', VERIF_SHRINK='0', VERIF_CASE_CPU='20', PYTHONDONTWRITEBYTECODE='1')
					try:
						r = subprocess.run([V + '/check', c, '--scale', a.scale, '--no-evidence'], env=env, capture_output=True, text=True, timeout=400)
						rc = r.returncode
					except subprocess.TimeoutExpired:
						rc = 'timeout'
					hist.append('%s:%s' % (c, rc))
					if rc != 0:
						res = 'CAUGHT'
						if rc not in (1, 'timeout'):
							res = 'ERROR'
							hist.append((r.stdout + r.stderr)[-200:].replace('\n', ' '))
						break
				open(W + '/' + p, 'wb').write(src)
			with lock:
				out.write('%s %s [%s]\n' % (res, desc, ' '.join(hist)))
				out.flush()
		shutil.rmtree(W, ignore_errors=True)
	ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
	[t.start() for t in ts]
	[t.join() for t in ts]

main()
