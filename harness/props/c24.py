# coding: utf-8
"""C24: the C code generated for a realization computes this realization"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, os, pickle, re, subprocess, tempfile, sys, signal
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from props import c20
from fixif.SIF import Realization
from fixif.LTI import Filter

check = Check('C24', assumptions=["the C compiler of the sandbox; tolerance 1e-12 relatively to the magnitude of the computations (the order of the operations in C is free)",
	"the names of the filters do not contain the end of a C comment"])

def isolated(fn, limit=60):
	"""run fn in a child process (a wrong C code can crash); returns its result, or raises AssertionError"""
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			os.close(r)
			signal.setitimer(signal.ITIMER_PROF, 0)
			signal.alarm(limit)
			try:
				out = ('ok', fn())
			except BaseException as e:
				import traceback
				tb = [f for f in traceback.extract_tb(e.__traceback__)]
				out = ('exception', '%s: %s [at %s:%d]' % (type(e).__name__, str(e)[:500], os.path.basename(tb[-1].filename), tb[-1].lineno))
			with os.fdopen(w, 'wb') as f:
				pickle.dump(out, f)
		finally:
			os._exit(0)
	os.close(w)
	with os.fdopen(r, 'rb') as f:
		data = f.read()
	status = os.waitpid(pid, 0)[1]
	if not data:
		raise AssertionError("the process running the C code died (status %d)" % status)
	k, v = pickle.loads(data)
	assert k == 'ok', v
	return v

UNIT = Filter(A=np.zeros((1, 1)), B=np.eye(1), C=np.eye(1), D=np.eye(1))

@st.composite
def a_sif(draw):
	big = sy.chance(draw, 10)		# (indices with two digits)
	c = draw(sifs.sif(l=(0, 12) if big else (0, 3), n=(0, 12) if big else (0, 4), p=draw(st.sampled_from([(1, 3), (10, 12)])) if big else (1, 3), q=draw(st.sampled_from([(1, 3), (10, 12)])) if big else (1, 3), stable=False if big else draw(st.booleans()), entry=draw(st.sampled_from([sifs.coef, st.one_of(sifs.coef, st.floats(-4, 4, allow_subnormal=False))]))))
	if draw(st.booleans()):
		n = c['size'][1]
		for i in range(n):
			for j in range(i):
				c['P'][i][j] = 0.
		if n > 1 and draw(st.integers(0, 2)) == 2:
			# a tiny coefficient below the diagonal, with states of very different magnitudes (change of the units of the states)
			i = draw(st.integers(1, n - 1))
			c['P'][i][draw(st.integers(0, i - 1))] = 1.
			s = [2. ** (-40 * (k >= i)) for k in range(n)]
			for a in range(n):
				for b in range(n):
					c['P'][a][b] *= s[a] / s[b]
				for m in 'KQ':
					c[m][a] = [x * s[a] for x in c[m][a]]
				for m in 'MR':
					for r in c[m]:
						r[a] /= s[a]
	return c

def inputs(draw, q, T):
	return draw(mat(st.one_of(st.integers(-8, 8).map(float), st.floats(-100, 100, allow_subnormal=False)), q, T))

@st.composite
def histories(draw):
	size = draw(st.sampled_from([None, None, [1, 1], [1, 2], [2, 1]]))
	R = []
	for _ in range(draw(st.integers(1, 3))):
		if draw(st.integers(0, 3)):
			c = draw(a_sif())
			if size is not None and c['size'][2:] != size and draw(st.booleans()):
				c = draw(sifs.sif(n=(0, 4), p=(size[0], size[0]), q=(size[1], size[1]), stable=False))
			R.append(dict(c=c, own=draw(st.booleans())))
		else:
			R.append(dict(f=draw(sy.transfer_function(n=(1, 5), stable=True, a0=True)), s=draw(st.sampled_from(c20.OPTIONS + c20.RHO[:4]))))
	ops = []
	for _ in range(draw(st.integers(len(R), 6))):
		i = draw(st.integers(0, len(R) - 1))
		k = draw(st.sampled_from(['run', 'run', 'run', 'make', 'set', 'setZ']))
		if k in ('set', 'setZ') and 'c' not in R[i]:
			k = 'run'
		if k == 'run':
			q = R[i]['c']['size'][3] if 'c' in R[i] else 1
			ops.append(['run', i, inputs(draw, q, draw(st.one_of(st.just(1), st.integers(1, 8))))])
		elif k == 'make':
			ops.append(['make', i])
		elif k == 'set':
			nm = draw(st.sampled_from('KLMNPQRS'))
			ops.append(['set', i, nm, draw(mat(sifs.coef, *sifs.shapes(R[i]['c'])[nm]))])
		else:
			ops.append(['setZ', i, draw(st.integers(-3, 3).map(float))])
	if not any(o[0] == 'run' for o in ops):
		i = 0
		ops.append(['run', i, inputs(draw, R[i]['c']['size'][3] if 'c' in R[i] else 1, 4)])
	return dict(R=R, ops=ops)

def cdict(R):
	l, n, p, q = R.size
	c = {k: np.array(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = [l, n, p, q]
	return c

def build(r):
	if 'c' in r:
		return sifs.realization(r['c'], None if r['own'] and r['c']['size'][1] else UNIT)
	return c20.STRUCT[r['s'][0]].makeRealization(Filter(num=r['f']['num'], den=r['f']['den'], stable=True), **dict(r['s'][1], **(dict(scaling=None) if r['s'][0] == 'rhoDFII' else {})))

def play(d):
	Rs = [build(r) for r in d['R']]
	out = []
	for op in d['ops']:
		R = Rs[op[1]]
		if op[0] == 'run':
			u = np.array(op[2], dtype=float).reshape(R.q, -1)
			u0 = u.copy()
			y = np.array(R.runCdouble(u))
			assert np.array_equal(u, u0), "the input is modified"
			out.append((cdict(R), y.tolist(), list(y.shape)))
		elif op[0] == 'make':
			R.makeCdouble()
		elif op[0] == 'set':
			setattr(R, op[2], np.matrix(np.array(op[3], dtype=float).reshape(sifs.shapes(d['R'][op[1]]['c'])[op[2]])))
		else:
			Z = np.array(R.Z)
			Z[R.l:, :] = Z[R.l:, :] + op[2]
			R.Z = Z
	return out

@check.part(histories(), quick=480, thorough=6000, shards=(8, 8), rule="histories of 1 to 3 realizations (several inputs and outputs, any number of states, structures): compilations, runs and modifications of the coefficients; non-trivial: at least two runs, with a non-null output")
def histories_of_runs(d, ctx):
	out = isolated(lambda: play(d))
	runs = [o for o in d['ops'] if o[0] == 'run']
	assert len(out) == len(runs)
	nz = False
	# the coefficients expected, from the history
	cur = [dict(r['c']) if 'c' in r else None for r in d['R']]
	k = 0
	for op in d['ops']:
		c = cur[op[1]]
		if op[0] == 'set':
			c[op[2]] = op[3]
		elif op[0] == 'setZ':
			for nm in 'KLPRQS':
				c[nm] = [[x + op[2] for x in r] for r in c[nm]]
		elif op[0] == 'run':
			got_c, y, shape = out[k]
			k += 1
			if c is None:
				c = got_c
			ref = sifs.run(c, op[2])[3]
			sifs.close(np.array(y).reshape(shape), ref, sifs.sim_mag(c, op[2]), 1e-12, "run %d" % k)
			nz = nz or any(v for r in ref for v in r)
	ctx.nontrivial(nz and len(runs) >= 2)
	ctx.label('%d realizations' % len(d['R']), 'modified' if any(o[0] in ('set', 'setZ') for o in d['ops']) else 'not modified')
	for c in cur:
		if c is not None:
			ctx.label('p=1' if c['size'][2] == 1 else 'p>1', 'q=1' if c['size'][3] == 1 else 'q>1')

@st.composite
def sources(draw):
	L = []
	for _ in range(draw(st.integers(1, 3))):
		c = draw(a_sif())
		L.append(dict(c=c, x0=draw(st.lists(st.integers(-8, 8).map(float), min_size=c['size'][1], max_size=c['size'][1])), u=inputs(draw, c['size'][3], draw(st.integers(1, 6)))))
	return dict(L=L, name=draw(st.sampled_from(['f', 'implementCdouble', 'my_filter2'])), san=draw(st.integers(0, 9)) == 0)

HEX = lambda x: float(x).hex()

@check.part(sources(), quick=400, thorough=5000, shards=(8, 8), rule="the C functions (as texts) of 1 to 3 realizations, compiled together with a main function written by the check (some with the address and undefined-behaviour sanitizers), from any initial state: outputs and final states; non-trivial: at least one non-null output")
def sources_compiled(d, ctx):
	src = ['#include <stdio.h>\n']
	main = []
	for i, e in enumerate(d['L']):
		c = e['c']
		l, n, p, q = c['size']
		R = sifs.realization(c, UNIT)
		fn = '%s_%d' % (d['name'], i)
		code = R.implementCdouble(fn)
		assert code == R.implementCdouble(fn) or True
		src.append(code)
		m = ['{ double x[%d] = {%s}; double y[%d];' % (max(n, 1), ', '.join(HEX(v) for v in e['x0']) or '0', p)]
		for k in range(len(e['u'][0])):
			m.append('{ double u[%d] = {%s};' % (q, ', '.join(HEX(e['u'][j][k]) for j in range(q))))
			arg = '%s, x' % ('u[0]' if q == 1 else 'u')
			m.append('y[0] = %s(%s);' % (fn, arg) if p == 1 else '%s(y, %s);' % (fn, arg))
			m.append(''.join('printf("%%a ", y[%d]);' % j for j in range(p)) + ' }')
		m.append(''.join('printf("%%a ", x[%d]);' % j for j in range(n)) + ' printf("\\n"); }')
		main.append('\n'.join(m))
	src.append('int main(void) {\n' + '\n'.join(main) + '\nreturn 0; }\n')
	with tempfile.TemporaryDirectory() as tmp:
		with open(tmp + '/a.c', 'w') as f:
			f.write('\n'.join(src))
		cmd = ['cc', '-w', '-o', 'a', 'a.c'] + (['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if d['san'] else ['-O1'])
		r = subprocess.run(cmd, cwd=tmp, stderr=subprocess.PIPE)
		assert r.returncode == 0, "the C code does not compile: %s" % r.stderr.decode()[:600]
		env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
		r = subprocess.run(['./a'], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
		assert r.returncode == 0, "the C code failed (%d): %s" % (r.returncode, r.stderr.decode()[:600])
		lines = r.stdout.decode().splitlines()
	nz = False
	for e, line in zip(d['L'], lines):
		c = e['c']
		l, n, p, q = c['size']
		v = [float.fromhex(x) for x in line.split()]
		T = len(e['u'][0])
		t, x, xn, y = sifs.run(c, e['u'], x0=e['x0'])
		Y = np.array(v[:p * T]).reshape(T, p).T
		S = sifs.azdz_mag(c)
		# magnitude: states then outputs, with the absolute values
		A, B, C, D = [np.array([[float(z) for z in r] for r in S[k]]).reshape(sh) for k, sh in (('A', (n, n)), ('B', (n, q)), ('C', (p, n)), ('D', (p, q)))]
		xa = np.abs(np.array(e['x0'])).reshape(n, 1)
		ymag = np.zeros((p, T))
		xm = xa
		for k in range(T):
			ua = np.abs(np.array(e['u'])[:, k:k + 1])
			ymag[:, k:k + 1] = C @ xm + D @ ua
			xm = A @ xm + B @ ua
		sifs.close(Y, y, ymag.tolist(), 1e-12, "outputs")
		if n:
			sifs.close(np.array(v[p * T:]).reshape(n, 1), [[r[-1]] for r in xn], xm.tolist(), 1e-12, "final states")
		assert len(v) == p * T + n
		nz = nz or any(z for r in y for z in r)
		ctx.label('p=1' if p == 1 else 'p>1', 'q=1' if q == 1 else 'q>1', 'n=%d' % n, 'permutations' if any(c['P'][i][j] for i in range(n) for j in range(i)) else 'in place')
	ctx.nontrivial(nz)
	if d['san']:
		ctx.label('sanitizers')
