# coding: utf-8
"""C08: interconnections, sub-systems and simplification of state-spaces"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np
import sys
from fractions import Fraction as F
from oracle import mulF, addF, subF, matF
import systems as sy, slycot_stub
from fixif.LTI import dSS

check = Check('C08', assumptions=["impulse responses are compared on 2n+2 samples (at most 16) with exact rational arithmetic; relative tolerance 1e-11 on the scale of the rounding errors"])

# expressions: ['s', i] | ['+'|'-'|'*', e, e] | ['[]', e, rows, cols]  (rows: int or [start, stop, step])
def idx(size):
	return st.one_of(st.integers(-size, size - 1), st.tuples(st.integers(0, size - 1), st.integers(1, size), st.sampled_from([1, 1, 2])).map(list))

@st.composite
def tree(draw, p, q, depth, pool):
	"""an expression of size p x q; the leaves are appended to the pool"""
	k = draw(st.sampled_from(['s', '+', '-', '*', '[]'] if depth == 2 else ['s', 's', '+', '-', '*', '[]'])) if depth > 0 else 's'
	if k == 's':
		again = [i for i, S in enumerate(pool) if (len(S['D']), len(S['D'][0])) == (p, q)]
		if again and sy.chance(draw, 3):		# the same system used several times
			return ['s', draw(st.sampled_from(again))]
		if sy.chance(draw, 8):		# a static gain
			pool.append(dict(A=[], B=[], C=[[] for _ in range(p)], D=draw(mat(sy.small, p, q)), kind='static'))
		else:
			pool.append(draw(sy.state_space(n=(1, 3), p=(p, p), q=(q, q), stable=False)))
		return ['s', len(pool) - 1]
	if k in '+-':
		return [k, draw(tree(p, q, depth - 1, pool)), draw(tree(p, q, depth - 1, pool))]
	if k == '*':
		m = draw(st.integers(1, 3))
		return ['*', draw(tree(p, m, depth - 1, pool)), draw(tree(m, q, depth - 1, pool))]
	P, Q = draw(st.integers(p, 3)), draw(st.integers(q, 3))
	def sel(size, want):
		if want == 1 and draw(st.booleans()):
			return draw(st.integers(-size, size - 1))
		steps = [s for s in (1, 2) if s * (want - 1) + 1 <= size]
		s = draw(st.sampled_from(steps))
		start = draw(st.integers(0, size - (s * (want - 1) + 1)))
		return [start, start + s * (want - 1) + 1, s]
	return ['[]', draw(tree(P, Q, depth - 1, pool)), sel(P, p), sel(Q, q)]

@st.composite
def expressions(draw):
	pool = []
	p, q = draw(st.integers(1, 3)), draw(st.integers(1, 3))
	e = draw(tree(p, q, 2, pool))
	return dict(e=e, pool=pool)

def index(x):
	return x if isinstance(x, int) else slice(*x)

def pick(M, r, c):
	rows = [M[r]] if isinstance(r, int) else M[slice(*r)]
	return [[row[c]] if isinstance(c, int) else row[slice(*c)] for row in rows]

def conv(h1, h2, mul=mulF, add=addF):
	r = []
	for k in range(len(h1)):
		acc = None
		for i in range(k + 1):
			m = mul(h1[i], h2[k - i])
			acc = m if acc is None else add(acc, m)
		r.append(acc)
	return r

def size_of(e, pool):
	if e[0] == 's':
		return len(pool[e[1]]['A'])
	if e[0] == '[]':
		return size_of(e[1], pool)
	return size_of(e[1], pool) + size_of(e[2], pool)

def ref(e, pool, N):
	"""(exact impulse response, scale)"""
	if e[0] == 's':
		S = pool[e[1]]
		return sy.imp_ss(S, N), [np.array(m) for m in sy.mag_ss(S, N)]
	if e[0] == '[]':
		h, m = ref(e[1], pool, N)
		return [pick(x, e[2], e[3]) for x in h], [np.array(pick(x.tolist(), e[2], e[3])) for x in m]
	(h1, m1), (h2, m2) = ref(e[1], pool, N), ref(e[2], pool, N)
	if e[0] == '*':
		return conv(h1, h2), conv(m1, m2, np.dot, np.add)
	f = addF if e[0] == '+' else subF
	return [f(a, b) for a, b in zip(h1, h2)], [a + b for a, b in zip(m1, m2)]

def run(e, pool):
	if e[0] == 's':
		return pool[e[1]]
	if e[0] == '[]':
		return run(e[1], pool)[index(e[2]), index(e[3])]
	a, b = run(e[1], pool), run(e[2], pool)
	return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b

def leaves(e):
	return 1 if e[0] == 's' else leaves(e[1]) + (leaves(e[2]) if e[0] != '[]' else 0)

def ops(e):
	return [] if e[0] == 's' else [e[0]] + ops(e[1]) + (ops(e[2]) if e[0] != '[]' else [])

@check.part(expressions(), quick=500, thorough=8000, shards=(3, 8), rule="expressions (depth <= 2) with series, sums, differences and sub-systems of MIMO systems; non-trivial: at least two operations, or one on systems that are not square")
def interconnections(c, ctx):
	pool = [sy.mk_dSS(S) for S in c['pool']]
	R = run(c['e'], pool)
	n = size_of(c['e'], c['pool'])
	assert isinstance(R, dSS) and R.n == n, "%r states instead of %d" % (R.n, n)
	N = min(2 * n + 2, 16)
	h, m = ref(c['e'], c['pool'], N)
	assert (R.p, R.q) == (len(h[0]), len(h[0][0])), "size (%d,%d) instead of (%d,%d)" % (R.p, R.q, len(h[0]), len(h[0][0]))
	assert R.size == (R.n, R.p, R.q)
	sy.same_response(sy.imp_ss(R, N), h, m, 1e-11, 'expression %s' % (c['e'],))
	for S, d in zip(pool, c['pool']):
		assert all(np.array_equal(np.matrix(getattr(S, k)), M) for k, M in zip('ABCD', sy.npS(d))), "an operand has been modified"
	o = ops(c['e'])
	ctx.nontrivial(len(o) >= 2 or (o and any(len(S['D']) != len(S['D'][0]) for S in c['pool'])))
	ctx.label(*o)
	ctx.label('static' if any(S['kind'] == 'static' for S in c['pool']) else '', 'reused' if leaves(c['e']) > len(pool) else '')


@st.composite
def mismatch(draw):
	op = draw(st.sampled_from(['+', '-', '*']))
	S1 = draw(sy.state_space(n=(1, 3)))
	p1, q1 = len(S1['D']), len(S1['D'][0])
	if op == '*':
		p2 = draw(st.integers(1, 4).filter(lambda x: x != q1))
		q2 = draw(st.one_of(st.just(p1), st.integers(1, 4)))
	else:
		p2, q2 = draw(st.tuples(st.sampled_from([1, 2, 3, 4, p1]), st.sampled_from([1, 2, 3, 4, q1])).filter(lambda t: t != (p1, q1)))
	return dict(op=op, S1=S1, S2=draw(sy.state_space(n=(1, 3), p=(p2, p2), q=(q2, q2))))

@check.part(mismatch(), quick=200, thorough=2000, rule="operands of incompatible numbers of inputs or outputs; non-trivial: all")
def mismatches(c, ctx):
	a, b = sy.mk_dSS(c['S1']), sy.mk_dSS(c['S2'])
	ctx.nontrivial()
	ctx.label(c['op'])
	try:
		R = a + b if c['op'] == '+' else a - b if c['op'] == '-' else a * b
	except ValueError:
		return
	raise AssertionError("sizes (%d,%d) %s (%d,%d) are accepted (result of size %s)" % (a.p, a.q, c['op'], b.p, b.q, R.size))


@st.composite
def bad_sizes(draw):
	S = draw(sy.state_space(n=(1, 4)))
	n, p, q = len(S['A']), len(S['C']), len(S['D'][0])
	which = draw(st.sampled_from(['A', 'B', 'C', 'D']))
	r, k = len(S[which]), len(S[which][0])
	dr, dk = draw(st.sampled_from([(1, 0), (0, 1)] if which in 'AD' else [(1, 0)] if which == 'B' else [(0, 1)]))
	if r != k and draw(st.booleans()):
		r, k = k, r
	elif draw(st.booleans()) and r - dr >= 1 and k - dk >= 1:
		r, k = r - dr, k - dk
	else:
		r, k = r + dr, k + dk
	S[which] = draw(mat(sy.eighths, r, k))
	return dict(S, which=which)

@check.part(bad_sizes(), quick=200, thorough=2000, rule="one of the four matrices has one row or one column more or less than required, or is transposed; non-trivial: all")
def construction(c, ctx):
	ctx.nontrivial()
	ctx.label(c['which'])
	try:
		dSS(*[np.matrix(c[k]) for k in 'ABCD'])
	except ValueError:
		return
	raise AssertionError("inconsistent size of %s is accepted" % c['which'])


@st.composite
def with_null_states(draw):
	S = draw(sy.state_space(n=(1, 5), p=(1, 2), q=(1, 2)))
	n = len(S['A'])
	null = draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True))
	dup = None
	for i in null:
		S['A'][i] = [0.] * n
		S['B'][i] = [0.] * len(S['B'][0])
	if draw(st.booleans()) and n >= 2:
		# singular A without null row
		i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
		if i != j:
			S['A'][i] = list(S['A'][j])
			dup = [i, j]
	if draw(st.integers(0, 2)) == 0:
		# a state that almost does not depend on the others
		i = draw(st.integers(0, n - 1))
		S['A'][i] = [x * 2. ** -60 for x in S['A'][i]]
	return dict(S, null=null, dup=dup)

@check.part(with_null_states(), quick=300, thorough=4000, rule="state-spaces where the states whose row of A is null are not driven by the inputs; non-trivial: some null row of A, or A singular")
def simplify(c, ctx):
	A, B = c['A'], c['B']
	# the states removed one after the other, by hand: A row null and B row null  (see the known finding otherwise)
	alive = list(range(len(A)))
	while True:
		null = [i for i in alive if not any(A[i][j] for j in alive)]
		if any(any(B[i]) for i in null):
			raise Invalid()
		if not null:
			break
		alive = [i for i in alive if i not in null]
	S = sy.mk_dSS(c)
	R = S.simplify()
	N = 2 * len(A) + 2
	sy.same_response(sy.imp_ss(R, N), sy.imp_ss(c, N), sy.mag_ss(c, N), 1e-12, 'simplify')
	assert R.n <= S.n and (R.p, R.q) == (S.p, S.q)
	if len(alive) < len(A):
		assert R.n < S.n, "nothing is simplified"
	ctx.nontrivial(len(alive) < len(A) or c['dup'])
	ctx.label('null' if len(alive) < len(A) else 'full', 'dup' if c['dup'] else '')


@check.probe('simplify_delay', "simplify keeps the behaviour of a system with a pure delay of the input")
def _():
	S = dSS(np.matrix([[0., 0.], [1., 0.5]]), np.matrix([[1.], [0.]]), np.matrix([[0., 1.]]), np.matrix([[0.]]))
	R = S.simplify()
	assert sy.imp_ss(R, 6) == sy.imp_ss(S, 6), "impulse response %s instead of %s" % ([float(x[0][0]) for x in sy.imp_ss(R, 6)], [float(x[0][0]) for x in sy.imp_ss(S, 6)])


@check.part(st.tuples(sy.state_space(n=(1, 4)), st.sampled_from(['same', 'similar', 'A', 'B', 'C', 'D']), st.integers(0, 99), st.sampled_from([1., 1e-3, -2.])).map(list), quick=300, thorough=3000, rule="pairs of systems that are equal up to a change of coordinates, or whose first samples differ; non-trivial: all but the same system twice")
def closeness(c, ctx):
	S, what, k, d = c
	a = sy.mk_dSS(S)
	b = sy.mk_dSS(S)
	if what == 'similar':
		n = a.n
		b.similarity(np.matrix(sy.unimodular([(k, k // 7 + 1, 1), (k // 3, k + 2, -1)], n)[0]))
	elif what != 'same':
		S2 = {x: [list(r) for r in S[x]] for x in 'ABCD'}
		M = S2[what]
		M[k % len(M)][(k // 5) % len(M[0])] += d
		b = sy.mk_dSS(S2)
	try:
		a.assert_close(b)
		ok = True
	except AssertionError:
		ok = False
	# Markov parameters 0 to 3
	h1, h2 = sy.imp_ss(a, 4), sy.imp_ss(b, 4)
	dist = [sum(float(x - y) ** 2 for r, s in zip(m1, m2) for x, y in zip(r, s)) ** 0.5 for m1, m2 in zip(h1, h2)]
	# rounding errors of the products done by the comparison
	t = 1e-13 * sum(float(x.sum()) for s in (a, b) for x in sy.mag_ss(s, 4))
	if max(dist) < 0.9e-5 - t:
		assert ok, "close systems are declared different"
	elif max(dist) > 1.1e-5 + t:
		assert not ok, "systems with different impulse responses (distances %s) are declared close" % dist
	ctx.nontrivial(what != 'same')
	ctx.label(what, 'close' if max(dist) < 0.9e-5 - t else 'different' if max(dist) > 1.1e-5 + t else '')


@st.composite
def changes(draw):
	S = draw(sy.state_space(n=(1, 6), stable=False))
	n = len(S['A'])
	i = st.integers(0, n - 1)
	change = st.one_of(
		st.tuples(st.just('diagonal'), st.lists(st.sampled_from([1., -1., 2., -0.5, 4., 2. ** -7, -2. ** 9]), min_size=n, max_size=n)),
		st.tuples(st.just('permutation'), st.permutations(list(range(n)))),
		st.tuples(st.just('unimodular'), st.lists(st.tuples(i, i, st.sampled_from([1, -1, 2])), min_size=1, max_size=3)))
	return dict(S, changes=[[k, list(map(list, v)) if k == 'unimodular' else list(v)] for k, v in draw(st.lists(change, min_size=1, max_size=4))])

@check.part(changes(), quick=200, thorough=3000, rule="systems (stable or not) and 1..4 changes of coordinates (diagonal matrices with signs, permutations, integer matrices of determinant 1); non-trivial: n >= 2 and several inputs or outputs")
def coordinates(c, ctx):
	S = sy.mk_dSS(c)
	n = S.n
	N = min(2 * n + 2, 12)
	mag = [m.copy() for m in sy.mag_ss(S, N)]
	cond = 1.
	for kind, v in c['changes']:
		if kind == 'diagonal':
			T = np.diag(v)
		elif kind == 'permutation':
			T = np.eye(n)[v]
		else:
			T = np.array(sy.unimodular([tuple(x) for x in v], n)[0], dtype=float)
			cond *= np.abs(T).sum(axis=1).max() * np.abs(np.linalg.inv(T)).sum(axis=1).max()
		arg = np.matrix(T)
		before = {k: np.array(getattr(S, k)) for k in 'ABCD'}
		S.similarity(arg)
		assert np.array_equal(arg, T), "the matrix of the change of coordinates is modified"
		assert np.array_equal(S.D, before['D']), "D is changed by a change of coordinates"
		Ti = np.linalg.inv(T)
		for k, M, R in (('A', Ti @ before['A'] @ T, np.abs(Ti) @ np.abs(before['A']) @ np.abs(T)), ('B', Ti @ before['B'], np.abs(Ti) @ np.abs(before['B'])), ('C', before['C'] @ T, np.abs(before['C']) @ np.abs(T))):
			got = np.array(getattr(S, k))
			assert got.shape == M.shape and np.all(np.abs(got - M) <= 1e-12 * R * (1 + cond) + 1e-290), "%s after the change of coordinates (%s) is %s instead of %s" % (k, kind, got.tolist(), M.tolist())
		# (the bound of the rounding errors grows with the intermediate systems)
		mag = [np.maximum(a, b) for a, b in zip(mag, sy.mag_ss(S, N))]
	sy.same_response(sy.imp_ss(S, N), sy.imp_ss(c, N), mag, 1e-11 * cond, 'changes of coordinates')
	assert S.size == (S.n, S.p, S.q) == (n, len(c['D']), len(c['D'][0]))
	ctx.nontrivial(n >= 2 and S.p * S.q > 1)
	ctx.label(*[k for k, _ in c['changes']])


@check.part(sy.state_space(n=(1, 6), gains=False), quick=250, thorough=3000, rule="stable systems, balanced with the stand-in of slycot; non-trivial: n >= 2 and several inputs or outputs")
def balanced(c, ctx):
	S = sy.mk_dSS(c)
	A, B, C, D = [np.array(M) for M in sy.npS(c)]
	if np.abs(np.linalg.eigvals(A)).max() > 0.95:
		raise Invalid()
	hsv = np.sqrt(np.abs(np.linalg.eigvals(slycot_stub._lyap(A, B @ B.T) @ slycot_stub._lyap(A.T, C.T @ C))))
	nA = 1 + np.abs(A).sum(axis=1).max()
	Nr = slycot_stub.ab09ad('D', 'B', 'N', S.n, S.q, S.p, A, B, C, nr=S.n, tol=1e-18)[0]
	if sys.modules.get('slycot') is None:
		try:
			S.balanced()
			raise AssertionError("balanced without slycot")
		except ImportError:
			pass
	with slycot_stub.installed():
		try:
			R = S.balanced()
		except ValueError:
			assert Nr == 0, "the system is not balanced, whereas its Hankel singular values are %s" % hsv
			return
	assert Nr > 0, "balanced realization of a null system"
	assert (R.p, R.q) == (S.p, S.q) and R.n <= S.n
	assert np.array_equal(R.D, S.D), "D is changed by the balancing"
	ok = hsv.min() > 1e-5 * hsv.max()
	if ok:
		assert R.n == S.n, "%d states instead of %d (Hankel singular values %s)" % (R.n, S.n, hsv)
		# both Gramians are equal and diagonal (Hankel singular values)
		for X, Y, Q in ((np.array(R.A), np.array(R.B), 'Wc'), (np.array(R.A).T, np.array(R.C).T, 'Wo')):
			W = slycot_stub._lyap(X, Y @ Y.T)
			assert np.abs(W - np.diag(sorted(hsv, reverse=True))).max() <= 1e-4 * hsv.max(), "%s of the balanced system is %s instead of diag(%s)" % (Q, W, sorted(hsv, reverse=True))
	N = min(2 * S.n + 2, 14)
	scale = max(float(m.max()) for m in sy.mag_ss(c, N)) + hsv.max()
	# (the states that are removed have singular values lower than n.eps.max(hsv))
	sy.same_response(sy.imp_ss(R, N), sy.imp_ss(c, N), [np.full(D.shape, scale)] * N, 1e-5, 'balanced')
	assert all(np.array_equal(np.array(getattr(S, k)), np.array(M)) for k, M in zip('ABCD', sy.npS(c))), "the system is modified by the balancing"
	ctx.nontrivial(S.n >= 2 and S.p * S.q > 1)
	ctx.label('minimal' if ok else 'reduced' if R.n < S.n else '')
