# coding: utf-8
"""C05: MPFMatrix is a matrix value type"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import dyad, matF, mulF, addF, subF, mpf_to_F
from fixif.func_aux import MPFMatrix

check = Check('C05', assumptions=["rounded operations: within a few units of the working precision of the exact result"])

KINDS = ['MPFMatrix', 'mpmath', 'matrix', 'ndarray']

def make(M, kind):
	"""M: list of lists of doubles"""
	if kind == 'mpmath':
		return mpmath.matrix(M)
	if kind == 'matrix':
		return np.matrix(M, dtype=float)
	if kind == 'ndarray':
		return np.array(M, dtype=float)
	return MPFMatrix(mpmath.matrix(M))

@st.composite
def operands(draw):
	op = draw(st.sampled_from(['add', 'sub', 'mul']))
	m, n, p = [draw(st.integers(1, 4)) for _ in range(3)]
	sh = ((m, n), (m, n)) if op != 'mul' else ((m, n), (n, p))
	return dict(op=op, A=draw(mat(floats(1e9), *sh[0])), B=draw(mat(floats(1e9), *sh[1])), kind=draw(st.sampled_from(KINDS)), kindA=draw(st.sampled_from(KINDS[1:])), prec=draw(st.sampled_from([53, 53, 24, 100, 200])))

@check.part(operands, quick=1000, thorough=20000, shards=(1, 6), rule="MPFMatrix op (MPFMatrix | mpmath.matrix | numpy.matrix | numpy.ndarray), conformable, working precision 24..200; non-trivial: rectangular operands or product")
def operators(c, ctx):
	mpmath.mp.prec = max(53, c['prec'])
	A = MPFMatrix(make(c['A'], c['kindA']))
	B = make(c['B'], c['kind'])
	fA, fB = matF(c['A']), matF(c['B'])
	mpmath.mp.prec = prec = c['prec']
	if c['kind'] in ('matrix', 'ndarray'):
		mpmath.mp.prec = prec = max(53, prec)
	R = A + B if c['op'] == 'add' else A - B if c['op'] == 'sub' else A * B
	assert isinstance(R, MPFMatrix), type(R)
	ref = dict(add=addF, sub=subF, mul=mulF)[c['op']](fA, fB)
	mag = addF([[abs(x) for x in r] for r in fA], [[abs(x) for x in r] for r in fB]) if c['op'] != 'mul' else mulF([[abs(x) for x in r] for r in fA], [[abs(x) for x in r] for r in fB])
	assert R.shape == (len(ref), len(ref[0])) and (R.rows, R.cols) == R.shape, "shape %r" % (R.shape,)
	for i in range(R.rows):
		for j in range(R.cols):
			assert abs(mpf_to_F(R[i, j]) - ref[i][j]) <= mag[i][j] * F(2) ** (4 - prec), "(%d,%d): %s instead of %s" % (i, j, R[i, j], float(ref[i][j]))
	assert matF(A.matrix) == fA and matF(B.matrix if c['kind'] == 'MPFMatrix' else B) == fB, "an operand has been modified"
	ctx.nontrivial(c['op'] == 'mul' or len(fA) != len(fA[0]))
	ctx.label(c['op'], c['kind'], 'from ' + c['kindA'])


@st.composite
def mismatch(draw):
	op = draw(st.sampled_from(['add', 'sub', 'mul', 'equal', 'almost_close', 'type']))
	sa = draw(st.tuples(st.integers(1, 4), st.integers(1, 4)))
	sb = draw(st.tuples(st.integers(1, 4), st.integers(1, 4)))
	if op == 'mul':
		if sa[1] == sb[0]:
			sb = (sb[0] % 4 + 1, sb[1])
	elif sa == sb:
		sb = (sb[0], sb[1] % 4 + 1)
	return dict(op=op, sa=list(sa), sb=list(sb), kind=draw(st.sampled_from(KINDS)), t=draw(st.integers(0, 2)))

@check.part(mismatch, quick=300, thorough=3000, rule="non conformable operands, or operands of an unknown type: ValueError; always non-trivial")
def rejections(c, ctx):
	ctx.nontrivial()
	ctx.label(c['op'], c['kind'])
	A = MPFMatrix(np.ones(c['sa']))
	B = make(np.ones(c['sb']).tolist(), c['kind'])
	if c['op'] == 'type':
		bad = [3, [[1, 2]], 'x'][c['t']]
		fs = [lambda: A + bad, lambda: A - bad, lambda: A * bad, lambda: MPFMatrix(bad), lambda: A.add_exact(bad), lambda: A.sub_exact(bad), lambda: A.mul_exact(bad)]
	else:
		fs = [dict(add=lambda: A + B, sub=lambda: A - B, mul=lambda: A * B, equal=lambda: A.equal(B), almost_close=lambda: A.almost_close(B))[c['op']]]
	for f in fs:
		try:
			R = f()
		except ValueError:
			continue
		assert False, "accepted: %s" % R


@st.composite
def comparisons(draw):
	m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
	A = draw(mat(dyads(150, 100), m, n))
	e = draw(st.sampled_from([0, 0, 0, 0, -1200, 1200]))
	A = [[[x, k + e] for x, k in r] for r in A]
	diffs = draw(st.lists(st.tuples(st.integers(0, m - 1), st.integers(0, n - 1), st.integers(-170, 10), st.sampled_from([1, -1])), max_size=2))
	return dict(A=A, diffs=diffs, rel=True if e else draw(st.booleans()), epsexp=draw(st.sampled_from([None, -10, -20, -40])), kind=draw(st.sampled_from(['MPFMatrix', 'mpmath'])))

@check.part(comparisons, quick=800, thorough=20000, shards=(1, 4), rule="a matrix and a copy that differs by at most two entries (by 2^k, absolutely or relatively); non-trivial: they differ")
def equality(c, ctx):
	mpmath.mp.prec = 1000
	m, n = len(c['A']), len(c['A'][0])
	A = mpmath.matrix(m, n)
	for i in range(m):
		for j in range(n):
			A[i, j] = dyad(*c['A'][i][j])
	fA = matF(A)
	fB = [list(r) for r in fA]
	for i, j, e, s in c['diffs']:
		fB[i][j] = fA[i][j] + s * F(2) ** e * (abs(fA[i][j]) if c['rel'] else 1)
	B = mpmath.matrix(m, n)
	for i in range(m):
		for j in range(n):
			B[i, j] = mpmath.mpf(fB[i][j].numerator) / fB[i][j].denominator
	assert matF(B) == fB
	PA, PB = MPFMatrix(A), MPFMatrix(B) if c['kind'] == 'MPFMatrix' else B
	same = fA == fB
	# the comparison may not depend on the working precision
	mpmath.mp.prec = 53
	assert PA.equal(PB) is same, "equal() says %s" % (not same)
	ctx.nontrivial(not same)
	mpmath.mp.prec = 400
	eps = mpmath.mpf(0) if c['epsexp'] is None else mpmath.mpf(2) ** c['epsexp']
	feps = mpf_to_F(eps)
	ok = True
	border = False
	for x, y in zip(sum(fA, []), sum(fB, [])):
		d = abs(x - y)
		mx = max(abs(x), abs(y))
		good = d <= feps or (mx > 0 and d / mx <= feps)
		if feps and d and (F(9, 10) < d / feps < F(11, 10) or F(9, 10) < d / mx / feps < F(11, 10)):
			border = True
		ok = ok and good
	if not border:
		got = PA.almost_close(PB, abs_eps=eps) if c['epsexp'] is not None else PA.almost_close(PB)
		assert got is ok, "almost_close(eps=%s) says %s" % (eps, got)
		ctx.label('close' if ok else 'not close')
	ctx.label('equal' if same else 'different')


@st.composite
def alias(draw):
	m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
	return dict(A=draw(mat(floats(100), m, n)), kind=draw(st.sampled_from(KINDS[1:])), i=draw(st.integers(0, m - 1)), j=draw(st.integers(0, n - 1)), v=draw(floats(100)))

@check.part(alias, quick=300, thorough=3000, rule="an MPFMatrix is built from a matrix, which is then modified; non-trivial: the modification changes the entry")
def no_aliasing(c, ctx):
	f = matF(c['A'])
	X = make(c['A'], c['kind'])
	P = MPFMatrix(X)
	X[c['i'], c['j']] = c['v']
	assert matF(P.matrix) == f, "modifying the source has modified the MPFMatrix"
	assert P.shape == (len(f), len(f[0]))
	for i in range(P.rows):
		for j in range(P.cols):
			assert mpf_to_F(P[i, j]) == f[i][j]
	if c['kind'] == 'ndarray':
		v = np.array(c['A'][0])
		V = MPFMatrix(v)
		assert V.shape == (len(v), 1) and [mpf_to_F(V[i, 0]) for i in range(len(v))] == f[0]
	ctx.nontrivial(c['v'] != c['A'][c['i']][c['j']])
	ctx.label(c['kind'])
