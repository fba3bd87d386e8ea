# coding: utf-8
"""C03: conversions between doubles, multiple-precision numbers, integer pairs, Sollya numbers and text"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath, io
from fractions import Fraction as F
from oracle import dyad, matF, mpf_to_F
from fixif.func_aux import *
from fixif.func_aux.write_matrix_mpf import write_matrix_mpf
import sollya

check = Check('C03', assumptions=["the nearest double is decided in the normal range (the conversion is documented to be the one of float(), which rounds the subnormal numbers twice)",
	"sollya is not installed: the Sollya numbers are those of a stand-in (exact rationals)",
	"conversions from doubles are done at a working precision >= 53 bits (mpmath rounds to the working precision below)"])

def shape(draw, k=5):
	return draw(st.integers(1, k)), draw(st.integers(1, k))

anyfloat = st.one_of(st.floats(allow_nan=False, allow_infinity=False), floats(), st.sampled_from([5e-324, -5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0, 0.1]))

@st.composite
def npmat(draw):
	m, n = shape(draw)
	return dict(M=draw(mat(anyfloat, m, n)), prec=draw(st.sampled_from([53, 60, 100, 400])))

@check.part(npmat, quick=1000, thorough=20000, shards=(1, 4), rule="matrices of doubles (any finite double, subnormals included), 1..5 x 1..5; non-trivial: some entry with more than 30 significant bits")
def double_roundtrip(c, ctx):
	mpmath.mp.prec = c['prec']
	M = np.matrix(c['M'], dtype=float)
	f = matF(M)
	A = python2mpf_matrix(M)
	assert isinstance(A, mpmath.matrix) and (A.rows, A.cols) == M.shape
	assert matF(A) == f, "python2mpf_matrix is not exact"
	B = mpf_to_numpy(A)
	assert isinstance(B, np.matrix) and B.shape == M.shape
	assert (np.asarray(B) == np.asarray(M)).all(), "mpf_to_numpy(python2mpf_matrix(M)) != M"
	for X in (M, np.array(M), A):
		P = MPFMatrix(X)
		assert P.shape == M.shape and matF(P.matrix) == f, "MPFMatrix(%s) is not exact" % type(X)
		N = P.to_numpy()
		assert N.shape == M.shape and (np.asarray(N) == np.asarray(M)).all(), "MPFMatrix.to_numpy is not exact"
	assert matF(M) == f
	assert mpmath.mp.prec == c['prec']
	ctx.nontrivial(any(abs(x.numerator).bit_length() > 30 for r in f for x in r))
	ctx.label('square' if M.shape[0] == M.shape[1] else 'rect', 'negative' if (M < 0).any() else 'non-neg')


@st.composite
def mpmat(draw):
	m, n = shape(draw)
	return dict(M=draw(mat(dyads(200, 700), m, n)), prec=draw(st.sampled_from([10, 53, 100, 400])))

def build(M):
	R = mpmath.matrix(len(M), len(M[0]))
	for i, r in enumerate(M):
		for j, x in enumerate(r):
			R[i, j] = dyad(*x)
	return R

@check.part(mpmat, quick=800, thorough=20000, shards=(1, 4), rule="matrices of dyadic numbers (mantissa up to 200 bits, exponent +-700); non-trivial: some entry does not fit a double, or is negative")
def multiprecision(c, ctx):
	mpmath.mp.prec = c['prec']
	A = build(c['M'])
	f = matF(A)
	m, n = A.rows, A.cols
	# to doubles: correctly rounded
	for R in (mpf_to_numpy(A), MPFMatrix(A).to_numpy()):
		assert isinstance(R, np.matrix) and R.shape == (m, n)
		for i in range(m):
			for j in range(n):
				assert R[i, j] == float(f[i][j]), "(%d,%d) is rounded to %r instead of the nearest double %r" % (i, j, R[i, j], float(f[i][j]))
	s = mpf_to_numpy(A[m - 1, n - 1])
	assert isinstance(s, float) and s == float(f[m - 1][n - 1])
	# integer pairs
	for Y, N in (mpf_matrix_get_representation(A), MPFMatrix(A).get_int_representation()):
		assert Y.shape == (m, n) and N.shape == (m, n)
		for i in range(m):
			for j in range(n):
				assert Y[i, j] == int(Y[i, j]) and N[i, j] == int(N[i, j])
				assert F(int(Y[i, j])) * F(2) ** int(N[i, j]) == f[i][j], "(%d,%d): %s*2^%s != %s" % (i, j, Y[i, j], N[i, j], f[i][j])
	y, k = mpf_get_representation(A[0, 0])
	assert isinstance(y, int) and isinstance(k, int) and F(y) * F(2) ** k == f[0][0]
	# sollya lists (row by row)
	for S, a, b in (mpf_matrix_to_sollya(A), MPFMatrix(A).to_sollya()):
		assert (a, b) == (m, n) and len(S) == m * n
		for i in range(m):
			for j in range(n):
				assert S[i * n + j].v == f[i][j], "sollya element (%d,%d) is %s instead of %s" % (i, j, S[i * n + j], f[i][j])
		B = sollya_matrix_to_numpy(S, m, n)
		assert B.shape == (m, n)
		for i in range(m):
			for j in range(n):
				assert B[i, j] == float(f[i][j])
	assert matF(A) == f and mpmath.mp.prec == c['prec']
	ctx.nontrivial(any(F(float(x)) != x or x < 0 for r in f for x in r))
	ctx.label('square' if m == n else 'rect')


@st.composite
def huge(draw):
	m, n = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 3)]))
	e = st.one_of(st.integers(-1200, 1200), st.integers(-70000, 70000), st.sampled_from([2 ** 15, -2 ** 15 - 1, 2 ** 17, -2 ** 17]))
	return dict(M=draw(mat(st.tuples(st.one_of(st.integers(-2 ** 70, 2 ** 70), st.integers(-9, 9)), e).map(list), m, n)), prec=draw(st.sampled_from([10, 53, 100])))

@check.part(huge, quick=100, thorough=3000, shards=(1, 2), rule="numbers far outside of the range of the doubles (exponents to +-2^17): integer representations and Sollya lists; non-trivial: an exponent above 2^15")
def huge_exponents(c, ctx):
	mpmath.mp.prec = c['prec']
	A = build(c['M'])
	f = matF(A)
	m, n = A.rows, A.cols
	for Y, N in (mpf_matrix_get_representation(A), MPFMatrix(A).get_int_representation()):
		for i in range(m):
			for j in range(n):
				assert F(int(Y[i, j])) * F(2) ** int(N[i, j]) == f[i][j], "(%d,%d): %s*2^%s" % (i, j, Y[i, j], N[i, j])
	S, a, b = MPFMatrix(A).to_sollya()
	assert (a, b) == (m, n) and [x.v for x in S] == [x for r in f for x in r]
	assert matF(A) == f and mpmath.mp.prec == c['prec']
	ctx.nontrivial(any(x[0] and abs(x[1]) > 2 ** 15 for r in c['M'] for x in r))


@check.part(st.fixed_dictionaries(dict(v=st.sampled_from(['nan', 'inf', '-inf']), i=st.integers(0, 3), m=st.integers(1, 4))), quick=40, thorough=100,
	rule="a matrix with one non finite entry has no integer representation and is rejected; always non-trivial")
def non_finite_rejected(c, ctx):
	ctx.nontrivial()
	i = c['i'] % c['m']
	A = mpmath.matrix(c['m'], 2)
	A[i, 1] = mpmath.mpf(c['v'])
	for f in (lambda: mpf_matrix_get_representation(A), lambda: MPFMatrix(A).get_int_representation(), lambda: mpf_get_representation(A[i, 1]), lambda: mpf_get_representation(1.5)):
		try:
			r = f()
		except ValueError:
			continue
		assert False, "accepted: %r" % (r,)


@st.composite
def textmat(draw):
	c = draw(npmat())
	c['delim'] = draw(st.sampled_from([' ', '\t', ';', ', ']))
	return c

@check.part(textmat, quick=400, thorough=5000, rule="matrices of doubles written in text; non-trivial: more than one entry")
def text_files(c, ctx):
	mpmath.mp.prec = c['prec']
	M = np.matrix(c['M'], dtype=float)
	f = io.StringIO()
	write_matrix_hex(f, M, c['delim'])
	lines = f.getvalue().split('\n')
	assert lines[-1] == '' and len(lines) == M.shape[0] + 1
	for i, l in enumerate(lines[:-1]):
		vals = [x for x in l.split(c['delim'].strip() or c['delim']) if x.strip()]
		assert [float.fromhex(x.strip()) for x in vals] == M[i, :].tolist()[0], "row %d does not read back" % i
	A = python2mpf_matrix(M)
	f = io.StringIO()
	write_matrix_mpf(f, A, c['delim'])
	lines = f.getvalue().split('\n')
	assert lines[-1] == '' and len(lines) == M.shape[0] + 1
	for i, l in enumerate(lines[:-1]):
		vals = [mpmath.mpf(x.strip()) for x in l.split(c['delim'].strip() or c['delim']) if x.strip()]
		assert len(vals) == M.shape[1]
		for j, v in enumerate(vals):
			assert abs(mpf_to_F(v) - mpf_to_F(M[i, j])) <= abs(mpf_to_F(M[i, j])) * F(10) ** (-13), "row %d does not read back" % i
	ctx.nontrivial(M.size > 1)


@check.part(st.fixed_dictionaries(dict(f=st.sampled_from(['number', 'matrix', 'sollya', 'to_numpy', 'from_numpy']), what=st.integers(0, 4), m=st.integers(1, 3), n=st.integers(1, 3), i=st.integers(0, 8), v=floats(50))), quick=100, thorough=1000,
	rule="arguments of another type (lists, arrays, numbers, matrices with one complex entry) are refused; always non-trivial")
def refused(c, ctx):
	m, n, v = c['m'], c['n'], c['v']
	ctx.nontrivial()
	cplx = mpmath.matrix(m, n)
	cplx[c['i'] % m, c['i'] % n] = mpmath.mpc(v, 1)
	other = [[[v] * n] * m, None, 'x', v, np.array([[v] * n] * m)]
	f, bad = dict(number=(mpf_get_representation, [v, int(v), mpmath.mpc(v, 1), None, np.float64(v)]),
		matrix=(mpf_matrix_get_representation, [cplx] * 5),
		sollya=(mpf_matrix_to_sollya, [cplx] + other[:4]),
		to_numpy=(mpf_to_numpy, [cplx] + other[:4]),
		from_numpy=(python2mpf_matrix, other))[c['f']]
	x = bad[c['what']]
	ctx.label(c['f'], type(x).__name__)
	try:
		r = f(x)
	except (ValueError, TypeError):
		return
	assert False, "%r accepted by %s: %r" % (x, c['f'], r)


@check.part(st.fixed_dictionaries(dict(M=textmat(), prec=precs)), quick=40, thorough=500, rule="matrices of Sollya numbers printed: every entry, row by row; non-trivial: several rows and columns")
def printed(c, ctx):
	import contextlib, re
	from fixif.func_aux.sollya_matrix_print import sollya_matrix_print
	M = c['M']['M'] if isinstance(c['M'], dict) else c['M']
	m, n = len(M), len(M[0])
	S = [sollya.SollyaObject(float(x)) for r in M for x in r]
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		sollya_matrix_print(S, m, n)
	got = out.getvalue().split()
	assert got == [str(x) for x in S], "%r printed for the matrix %r (%d x %d)" % (got, S, m, n)
	ctx.nontrivial(m > 1 and n > 1)
