# coding: utf-8
"""C04: products of multiple-precision polynomials"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import dyad, mpf_to_F
from fixif.func_aux import mpf_poly_mult, mp_poly_product, mpc_get_real

check = Check('C04', assumptions=["a coefficient is right when it is within a few units of the working precision, relatively to the sum of the moduli of the products that it adds"])

# complex dyadic coefficients: [mr, er] or [mr, er, mi, ei]
def coefs(cplx):
	d = dyads(40, 40)
	r = d
	if cplx:
		return st.one_of(d, st.tuples(d, d).map(lambda t: t[0] + t[1]))
	return r

def val(x):
	if len(x) == 2:
		return dyad(*x)
	return mpmath.mp.make_mpc((dyad(x[0], x[1])._mpf_, dyad(x[2], x[3])._mpf_))		# (exact)

def exact(x):
	"""(re, im) Fractions"""
	return (F(x[0]) * F(2) ** x[1], F(x[2]) * F(2) ** x[3] if len(x) == 4 else F(0))

def cmul(a, b):
	return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

def cadd(a, b):
	return (a[0] + b[0], a[1] + b[1])

def cmod(a):
	return abs(a[0]) + abs(a[1])

def conv(p, q):
	r = [(F(0), F(0))] * (len(p) + len(q) - 1)
	m = [F(0)] * len(r)
	for i, a in enumerate(p):
		for j, b in enumerate(q):
			r[i + j] = cadd(r[i + j], cmul(a, b))
			m[i + j] += cmod(a) * cmod(b)
	return r, m

def close(got, ref, mag, prec, k, what):
	g = (mpf_to_F(mpmath.mpf(got.real)), mpf_to_F(mpmath.mpf(got.imag))) if isinstance(got, mpmath.mpc) else (mpf_to_F(got), F(0))
	tol = mag * k * F(2) ** (3 - prec)
	d = cmod(cadd(g, (-ref[0], -ref[1])))
	assert d <= tol, "%s: %s instead of %s (error %.3g, tolerance %.3g)" % (what, got, (float(ref[0]), float(ref[1])), float(d), float(tol))


@st.composite
def two_polys(draw):
	cplx = draw(st.booleans())
	p = draw(st.lists(coefs(cplx), min_size=1, max_size=7))
	q = draw(st.lists(coefs(cplx), min_size=1, max_size=7))
	if draw(st.integers(0, 9)) == 0:		# long polynomials
		p, q = [(v * 8)[:draw(st.integers(1, 40))] for v in (p, q)]
	return dict(p=p, q=q, prec=draw(st.sampled_from([53, 53, 30, 100, 250])))

@check.part(two_polys, quick=700, thorough=15000, shards=(2, 8), rule="two real or complex polynomials of degree 0..6, some to 39; non-trivial: both of degree >= 2, different degrees")
def product(c, ctx):
	mpmath.mp.prec = c['prec']
	P, Q = [mpmath.mp.matrix([val(x) for x in c[k]]) for k in 'pq']
	cP, cQ = P.copy(), Q.copy()
	R = mpf_poly_mult(P, Q)
	ref, mag = conv([exact(x) for x in c['p']], [exact(x) for x in c['q']])
	assert (R.rows, R.cols) == (len(ref), 1), "the product has %d coefficients instead of %d" % (R.rows, len(ref))
	for k in range(len(ref)):
		close(R[k, 0], ref[k], mag[k], c['prec'], len(ref), "coefficient %d" % k)
	assert P == cP and Q == cQ, "an operand has been modified"
	assert mpmath.mp.prec == c['prec']
	ctx.nontrivial(min(len(c['p']), len(c['q'])) >= 3 and len(c['p']) != len(c['q']))
	ctx.label('deg %d' % (len(ref) - 1), 'complex' if any(len(x) == 4 for x in c['p'] + c['q']) else 'real')


@st.composite
def roots(draw):
	cplx = draw(st.booleans())
	p = draw(st.lists(coefs(cplx), min_size=1, max_size=7))
	if draw(st.integers(0, 9)) == 0:		# many factors
		p = (p * 3)[:draw(st.integers(1, 16))]
	j = draw(st.sampled_from(list(range(len(p))) * 3 + [-1] * 2 + [None] * len(p)))
	return dict(p=p, j=j, prec=draw(st.sampled_from([53, 53, 30, 100, 250])))

@check.part(roots, quick=700, thorough=15000, shards=(2, 8), rule="1..7 real or complex p_i, sometimes 16, and the index left out (or none); non-trivial: at least 3 factors and one left out")
def product_of_monomials(c, ctx):
	mpmath.mp.prec = c['prec']
	p = [val(x) for x in c['p']]
	R = mp_poly_product(p) if c['j'] is None else mp_poly_product(p, c['j'])
	ref, mag = [(F(1), F(0))], [F(1)]
	for i, x in enumerate(c['p']):
		if c['j'] is not None and c['j'] >= 0 and i == c['j']:
			continue
		ref, _ = conv(ref, [(F(1), F(0)), exact(x)])
		mag = [a[0] for a in conv([(m, F(0)) for m in mag], [(F(1), F(0)), (cmod(exact(x)), F(0))])[0]]
	assert (R.rows, R.cols) == (len(ref), 1), "%d coefficients instead of %d" % (R.rows, len(ref))
	for k in range(len(ref)):
		close(R[k, 0], ref[k], mag[k], c['prec'], 4 * len(ref) ** 2, "coefficient %d" % k)
	assert mpmath.mp.prec == c['prec']
	ctx.nontrivial(len(p) >= 3 and c['j'] is not None and c['j'] >= 0)
	ctx.label('n=%d' % len(p), 'all' if c['j'] in (None, -1) else 'first out' if c['j'] == 0 else 'last out' if c['j'] == len(p) - 1 else 'middle out')


@check.part(st.tuples(st.integers(1, 4), st.integers(1, 4)).flatmap(lambda s: mat(coefs(True), *s)), quick=300, thorough=3000, rule="complex matrices; non-trivial: rectangular, with imaginary parts")
def real_part(c, ctx):
	A = mpmath.matrix([[val(x) for x in r] for r in c])
	R = mpc_get_real(A)
	assert (R.rows, R.cols) == (len(c), len(c[0]))
	for i, r in enumerate(c):
		for j, x in enumerate(r):
			assert isinstance(R[i, j], mpmath.mpf) and mpf_to_F(R[i, j]) == exact(x)[0], "(%d,%d)" % (i, j)
	ctx.nontrivial(len(c) != len(c[0]) and any(len(x) == 4 for r in c for x in r))


@check.part(st.fixed_dictionaries(dict(p=st.lists(coefs(False), min_size=1, max_size=4), bad=st.sampled_from(['list', 'none', 'np', 'number', 'empty']), left=st.booleans(), j=st.sampled_from([None, -1, 0]))), quick=40, thorough=500,
	rule="polynomials that are not multiple-precision matrices and products without any factor: refused; always non-trivial")
def refused(c, ctx):
	P = mpmath.matrix([val(x) for x in c['p']])
	X = dict(list=[1., 2.], none=None, np=np.matrix([[1.], [2.]]), number=2., empty=None)[c['bad']]
	ctx.nontrivial()
	ctx.label(c['bad'])
	try:
		if c['bad'] == 'empty':
			R = mp_poly_product([]) if c['j'] is None else mp_poly_product([], c['j'])
		else:
			R = mpf_poly_mult(X, P) if c['left'] else mpf_poly_mult(P, X)
	except (ValueError, TypeError):
		return
	assert False, "accepted: %r" % (R,)
