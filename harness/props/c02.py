# coding: utf-8
"""C02: exact inverse of unit lower-triangular matrices"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from oracle import dyad, matF, mulF, eyeF
from fixif.func_aux import mpf_matrix_lt_inverse, MPFMatrix

check = Check('C02', assumptions=["numpy.matrix operands are converted at a working precision of at least 53 bits"])


@st.composite
def lower(draw):
	n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 14)))
	kind = draw(st.sampled_from(['mp', 'np']))
	elem = st.one_of(dyads(120, 400), st.just([0, 0])) if kind == 'mp' else floats(1e40)
	if n > 6:		# (shorter numbers)
		elem = dyads(12, 30) if kind == 'mp' else st.integers(-9, 9).map(float)
	vals = draw(st.lists(elem, min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))
	return dict(n=n, kind=kind, api=draw(st.sampled_from(['function', 'class'])), prec=draw(precs), L=vals)

def build(c):
	n = c['n']
	if c['kind'] == 'np':
		L = np.matrix(np.eye(n))
	else:
		L = mpmath.eye(n)
	it = iter(c['L'])
	for i in range(n):
		for j in range(i):
			x = next(it)
			L[i, j] = dyad(*x) if c['kind'] == 'mp' else x
	return L

def inverse(c, L):
	if c['api'] == 'function':
		return mpf_matrix_lt_inverse(L)
	return MPFMatrix(L).inv_lowtr()

@check.part(lower, quick=1500, thorough=40000, shards=(2, 8),
	rule="unit lower-triangular matrices 1x1..6x6 (and up to 14x14 with short entries), dyadic entries (mantissa to 120 bits, exponent +-400) or doubles, working precision 2..300; non-trivial: n>=3 with an inverse that needs more bits than the working precision")
def inverse_is_exact(c, ctx):
	mpmath.mp.prec = c['prec'] if c['kind'] == 'mp' else max(53, c['prec'])
	prec = mpmath.mp.prec
	L = build(c)
	fL = matF(L)
	X = inverse(c, L)
	assert isinstance(X, mpmath.matrix if c['api'] == 'function' else MPFMatrix)
	assert (X.rows, X.cols) == (c['n'], c['n'])
	fX = matF(X)
	I = eyeF(c['n'])
	assert mulF(fL, fX) == I, "L*X is not exactly the identity"
	assert mulF(fX, fL) == I, "X*L is not exactly the identity"
	assert matF(L) == fL, "the operand has been modified"
	assert mpmath.mp.prec == prec
	bits = max(abs(x.numerator).bit_length() for r in fX for x in r)
	ctx.nontrivial(c['n'] >= 3 and bits > prec)
	ctx.label('n=%d' % c['n'], c['kind'], c['api'], 'needs>prec' if bits > prec else 'fits')


@st.composite
def bad(draw):
	c = draw(lower())
	c['kind'] = draw(st.sampled_from(['mp', 'np']))
	c['L'] = [[1, 0] if c['kind'] == 'mp' else 1.] * (c['n'] * (c['n'] - 1) // 2) if c['kind'] == 'np' or not (c['L'] and isinstance(c['L'][0], list)) else c['L']
	if c['kind'] == 'mp' and c['L'] and not isinstance(c['L'][0], list):
		c['L'] = [[1, 0]] * len(c['L'])
	c['why'] = draw(st.sampled_from(['diag', 'upper', 'shape', 'type']))
	if c['n'] == 1 and c['why'] == 'upper':
		c['why'] = 'diag'
	n = c['n']
	if c['why'] == 'diag':
		c['i'] = draw(st.integers(0, n - 1))
		c['v'] = draw(st.sampled_from([[0, 0], [2, 0], [-1, 0], [1 + 2 ** 40, -40], [2 ** 40 - 1, -40], [1 + 2 ** 52, -52], [1 + 2 ** 90, -90] if c['kind'] == 'mp' else [2 ** 53 - 1, -53]]))
	elif c['why'] == 'upper':
		c['i'] = draw(st.integers(0, n - 2))
		c['j'] = draw(st.integers(c['i'] + 1, n - 1))
		c['v'] = draw(st.sampled_from([[1, 0], [-1, 0], [1, -900], [3, 4]]))
	elif c['why'] == 'shape':
		c['extra'] = draw(st.integers(1, 3))
		c['wide'] = draw(st.booleans())
	return c

@check.part(bad, quick=500, thorough=5000, rule="matrices that are not square / not lower triangular / without 1s on the diagonal, by one single entry (possibly 2^-900 or 1+-2^-40, 1+2^-90); always non-trivial")
def others_are_rejected(c, ctx):
	ctx.nontrivial()
	ctx.label(c['why'], c['kind'], c['api'])
	L = build(c)
	n = c['n']
	if c['why'] == 'diag':
		L[c['i'], c['i']] = float(dyad(*c['v'])) if c['kind'] == 'np' else dyad(*c['v'])
	elif c['why'] == 'upper':
		L[c['i'], c['j']] = float(dyad(*c['v'])) if c['kind'] == 'np' else dyad(*c['v'])
	elif c['why'] == 'shape':
		sh = (n, n + c['extra']) if c['wide'] else (n + c['extra'], n)
		R = np.matrix(np.eye(*sh))
		L = R if c['kind'] == 'np' else mpmath.matrix(R.tolist())
	else:
		L = [[1, 0], [2, 1]]
	try:
		X = inverse(c, L)
	except ValueError:
		return
	assert False, "accepted (%s): %s" % (c['why'], X)
