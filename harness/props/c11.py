# coding: utf-8
"""C11: multiple-precision transfer functions and their conversions"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import *
import systems as sy
from fixif.LTI import dTFmp, dSSmp, dTF

check = Check('C11', assumptions=["doubles are converted at a working precision of at least 53 bits (a lower one rounds the doubles by design of mpmath)",
	"the conversion from state-space goes through the eigenvalues: it is checked on systems with distinct poles, with a tolerance of 2^-max(p/2, p-48) on the scale of the computation (p bits asked)"])

dy = st.one_of(dyads(8, 6), dyads(70, 40), dyads(150, 300), st.just([0, 0]))

@st.composite
def tfmp(draw, nmin=0, nmax=5, one=None, same=None):
	kind = draw(st.sampled_from(['mp', 'mp', 'np']))
	el = dy if kind == 'mp' else sy.small
	num = draw(st.lists(el, min_size=nmin + 1, max_size=nmax + 1))
	same = draw(st.booleans()) if same is None else same
	den = draw(st.lists(el, min_size=len(num), max_size=len(num)) if same else st.lists(el, min_size=nmin + 1, max_size=nmax + 1))
	special = draw(st.sampled_from([None, None, None, 'one', 'minus', 'zero', 'equal', 'tail']))
	one_ = [1, 0] if kind == 'mp' else 1.
	if special == 'one':
		num[0] = one_
	elif special == 'minus':
		num[0] = [-1, 0] if kind == 'mp' else -1.
	elif special == 'zero':
		num[0] = [0, 0] if kind == 'mp' else 0.
	elif special == 'equal':
		num = list(den)
	elif special == 'tail':
		num = num[:1] + den[1:]
	one = draw(st.booleans()) if one is None else one
	if one:
		den[0] = [1, 0] if kind == 'mp' else 1.
	elif kind == 'mp':
		den[0] = draw(st.one_of(dyads(60, 20).filter(lambda x: x[0] != 0),
			st.tuples(st.sampled_from([1, -1]), st.integers(2, 120)).map(lambda t: [2 ** t[1] + t[0], -t[1]])))		# (close to 1)
	else:
		den[0] = draw(st.sampled_from([2., -4., 3., 0.7, -1., 1 + 2. ** -52, 1 - 2. ** -53, 1 + 2. ** -30, 1e-3]))
	return dict(num=num, den=den, type=kind, orient=draw(st.sampled_from(['row', 'col'])))

def raw(v, c):
	if c['type'] == 'np':
		return np.matrix(v) if c['orient'] == 'row' else np.matrix(v).T
	M = mpmath.matrix([[dyad(*x) for x in v]])
	return M if c['orient'] == 'row' else M.T

def bits(x):
	"""number of significant bits of a dyadic number"""
	n = abs(x.numerator)
	return (n // (n & -n)).bit_length() if n else 0

def exact(v, c):
	return [F(x) for x in v] if c['type'] == 'np' else [F(x[0]) * F(2) ** x[1] for x in v]

@check.part(st.tuples(tfmp(), precs).map(lambda t: dict(t[0], prec=t[1] if t[0]['type'] == 'mp' else max(53, t[1]))), quick=500, thorough=8000, shards=(2, 4), rule="coefficients (doubles or multiple precision, row or column, lengths that may differ) and any first coefficient of the denominator; non-trivial: normalization needed or different lengths")
def construction(c, ctx):
	mpmath.mp.prec = c['prec']
	b, a = raw(c['num'], c), raw(c['den'], c)
	eb, ea = exact(c['num'], c), exact(c['den'], c)
	H = dTFmp(b, a)
	assert mpmath.mp.prec == c['prec']
	n = max(len(eb), len(ea)) - 1
	assert H.order == n, "order %r instead of %d" % (H.order, n)
	got = {'num': [r[0] for r in matF(H.num)], 'den': [r[0] for r in matF(H.den)]}
	assert H.num.cols == 1 and H.den.cols == 1
	for k, ref in (('num', eb), ('den', ea)):
		for i in range(n + 1):
			r = ref[i] / ea[0] if i < len(ref) else F(0)
			g = got[k][i] if i < len(got[k]) else F(0)
			tol = 0 if ea[0] == 1 else abs(r) * F(2) ** (2 - max(c['prec'], 2 * bits(ref[i]) if i < len(ref) else 0))		# (doubled precision)
			assert abs(g - r) <= tol, "%s[%d] is %r instead of %r" % (k, i, float(g), float(r))
	assert got['den'][0] == 1
	for M, ref in ((b, eb), (a, ea)):
		assert [x for r in matF(M) for x in r] == ref, "an argument has been modified"
	ctx.nontrivial(ea[0] != 1 or len(ea) != len(eb))
	ctx.label(c['type'], c['orient'], 'a0=1' if ea[0] == 1 else 'a0', 'same length' if len(ea) == len(eb) else 'num longer' if len(eb) > len(ea) else 'den longer')


@check.part(st.tuples(tfmp(nmax=3), st.sampled_from(['list', 'array', '2d num', '2d den', 'mixed'])).map(list), quick=100, thorough=500, rule="arguments of a wrong type or size; non-trivial: all")
def rejections(c, ctx):
	b, a = raw(c[0]['num'], c[0]), raw(c[0]['den'], c[0])
	if c[1] == 'list':
		b = [1., 2.]
	elif c[1] == 'array':
		a = np.array([1., 2.])
	elif c[1] == '2d num':
		b, a = mpmath.eye(2), mpmath.matrix([1, 2])
	elif c[1] == '2d den':
		b, a = mpmath.matrix([1, 2]), mpmath.eye(2)
	else:
		b, a = mpmath.matrix([1, 2]), [1., 2.]
	ctx.nontrivial()
	ctx.label(c[1])
	try:
		dTFmp(b, a)
	except ValueError:
		return
	raise AssertionError("%s is accepted" % c[1])


mp_tf = st.tuples(tfmp(nmin=1, one=True), precs).map(lambda t: dict(t[0], prec=t[1] if t[0]['type'] == 'mp' else max(53, t[1])))
@check.part(mp_tf, quick=500, thorough=8000, shards=(2, 4), rule="normalized transfer functions of order 1..5, any working precision; non-trivial: order >= 2 and coefficients that do not fit in the working precision, or different lengths")
def to_state_space(c, ctx):
	mpmath.mp.prec = c['prec']
	eb, ea = exact(c['num'], c), exact(c['den'], c)
	H = dTFmp(raw(c['num'], c), raw(c['den'], c))
	S = H.to_dSSmp()
	assert mpmath.mp.prec == c['prec']
	n = max(len(eb), len(ea)) - 1
	assert isinstance(S, dSSmp) and (S.n, S.p, S.q) == (n, 1, 1)
	N = 2 * n + 3
	h = []
	for k in range(N):
		h.append((eb[k] if k < len(eb) else F(0)) - sum(ea[i] * h[k - i] for i in range(1, min(k, len(ea) - 1) + 1)))
	g = sy.imp_ss({k: matF(getattr(S, k)) for k in 'ABCD'}, N)
	for k in range(N):
		assert g[k][0][0] == h[k], "sample %d of the impulse response is %r instead of %r (not exact)" % (k, float(g[k][0][0]), float(h[k]))
	ctx.nontrivial((n >= 2 and c['prec'] <= 53) or len(ea) != len(eb))
	ctx.label('prec %d' % c['prec'], c['type'])


@check.part(st.tuples(tfmp(one=True), precs).map(lambda t: dict(t[0], prec=t[1] if t[0]['type'] == 'mp' else max(53, t[1]))), quick=200, thorough=3000, rule="normalized transfer functions; non-trivial: multiple precision")
def to_doubles(c, ctx):
	mpmath.mp.prec = c['prec']
	H = dTFmp(raw(c['num'], c), raw(c['den'], c))
	R = H.to_dTF()
	for got, ref in ((R.num, exact(c['num'], c)), (R.den, exact(c['den'], c))):
		got = np.array(got).flatten().tolist()
		for i in range(max(len(got), len(ref))):
			r = float(ref[i]) if i < len(ref) else 0.
			assert (got[i] if i < len(got) else 0.) == r
	assert R.order == H.order
	ctx.nontrivial(c['type'] == 'mp')


# systems with distinct poles
@st.composite
def distinct(draw):
	n = draw(st.integers(1, 5))
	poles = draw(st.lists(st.integers(-14, 14), min_size=n, max_size=n, unique=True))
	ncx = draw(st.integers(0, n // 2))
	D = [[0] * n for _ in range(n)]
	for i in range(n):
		D[i][i] = poles[i]
	for k in range(ncx):
		i = 2 * k
		D[i + 1][i + 1] = D[i][i]
		b = draw(st.integers(1, 10))
		D[i][i + 1], D[i + 1][i] = b, -b
	ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([1, -1])), max_size=n))
	T, Ti = sy.unimodular(ops, n)
	A = [[x / 16 for x in r] for r in sy.imul(sy.imul(Ti, D), T)]
	if draw(st.integers(0, 3)) == 0:		# triangular, coefficients with full mantissas
		ncx = 0
		full = st.integers(-2 ** 47, 2 ** 47).map(lambda k: k / 2. ** 51)
		A = [[poles[i] / 16 + draw(full) / 4 if j == i else draw(full) if j > i else 0. for j in range(n)] for i in range(n)]
	e = draw(st.sampled_from([sy.eighths, sy.eighths, st.integers(-2 ** 53, 2 ** 53).map(lambda k: k / 2. ** 53)]))		# (short or full mantissas)
	g, h = draw(st.sampled_from([(0, 0), (0, 0), (0, 0), (-70, 0), (0, -70), (-40, -40), (50, 0), (-60, 60)]))		# gains of the inputs and outputs
	B, C, D = draw(mat(e, n, 1)), draw(mat(e, 1, n)), draw(mat(e, 1, 1))
	return dict(A=A, B=[[x * 2. ** g for x in r] for r in B], C=[[x * 2. ** h for x in r] for r in C], D=[[x * 2. ** (g + h) for x in r] for r in D], ncx=ncx,
		bits=draw(st.sampled_from([None, 64, 90, 150, 300])), prec=draw(precs))

@check.part(distinct(), quick=300, thorough=1500, shards=(2, 8), rule="SISO state-spaces with distinct real or complex poles, 64 to 300 bits; non-trivial: n >= 2, B and C not null")
def from_state_space(c, ctx):
	S = dSSmp(*[np.matrix(c[k]) for k in 'ABCD'])
	n = len(c['A'])
	mpmath.mp.prec = c['prec']
	H = S.to_dTFmp() if c['bits'] is None else S.to_dTFmp(c['bits'])
	assert mpmath.mp.prec == c['prec'], "the working precision has been changed"
	bits = c['bits'] or 64
	assert H.order == n
	N = 2 * n + 3
	h = sy.imp_ss(c, N)
	num, den = [r[0] for r in matF(H.num)], [r[0] for r in matF(H.den)]
	out = []
	for k in range(N):
		out.append((num[k] if k < len(num) else F(0)) - sum(den[i] * out[k - i] for i in range(1, min(k, n) + 1)))
	normA = max(sum(abs(x) for x in r) for r in c['A'])
	scale = sum(abs(x) for r in c['B'] for x in r) * sum(abs(x) for r in c['C'] for x in r) + abs(c['D'][0][0])
	for k in range(N):
		tol = 2. ** -max(bits / 2., bits - 48.) * scale * (2 + normA) ** (k + n)
		assert abs(out[k] - h[k][0][0]) <= tol, "sample %d of the impulse response is %r instead of %r" % (k, float(out[k]), float(h[k][0][0]))
	ctx.nontrivial(n >= 2 and any(x for r in c['B'] for x in r) and any(x for r in c['C'] for x in r))
	ctx.label('n=%d' % n, '%d complex' % c['ncx'], '%s bits' % c['bits'])


@check.part(st.tuples(sy.state_space(n=(1, 3)).filter(lambda s: len(s['D']) > 1 or len(s['D'][0]) > 1), precs).map(list), quick=60, thorough=300, rule="MIMO systems; non-trivial: all")
def mimo_rejected(c, ctx):
	mpmath.mp.prec = c[1]
	ctx.nontrivial()
	try:
		sy.mk_dSS(c[0]).to_dSSmp().to_dTFmp()
	except ValueError:
		assert mpmath.mp.prec == c[1], "the working precision has been changed"
		return
	raise AssertionError("MIMO system converted in a transfer function")
