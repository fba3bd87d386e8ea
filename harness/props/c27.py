# coding: utf-8
"""C27: quantized realizations, and error systems of the quantized SIF"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, math
from fractions import Fraction as F
from oracle import *
import sifs
from fixif.LTI import Filter, dTF
from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar, convertToFix, WCPG_txy

check = Check('C27', assumptions=["word-lengths of at least 2 bits", "the fixed-point constants (external package fixif.FxP) are given by a stand-in: the nearest w-bit 2's complement number with the smallest possible LSB",
	"the coefficients of the error systems have short mantissas: the differences between the coefficients and their roundings are then exact in double precision"])

anyc = st.one_of(st.just(0.), st.sampled_from([1., -1., 0.5, -0.5, 2., 3., 1e-6, -1e5, 0.9999, -1.0001, 127.6, -128.4, 1. - 2. ** -40, -1. - 2. ** -45, 0.7 * 2. ** -300, -3. * 2. ** -150]), st.floats(-4, 4, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-12), st.integers(-2000, 2000).map(lambda k: k / 256.))
short = st.one_of(st.just(0.), st.sampled_from([1., -1., 0.5, -0.25, 2.]), st.integers(-2000, 2000).map(lambda k: k / 1024.))
nearone = st.one_of(short, short, st.sampled_from([1. - 2. ** -40, -1. - 2. ** -38]))

def rounding(x, w):
	"""nearest number(s) on w bits (2's complement), as Fractions"""
	x = F(float(x))
	if x == 0:
		return [F(0)]
	lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
	l = math.frexp(float(abs(x)))[1] + 3
	best = None
	while True:
		m0 = (x / F(2) ** l).__floor__()
		r = x / F(2) ** l - m0
		ms = [m0] if r < F(1, 2) else [m0 + 1] if r > F(1, 2) else [m0, m0 + 1]
		fit = [m for m in ms if lo <= m <= hi]
		if len(fit) < len(ms):      # (a tie with only one side that fits: both LSB are fine)
			return best + [m * F(2) ** l for m in fit]
		best = [m * F(2) ** l for m in ms]
		l -= 1

@st.composite
def cases(draw):
	c = draw(sifs.sif(l=(0, 3), n=(0, 4), p=(1, 3), q=(1, 3), stable=False, entry=anyc))
	return dict(c=c, w=draw(st.one_of(st.integers(2, 16), st.sampled_from([24, 32, 53, 54, 60, 63, 64, 70]))), warm=draw(st.booleans()), then=draw(st.sampled_from(['none', 'modify', 'modify', 'dZ', 'original'])),
		sur=draw(st.booleans()), bad=draw(st.sampled_from([0, -1, 2.5, '8', None, 8.0])))

@check.part(cases, quick=700, thorough=15000, rule="at least one coefficient changed by the quantization")
def quantize(a, ctx):
	c = a['c']
	l, n, p, q = c['size']
	w = a['w']
	kw = dict(structureName='str', shortName='sh')
	if a['sur']:
		kw.update(surnameVarX=['s%d' % i for i in range(n)])
	R = sifs.realization(c, Filter(tf=dTF([1.], [1., 0.5])), **kw)
	Z0, d0 = np.array(R.Z), np.array(R.dZ)
	old = {}
	if a['warm']:
		for k in ('Hu', 'Hzeta', 'Hepsilon', 'dSS'):
			S = getattr(R, k)
			old[k] = (S, [np.array(getattr(S, m)) for m in 'ABCD'])
	try:
		R.quantize(a['bad'])
		raise AssertionError("quantize(%r) is accepted" % (a['bad'],))
	except ValueError:
		pass
	Q = R.quantize(w)
	assert type(Q) is type(R) and Q is not R
	changed = False
	for i in range(Z0.shape[0]):
		for j in range(Z0.shape[1]):
			ok = rounding(Z0[i, j], w)
			assert F(float(Q.Z[i, j])) in ok, "Z[%d,%d]: %r is quantized on %d bits to %r instead of %s" % (i, j, Z0[i, j], w, Q.Z[i, j], ' or '.join(str(float(x)) for x in ok))
			changed |= Q.Z[i, j] != Z0[i, j]
	def same():
		assert np.array_equal(Z0, R.Z) and np.array_equal(d0, R.dZ), "the original is changed"
		for k, (S, m) in old.items():
			assert getattr(R, k) is S and all(np.array_equal(x, getattr(S, y)) for x, y in zip(m, 'ABCD')), "%s of the original is changed" % k
	same()
	# everything derived is the one of the quantized coefficients
	def derived(X):
		Y = sifs.realization({k: np.asarray(getattr(X, k)).tolist() for k in sifs.NAMES} | dict(size=c['size']))
		for k in ('Z', 'invJ', 'AZ', 'BZ', 'CZ', 'DZ', '_M1', '_M2', '_N1', '_N2', 'dZ', 'Zcomp'):
			u, v = np.asarray(getattr(X, k), dtype=float), np.asarray(getattr(Y, k), dtype=float)
			assert u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-300 if k == 'dZ' else 1e-12), "%s is not the one of the quantized coefficients" % k
		for k in ('Hu', 'Hzeta', 'Hepsilon'):
			for m in 'ABCD':
				assert np.allclose(getattr(getattr(X, k), m), getattr(getattr(Y, k), m), rtol=1e-9, atol=1e-12), "%s.%s is not the one of the quantized coefficients" % (k, m)
	derived(Q)
	# same filter, same names
	assert Q.filter is R.filter and Q.structureName == 'str' and Q.shortName == 'sh' and Q.name == R.name
	for k in '_varNameT', '_varNameX', '_varNameU', '_varNameY':
		assert [str(v) for v in getattr(Q, k)] == [str(v) for v in getattr(R, k)], k
	assert Q.size == R.size
	# quantizing twice changes nothing
	assert np.array_equal(Q.quantize(w).Z, Q.Z) and np.array_equal(Q.quantize(w + 3).Z, Q.Z), "quantized coefficients are changed by a quantization"
	# the two realizations are independent
	Z1, d1 = np.array(Q.Z), np.array(Q.dZ)
	if a['then'] == 'modify':
		Q.P = np.matrix(np.zeros((n, n)))
		Q.S = np.matrix(np.ones((p, q)) * 3)
		Q.dS = np.matrix(np.ones((p, q)) * 7)
		same()
		assert np.array_equal(Q.S, np.ones((p, q)) * 3)
	elif a['then'] == 'dZ':
		Q.dQ = np.matrix(np.ones((n, q)) * 7)
		same()
	elif a['then'] == 'original':
		R.S = np.matrix(np.ones((p, q)) * 3)
		R.dS = np.matrix(np.ones((p, q)) * 7)
		assert np.array_equal(Z1, Q.Z) and np.array_equal(d1, Q.dZ), "the quantized realization is changed with the original"
		derived(Q)
	ctx.nontrivial(changed)
	ctx.label('then:' + a['then'], 'w:%d' % min(w, 17), 'l=%d' % l, 'n=%d' % n, 'warm' if a['warm'] else 'cold')

@st.composite
def scases(draw):
	stable = draw(st.booleans())
	p, q = draw(st.sampled_from([((1, 2), (1, 2))] * 3 + [((3, 4), (1, 2)), ((1, 2), (3, 4))]))
	c = draw(sifs.sif(l=(0, 3), n=(1, 3), p=p, q=q, stable=stable, entry=draw(st.sampled_from([short, short, short, nearone]))))
	l, n, p, q = c['size']
	v = st.integers(-16, 16).map(lambda k: k / 16.)
	T = 5
	return dict(c=c, w=draw(st.integers(2, 12)), u=draw(mat(v, q, T)), e=draw(mat(v, l + n + p, T)), prints=stable and draw(st.booleans()))

@check.part(scases, quick=500, thorough=10000, rule="at least one coefficient changed by the quantization, non null inputs and errors")
def error_system(a, ctx):
	c, w = a['c'], a['w']
	l, n, p, q = c['size']
	S = sifs.mk(c)
	Z0 = np.array(S.Z)
	exact_diff = all(F(x).denominator <= 2 ** 24 for k in sifs.NAMES for r in c[k] for x in map(F, r))
	# the coefficients quantized (-1, 0 and 1 are kept)
	ref = dict(size=c['size'])
	for k in sifs.NAMES:
		ref[k] = [[rounding(x, w) if x not in (-1, 0, 1) else [F(x)] for x in r] for r in c[k]]
	prints = a['prints']
	if prints:
		# (the gains are printed: both systems should be stable)
		rads = []
		for X in (S, SIFH_to_SIFHstar(S, w)[0]):
			A = sifs.azdz({k: np.asarray(getattr(X, k)).tolist() for k in sifs.NAMES} | dict(size=c['size']))['A']
			rads.append(max(abs(np.linalg.eigvals(np.array([[float(x) for x in r] for r in A])))))
		prints = max(rads) < 0.97
	St, Se = SIFH_to_SIFHstar(S, w, prints=prints)
	assert np.array_equal(Z0, S.Z), "the SIF is changed"
	assert tuple(St.size) == (l, n, p, q), "size of the quantized SIF: %s" % (St.size,)
	assert tuple(Se.size) == (2 * l, 2 * n, p, q + l + n + p), "size of the error SIF: %s" % (Se.size,)
	changed = False
	for k in sifs.NAMES:
		g = np.asarray(getattr(St, k))
		for i, r in enumerate(ref[k]):
			for j, ok in enumerate(r):
				assert F(float(g[i, j])) in ok, "%s[%d,%d]: %r is quantized on %d bits to %r instead of %r" % (k, i, j, c[k][i][j], w, g[i, j], float(ok[0]))
				changed |= float(g[i, j]) != c[k][i][j]
	qc = {k: np.asarray(getattr(St, k)).tolist() for k in sifs.NAMES}
	qc['size'] = c['size']
	ec = {k: np.asarray(getattr(Se, k)).tolist() for k in sifs.NAMES}
	ec['size'] = list(Se.size)
	y = sifs.run(c, a['u'])[3]
	yq = sifs.run(qc, a['u'], err=a['e'])[3]
	ye = sifs.run(ec, a['u'] + a['e'])[3]
	M = max([abs(v) for r in y + yq for v in r] + [F(1)])
	for i in range(p):
		for k in range(len(a['u'][0])):
			d = yq[i][k] - y[i][k]
			assert ye[i][k] == d if exact_diff else abs(ye[i][k] - d) <= M * F(1, 10 ** 9), "output %d at time %d: the error system gives %r, the difference between the quantized and exact outputs is %r" % (i, k, float(ye[i][k]), float(d))
	if prints:
		# (what is printed is computed from these gains) worst-case peak gains from the inputs to t, x and y
		W = WCPG_txy(S)
		assert np.allclose(W, _gains(c), rtol=1e-6, atol=1e-9), "WCPG_txy"
	ctx.nontrivial(changed and any(x for r in a['u'] for x in r) and any(x for r in a['e'] for x in r))
	ctx.label('l=%d' % l, 'n=%d' % n, 'w:%d' % w, 'prints' if prints else 'quiet', 'exact' if exact_diff else 'close', 'changed' if changed else 'unchanged')

def _gains(c):
	"""sum of the absolute values of the impulse responses from u to t, x(k+1) and y"""
	l, n, p, q = c['size']
	z = sifs.azdz(c)
	f = lambda M, s: np.array([[float(x) for x in r] for r in M]).reshape(s)
	A, B = f(z['A'], (n, n)), f(z['B'], (n, q))
	J, M, N = f(c['J'], (l, l)), f(c['M'], (l, n)), f(c['N'], (l, q))
	iJ = np.linalg.inv(J) if l else J
	C = np.vstack((iJ @ M, A, f(z['C'], (p, n))))
	D = np.vstack((iJ @ N, B, f(z['D'], (p, q))))
	W, X = abs(D), B
	for _ in range(3000):
		W = W + abs(C @ X)
		X = A @ X
	return W
