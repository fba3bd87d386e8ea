# coding: utf-8
"""
Generated LTI systems (plain JSON: lists of doubles) and their exact reference behaviour (rational arithmetic).

- state-spaces: A = T^-1.diag(blocks).T with chosen poles (multiples of 1/16) and T unimodular (so A is dyadic), or
  dense doubles scaled to be contracting, or unstable;
- transfer functions: denominator = product of chosen factors, or any coefficients.
"""
from fractions import Fraction as F
from hypothesis import strategies as st
import numpy as np
import random as _random
from gens import mat


def chance(draw, k):
	"""true once out of k (false when shrunk)"""
	return draw(st.integers(0, k - 1)) == k - 1

eighths = st.one_of(st.integers(-16, 16).map(lambda k: k / 8), st.integers(-64, 64).map(lambda k: k / 8))
small = st.one_of(eighths, eighths, st.just(0.), st.floats(-4, 4).filter(lambda x: x == 0 or abs(x) > 1e-6))


@st.composite
def blocks(draw, n, radius=14):
	"""n x n block diagonal matrix of poles (in 1/16), of modulus <= radius/16"""
	D = [[0] * n for _ in range(n)]
	i = 0
	while i < n:
		if i + 1 < n and draw(st.booleans()):
			a = draw(st.integers(-radius, radius))
			b = draw(st.integers(1, radius))
			if a * a + b * b > radius * radius:
				a = a * 2 // 3
				b = max(1, b * 2 // 3)
			D[i][i] = D[i + 1][i + 1] = a
			D[i][i + 1], D[i + 1][i] = b, -b
			i += 2
		else:
			D[i][i] = draw(st.integers(-radius, radius))
			i += 1
	return D


def unimodular(ops, n):
	"""integer matrix T of determinant 1, and its inverse"""
	T = [[int(i == j) for j in range(n)] for i in range(n)]
	Ti = [[int(i == j) for j in range(n)] for i in range(n)]
	for (i, j, s) in ops:
		i, j = i % n, j % n
		if i == j:
			continue
		for k in range(n):        # T <- E.T (row i += s*row j), Ti <- Ti.E^-1 (column j -= s*column i)
			T[i][k] += s * T[j][k]
			Ti[k][j] -= s * Ti[k][i]
	return T, Ti


def imul(A, B):
	return [[sum(a * B[k][j] for k, a in enumerate(r)) for j in range(len(B[0]))] for r in A]


@st.composite
def state_space(draw, n=(1, 6), p=(1, 3), q=(1, 3), radius=14, entry=small, stable=True, dense=True, gains=True):
	if chance(draw, 12):		# more inputs or outputs (except when they are fixed or nearly fixed)
		p, q = [(x[0], x[1] + 4) if x[1] - x[0] > 1 and draw(st.booleans()) else x for x in (p, q)]
	nn, pp, qq = draw(st.integers(*n)), draw(st.integers(*p)), draw(st.integers(*q))
	kind = draw(st.sampled_from(['poles'] * 3 + (['dense'] if dense else []) + ([] if stable else ['any'])))
	if kind == 'poles':
		D = draw(blocks(nn, radius))
		ops = draw(st.lists(st.tuples(st.integers(0, nn - 1), st.integers(0, nn - 1), st.sampled_from([1, -1])), max_size=2 * nn))
		T, Ti = unimodular(ops, nn)
		A = [[x / 16 for x in r] for r in imul(imul(Ti, D), T)]
	elif kind == 'dense':
		A = draw(mat(st.floats(-1, 1), nn, nn))
		s = max(max(sum(abs(x) for x in r) for r in A), 1e-3)
		A = [[x * radius / 16. / s for x in r] for r in A]
	else:
		A = draw(mat(entry, nn, nn))
	B, C, D = draw(mat(entry, nn, qq)), draw(mat(entry, pp, nn)), draw(mat(entry, pp, qq))
	if chance(draw, 4):		# some null matrix
		k = draw(st.integers(1, 6))
		B, C, D = [[[x * (k >> i & 1) for x in r] for r in M] for i, M in enumerate((B, C, D))]
	if gains and chance(draw, 5):		# inputs and outputs of very different magnitudes
		gi = [2. ** draw(st.sampled_from([0, 0, -45, 40])) for _ in range(qq)]
		go = [2. ** draw(st.sampled_from([0, 0, -60, 40])) for _ in range(pp)]
		B = [[x * g for x, g in zip(r, gi)] for r in B]
		C = [[x * g for x in r] for r, g in zip(C, go)]
		D = [[x * h * g for x, h in zip(r, gi)] for r, g in zip(D, go)]
	return dict(A=A, B=B, C=C, D=D, kind=kind)


@st.composite
def pole_poly(draw, n, radius=14):
	"""[1, a1, ..., an] dyadic, all the roots (in z) of modulus <= radius/16"""
	a = [F(1)]
	while len(a) <= n:
		if len(a) + 1 <= n and draw(st.booleans()):
			x, y = draw(st.integers(-radius, radius)), draw(st.integers(0, radius))
			if x * x + y * y > radius * radius:
				x, y = x * 2 // 3, y * 2 // 3
			f = [F(1), F(-2 * x, 16), F(x * x + y * y, 256)]
		else:
			f = [F(1), F(-draw(st.integers(-radius, radius)), 16)]
		a = polymulF(a, f)
	return [float(x) for x in a]


@st.composite
def transfer_function(draw, n=(1, 6), radius=14, stable=True, entry=small, a0=False, gains=True):
	"""same length for the numerator and the denominator"""
	nn = draw(st.integers(*n))
	den = draw(pole_poly(nn, radius)) if stable or draw(st.booleans()) else [1.] + draw(st.lists(entry, min_size=nn, max_size=nn))
	num = draw(st.lists(entry, min_size=nn + 1, max_size=nn + 1))
	if not stable and chance(draw, 4):		# coefficients of very different magnitudes
		w = st.sampled_from([0, 0, 0, -20, -60])
		num, den = [x * 2. ** draw(w) for x in num], [1.] + [x * 2. ** draw(w) for x in den[1:]]
	if not any(num):
		num[draw(st.integers(0, nn))] = 1.
	k = draw(st.integers(0, 9))
	if k == 9:
		num[0] = 0.
		if not any(num):
			num[-1] = 1.
	if gains and chance(draw, 6):		# very small or very large gains
		g = 2. ** draw(st.sampled_from([-50, -100, 50, -30]))
		num = [x * g for x in num]
	if a0:
		g = draw(st.sampled_from([1., 2., -4., 0.5, 3., -0.7]))
		num, den = [x * g for x in num], [x * g for x in den]
	return dict(num=num, den=den)


# ------------- exact references -------------
def polymulF(p, q):
	r = [F(0)] * (len(p) + len(q) - 1)
	for i, a in enumerate(p):
		for j, b in enumerate(q):
			r[i + j] += a * b
	return r

def polyaddF(p, q, s=1):
	n = max(len(p), len(q))
	p, q = list(p) + [F(0)] * (n - len(p)), list(q) + [F(0)] * (n - len(q))
	return [a + s * b for a, b in zip(p, q)]

def listF(v):
	from oracle import mpf_to_F
	return [mpf_to_F(x) for x in (np.array(v).flatten() if not isinstance(v, list) else v)]

def imp_ss(S, N):
	"""exact impulse response: list of N p x q matrices of Fractions; S is a dict or an object with A, B, C, D"""
	from oracle import matF, mulF
	A, B, C, D = [matF(S[k] if isinstance(S, dict) else getattr(S, k)) for k in 'ABCD']
	if not A or not B:
		return [D] + [[[F(0)] * len(D[0]) for _ in D] for _ in range(N - 1)]
	h, X = [D], B
	for k in range(1, N):
		h.append(mulF(C, X))
		X = mulF(A, X)
	return h

def imp_tf(num, den, N):
	"""exact impulse response (list of N Fractions) of (sum num[i] z^-i)/(sum den[i] z^-i)"""
	num, den = listF(num), listF(den)
	h = []
	for k in range(N):
		v = num[k] if k < len(num) else F(0)
		for i in range(1, min(k, len(den) - 1) + 1):
			v -= den[i] * h[k - i]
		h.append(v / den[0])
	return h

def absS(S):
	return {k: [[abs(x) for x in r] for r in np.array(S[k] if isinstance(S, dict) else getattr(S, k), dtype=float).tolist()] for k in 'ABCD'}

def mag_ss(S, N):
	"""|C||A|^k|B| : scale of the rounding errors of the computation of the impulse response (doubles)"""
	a = absS(S)
	A, B, C, D = [np.array(a[k], dtype=float) for k in 'ABCD']
	if not len(A):
		return [D] + [np.zeros(D.shape)] * (N - 1)
	h, X = [D], B.reshape(A.shape[0], -1)
	for k in range(1, N):
		h.append(C.reshape(-1, A.shape[0]) @ X)
		X = A @ X
	return h

def conv_mat(h1, h2):
	"""impulse response of the series (h1 after h2)"""
	from oracle import mulF, addF
	r = []
	for k in range(min(len(h1), len(h2))):
		acc = None
		for i in range(k + 1):
			m = mulF(h1[i], h2[k - i])
			acc = m if acc is None else addF(acc, m)
		r.append(acc)
	return r

def same_response(got, ref, mag, rel, what):
	"""compare two lists of matrices of Fractions, absolute tolerance rel*mag (+ tiny)"""
	for k, (g, r) in enumerate(zip(got, ref)):
		assert (len(g), len(g[0])) == (len(r), len(r[0])), "%s: size %dx%d instead of %dx%d" % (what, len(g), len(g[0]), len(r), len(r[0]))
		m = mag[k]
		for i in range(len(r)):
			for j in range(len(r[0])):
				t = float(m[i][j] if not np.isscalar(m) else m)
				d = abs(float(g[i][j] - r[i][j]))
				assert d <= rel * t + 1e-300, "%s: sample %d (output %d, input %d) is %r instead of %r (tolerance %.3g)" % (what, k, i, j, float(g[i][j]), float(r[i][j]), rel * t)

def npS(S):
	if not len(S['A']):		# static gain
		p, q = len(S['D']), len(S['D'][0])
		return np.matrix(np.zeros((0, 0))), np.matrix(np.zeros((0, q))), np.matrix(np.zeros((p, 0))), np.matrix(S['D'])
	return tuple(np.matrix(S[k]).reshape(len(S[k]), -1) for k in 'ABCD')

def mk_dSS(S):
	from fixif.LTI import dSS
	return dSS(*npS(S))

def mk_dTF(H):
	from fixif.LTI import dTF
	return dTF(H['num'], H['den'])

def det_inputs(q, T, seed=1):
	"""deterministic bounded inputs (q x T)"""
	r = _random.Random(seed)
	return [[r.randint(-64, 64) / 64. for _ in range(T)] for _ in range(q)]

def sim_ss(S, u, x0=None):
	"""exact simulation: p x T matrix of Fractions"""
	from oracle import matF, mulF, addF
	A, B, C, D = [matF(S[k] if isinstance(S, dict) else getattr(S, k)) for k in 'ABCD']
	U = matF(u)
	T = len(U[0])
	x = [[F(0)] for _ in A] if x0 is None else matF(x0)
	ys = []
	for k in range(T):
		uk = [[r[k]] for r in U]
		y = mulF(D, uk)
		if A:
			y = addF(mulF(C, x), y)
			x = addF(mulF(A, x), mulF(B, uk))
		ys.append(y)
	return [[ys[k][i][0] for k in range(T)] for i in range(len(D))]
