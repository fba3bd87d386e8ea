# coding: utf-8
"""C26: fixed-point formats (MSB, LSB, word-lengths) of the variables of a realization"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, math, os, re, tempfile, shutil
from fractions import Fraction as F
from oracle import *
import sifs

check = Check('C26', assumptions=["stable realizations (poles of modulus at most 7/8, or FIR)", "bounds of the inputs non null, and all the variables are reached by the inputs (the MSB of a null variable is not defined)",
	"the worst-case peak gains (external package fixif.WCPG) are given by a stand-in", "optimalWL: all the variables have an influence on at least one output",
	"the values that depend on the rounding of the gains (1e-9 relative) are accepted in both ways, except for the FIR cases where all is exact"])

ubar = st.one_of(st.sampled_from([1., 1., 0.5, 2., 8., 2. ** -20, 1e-7, 3e4, 2. ** -40, 1. - 2. ** -53, 4. - 2. ** -50, 1. + 2. ** -52, 4. + 2. ** -50]), st.integers(1, 80).map(lambda k: k / 8.))
jsmall = st.sampled_from([0., 1., -1., 0.5, -0.5])
small = st.integers(-12, 12).map(lambda k: k / 4.)
EPS = 1e-9

@st.composite
def systems(draw):
	p, q = draw(st.sampled_from([((1, 2), (1, 2))] * 3 + [((1, 4), (1, 2)), ((3, 4), (1, 1)), ((1, 1), (3, 4))]))
	big = draw(st.integers(0, 5)) == 5        # (indices with two digits)
	if draw(st.sampled_from(['iir', 'iir', 'fir'])) == 'iir':
		c = draw(sifs.sif(l=(3, 6) if big else (0, 3), n=(4, 6) if big else (1, 3), p=p, q=q, radius=14))
		fir = False
	else:
		# nilpotent AZ, coefficients with short mantissas: the gains are computed exactly
		c = draw(sifs.sif(l=(3, 5) if big else (0, 2), n=(4, 6) if big else (0, 3), p=p, q=q, stable=False, entry=small, jentry=jsmall))
		n = c['size'][1]
		A = draw(mat(small, n, n))
		A = [[F(A[i][j]) if j < i else F(0) for j in range(n)] for i in range(n)]
		if c['size'][0]:
			A = subF(A, mulF(mulF(matF(c['K']), sifs.invF(matF(c['J']))), matF(c['M']))) if n else A
		c['P'] = [[float(x) for x in r] for r in A]
		fir = True
	q = c['size'][3]
	# the inputs reach the variables
	for k in 'NQS':
		for r in c[k]:
			if not any(r) and draw(st.sampled_from([True, True, True, False])):
				r[draw(st.integers(0, q - 1))] = 1.
	return dict(c=c, fir=fir, ub=draw(st.lists(ubar, min_size=q, max_size=q)))

def impulse(c, fir, errors):
	"""list over the inputs of the impulse responses (list over time of the vectors), exact for the FIR and with floats otherwise
	errors: from the round-off errors to the outputs, otherwise from the inputs to t, x and y"""
	l, n, p, q = c['size']
	N = 2 * n + 3 if fir else 400
	if fir:
		res = []
		for j in range(l + n + p if errors else q):
			u = [[F(int(not errors and i == j and k == 0)) for k in range(N)] for i in range(q)]
			e = [[F(int(i == j and k == 0)) for k in range(N)] for i in range(l + n + p)] if errors else None
			t, x, xn, y = sifs.run(c, u, err=e)
			v = y if errors else t + x + y
			res.append([[r[k] for r in v] for k in range(N)])
		return res
	z = sifs.azdz(c)
	f = lambda M, s: np.array([[float(x) for x in r] for r in M]).reshape(s)
	A, B, C, D = f(z['A'], (n, n)), f(z['B'], (n, q)), f(z['C'], (p, n)), f(z['D'], (p, q))
	iJ = f(sifs.invF(matF(c['J'])), (l, l)) if l else np.zeros((0, 0))
	K, L, M, NN = [f(c[k], sifs.shapes(c)[k]) for k in 'KLMN']
	if errors:
		B, D = np.hstack((K @ iJ, np.eye(n), np.zeros((n, p)))), np.hstack((L @ iJ, np.zeros((p, n)), np.eye(p)))
	else:
		C, D = np.vstack((iJ @ M, np.eye(n), C)), np.vstack((iJ @ NN, np.zeros((n, q)), D))
	h, X = [D], B
	for k in range(1, N):
		h.append(C @ X)
		X = A @ X
	return [[h[k][:, j].tolist() for k in range(N)] for j in range(B.shape[1])]

def gains(h):
	"""matrix of the worst-case gains (rows: outputs; columns: inputs), as Fractions"""
	return [[sum(F(abs(h[j][k][i])) for k in range(len(h[j]))) for j in range(len(h))] for i in range(len(h[0][0]))]

def ceillog2(x):
	"""ceil(log2(x)), exact (Fraction)"""
	m = x.numerator.bit_length() - x.denominator.bit_length() - 1
	while F(2) ** m < x:
		m += 1
	return m

def wtilde(x, m):
	"""smallest w such that x <= 2^m - 2^(m-w+1) (None: infinity)"""
	d = F(2) ** m - x
	if d <= 0:
		return None
	w = m + 1 - (-ceillog2(1 / d))      # 2^(m-w+1) <= d
	return w

def interval(x, fir):
	return (x, x) if fir else (x * (1 - F(EPS)), x * (1 + F(EPS)))

def representable(r, ub):
	"""the bound is computed without any rounding"""
	tot = F(0)
	for g, u in zip(r, ub):
		tot += g * F(u)
		if F(float(g * F(u))) != g * F(u) or F(float(tot)) != tot:
			return False
	return True

def formats(a, amb=True):
	"""exact bounds of the variables, possible MSB and possible thresholds"""
	c, fir = a['c'], a['fir']
	G = gains(impulse(c, fir, False))
	zeta = [sum(g * F(u) for g, u in zip(r, a['ub'])) for r in G]
	fir = fir and all(representable(r, a['ub']) for r in G)
	if any(z < F(1, 10 ** 6) * F(max(a['ub'])) for z in zeta):
		raise Invalid()
	res = []
	for z in zeta:
		lo, hi = interval(z, fir)
		res.append((z, {ceillog2(lo), ceillog2(hi)}))
	return res, fir

def thresholds(a, R, fm, m):
	"""thresholds of the word-lengths: the ones of the code (our own ones if it has no such method)"""
	if hasattr(R, '_w_tilde'):
		return R._w_tilde(column(a['ub']))
	w = [wtilde(z, mm) for (z, ok), mm in zip(fm, m)]
	return [float('inf') if x is None else x for x in w]

def column(v):
	return np.matrix([[x] for x in v])

def worst(h, i, T):
	"""signs of the inputs (the last ones first) such that the output i is the largest one at time T-1"""
	return [[(1 if h[j][k][i] > 0 else -1 if h[j][k][i] < 0 else 0) for k in range(T - 1, -1, -1)] for j in range(len(h))]

@check.part(systems, quick=250, thorough=6000, rule="IIR with at least one temporary variable or several inputs, or FIR (exact gains)")
def msb(a, ctx):
	c, fir = a['c'], a['fir']
	l, n, p, q = c['size']
	fm, fir = formats(a)
	R = sifs.realization(c)
	m = R.computeNaiveMSB(column(a['ub']))
	info = {}
	assert R.computeNaiveMSB(column(a['ub']), output_info=info) == m
	assert len(m) == l + n + p and all(isinstance(x, int) for x in m), "MSB: %r" % (m,)
	for i, ((z, ok), g) in enumerate(zip(fm, m)):
		assert g in ok, "MSB %d is %r instead of %s (bound %r)" % (i, g, sorted(ok), float(z))
	# thresholds of the word-lengths
	w = thresholds(a, R, fm, m)
	assert len(w) == l + n + p
	power2 = False
	for i, ((z, ok), g, mm) in enumerate(zip(fm, w, m)):
		lo, hi = interval(z, fir)
		# (with the MSB computed)
		w1, w2 = wtilde(lo, mm), wtilde(hi, mm)
		if w1 is None:
			assert g == float('inf') or g >= 50 and not fir, "threshold %d is %r instead of infinity (bound %r)" % (i, g, float(z))
			power2 = True
		elif lo <= F(2) ** (mm - 1):
			pass      # ambiguous MSB
		else:
			assert w1 <= g and (w2 is None or g <= w2), "threshold %d is %r instead of %s (bound %r)" % (i, g, {w1, w2}, float(z))
			if fir:
				top = lambda x: F(2) ** mm - F(2) ** (mm - x + 1)
				assert z <= top(g) and z > top(g - 1)
	# the algorithm, run with the worst inputs, does not overflow (and the MSB is required)
	h = impulse(c, a['fir'], False)
	T = min(len(h[0]), 60)
	for i in sorted({0, len(fm) - 1, l + n - 1 if n else 0}):
		s = worst(h, i, T)
		u = [[F(ub) * x for x in r] for r, ub in zip(s, a['ub'])]
		t, x, xn, y = sifs.run(c, u)
		v = t + x + y
		for j, r in enumerate(v):
			assert max(abs(b) for b in r) <= F(2) ** m[j] * (1 + F(EPS)), "variable %d overflows: %r, MSB %d" % (j, float(max(abs(b) for b in r)), m[j])
		part = sum(F(abs(h[j][k][i])) * F(ub) for j, ub in enumerate(a['ub']) for k in range(T))
		if part > F(2) ** (m[i] - 1) * (1 + F(EPS)):
			assert max(abs(b) for b in v[i]) > F(2) ** (m[i] - 1), "variable %d: the MSB %d is larger than needed" % (i, m[i])
			ctx.label('needed')
	ctx.nontrivial(fir or l > 0 or q > 1)
	ctx.label('fir' if fir else 'iir', power2 and 'power of 2', any(x < 0 for x in m) and 'negative MSB', 'n=%d' % n, 'l=%d' % l)

@st.composite
def ucases(draw):
	a = draw(systems())
	a['eps'] = [draw(st.one_of(st.integers(-20, 3).map(lambda k: 2. ** k), st.sampled_from([0.1, 0.01, 1e-3, 3e-5, 1e-8, 0.7, 1e-12, 1 / 3., 2. ** -20 * (1 + 2. ** -51)]))) for _ in range(a['c']['size'][2])]
	a['wmax'] = draw(st.sampled_from([64, 32, 100]))
	return a

def error_matrix(a, R):
	"""E (Fractions), MSB and thresholds (the ones computed by the code, checked by the part msb)"""
	fm, _ = formats(a)
	m = R.computeNaiveMSB(column(a['ub']))
	wt = thresholds(a, R, fm, m)
	W = gains(impulse(a['c'], a['fir'], True))
	for (z, ok), g in zip(fm, m):
		assert g in ok, "MSB"
	return [[x * F(2) ** mm for x, mm in zip(r, m)] for r in W], m, wt

def satisfied(E, eps, w, wt, tol):
	for r, e in zip(E, eps):
		tot = sum(x * F(2) ** (-ww + (1 if ww < t else 0)) for x, ww, t in zip(r, w, wt))
		if tot > F(e) * (1 + F(tol)):
			return False
	return True

@check.part(ucases, quick=250, thorough=6000, rule="the word-length is at least 2, with several variables")
def uniform(a, ctx):
	c = a['c']
	l, n, p, q = c['size']
	R = sifs.realization(c)
	E, m, wt = error_matrix(a, R)
	w = R.optimalUniformWL(column(a['ub']), column(a['eps']))
	assert isinstance(w, int), "word-length %r" % (w,)
	v = l + n + p
	assert satisfied(E, a['eps'], [w] * v, wt, EPS), "the word-length %d does not satisfy the constraints" % w
	assert not satisfied(E, a['eps'], [w - 1] * v, wt, -EPS), "the word-length %d is not the smallest one" % w
	# with the worst round-off errors (correct rounding of each sum-of-products), the output errors are lower than the constraints
	amp = [F(2) ** (mm + (1 if w < t else 0) - w) for mm, t in zip(m, wt)]
	h = impulse(c, a['fir'], True)
	T = min(len(h[0]), 40)
	zero = [[F(0)] * T for _ in range(q)]
	for i in range(p):
		e = [[am * x for x in r] for am, r in zip(amp, worst(h, i, T))]
		y = sifs.run(c, zero, err=e)[3]
		for j in range(p):
			assert max(abs(x) for x in y[j]) <= F(a['eps'][j]) * (1 + F(EPS)), "output error %r with word-lengths of %d bits" % (float(max(abs(x) for x in y[j])), w)
	ctx.nontrivial(w >= 2 and v > 1)
	d = [w < t for t in wt]
	ctx.label('p=%d' % p, 'delta:all' if all(d) else 'delta:some' if any(d) else 'delta:none', 'w<=0' if w <= 0 else '', 'fir' if a['fir'] else 'iir', float('inf') in wt and 'infinite threshold')

PARAM = re.compile(r'param\s+(\w+)\s*(?::([\s\d]*))?:=([^;]*);')

def parse(text):
	"""parameters of an AMPL data file: scalars, dictionaries (one index) or dictionaries of pairs"""
	lines = [x for x in text.split('\n') if not x.strip().startswith('#')]
	text = '\n'.join(lines)
	assert text.split()[0] == 'data;', "the file does not start with data;"
	res = {}
	rest = PARAM.sub('', text).replace('data;', '').strip()
	assert rest == '', "unexpected text in the data file: %r" % rest
	for name, cols, val in PARAM.findall(text):
		assert name not in res, "parameter %s given twice" % name
		tok = val.split()
		cols = cols.split()
		if cols:
			w = len(cols) + 1
			assert len(tok) % w == 0
			d = {}
			for i in range(0, len(tok), w):
				for c, x in zip(cols, tok[i + 1:i + w]):
					assert (int(tok[i]), int(c)) not in d
					d[int(tok[i]), int(c)] = F(float(x))
			res[name] = d
		elif len(tok) == 1:
			res[name] = F(float(tok[0]))
		else:
			assert len(tok) % 2 == 0
			d = {}
			for i, x in zip(tok[::2], tok[1::2]):
				assert int(i) not in d, "parameter %s: index %s given twice" % (name, i)
				d[int(i)] = F(float(x))
			res[name] = d
	return res

def vector(d, what, size):
	assert isinstance(d, dict) and sorted(d) == list(range(1, size + 1)), "%s: indices %s" % (what, sorted(d) if isinstance(d, dict) else d)
	return [d[i + 1] for i in range(size)]

@check.part(ucases, quick=250, thorough=6000, rule="several variables")
def multiple(a, ctx):
	c = a['c']
	l, n, p, q = c['size']
	R = sifs.realization(c)
	E, m, wt = error_matrix(a, R)
	v = l + n + p
	if any(all(r[j] < F(1, 10 ** 9) * max(r) for r in E) for j in range(v)):
		raise Invalid()
	d = tempfile.mkdtemp(dir='.')
	try:
		w = R.optimalWL(column(a['ub']), column(a['eps']), AMPLfilename='f.dat', AMPLpath=d, wmax=a['wmax'])
		assert os.listdir(d) == ['f.dat']
		with open(os.path.join(d, 'f.dat')) as f:
			text = f.read()
	finally:
		shutil.rmtree(d)
	# the problem given to the solver
	D = parse(text)
	assert set(D) == {'p', 'np', 'u', 'E', 'eps', 'wtilde'}, "parameters of the AMPL file: %s" % sorted(D)
	assert D['p'] == p and D['np'] == v
	assert vector(D['u'], 'u', v) == [a['wmax']] * v
	assert vector(D['eps'], 'eps', p) == [F(x) for x in a["eps"]]
	g = vector(D['wtilde'], 'wtilde', v)
	for i in range(v):
		assert g[i] == wt[i] or wt[i] > a['wmax'] and g[i] > a['wmax'], "wtilde %d: %r instead of %r" % (i, g[i], wt[i])
	if p == 1:
		g = D['E']
		if (1, 1) in g:
			assert set(g) == {(1, j + 1) for j in range(v)}
			g = [[g[1, j + 1] for j in range(v)]]
		else:
			g = [vector(g, 'E', v)]
	else:
		assert set(D['E']) == {(i + 1, j + 1) for i in range(p) for j in range(v)}, "indices of E: %s" % sorted(D['E'])
		g = [[D['E'][i + 1, j + 1] for j in range(v)] for i in range(p)]
	for i in range(p):
		for j in range(v):
			assert abs(g[i][j] - E[i][j]) <= E[i][j] * (F(1, 10 ** 15) if a['fir'] else F(1, 10 ** 8)) + F(1, 10 ** 12) * max(E[i]), "E[%d,%d]: %r in the file instead of %r" % (i, j, float(g[i][j]), float(E[i][j]))
	# the solution given: the smallest word-lengths such that each variable has at most its part of the errors
	assert isinstance(w, list) and len(w) == v and all(isinstance(x, int) for x in w), "word-lengths %r" % (w,)
	def err(i, j, x):
		return E[i][j] * v * F(2) ** ((1 if x < wt[j] else 0) - x)
	for j in range(v):
		for i in range(p):
			assert err(i, j, w[j]) <= F(a['eps'][i]) * (1 + F(EPS)), "the word-length %d of the variable %d does not satisfy its part of the constraint %d" % (w[j], j, i)
		assert any(err(i, j, w[j] - 1) > F(a['eps'][i]) * (1 - F(EPS)) for i in range(p)), "the word-length %d of the variable %d is not the smallest one" % (w[j], j)
	assert satisfied(E, a['eps'], w, wt, EPS)
	if any(x < t for x, t in zip(w, wt)):
		ctx.label('below a threshold')
	ctx.nontrivial(v > 1)
	ctx.label('p=%d' % p, 'fir' if a['fir'] else 'iir', float('inf') in wt and 'infinite threshold', min(x for r in E for x in r if x) < 1e-6 and 'small E')

@st.composite
def lcases(draw):
	a = draw(systems())
	a['ly'] = draw(st.integers(-24, 12))
	a['bad'] = draw(st.sampled_from([[-3], -3.0, None, '5']))
	return a

@check.part(lcases, quick=250, thorough=6000, rule="several variables")
def lsb(a, ctx):
	c = a['c']
	l, n, p, q = c['size']
	R = sifs.realization(c)
	if not hasattr(R, '_compute_LSB'):
		return ctx.label('no such method')
	try:
		R._compute_LSB(a['bad'])
		raise AssertionError("_compute_LSB(%r) is accepted" % (a['bad'],))
	except ValueError:
		pass
	v = l + n + p
	h = impulse(c, a['fir'], True)
	W = gains(h)
	g = np.asarray(R._compute_LSB(a['ly'])[0]).flatten().tolist()
	assert len(g) == v, "%d LSB instead of %d" % (len(g), v)
	bound = F(2) ** (a['ly'] - 2)
	for j in range(v):
		big = max(r[j] for r in W)
		if big < F(1, 10 ** 9):
			if not (g[j] == float('inf') or g[j] > a['ly']):
				raise AssertionError("LSB %d: %r for a variable without influence" % (j, g[j]))
			continue
		assert g[j] == int(g[j]), "LSB %d: %r" % (j, g[j])
		# each variable has at most its part of the error, and the LSB is at most two bits too low
		assert big * v * F(2) ** int(g[j]) <= bound * (1 + F(EPS)), "LSB %d: %r, gain %r: the error is larger than its part of 2^%d" % (j, g[j], float(big), a['ly'] - 2)
		assert big * v * F(2) ** (int(g[j]) + 2) > bound * (1 - F(EPS)), "LSB %d: %r, gain %r: lower than required" % (j, g[j], float(big))
	amp = [F(2) ** int(x) if math.isfinite(x) else F(0) for x in g]
	T = min(len(h[0]), 40)
	zero = [[F(0)] * T for _ in range(q)]
	for i in range(p):
		e = [[am * x for x in r] for am, r in zip(amp, worst(h, i, T))]
		y = sifs.run(c, zero, err=e)[3]
		for j in range(p):
			assert max(abs(x) for x in y[j]) <= bound * (1 + F(EPS)), "output error %r, for an LSB of %d" % (float(max(abs(x) for x in y[j])), a['ly'])
	ctx.nontrivial(v > 1)
	ctx.label('p=%d' % p, 'fir' if a['fir'] else 'iir', 'positive LSB' if a['ly'] > 0 else 'negative LSB')
