# coding: utf-8
"""C09: Gramians, norms, gains and changes of coordinates of state-spaces"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, warnings
from fractions import Fraction as F
from oracle import mulF, addF, subF, matF, eyeF
import systems as sy, slycot_stub
from fixif.LTI import dSS

check = Check('C09', assumptions=["stable systems with poles of modulus at most 0.875 (the reference sums of the impulse response are truncated when they are negligible); relative tolerance 1e-6 (Gramians: 1e-8 on the residual of the Lyapunov equation)",
	"slycot is not installed: the 'slycot' method (chosen by default) falls back on scipy, and is exercised with a stand-in of the two routines of slycot (harness/slycot_stub.py); fixif.WCPG (external package) is replaced by a stand-in that sums the impulse response"])

def reference(S, tol=1e-17):
	"""(Wo, Wc, H2norm, WCPG) by summation in doubles"""
	A, B, C, D = [np.array(M) for M in sy.npS(S)]
	n = A.shape[0]
	Wo, Wc = np.zeros((n, n)), np.zeros((n, n))
	W = np.abs(D)
	h2 = (D ** 2).sum()
	X, Y = B.copy(), C.copy()
	for k in range(5000):
		Wc += X @ X.T
		Wo += Y.T @ Y
		h = C @ X
		W = W + np.abs(h)
		h2 += (h ** 2).sum()
		X, Y = A @ X, Y @ A
		if np.abs(X).max() <= tol * np.abs(B).max() and np.abs(Y).max() <= tol * np.abs(C).max():
			break
	else:
		raise AssertionError("generator: not stable enough")
	return Wo, Wc, np.sqrt(h2), W

def close(got, ref, rel, what, scale=None):
	got, ref = np.array(got, dtype=float), np.array(ref, dtype=float)
	assert got.shape == ref.shape, "%s: shape %s instead of %s" % (what, got.shape, ref.shape)
	s = np.abs(ref).max() if scale is None else scale
	assert np.all(np.abs(got - ref) <= rel * s + 1e-12), "%s is %s instead of %s" % (what, got.tolist(), ref.tolist())

def solveF(A, B):
	"""exact solution of A X = B (Fractions), None if singular"""
	n = len(A)
	M = [list(A[i]) + list(B[i]) for i in range(n)]
	for i in range(n):
		piv = next((r for r in range(i, n) if M[r][i] != 0), None)
		if piv is None:
			return None
		M[i], M[piv] = M[piv], M[i]
		M[i] = [x / M[i][i] for x in M[i]]
		for r in range(n):
			if r != i and M[r][i] != 0:
				f = M[r][i]
				M[r] = [x - f * y for x, y in zip(M[r], M[i])]
	return [row[n:] for row in M]

READS = ['Wo', 'Wc', 'H2norm', 'WCPG', 'WCPG info', 'DC']

def read(S, what):
	if what == 'WCPG info':
		info = {}
		W = S.WCPG(info)
		assert info, "the informations about the computation of the WCPG are not given"
		return W
	return {'Wo': lambda: S.Wo, 'Wc': lambda: S.Wc, 'H2norm': S.H2norm, 'WCPG': S.WCPG, 'DC': S.calc_DC_gain}[what]()

def verify(S, cur, what):
	"""cur: the exact matrices (Fractions) of the system at that time"""
	A, B, C, D = [np.array([[float(x) for x in r] for r in cur[k]]).reshape(len(cur[k]), -1) for k in 'ABCD']
	Wo, Wc, h2, W = reference(dict(A=A.tolist(), B=B.tolist(), C=C.tolist(), D=D.tolist()))
	got = read(S, what)
	if np.abs(A).sum(axis=1).max() > 100 and what in ('Wo', 'Wc', 'H2norm'):
		return		# too sensitive to the rounding errors in these coordinates
	if what == 'Wo':
		close(got, Wo, 1e-6, 'Wo')
		R = A.T @ np.array(got) @ A + C.T @ C - np.array(got)
		assert np.abs(R).max() <= 1e-8 * (1 + np.abs(Wo).max()) * (1 + np.abs(A).max()) ** 2, "Wo does not satisfy its equation: residual %s" % R
	elif what == 'Wc':
		close(got, Wc, 1e-6, 'Wc')
		R = A @ np.array(got) @ A.T + B @ B.T - np.array(got)
		assert np.abs(R).max() <= 1e-8 * (1 + np.abs(Wc).max()) * (1 + np.abs(A).max()) ** 2, "Wc does not satisfy its equation: residual %s" % R
	elif what == 'H2norm':
		close(got, h2, 1e-6, 'H2 norm')
	elif what.startswith('WCPG'):
		close(got, W, 1e-6, 'WCPG')
	else:
		X = solveF(subF(eyeF(len(A)), cur['A']), cur['B'])
		g = addF(mulF(cur['C'], X), cur['D'])
		close(got, [[float(x) for x in r] for r in g], 1e-7, 'DC gain', scale=np.abs(D).max() + float(max([abs(x) for r in X for x in r] + [F(0)])) * np.abs(C).max() * (1 + np.abs(A).max()) ** 2)

# histories of readings and changes of coordinates (integer unimodular: exact)
@st.composite
def histories(draw):
	S = draw(sy.state_space(n=(1, 5), stable=True))
	n = len(S['A'])
	def change():
		if sum(s[0] == 'S' for s in steps) < 1 and draw(st.booleans()):		# scaling
			return ['S', draw(st.lists(st.sampled_from([1., 2., 0.5, 4., 0.25, -1., -2., -0.5]), min_size=n, max_size=n))]
		return ['T', draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([1, -1])).map(list), min_size=1, max_size=3))]
	steps = []
	for _ in range(draw(st.integers(1, 6))):
		steps.append(change() if draw(st.integers(0, 3)) == 3 else ['r', draw(st.sampled_from(READS))])
	return dict(S, steps=steps)

@check.part(histories(), quick=500, thorough=8000, shards=(3, 8), rule="histories of 1..6 readings (Gramians, norms, gains) and similarity transforms; non-trivial: a reading of the same quantity before and after a change of coordinates, or n >= 3 with several inputs/outputs")
def histories_of_readings(c, ctx):
	S = sy.mk_dSS(c)
	cur = {k: matF(c[k]) for k in 'ABCD'}
	seen, changed, both = set(), set(), False
	for s in c['steps']:
		if s[0] in 'ST':
			if s[0] == 'T':
				T, Ti = sy.unimodular([tuple(x) for x in s[1]], len(c['A']))
			else:
				T, Ti = [[[k ** x * (i == j) for j in range(len(s[1]))] for i, k in enumerate(s[1])] for x in (1, -1)]
			TF, TiF = [[F(x) for x in r] for r in T], [[F(x) for x in r] for r in Ti]
			before = [np.array(M) for M in (S.A, S.B, S.C)]
			S.similarity(np.matrix(T, dtype=float))
			if s[0] == 'S':
				t, ti = np.diag(np.array(T))[None, :], np.diag(np.array(Ti))[:, None]
				for k, m, r in zip('ABC', (S.A, S.B, S.C), (before[0] * t * ti, before[1] * ti, before[2] * t)):
					assert np.all(np.abs(np.array(m) - r) <= 1e-12 * np.abs(r) + 1e-290), "matrix %s after a scaling of the states: %s instead of %s" % (k, m.tolist(), r.tolist())
			cur['A'], cur['B'], cur['C'] = mulF(mulF(TiF, cur['A']), TF), mulF(TiF, cur['B']), mulF(cur['C'], TF)
			changed |= seen
			nT = float(max(sum(abs(x) for x in r) for r in T) * max(sum(abs(x) for x in r) for r in Ti))
			for k in 'ABCD':
				close(getattr(S, k), [[float(x) for x in r] for r in cur[k]], 1e-10 * nT, 'matrix %s after the change of coordinates' % k)
		else:
			verify(S, cur, s[1])
			both = both or s[1] in changed
			seen.add(s[1])
			ctx.label(s[1])
	ctx.nontrivial(both or (len(c['A']) >= 3 and len(c['D']) * len(c['D'][0]) > 1))
	ctx.label('again after a change' if both else '', c['kind'])


def gramian(S, c):
	if c[2] == 'o':
		S.calc_Wo(c[1])
		return S.Wo
	S.calc_Wc(c[1])
	return S.Wc

@check.part(st.tuples(sy.state_space(n=(1, 12)), st.sampled_from(['linalg', 'slycot', None]), st.sampled_from('oc'), st.booleans(), st.booleans()).map(list), quick=200, thorough=2000, rule="systems up to 12 states (both algorithms of scipy) and each method, without slycot and with its stand-in; non-trivial: n >= 3")
def gramian_methods(c, ctx):
	S = sy.mk_dSS(c[0]) if c[4] else dSS(*[np.asfortranarray(np.array(M)) for M in sy.npS(c[0])])
	if c[3]:
		with slycot_stub.installed():
			G = gramian(S, c)
	else:
		G = gramian(S, c)
	assert all(np.array_equal(np.array(getattr(S, k)), np.array(M)) for k, M in zip('ABCD', sy.npS(c[0]))), "the system is modified by the computation of its Gramians"
	A, B, C, D = [np.array(M) for M in sy.npS(c[0])]
	G = np.array(G)
	R = (A.T @ G @ A + C.T @ C - G) if c[2] == 'o' else (A @ G @ A.T + B @ B.T - G)
	assert np.abs(R).max() <= 1e-7 * (1 + np.abs(G).max()) * (1 + np.abs(A).max()) ** 2 * (1 if S.n < 10 else max(1, min(1e3, 1e-2 * np.linalg.cond(A + np.eye(S.n))))), "W%s does not satisfy its equation: residual %s" % (c[2], np.abs(R).max())
	ctx.nontrivial(S.n >= 3)
	ctx.label('n>=10' if S.n >= 10 else 'n<10', c[1], c[2], 'slycot' if c[3] else '')
	for f in (S.calc_Wo, S.calc_Wc):
		try:
			f('nothing')
		except ValueError:
			continue
		raise AssertionError("unknown method accepted")


@st.composite
def with_pole_one(draw):
	S = draw(sy.state_space(n=(1, 4), stable=True, dense=False))
	i = draw(st.integers(0, len(S['A']) - 1))
	S['A'][i] = [float(i == j) for j in range(len(S['A']))]
	return S

@check.part(with_pole_one(), quick=80, thorough=500, rule="systems with a pole in 1; non-trivial: all")
def no_dc_gain(c, ctx):
	ctx.nontrivial()
	try:
		g = sy.mk_dSS(c).calc_DC_gain()
	except ValueError:
		return
	# I - A has a null row: the elimination sees that it is singular
	raise AssertionError("DC gain %s for a system with a pole in 1" % g)


@st.composite
def without_gramian(draw):
	"""product of two poles equal to 1: the Lyapunov equations have no unique solution"""
	blocks = draw(st.sampled_from([[[[1.]]], [[[-1.]]], [[[2.]], [[.5]]], [[[-4.]], [[-.25]]], [[[0., 1.], [-1., 0.]]], [[[.5]], [[0., 2.], [2., 0.]]]]))
	blocks = blocks + draw(st.lists(st.sampled_from([[[.5]], [[-.75]], [[0.]], [[1.5]], [[0., .5], [-.5, 0.]]]), max_size=2))
	blocks = draw(st.permutations(blocks))
	n = sum(len(b) for b in blocks)
	A = [[0.] * n for _ in range(n)]
	k = 0
	for b in blocks:
		for i in range(len(b)):
			A[k + i][k:k + len(b)] = b[i]
		k += len(b)
	v = st.sampled_from([1., -1., .5, 2., -3.])
	p, q = draw(st.integers(1, 2)), draw(st.integers(1, 2))
	return dict(A=A, B=draw(mat(v, n, q)), C=draw(mat(v, p, n)), D=draw(mat(v, p, q)), reads=draw(st.lists(st.sampled_from(['Wo', 'Wc', 'H2norm', 'calc_Wo', 'calc_Wc', 'linalg']), min_size=1, max_size=4)))

@check.part(without_gramian(), quick=80, thorough=1000, rule="systems (not stable) with two poles (or the square of one) whose product is 1, up to 9 states; non-trivial: all")
def no_gramian(c, ctx):
	S = sy.mk_dSS(c)
	for r in c['reads']:
		with warnings.catch_warnings(record=True) as w:
			warnings.simplefilter('always')
			try:
				if r in ('Wo', 'Wc'):
					getattr(S, r)
				elif r == 'linalg':
					S.calc_Wo('linalg')
				else:
					getattr(S, r)()
			except (ValueError, np.linalg.LinAlgError):
				continue
		# (the singularity is exactly seen, or the solver warns)
		assert w, "%s of a system without Gramians is given" % r
	assert all(np.array_equal(np.array(getattr(S, k)), np.array(M)) for k, M in zip('ABCD', sy.npS(c))), "the system is modified"
	ctx.nontrivial()
	ctx.label(*c['reads'])


@st.composite
def sparse_systems(draw):
	S = draw(sy.state_space(n=(1, 5), p=(1, 2), q=(1, 2), dense=False))
	n = len(S['A'])
	# the states of the first group are not driven, the ones of the second group are not observed
	k = draw(st.integers(0, n))
	for i in range(k):
		S['B'][i] = [0.] * len(S['B'][0])
		for j in range(k, n):
			S['A'][i][j] = 0.
	for r in S['C']:
		for j in range(k, n):
			if draw(st.integers(0, 4)):
				r[j] = 0.
	if draw(st.booleans()):
		S['D'] = [[0.] * len(r) for r in S['D']]
	return S

@check.part(sparse_systems(), quick=300, thorough=4000, rule="systems with undriven states and unobserved states, often with a null transfer function; non-trivial: null transfer function with non-null Gramians")
def null_systems(c, ctx):
	A, B, C, D = [np.array(M) for M in sy.npS(c)]
	if np.abs(np.linalg.eigvals(A)).max() > 0.95:
		raise Invalid()        # (the couplings removed by the generator change the poles)
	Wo, Wc, h2, W = reference(c)
	S = sy.mk_dSS(c)
	got = float(S.H2norm())
	scale = (np.abs(C).sum() ** 2) * (np.abs(Wc).max() + np.abs(Wo).max()) + (D ** 2).sum()
	assert np.isfinite(got) and abs(got ** 2 - h2 ** 2) <= 1e-9 * scale * (1 + np.abs(A).max()) ** 2, "H2 norm is %r instead of %r" % (got, h2)
	close(S.WCPG(), W, 1e-6, 'WCPG')
	ctx.nontrivial(h2 == 0 and np.abs(Wc).max() > 0)
	ctx.label('null' if h2 == 0 else '')
