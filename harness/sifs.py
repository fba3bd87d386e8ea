# coding: utf-8
"""Generated SIFs (plain JSON) and the exact reference of their implicit equations (rational arithmetic)."""
from fractions import Fraction as F
from hypothesis import strategies as st
import numpy as np
from gens import mat
import systems as sy
from oracle import matF, mulF, addF, subF, eyeF

NAMES = 'JKLMNPQRS'

coef = st.one_of(st.just(0.), st.sampled_from([1., -1., 2., 0.5, -0.25, 0., 0., 4.]), st.integers(-24, 24).map(lambda k: k / 8.))


def invF(J):
	"""exact inverse of a unit lower-triangular matrix (forward substitution)"""
	n = len(J)
	X = eyeF(n)
	for j in range(n):
		for i in range(n):
			X[i][j] = F(int(i == j)) - sum((J[i][k] * X[k][j] for k in range(i)), F(0))
	return X


@st.composite
def sif(draw, l=(0, 3), n=(1, 4), p=(1, 3), q=(1, 3), stable=True, radius=14, entry=coef, jentry=None, exotic=True):
	if sy.chance(draw, 12):		# larger ones (except for the dimensions that are fixed or nearly fixed)
		l, n, p, q = [(x[0], x[1] + 4) if x[1] - x[0] > 1 and draw(st.booleans()) else x for x in (l, n, p, q)]
	ll, nn, pp, qq = [draw(st.integers(*x)) for x in (l, n, p, q)]
	J = draw(mat(entry if jentry is None else jentry, ll, ll))
	for i in range(ll):
		J[i][i] = 1.
		for j in range(i + 1, ll):
			J[i][j] = 0.
	K, L, M, N = [draw(mat(entry, a, b)) for a, b in ((nn, ll), (pp, ll), (ll, nn), (ll, qq))]
	Q, R, S = [draw(mat(entry, a, b)) for a, b in ((nn, qq), (pp, nn), (pp, qq))]
	if exotic and sy.chance(draw, 3):		# some blocks are null
		blocks = dict(K=K, L=L, M=M, N=N, Q=Q, R=R, S=S)
		for k in draw(st.lists(st.sampled_from('KLMNQRS'), max_size=5)):
			for r in blocks[k]:
				r[:] = [0.] * len(r)
	if exotic and sy.chance(draw, 4):		# very different magnitudes of inputs and outputs
		so, si = 2. ** draw(st.sampled_from([0, -40, -75, 30])), 2. ** draw(st.sampled_from([0, 0, -40, 30]))
		L, R = [[[x * so for x in r] for r in X] for X in (L, R)]
		N, Q = [[[x * si for x in r] for r in X] for X in (N, Q)]
		S = [[x * si * so for x in r] for r in S]
	if stable and nn:
		A = matF(draw(sy.state_space(n=(nn, nn), p=(1, 1), q=(1, 1), radius=radius, dense=False))['A'])
		if ll:
			A = subF(A, mulF(mulF(matF(K), invF(matF(J))), matF(M)))
		P = [[float(x) for x in r] for r in A]
	else:
		P = draw(mat(entry, nn, nn))
	return dict(J=J, K=K, L=L, M=M, N=N, P=P, Q=Q, R=R, S=S, size=[ll, nn, pp, qq])


def shapes(c):
	l, n, p, q = c['size']
	return dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))

def npm(c, k):
	return np.matrix(np.array(c[k], dtype=float).reshape(shapes(c)[k]))

def mats(c):
	"""tuple of np.matrix J to S"""
	return tuple(npm(c, k) for k in NAMES)

def mk(c, dJtodS=None):
	from fixif.SIF import SIF
	return SIF(mats(c), dJtodS)

def realization(c, filt=None, **kw):
	from fixif.SIF import Realization
	return Realization(filt, mats(c), **kw)

def pad(M, shape):
	"""lists of Fractions, with the good shape when empty"""
	return M if M else []

def exact(c):
	"""exact (Fractions) matrices J to S, from a dict or from an object with these attributes"""
	d = {}
	for k in NAMES:
		m = c[k] if isinstance(c, dict) else np.asarray(getattr(c, k)).tolist()
		d[k] = matF(m)
	return d

def azdz(c):
	"""exact AZ, BZ, CZ, DZ"""
	e = exact(c)
	if not e['J']:
		return {'A': e['P'], 'B': e['Q'], 'C': e['R'], 'D': e['S']}
	iJ = invF(e['J'])
	KJ, LJ = mulF(e['K'], iJ), mulF(e['L'], iJ)
	return {'A': addF(mulF(KJ, e['M']), e['P']), 'B': addF(mulF(KJ, e['N']), e['Q']),
		'C': addF(mulF(LJ, e['M']), e['R']), 'D': addF(mulF(LJ, e['N']), e['S'])}

def invJ_mag(c):
	"""scale of the errors of the inverse of J (norm-wise: LAPACK pivots)"""
	J = exact(c)['J']
	X = invF([[abs(x) if i == j else -abs(x) for j, x in enumerate(r)] for i, r in enumerate(J)])
	return float(max([x for r in X for x in r] + [F(1)]))

def azdz_mag(c):
	"""scale of the rounding errors of AZ, BZ, CZ, DZ"""
	e = {k: [[abs(x) for x in r] for r in v] for k, v in exact(c).items()}
	if not e['J']:
		return {'A': e['P'], 'B': e['Q'], 'C': e['R'], 'D': e['S']}
	m = F(invJ_mag(c))
	iJ = [[m for _ in r] for r in e['J']]
	KJ, LJ = mulF(e['K'], iJ), mulF(e['L'], iJ)
	return {'A': addF(mulF(KJ, e['M']), e['P']), 'B': addF(mulF(KJ, e['N']), e['Q']),
		'C': addF(mulF(LJ, e['M']), e['R']), 'D': addF(mulF(LJ, e['N']), e['S'])}

def mag(c, N):
	"""scale of the rounding errors of the impulse response computed with doubles"""
	S = azdz_mag(c)
	e = exact(c)
	n, p = len(e['P']), len(e['S'])
	q = len(e['S'][0])
	A, B, C, D = [np.array([[float(x) for x in r] for r in S[k]]).reshape(sh) for k, sh in (('A', (n, n)), ('B', (n, q)), ('C', (p, n)), ('D', (p, q)))]
	h, X = [D], B
	for k in range(1, N):
		h.append(C @ X)
		X = A @ X
	return h

def run(c, u, x0=None, err=None):
	"""the implicit equations, step by step (exact)
	u: q x T; err: (l+n+p) x T errors added on each equation
	returns t (l x T), x (n x T, the states at the beginning of the step), xn (n x T, new states), y (p x T)"""
	e = exact(c)
	l, n, p = len(e['J']), len(e['P']), len(e['S'])
	U = matF(u)
	T = len(U[0])
	E = matF(err) if err is not None else None
	x = [F(0)] * n if x0 is None else [F(v) for v in x0]
	dot = lambda r, v: sum((a * b for a, b in zip(r, v)), F(0))
	ts, xs, xns, ys = [], [], [], []
	for k in range(T):
		uk = [r[k] for r in U]
		ek = [r[k] for r in E] if E is not None else [F(0)] * (l + n + p)
		t = []
		for i in range(l):
			v = ek[i] - dot(e['J'][i][:i], t)
			v += dot(e['M'][i], x) + dot(e['N'][i], uk)
			t.append(v)
		xn = [dot(e['K'][i] if l else [], t) + dot(e['P'][i], x) + dot(e['Q'][i], uk) + ek[l + i] for i in range(n)]
		y = [dot(e['L'][i] if l else [], t) + dot(e['R'][i], x) + dot(e['S'][i], uk) + ek[l + n + i] for i in range(p)]
		ts.append(t); xs.append(x); xns.append(xn); ys.append(y)
		x = xn
	tr = lambda v, m: [[v[k][i] for k in range(T)] for i in range(m)]
	return tr(ts, l), tr(xs, n), tr(xns, n), tr(ys, p)

def sim_mag(c, u):
	"""scale of the errors of a simulation (per output)"""
	S = azdz_mag(c)
	T = len(u[0])
	h = mag(c, T)
	ua = np.array([[max(abs(x) for x in r)] for r in u])
	tot = sum(x @ ua for x in h)
	return [[float(v[0])] * T for v in tot]

def close(got, ref, mag, rel, what):
	got = np.asarray(got, dtype=float)
	assert got.shape == (len(ref), len(ref[0]) if ref else got.shape[1]), "%s: shape %s instead of %s" % (what, got.shape, (len(ref), len(ref[0]) if ref else 0))
	for i in range(len(ref)):
		for j in range(len(ref[0])):
			m = mag[i][j] if not np.isscalar(mag) else mag
			d = abs(F(float(got[i, j])) - F(ref[i][j]))
			assert d <= F(rel * float(m) + 1e-300), "%s: entry (%d,%d) is %r instead of %r" % (what, i, j, float(got[i, j]), float(ref[i][j]))
