# coding: utf-8
"""C18: sensitivities of the transfer function and of the poles with respect to the coefficients"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from oracle import *
import systems as sy, sifs
from fixif.SIF import SIF

check = Check('C18', assumptions=["transfer function: stable SIF (poles of modulus lower than 0.875); poles: simple and non-null poles (the sensitivity is not defined otherwise)",
	"relative tolerance 1e-6 on the squares of the sensitivities"])

@st.composite
def cases(draw, large=False, stable=True):
	c = draw(sifs.sif(l=(0, 4), n=(4, 6), p=(1, 3), q=(1, 3)) if large and draw(st.integers(0, 5)) == 5 else sifs.sif(l=(0, 2), n=(1, 3), p=(1, 2), q=(1, 2), stable=stable))
	d = None
	if draw(st.booleans()):
		# (0 or 1, or weights between the coefficients)
		w = draw(st.sampled_from([st.integers(0, 1), st.sampled_from([0., 1., 0.5, 2., 3.75, 1e-3])]))
		d = {k: draw(mat(w, *sifs.shapes(c)[k])) for k in sifs.NAMES}
	return dict(c=c, d=d)

def build(d):
	c = d['c']
	dd = None
	if d['d'] is not None:
		dd = tuple(np.matrix(np.array(d['d'][k]).reshape(sifs.shapes(c)[k])) for k in sifs.NAMES)
	R = sifs.mk(c, dd)
	l, n, p, q = c['size']
	if d['d'] is None:
		Z = np.array(np.bmat([[-R.J, R.M, R.N], [R.K, R.P, R.Q], [R.L, R.R, R.S]]))
		def trivial(x):
			return x == 0 or np.frexp(abs(x))[0] == 0.5
		mask = np.array([[0 if trivial(x) else 1 for x in r] for r in Z])
	else:
		mask = np.array(np.bmat([[dd[0], dd[3], dd[4]], [dd[1], dd[5], dd[6]], [dd[2], dd[7], dd[8]]]))
	return R, mask

def derivatives(c, T=260):
	"""dh(k)/dZ_ij by complex steps: array (T, rows of Z, columns of Z, p, q)"""
	l, n, p, q = c['size']
	J, K, L, M, N, P, Q, R, S = [np.array(x) for x in sifs.mats(c)]
	Z = np.block([[-J, M, N], [K, P, Q], [L, R, S]]).astype(complex)
	r, s = Z.shape
	h = 1e-30
	E = np.repeat(Z[None], r * s, axis=0)
	for i in range(r):
		for j in range(s):
			E[i * s + j, i, j] += 1j * h
	a, b = l + n, l + n
	MN = E[:, :l, l:]
	X = np.linalg.solve(-E[:, :l, :l], MN) if l else np.zeros((r * s, 0, n + q))
	G = E[:, l:, :l] @ X + E[:, l:, l:]
	A, B, C, D = G[:, :n, :n], G[:, :n, n:], G[:, n:, :n], G[:, n:, n:]
	out, x = [D], B
	for k in range(T):
		out.append(C @ x)
		x = A @ x
	return np.array([o.imag / h for o in out]).reshape(T + 1, r, s, p, q)

@check.part(cases(large=True), quick=250, thorough=4000, shards=(3, 8), rule="stable SIF with deduced or given exactly-represented coefficients; non-trivial: l>=1 and some non trivial coefficients in several of the matrices")
def transfer_function(d, ctx):
	c = d['c']
	R, mask = build(d)
	M, MX = R.dTFsensitivity()
	MX = np.asarray(MX, dtype=float)
	assert MX.shape == mask.shape, "shape %s" % (MX.shape,)
	D = derivatives(c)
	ref2 = (D ** 2).sum(axis=(0, 3, 4))
	if not np.isfinite(ref2).all():
		raise Invalid()
	l, n, p, q = c['size']
	# scale: norms of the systems before cancellation
	ref2m = ref2 * np.asarray(mask, dtype=float) ** 2
	scale = (ref2.max() + 1) * max(1, mask.max()) ** 2
	sz = (1 + max([abs(x) for k in sifs.NAMES for r in c[k] for x in r] or [0])) ** 2
	err = np.abs(MX ** 2 - ref2m)
	assert np.all(err <= 1e-7 * ref2m + 1e-10 * scale * sz), "sensitivities %s instead of %s" % (MX.tolist(), np.sqrt(ref2m).tolist())
	assert abs(M - ref2m.sum()) <= 1e-6 * ref2m.sum() + 1e-9 * scale * sz * mask.size, "measure %r instead of %r" % (M, ref2m.sum())
	ctx.nontrivial(l >= 1 and (ref2m > 0).sum() >= 3)
	ctx.label('l=%d' % l, 'p=q' if p == q else 'p!=q', 'dZ deduced' if not d['d'] else 'weights' if (mask % 1).any() else 'dZ given')


@st.composite
def pole_cases(draw):
	d = draw(cases(stable=draw(st.integers(0, 2)) > 0))
	l, n, p, q = d['c']['size']
	m = draw(st.lists(st.tuples(st.integers(0, l + n + p - 1), st.integers(0, l + n + q - 1)).map(list), min_size=4, max_size=8))
	return dict(d, entries=m, moduli=draw(st.booleans()))

def poles_mp(c, entry=None, h=None):
	"""eigenvalues of AZ (60 digits), one entry of Z being moved"""
	l, n, p, q = c['size']
	m = {k: mpmath.matrix(sifs.shapes(c)[k][0], sifs.shapes(c)[k][1]) for k in 'JKMP'}
	for k in m:
		for i, r in enumerate(c[k]):
			for j, x in enumerate(r):
				m[k][i, j] = mpmath.mpf(x)
	if entry is not None:
		i, j = entry
		if i < l and j < l:
			m['J'][i, j] -= h
		elif i < l and j < l + n:
			m['M'][i, j - l] += h
		elif l <= i < l + n and j < l:
			m['K'][i - l, j] += h
		elif l <= i < l + n and j < l + n:
			m['P'][i - l, j - l] += h
		else:
			return None
	A = m['P'] + m['K'] * (m['J'] ** -1) * m['M'] if l else m['P']
	return list(mpmath.eig(A, left=False, right=False))

@check.part(pole_cases(), quick=120, thorough=2000, shards=(3, 8), rule="SIF with simple non-null poles, some entries of Z being checked with high-precision finite differences; non-trivial: a non-null derivative for a complex pole or with l>=1")
def poles(d, ctx):
	c, moduli = d['c'], d['moduli']
	l, n, p, q = c['size']
	R, mask = build(d)
	mpmath.mp.dps = 60
	lam = poles_mp(c)
	if min(abs(x) for x in lam) < 0.02 or any(abs(lam[i] - lam[j]) < 0.02 for i in range(n) for j in range(i)):
		raise Invalid()
	M, MX, MXk = R.poleSensitivity(moduli)
	MX, MXk = np.asarray(MX), np.asarray(MXk)
	assert MX.shape == mask.shape and MXk.shape == mask.shape + (n,), "shapes %s %s" % (MX.shape, MXk.shape)
	h = mpmath.mpf(10) ** -25
	amp = max(1, np.linalg.cond(np.linalg.eig(R.AZ)[1])) ** 2 * (1 + max(abs(x) for k in 'KMP' for r in c[k] for x in r + [0.]) if True else 1) ** 2 * sifs.invJ_mag(c) ** 2
	if amp > 1e8:
		raise Invalid()
	tol = 1e-12 * amp
	nz = False
	for (i, j) in d['entries']:
		new = poles_mp(c, (i, j), h)
		if new is None:
			ref = [0.] * n
		else:
			ref = []
			for x in lam:
				y = min(new, key=lambda v: abs(v - x))
				ref.append(float((abs(y) - abs(x)) / h) if moduli else complex((y - x) / h))
		got = list(MXk[i, j, :])
		nrm = np.sqrt(sum(abs(x) ** 2 for x in ref))
		assert abs(MX[i, j] - nrm) <= tol * (1 + nrm), "pole sensitivity of the entry (%d,%d) is %r instead of %r (%s)" % (i, j, MX[i, j], nrm, ref)
		# the derivatives of each pole (in any order)
		rest = list(got)
		for x in ref:
			y = min(rest, key=lambda v: abs(v - x))
			assert abs(y - x) <= tol * (1 + abs(x)), "derivatives of the poles for the entry (%d,%d) are %s instead of %s" % (i, j, got, ref)
			rest.remove(y)
		nz = nz or (nrm > 0 and (l >= 1 or any(abs(x.imag) > 0 for x in lam)))
	exp = ((MX * mask) ** 2).sum()
	assert abs(M - exp) <= 1e-9 * (1 + exp), "measure %r instead of %r" % (M, exp)
	ctx.nontrivial(nz)
	ctx.label('moduli' if moduli else 'poles', 'complex' if any(abs(x.imag) > 1e-9 for x in lam) else 'real', 'not stable' if max(abs(x) for x in lam) >= 1 else 'stable')
