# coding: utf-8
"""C15: the input/output behaviour of a SIF is the one of its implicit equations"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from fixif.SIF import SIF

check = Check('C15', assumptions=["J is unit lower triangular (definition of the SIF), with entries lower than 16 (its inverse in double precision)", "doubles are converted at a working precision of at least 53 bits for the exact state-space"])

ent = st.one_of(sifs.coef, sifs.coef, sifs.coef, st.floats(-8, 8).filter(lambda x: x == 0 or abs(x) > 1e-9))
large = sifs.sif(l=(2, 6), n=(2, 6), p=(1, 4), q=(1, 4), stable=False)
anysif = st.one_of(sifs.sif(n=(0, 4)), sifs.sif(n=(0, 4), stable=False, entry=ent), sifs.sif(), sifs.sif(stable=False, entry=ent), large)
inp = lambda q: st.tuples(st.integers(1, 12), st.sampled_from([6, 6, 6, 6, 50, -24])).flatmap(lambda t: mat(st.integers(-64, 64).map(lambda k: k / 2. ** t[1]), q, t[0]))

@st.composite
def sif_and_input(draw):
	c = draw(anysif)
	u = draw(inp(c['size'][3]))
	return dict(c=c, u=u, type=draw(st.sampled_from(['matrix', 'array', 'list', 'matrix', 'ints'])))


@check.part(sif_and_input(), quick=1000, thorough=8000, shards=(2, 8), rule="SIF (l=0..3, n=0..4, p,q=1..3, or larger) and input sequence; non-trivial: l>=1 and at least 2 samples")
def simulate(d, ctx):
	c, u = d['c'], d['u']
	l, n, p, q = c['size']
	R = sifs.mk(c)
	if d['type'] == 'ints':
		# (inputs of type integer)
		u = [[float(round(x * 64)) for x in r] for r in u]
	uu = {'matrix': np.matrix, 'array': np.array, 'list': list, 'ints': lambda v: np.matrix(v).astype(int)}[d['type']](u)
	y = R.simulate(uu)
	ref = sifs.run(c, u)[3]
	sifs.close(y, ref, sifs.sim_mag(c, u), 1e-12, 'simulate')
	y2 = R.simulate(uu)
	assert np.array_equal(np.asarray(y), np.asarray(y2)), "two simulations give different outputs"
	ctx.nontrivial(l >= 1 and len(u[0]) >= 2)
	ctx.label('l=%d' % l, 'p=q' if p == q else 'p!=q', 'n=%d' % n, d['type'])
	for bad in (q - 1, q + 1):
		if bad:
			try:
				R.simulate(np.zeros((bad, 4)))
			except ValueError:
				continue
			raise AssertionError("%d inputs instead of %d are accepted" % (bad, q))


@check.part(anysif, quick=1000, thorough=8000, shards=(2, 8), rule="the matrices read, the state-space and the transfer function of a SIF; non-trivial: l>=2")
def derived(c, ctx):
	l, n, p, q = c['size']
	given = sifs.mats(c)
	R = SIF(given)
	for k in sifs.NAMES:
		M = getattr(R, k)
		assert M.shape == sifs.shapes(c)[k], "%s has shape %s" % (k, M.shape)
		assert np.array_equal(np.asarray(M), np.array(c[k]).reshape(M.shape)), "%s is not the matrix given" % k
	for k, M in zip(sifs.NAMES, R.JtoS):
		assert np.array_equal(M, getattr(R, k)), "JtoS: %s" % k
	assert (R.l, R.n, R.p, R.q) == (l, n, p, q) and tuple(R.size) == (l, n, p, q)
	Z = np.asarray(R.Z)
	assert Z.shape == (l + n + p, l + n + q)
	Zref = np.bmat([[-given[0], given[3], given[4]], [given[1], given[5], given[6]], [given[2], given[7], given[8]]])
	assert np.array_equal(Z, np.asarray(Zref)), "Z"
	Zc = np.array(Zref)
	for i in range(l):
		Zc[i, i] = 0
	assert np.array_equal(np.asarray(R.Zcomp), Zc), "Zcomp"
	assert np.array_equal(np.asarray(R.Z), np.asarray(Zref)), "Z modified by Zcomp"
	ref = sifs.azdz(c)
	m = sifs.azdz_mag(c)
	for k in 'ABCD':
		sifs.close(getattr(R, k + 'Z'), ref[k], m[k], 1e-13, k + 'Z')
		sifs.close(getattr(R.dSS, k), ref[k], m[k], 1e-13, 'dSS.' + k)
	if l:
		sifs.close(R.invJ, sifs.invF(matF(c['J'])), sifs.invJ_mag(c), 1e-13, 'invJ')
	N = 2 * n + 3
	href, hm = sy.imp_ss(ref, N), sifs.mag(c, N)
	if p == q == 1 and n:
		H = R.to_dTF()
		g = sy.imp_tf(H.num, H.den, N)
		# the coefficients of the transfer function come from sums of products of the poles
		w = np.array([float(x[0][0]) for x in href])
		e = {k: np.array([[abs(float(x)) for x in r] for r in ref[k]]) for k in 'ABCD'}
		g0 = max(1, np.abs(e['A']).sum(axis=1).max())
		scale = (e['D'][0, 0] + e['B'].max() * e['C'].sum() * g0 ** n) * 1e-10 * (1 + max(abs(np.asarray(H.den).flatten()))) ** 2
		if scale < 1e-3:
			sy.same_response([[[x]] for x in g], href, [g0 ** k for k in range(N)], scale, 'to_dTF')
			ctx.label('tf')
	elif p * q > 1:
		try:
			R.to_dTF()
		except ValueError:
			pass
		else:
			raise AssertionError("a %dx%d system is converted in transfer function" % (p, q))
	for k, M in zip(sifs.NAMES, given):
		assert np.array_equal(np.asarray(M), np.array(c[k]).reshape(M.shape)), "%s given is modified" % k
		if M.size:
			M += 1
	for k in sifs.NAMES:
		assert np.array_equal(np.asarray(getattr(R, k)), np.array(c[k]).reshape(sifs.shapes(c)[k])), "%s is shared with the matrix given" % k
	ctx.nontrivial(l >= 2)
	ctx.label('l=%d' % l)


big = st.one_of(sifs.coef, st.floats(-8, 8), st.floats(-1e30, 1e30), st.floats(-1e-20, 1e-20))

@check.part(st.tuples(st.one_of(sifs.sif(stable=False, entry=big, jentry=ent), sifs.sif(), large), st.sampled_from([53, 53, 60, 200])).map(list), quick=600, thorough=5000, shards=(1, 4), rule="exact state-space of a SIF with doubles of any magnitude; non-trivial: l>=1 and the result does not fit in doubles")
def exact_state_space(d, ctx):
	c, prec = d
	mpmath.mp.prec = prec
	R = sifs.mk(c)
	S = R.to_dSSexact()
	assert mpmath.mp.prec == prec, "working precision changed"
	ref = sifs.azdz(c)
	big = False
	for k in 'ABCD':
		got = matF(getattr(S, k))
		assert got == ref[k], "%s is not exact: %s instead of %s" % (k, [[float(x) for x in r] for r in got], [[float(x) for x in r] for r in ref[k]])
		big = big or any(F(float(x)) != x for r in ref[k] for x in r)
	ctx.nontrivial(c['size'][0] and big)
	ctx.label('l=%d' % c['size'][0])


@st.composite
def wrong(draw):
	c = draw(sifs.sif(l=(1, 3)))
	k = draw(st.sampled_from('JKLMNPQRS'))
	a, b = sifs.shapes(c)[k]
	dr, dc = draw(st.sampled_from([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)]))
	if a + dr < 1 or b + dc < 1:
		dr, dc = 1, 0
	return dict(c=c, k=k, shape=[a + dr, b + dc])

@check.part(wrong(), quick=200, thorough=2000, rule="one of the nine matrices has one row or column more or less; non-trivial: all")
def dimensions(d, ctx):
	c, k = d['c'], d['k']
	l, n, p, q = c['size']
	M = list(sifs.mats(c))
	M[sifs.NAMES.index(k)] = np.matrix(np.eye(*d['shape']))
	# (with one column more or less for S and N and Q consistent...: only one is changed, it is always inconsistent)
	ctx.nontrivial()
	ctx.label(k)
	try:
		SIF(tuple(M))
	except ValueError as e:
		assert '%' not in str(e), "message not formatted"
		return
	raise AssertionError("%s of size %s is accepted" % (k, d['shape']))


@st.composite
def worst(draw):
	c = draw(sifs.sif(p=(1, 1), stable=draw(st.booleans())))
	q = c['size'][3]
	return dict(c=c, ub=draw(st.lists(st.sampled_from([1., 2., 0.5, 3.25]), min_size=q, max_size=q)), N=draw(st.integers(1, 10)), type=draw(st.sampled_from(['list', 'row', 'col'])))

@check.part(worst(), quick=600, thorough=5000, shards=(1, 4), rule="worst-case inputs of a SIF with one output; non-trivial: n>=2 or q>=2")
def worst_inputs(d, ctx):
	c, ub, N = d['c'], d['ub'], d['N']
	R = sifs.mk(c)
	q = R.q
	U = ub if d['type'] == 'list' else np.matrix(ub) if d['type'] == 'row' else np.matrix(ub).transpose()
	u = np.asarray(R.generate_inputs(U, N))
	assert u.shape == (q, N), "shape %s" % (u.shape,)
	for j in range(q):
		assert np.all(np.abs(u[j]) <= ub[j]), "input out of its bound"
	h = sy.imp_ss(sifs.azdz(c), N)
	best = sum(sum(abs(h[k][0][j]) * F(ub[j]) for j in range(q)) for k in range(N))
	y = sifs.run(c, u.tolist())[3][0]
	m = sum(float(np.abs(x).sum()) for x in sifs.mag(c, N)) * max(ub)
	for bad in (ub + [1.], ub[1:], [ub, ub]):
		if len(bad):
			try:
				R.generate_inputs(bad, N)
			except ValueError:
				continue
			raise AssertionError("the bounds %s are accepted for %d inputs" % (bad, q))
	assert abs(float(max(abs(v) for v in y) - best)) <= 1e-11 * m, "the largest output is %r instead of %r" % (float(max(abs(v) for v in y)), float(best))
	ctx.nontrivial(R.n >= 2 or q >= 2)
	ctx.label('q=%d' % q)
