# coding: utf-8
"""C22: rho direct form II: operators, coefficients and l2 scaling"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, math
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from fixif.LTI import Filter
from fixif.Structures import rhoDFII

check = Check('C22', assumptions=["orders 1 to 5; the l2 scaling requires that all the states are reached (no cancellation)", "the coefficients are computed in double precision by the code: relative tolerance 1e-8"])

gam = st.one_of(st.sampled_from([1., 0., 0.5, -1., 0.875]), st.integers(-8, 8).map(lambda k: k / 8.))
dlt = st.one_of(st.sampled_from([1., 0.5, 0.25, 2., 1. + 2. ** -11, 1. - 2. ** -14, 1. + 2. ** -22, 2. ** -40]), st.integers(1, 32).map(lambda k: k / 8.))

@st.composite
def cases(draw):
	H = draw(sy.transfer_function(n=(1, 4), a0=True))
	n = len(H['den']) - 1
	g = draw(st.sampled_from(['given', 'given', 'default', 'ones']))
	dd = draw(st.sampled_from(['given', 'given', 'ones', 'default']))
	return dict(H=H, gamma=None if g == 'default' else [1.] * n if g == 'ones' else draw(st.lists(gam, min_size=n, max_size=n)),
		Delta=None if dd == 'default' else [1.] * n if dd == 'ones' else draw(st.lists(dlt, min_size=n, max_size=n)),
		transposed=draw(st.booleans()), equiv=draw(st.booleans()), type=draw(st.sampled_from(['list', 'row', 'array', 'array2'])), u=draw(mat(st.integers(-16, 16).map(lambda k: k / 16.), 1, 5)))

def in_basis(c, gamma, Delta):
	"""coefficients of the polynomial c (highest degree first, Fractions) in the basis Delta_1...Delta_n.rho_{i+1}...rho_n, i=0..n"""
	n = len(gamma)
	Ka = F(1)
	for d in Delta:
		Ka *= d
	basis = []
	for i in range(n + 1):
		p = [Ka]
		for k in range(i, n):
			p = sy.polymulF(p, [F(1) / Delta[k], -gamma[k] / Delta[k]])
		basis.append([F(0)] * i + p)
	out, rest = [], list(c)
	for i in range(n + 1):
		a = rest[i] / basis[i][i]
		out.append(a)
		rest = [x - a * b for x, b in zip(rest, basis[i])]
	assert not any(rest)
	return out

def model(H, gamma, Delta, u, transposed):
	"""outputs and states of the rho direct form II (transposed or not), exact"""
	den, num = [F(x) for x in H['den']], [F(x) for x in H['num']]
	num, den = [x / den[0] for x in num], [x / den[0] for x in den]
	n = len(den) - 1
	gamma, Delta = [F(x) for x in gamma], [F(x) for x in Delta]
	a, b = in_basis(den, gamma, Delta), in_basis(num, gamma, Delta)
	x = [F(0)] * n
	xs, ys = [], []
	for v in u:
		v = F(v)
		xs.append(x)
		if transposed:
			t = [Delta[i] * x[i] for i in range(n)] + [F(0)]
			y = t[0] + b[0] * v
			x = [gamma[i] * x[i] + t[i + 1] - a[i + 1] * y + b[i + 1] * v for i in range(n)]
		else:
			t = [v - sum((a[i + 1] * x[i] for i in range(n)), F(0))] + x[:-1]
			y = b[0] * t[0] + sum((b[i + 1] * x[i] for i in range(n)), F(0))
			x = [gamma[i] * x[i] + Delta[i] * t[i] for i in range(n)]
		ys.append(y)
	return [[r[i] for r in xs] for i in range(n)], ys, max(abs(v) for v in a + b)

def states(R, u):
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = list(R.size)
	t, x, xn, y = sifs.run(c, [u])
	return x, y[0]

def compare(R, m, what, rel=1e-8, amp=1.):
	xs, ys, co = m
	x, y = states(R, amp and what[1])
	M = float(max([abs(v) for r in xs for v in r] + [abs(v) for v in ys] + [F(1)])) * (1 + float(co))
	for i, (r, s) in enumerate(zip(x, xs)):
		for k, (v, w) in enumerate(zip(r, s)):
			assert abs(v - w) <= rel * M, "%s: state %d at time %d is %r instead of %r" % (what[0], i, k, float(v), float(w))
	for k, (v, w) in enumerate(zip(y, ys)):
		assert abs(v - w) <= rel * M, "%s: output at time %d is %r instead of %r" % (what[0], k, float(v), float(w))

def typed(v, t):
	if v is None:
		return None
	return {'list': list, 'row': np.matrix, 'array': np.array, 'array2': lambda x: np.array([x])}[t](v)

@check.part(cases(), quick=500, thorough=8000, shards=(1, 4), rule="filters, gamma and Delta (given, default or all equal to one), transposed or not, SIF or equivalent state-space; non-trivial: order >= 2 and gamma or Delta given")
def operators(d, ctx):
	H = d['H']
	n = len(H['den']) - 1
	R = rhoDFII(Filter(num=H['num'], den=H['den'], stable=True), gamma=typed(d['gamma'], d['type']), Delta=typed(d['Delta'], d['type']), transposed=d['transposed'], equiv_dSS=d['equiv'])
	g, D = d['gamma'] or [1.] * n, d['Delta'] or [1.] * n
	u = d['u'][0]
	m = model(H, g, D, u, d['transposed'])
	if max(1 / x for x in D) ** n * float(m[2]) > 1e6:
		raise Invalid()
	amp = max(1., max(D)) ** n * max(1., max(1 / x for x in D)) ** n
	compare(R, m, ('rhoDFII', u), rel=1e-11 * amp)
	if d['equiv']:
		assert R.l == 0
	ctx.nontrivial(n >= 2 and (d['gamma'] or d['Delta']))
	ctx.label('transposed' if d['transposed'] else 'direct', 'dSS' if d['equiv'] else 'SIF', 'Delta=1' if set(D) == {1.} else '', 'gamma!=1' if set(g) != {1.} else '')


@st.composite
def scaled(draw):
	H = draw(sy.transfer_function(n=(1, 4), a0=True))
	n = len(H['den']) - 1
	return dict(H=H, target=draw(st.sampled_from([None, 1 - 1e-5, 1 - 1e-4, 1 - 1e-3, 1 + 1e-5])), gamma=draw(st.one_of(st.none(), st.lists(gam, min_size=n, max_size=n))), scaling=draw(st.sampled_from(['l2', 'l2-relaxed', 'bad'])),
		transposed=draw(st.sampled_from([True, True, False])), equiv=draw(st.booleans()), u=draw(mat(st.integers(-16, 16).map(lambda k: k / 16.), 1, 5)))

@check.part(scaled(), quick=300, thorough=5000, shards=(1, 4), rule="l2 and relaxed l2 scalings, for any gamma; non-trivial: order >= 2")
def scalings(d, ctx):
	H = d['H']
	n = len(H['den']) - 1
	g = d['gamma'] or [1.] * n
	if d['scaling'] == 'bad':
		F_ = Filter(num=H['num'], den=H['den'], stable=True)
		try:
			rhoDFII(F_, scaling='l3')
		except ValueError:
			return
		raise AssertionError("unknown scaling accepted")
	W = energies(H, g)
	if min(W) < 1e-6 * max(W) or min(W) < 1e-10:
		raise Invalid()
	if d['target']:
		# the norm of the first state is (almost) a power of two
		z = math.sqrt(W[0])
		H = dict(H, num=[x * d['target'] * 2. ** math.floor(math.log(z, 2)) / z for x in H['num']])
		W = energies(H, g)
		if min(W) < 1e-10:
			raise Invalid()
	F_ = Filter(num=H['num'], den=H['den'], stable=True)
	_scalings(d, ctx, H, n, g, F_, W)

def energies(H, g):
	"""norms of the states with Delta=1: energy of the states for an impulse (600 samples, poles <= 0.875)"""
	n = len(H['den']) - 1
	den, num = [F(x) for x in H['den']], [F(x) for x in H['num']]
	num, den = [x / den[0] for x in num], [x / den[0] for x in den]
	gF = [F(x) for x in g]
	a, b = [[float(x) for x in in_basis(p, gF, [F(1)] * n)] for p in (den, num)]
	x, W, v = np.zeros(n), np.zeros(n), 1.
	for k in range(600):
		y = x[0] + b[0] * v
		x = np.array(g) * x + np.append(x[1:], 0.) - np.array(a[1:]) * y + np.array(b[1:]) * v
		W += x * x
		v = 0.
	return W

def _scalings(d, ctx, H, n, g, F_, W):
	D = [math.sqrt(W[0])] + [math.sqrt(W[i] / W[i - 1]) for i in range(1, n)]
	if d['scaling'] == 'l2-relaxed':
		D2 = [2. ** math.floor(math.log(z, 2)) for z in D]
		if any(min(abs(z / e - 1), abs(z / e - 2)) < 1e-6 for z, e in zip(D, D2)):
			raise Invalid()        # a power of two, up to the rounding errors
		D = D2
	R = rhoDFII(F_, gamma=d['gamma'], transposed=d['transposed'], equiv_dSS=d['equiv'], scaling=d['scaling'])
	u = d['u'][0]
	compare(R, model(H, g, D, u, d['transposed']), (d['scaling'], u), rel=1e-6 * max(1., max(D), 1 / min(D)) ** 2)
	if d['transposed'] and d['scaling'] == 'l2':
		w = np.diag(R.dSS.Wc)
		assert np.all(np.abs(w - 1) < 1e-5), "the norms of the states are %s" % np.sqrt(w).tolist()
	if d['scaling'] == 'l2-relaxed' and not d['equiv']:
		dd = np.diag(np.asarray(R.M if d['transposed'] else R.K)) if R.l == n and (n > 1 or R.l) else []
		assert all(math.frexp(z)[0] == 0.5 for z in dd if z), "Delta are not powers of two: %s" % dd
	ctx.nontrivial(n >= 2)
	ctx.label(d['scaling'], 'transposed' if d['transposed'] else 'direct')
