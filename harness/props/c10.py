# coding: utf-8
"""C10: multiple-precision state-spaces: exact sums, differences and simulations"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import *
import systems as sy
from fixif.LTI import dSSmp, dSS

check = Check('C10', assumptions=["doubles are converted at a working precision of at least 53 bits (a lower one rounds the doubles by design of mpmath)",
	"sollya is not installed: simulate_rounded is exercised with a stand-in (exact rationals, rounding to nearest even)"])

dy = st.one_of(dyads(8, 6), dyads(70, 40), dyads(120, 200), st.just([0, 0]))
wide = st.one_of(dyads(60, 1300), dyads(60, 1300), st.sampled_from([[0, 0], [1, 0], [3, -1200], [5, -1100]]))

@st.composite
def sysmp(draw, n=(1, 4), p=(1, 3), q=(1, 3), np_only=False, entry=dy):
	nn, pp, qq = draw(st.integers(*n)), draw(st.integers(*p)), draw(st.integers(*q))
	kind = 'np' if np_only else draw(st.sampled_from(['mp', 'mp', 'np']))
	if kind == 'np':
		return dict(draw(sy.state_space(n=(nn, nn), p=(pp, pp), q=(qq, qq), stable=False)), type='np')
	d = {k: draw(mat(entry, r, c)) for k, r, c in (('A', nn, nn), ('B', nn, qq), ('C', pp, nn), ('D', pp, qq))}
	return dict(d, type='mp')

def raw(S):
	"""arguments of the constructor"""
	if S['type'] == 'np':
		return [np.matrix(S[k]) for k in 'ABCD']
	return [mpmath.matrix([[dyad(*x) for x in r] for r in S[k]]) for k in 'ABCD']

def exact(S):
	if S['type'] == 'np':
		return {k: matF(S[k]) for k in 'ABCD'}
	return {k: [[F(x[0]) * F(2) ** x[1] for x in r] for r in S[k]] for k in 'ABCD'}

def eq(M, ref, what):
	got = matF(M)
	assert got == ref, "%s: %s instead of %s" % (what, [[float(x) for x in r] for r in got], [[float(x) for x in r] for r in ref])


@check.part(st.tuples(sysmp(), precs, st.sampled_from(['ok', 'ok', 'A', 'B', 'C', 'D', 'list', 'array'])).map(lambda t: dict(S=t[0], prec=t[1], bad=t[2])), quick=400, thorough=5000,
	rule="matrices of doubles or of multiple-precision numbers, possibly one with a wrong size or type; non-trivial: rectangular or rejected")
def construction(c, ctx):
	mpmath.mp.prec = c['prec'] if c['S']['type'] == 'mp' else max(53, c['prec'])
	prec = mpmath.mp.prec
	M = raw(c['S'])
	bad = c['bad']
	ctx.label(bad, c['S']['type'])
	if bad != 'ok':
		ctx.nontrivial()
		if bad in ('list', 'array'):
			i = len(c['S']['A']) % 4
			M[i] = [[1.]] if bad == 'list' else np.array([[1.]])
		else:
			i = 'ABCD'.index(bad)
			r, k = (1, 0) if bad in 'AB' else (0, 1)
			M[i] = mpmath.zeros(len(c['S'][bad]) + r, len(c['S'][bad][0]) + k)
		try:
			dSSmp(*M)
		except ValueError:
			return
		raise AssertionError("bad %s is accepted" % bad)
	S = dSSmp(*M)
	ref = exact(c['S'])
	for k in 'ABCD':
		eq(getattr(S, k), ref[k], k)
	assert (S.n, S.p, S.q) == (len(ref['A']), len(ref['C']), len(ref['D'][0]))
	assert mpmath.mp.prec == prec
	ctx.nontrivial(S.p != S.q)


@st.composite
def pairs(draw):
	a = draw(sysmp())
	p, q = len(a['D']), len(a['D'][0])
	if sy.chance(draw, 5):
		p2, q2 = draw(st.tuples(st.integers(1, 3), st.integers(1, 3)))
	else:
		p2, q2 = p, q
	b = draw(sysmp(p=(p2, p2), q=(q2, q2)))
	return dict(a=a, b=b, op=draw(st.sampled_from(['+', '-'])), prec=draw(precs), dss=draw(st.booleans()))

@check.part(pairs(), quick=500, thorough=8000, shards=(2, 4), rule="sum or difference of two systems (the second possibly in doubles), any working precision; non-trivial: different orders and coefficients that do not fit in the working precision, or incompatible sizes")
def sums(c, ctx):
	prec = mpmath.mp.prec = c['prec'] if (c['a']['type'], c['b']['type']) == ('mp', 'mp') else max(53, c['prec'])
	a = dSSmp(*raw(c['a']))
	b = dSS(*raw(c['b'])) if c['dss'] and c['b']['type'] == 'np' else dSSmp(*raw(c['b']))
	ea, eb = exact(c['a']), exact(c['b'])
	compat = (len(ea['D']), len(ea['D'][0])) == (len(eb['D']), len(eb['D'][0]))
	try:
		R = a + b if c['op'] == '+' else a - b
	except ValueError:
		assert not compat, "compatible systems are rejected"
		ctx.nontrivial()
		ctx.label('rejected')
		return
	assert compat, "incompatible systems are accepted"
	assert mpmath.mp.prec == prec
	N = R.n + 2
	h1, h2 = sy.imp_ss(ea, N), sy.imp_ss(eb, N)
	f = addF if c['op'] == '+' else subF
	assert isinstance(R, dSSmp) and R.n == len(ea['A']) + len(eb['A'])
	eR = {k: matF(getattr(R, k)) for k in 'ABCD'}
	h = sy.imp_ss(eR, N)
	for k in range(N):
		assert h[k] == f(h1[k], h2[k]), "sample %d of the impulse response is not exact" % k
	for k in 'ABCD':
		eq(getattr(a, k), ea[k], 'first operand')
		eq(getattr(b, k), eb[k], 'second operand')
	ctx.nontrivial(len(ea['A']) != len(eb['A']) and c['prec'] <= 53)
	ctx.label(c['op'], 'prec %d' % c['prec'], 'dSS' if c['dss'] and c['b']['type'] == 'np' else 'dSSmp')


@check.part(st.tuples(sysmp(), st.sampled_from([None, 1, 'x', 2.5])).map(list), quick=60, thorough=300, rule="an operand that is not a system; non-trivial: all")
def wrong_operand(c, ctx):
	S = dSSmp(*raw(c[0]))
	ctx.nontrivial()
	for f in (lambda: S + c[1], lambda: S - c[1]):
		try:
			f()
		except (ValueError, TypeError):
			continue
		raise AssertionError("accepted")


@st.composite
def simulations(draw):
	S = draw(sysmp(n=(1, 3), p=(1, 2), q=(1, 2), entry=draw(st.sampled_from([dy, dy, wide]))))
	T = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 14]))
	n, q = len(S['A']), len(S['D'][0])
	ut = draw(st.sampled_from(['np', 'mp']))
	xt = draw(st.sampled_from([None, 'np', 'mp', 'mp']))
	el = {'np': sy.small, 'mp': draw(st.sampled_from([dy, wide]))}
	return dict(S=S, ut=ut, u=draw(mat(el[ut], q, T)), xt=xt, x0=draw(mat(el[xt], n, 1)) if xt else None, mode=draw(st.sampled_from(['default', 'exact', 'double'])), prec=draw(precs))

def vals(t, M):
	return matF(M) if t == 'np' else [[F(x[0]) * F(2) ** x[1] for x in r] for r in M]

def arg(t, M):
	return np.matrix(M) if t == 'np' else mpmath.matrix([[dyad(*x) for x in r] for r in M])

def rnd53(x):
	"""nearest (even) number with 53 bits, unbounded exponent"""
	if x == 0:
		return x
	import sollya
	return sollya.round(sollya.SollyaObject(x), 53).v

@check.part(simulations(), quick=500, thorough=8000, shards=(2, 8), rule="input sequences (1..14 samples) of doubles or multiple-precision numbers, with or without initial state, exact or with states rounded to doubles; non-trivial: at least 3 samples, several states, non-zero initial state or inexact mode")
def simulate(c, ctx):
	prec = mpmath.mp.prec = c['prec'] if c['S']['type'] == 'mp' and c['ut'] == 'mp' and c['xt'] != 'np' else max(53, c['prec'])
	S = dSSmp(*raw(c['S']))
	e = exact(c['S'])
	u = arg(c['ut'], c['u'])
	kw = {}
	if c['xt']:
		kw['x0'] = arg(c['xt'], c['x0'])
	if c['mode'] != 'default':
		kw['exact'] = c['mode'] == 'exact'
	y = S.simulate(u, **kw)
	assert mpmath.mp.prec == prec
	U = vals(c['ut'], c['u'])
	x = vals(c['xt'], c['x0']) if c['xt'] else [[F(0)] for _ in e['A']]
	T = len(U[0])
	assert (y.rows, y.cols) == (S.p, T)
	for k in range(T):
		uk = [[r[k]] for r in U]
		yk = addF(mulF(e['C'], x), mulF(e['D'], uk))
		got = [[mpf_to_F(y[i, k])] for i in range(S.p)]
		assert got == yk, "output at time %d is not exact: %s instead of %s" % (k, [float(v[0]) for v in got], [float(v[0]) for v in yk])
		x = addF(mulF(e['A'], x), mulF(e['B'], uk))
		if c['mode'] == 'double':
			x = [[rnd53(v[0])] for v in x]
	if c['xt']:
		eq(kw['x0'], vals(c['xt'], c['x0']), 'the initial state has been modified:')
	ctx.nontrivial(T >= 3 and (S.n >= 2 or c['mode'] == 'double') and (c['xt'] or c['mode'] == 'double'))
	ctx.label(c['mode'], 'u %s' % c['ut'], 'x0 %s' % c['xt'], 'prec %d' % c['prec'])


@check.part(st.tuples(sysmp(), st.sampled_from(['u', 'x0', 'utype', 'xtype'])).map(list), quick=150, thorough=1000, rule="inputs or initial state with a wrong size or type; non-trivial: all")
def wrong_inputs(c, ctx):
	S = dSSmp(*raw(c[0]))
	u, x0 = mpmath.zeros(S.q, 3), None
	if c[1] == 'u':
		u = mpmath.zeros(S.q - 1 if S.q > 1 and c[0]['type'] == 'np' else S.q + 1, 3)
	elif c[1] == 'utype':
		u = [[0.] * 3] * S.q
	elif c[1] == 'x0':
		x0 = np.matrix(np.zeros((S.n - 1 if S.n > 1 and c[0]['type'] == 'np' else S.n + 1, 1)))
	else:
		x0 = [[1.]] * S.n
	ctx.nontrivial()
	ctx.label(c[1])
	try:
		S.simulate(u, x0=x0)
	except ValueError:
		return
	raise AssertionError("wrong %s is accepted" % c[1])


@check.part(st.tuples(sysmp(n=(1, 3), p=(1, 1), q=(1, 2), np_only=True), st.integers(1, 6), st.sampled_from([5, 12, 24, 53, 64, 110, 150]), st.integers(0, 9999)).map(list), quick=200, thorough=3000, rule="single output systems, 1..6 samples, 5 to 150 bits (the states are then rounded to doubles); non-trivial: at least 3 samples and less than 53 bits")
def simulate_rounded(c, ctx):
	import sollya
	S = dSSmp(*raw(c[0]))
	e = exact(c[0])
	# (the rounded states go through doubles)
	if any(abs(v) > F(2) ** 30 or (v != 0 and abs(v) < F(1, 2 ** 80)) for k in 'ABCD' for r in e[k] for v in r):
		raise Invalid()
	u = sy.det_inputs(S.q, c[1], c[3])
	y = S.simulate_rounded(mpmath.matrix(u), prec=c[2])
	U = matF(u)
	x = [[F(0)] for _ in e['A']]
	rnd = lambda v: sollya.round(sollya.SollyaObject(v), c[2]).v
	assert len(y) == c[1]
	for k in range(c[1]):
		uk = [[r[k]] for r in U]
		yk = addF(mulF(e['C'], x), mulF(e['D'], uk))[0][0]
		assert sollya.SollyaObject(y[k]).v == rnd(yk), "output %d: %r instead of %r" % (k, float(y[k]), float(rnd(yk)))
		x = [[F(float(rnd(v[0])))] for v in addF(mulF(e['A'], x), mulF(e['B'], uk))]
	ctx.nontrivial(c[1] >= 3 and c[2] < 53)
	ctx.label('%d bits' % c[2])


@check.part(st.tuples(sysmp(), precs).map(list), quick=200, thorough=3000, rule="any system; non-trivial: multiple-precision coefficients")
def to_doubles(c, ctx):
	mpmath.mp.prec = c[1] if c[0]['type'] == 'mp' else max(53, c[1])
	S = dSSmp(*raw(c[0]))
	R = S.to_dSS()
	e = exact(c[0])
	for k in 'ABCD':
		M = getattr(R, k)
		assert M.shape == (len(e[k]), len(e[k][0]))
		for i, r in enumerate(e[k]):
			for j, x in enumerate(r):
				assert M[i, j] == float(x), "%s[%d,%d] is %r instead of %r" % (k, i, j, M[i, j], float(x))
	ctx.nontrivial(c[0]['type'] == 'mp')


@check.part(st.tuples(sy.state_space(n=(1, 4), p=(1, 3), q=(1, 3), radius=12, gains=False), st.sampled_from([None, 2. ** -20, 2. ** -100, 2. ** -200]), st.sampled_from([0, 80, 150]), precs).map(list), quick=100, thorough=2000,
	shards=(2, 8), rule="stable systems (coefficients of more than 53 bits): worst-case peak gain (list, row by row) with the error bound asked; non-trivial: several inputs or outputs, and coefficients that are not doubles")
def worst_case_peak_gain(c, ctx):
	S, delta, bits, prec = c
	mpmath.mp.prec = 700
	e, M = {}, []
	for k in 'ABCD':
		# each non-null coefficient gets a small part that doesn't fit in a double
		e[k] = [[F(x) + (F(i + 2 * j + 1, 2 ** bits) if bits and x else 0) for j, x in enumerate(r)] for i, r in enumerate(S[k])]
		M.append(mpmath.matrix([[F_to_mpf(x) for x in r] for r in e[k]]))
	ref = {k: mpmath.matrix([[F_to_mpf(x) for x in r] for r in e[k]]) for k in 'ABCD'}
	W = ref['D'].apply(abs)
	X = ref['B']
	for k in range(3000):
		W = W + (ref['C'] * X).apply(abs)
		X = ref['A'] * X
		if k > 10 and max(abs(x) for x in X) < mpmath.ldexp(1, -400):
			break
	mpmath.mp.prec = prec
	R = dSSmp(*M)
	got = R.WCPGmp() if delta is None else R.WCPGmp(delta=delta)
	assert mpmath.mp.prec == prec
	assert len(got) == R.p * R.q, "%d gains instead of %d" % (len(got), R.p * R.q)
	for i in range(R.p):
		for j in range(R.q):
			err = abs(F(got[i * R.q + j].v) - mpf_to_F(W[i, j]))
			assert err <= F(delta or 2. ** -53), "the gain from input %d to output %d is %r instead of %r" % (j, i, float(got[i * R.q + j].v), float(W[i, j]))
	ctx.nontrivial(R.p * R.q > 1 and bits)
	ctx.label('delta %s' % delta, '%d bits' % bits)
