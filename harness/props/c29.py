# coding: utf-8
"""C29: is a transfer function inside a frequency specification ? with which margin ?"""
from core import Check, Invalid
from gens import *
from systems import *
from hypothesis import strategies as st
import numpy as np
import mpmath
from fractions import Fraction as F
import oracle
from fixif.LTI import Gabarit, dTF, dTFmp
from props.c14 import specs, build, state, kind

check = Check('C29', assumptions=["sollya is not installed: its numbers, intervals, polynomials and the procedure checkModulusFilterInSpecification of gabarit.sol are replaced by a stand-in that evaluates the modulus on a dense grid (the procedure can be called only when the script has been executed)",
	"the verdict is not decided when the modulus is closer than 1e-4 to one of the limits"])

shifts = st.sampled_from([0, 0, 0.2, -0.2, 1, -1, 3, -3, 10, -10, 0.01, -0.01])
margins = st.sampled_from([0, 0, 1e-3, 1e-2, 0.1, 0.5, -1e-3, -1e-2, -0.03])

@st.composite
def cases(draw):
	what = draw(st.sampled_from(['design', 'design', 'random']))
	if what == 'design':
		c = draw(specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop')))
		c['ftype'] = draw(st.sampled_from(['butter', 'cheby1', 'cheby2', 'ellip']))
		c['bands'] = [draw(shifts) if chance(draw, 3) else 0 for _ in c['A']]
	else:
		c = draw(specs())
		c['H'] = draw(transfer_function(n=(0, 4), radius=12, gains=False))
	c['what'] = what
	c['gain'] = draw(shifts)
	c['margin'] = draw(margins)
	c['exact_poly'] = draw(st.booleans())
	c['prec'] = draw(st.sampled_from([None, 100, 300]))
	return c

def filt(c):
	"""the specification and the transfer function"""
	if c['what'] == 'design':
		d = dict(c)
		H = build(c).to_dTF(ftype=c['ftype'])
		if H.order > 8:
			raise Invalid()
		# some of the bands are then moved (the filter is designed for the original ones)
		d['A'] = [[x + s for x in A] if isinstance(A, list) else A + s for A, s in zip(c['A'], c['bands'])]
	else:
		d = dict(c)
		H = mk_dTF(c['H'])
	k = 10 ** (c['gain'] / 20.)
	return d, build(d), dTF(np.array(H.num).flatten() * k, np.array(H.den).flatten())

def modulus(H, w, N):
	z = np.exp(-1j * np.pi * np.linspace(w[0], w[1], N))
	return np.abs(np.polyval(np.array(H.num).flatten()[::-1], z) / np.polyval(np.array(H.den).flatten()[::-1], z))

def limits(A):
	f = lambda v: 10 ** (v / 20.)
	return (f(min(A)), f(max(A))) if isinstance(A, list) else (0., f(A))

def violation(c, H, N):
	"""the smallest margin that would be needed (negative if there is some room)"""
	need = -np.inf
	for A, w in zip(c['A'], c['w']):
		lo, hi = limits(A)
		m = modulus(H, w, N)
		need = max(need, m.max() - hi)
		if isinstance(A, list):
			need = max(need, lo - m.min())
	return need

def possible(c, margin):
	"""the limits are still in the right order with this margin (and the lower one is positive)"""
	for A in c['A']:
		lo, hi = limits(A)
		if isinstance(A, list):
			if not 0 < lo - margin < hi + margin - 1e-9:
				return False
		elif hi + margin < 1e-9:
			return False
	return True

@check.part(cases(), quick=300, thorough=5000, shards=(3, 8), budget=(300, 1500), rule="specifications of 1 to 5 bands and transfer functions (designed for it or for another one, or random) times a gain, margins of both signs; non-trivial: margin not null, or violation of one band only")
def verdict(c, ctx):
	d, g, H = filt(c)
	if not possible(d, c['margin']):
		raise Invalid()
	v, v2 = violation(d, H, 1501), violation(d, H, 6001)
	if not (abs(v - c['margin']) > 1e-4 and abs(v2 - c['margin']) > 1e-4 and (v < c['margin']) == (v2 < c['margin'])):
		raise Invalid()
	before, num, den = state(g), H.num.copy(), H.den.copy()
	kw = {} if c['prec'] is None else dict(prec=c['prec'])
	if c['margin'] != 0 or c['exact_poly']:
		kw['margin'] = c['margin']
	ok, res = g.check_dTF(H, **kw)
	assert bool(ok) == bool(v <= c['margin']), "%s with a margin of %r: check_dTF says %s, but the margin needed is %r" % (g, c['margin'], ok, v)
	assert state(g) == before, "the specification has been modified"
	assert (H.num == num).all() and (H.den == den).all(), "the transfer function has been modified"
	ctx.nontrivial(c['margin'] != 0 or not ok)
	ctx.label('inside' if ok else 'outside', c['what'], g.type, 'margin %s' % ('null' if c['margin'] == 0 else 'positive' if c['margin'] > 0 else 'negative'))

@check.part(cases(), quick=200, thorough=3000, shards=(3, 8), budget=(300, 1500), rule="same cases: the margin found makes the check pass, and a smaller one doesn't; non-trivial: the check fails with the initial margin")
def minimum_margin(c, ctx):
	d, g, H = filt(c)
	init = c['margin']
	if not possible(d, init) or not all(0 < limits(A)[0] - max(violation(d, H, 1501), init) - 1e-3 for A in d['A'] if isinstance(A, list)):
		raise Invalid()
	v = violation(d, H, 1501)
	if abs(v - init) < 1e-4:
		raise Invalid()
	before = state(g)
	m = float(g.findMinimumMargin(H) if init == 0 and c['exact_poly'] else g.findMinimumMargin(H, initMargin=init))
	assert state(g) == before, "the specification has been modified"
	tol = 1e-8 * (1 + abs(v))	# (the stand-in uses this very grid)
	if v < init:
		assert abs(m - init) < 1e-12, "margin %r instead of the initial one %r, which is enough (%r is needed)" % (m, init, v)
	else:
		assert m >= v - tol, "margin %r, but %r is needed for %s" % (m, v, g)
		assert m <= v + tol, "margin %r, but %r is enough for %s" % (m, v, g)
		assert g.check_dTF(H, margin=m + 1e-12)[0], "the check fails with the margin %r found" % m
	ctx.nontrivial(v > init)
	ctx.label('initial margin is enough' if v < init else 'margin found', c['what'], g.type)


def same_polynomial(p, ref):
	c = p.c + [F(0)] * (len(ref) - len(p.c))
	assert c == ref, "polynomial %r instead of %r" % ([float(x) for x in c], [float(x) for x in ref])

@check.part(st.tuples(transfer_function(n=(0, 7), stable=False), st.lists(st.tuples(dyads(200, 400), dyads(200, 400)), min_size=1, max_size=6), st.booleans(), precs), quick=250, thorough=4000,
	rule="the Sollya polynomials of a transfer function (doubles, or multiple-precision): exactly its coefficients, that of z^-i being the i-th; non-trivial: order >= 2")
def polynomials(c, ctx):
	H, mp, row, prec = c
	T = mk_dTF(H)
	for k in range(2):
		for p, ref in zip(T.to_Sollya(), (T.num, T.den)):
			same_polynomial(p, [F(float(x)) for x in np.array(ref).flatten()])
	num = [x for x, _ in mp]
	den = [(1, 0)] + [y for _, y in mp[1:]]
	mk = lambda l: mpmath.matrix([[oracle.dyad(*x) for x in l]] if row else [[oracle.dyad(*x)] for x in l])
	mpmath.mp.prec = 2000
	b, a = mk(num), mk(den)
	mpmath.mp.prec = prec
	T = dTFmp(b, a)
	for k in range(2):
		for p, ref in zip(T.to_Sollya(), (num, den)):
			same_polynomial(p, [F(m) * F(2) ** e for m, e in ref])
	assert mpmath.mp.prec == prec
	ctx.nontrivial(len(num) > 2)
	ctx.label('prec %d' % prec)


@check.part(st.tuples(specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop')), st.lists(st.sampled_from(['check', 'margin']), min_size=2, max_size=4)), quick=20, thorough=100,
	rule="without Sollya: each of the checks is refused (ValueError), and they work again when it is available; non-trivial: all")
def without_sollya(c, ctx):
	import sys
	d, calls = c
	g = build(d)
	H = dTF([1., 0.5], [1., -0.5])
	module = sys.modules['fixif.LTI.Gabarit']
	saved, there = sys.modules['sollya'], hasattr(module, 'sollya')
	ok = None
	sys.modules['sollya'] = None
	if there:
		del module.sollya
	Gabarit.isSollyaRunning = None
	try:
		for k in calls:
			try:
				g.check_dTF(H) if k == 'check' else g.findMinimumMargin(H)
			except (ValueError, ImportError):
				continue
			raise AssertionError("%s without Sollya" % k)
	finally:
		sys.modules['sollya'] = saved
		if there:
			module.sollya = saved
	ok, _ = g.check_dTF(H)
	assert bool(ok) == bool(violation(d, H, 1501) <= 0)
	ctx.nontrivial()
	ctx.label('%d calls' % len(calls))


@st.composite
def reports(draw):
	"""results of checkModulusFilterInSpecification: [[okay, betaInf, betaSup, [[inf(H), sup(H)], ...]], ...]"""
	val = st.integers(0, 4096).map(lambda k: k / 1024.)
	out = []
	for _ in range(draw(st.integers(1, 4))):
		lo, hi = sorted([draw(st.one_of(st.just(0.), val)), draw(val)])
		hi += 1. / 1024
		H = [sorted([draw(val), draw(val)]) for _ in range(draw(st.integers(1, 4)))]
		for h in H:
			if draw(st.booleans()):		# across the two limits
				h[0], h[1] = lo - draw(val), hi + draw(val)
		out.append([draw(st.booleans()), lo, hi, H])
	return out

@check.part(reports(), quick=600, thorough=6000, rule="reports of the verification of 1 to 4 bands with 1 to 4 issues each (intervals below, above or across the limits): the largest excess over all the issues of the bands that are not satisfied; non-trivial: at least two issues out of the limits")
def largest_issue(c, ctx):
	import sys, sollya
	find = sys.modules['fixif.LTI.Gabarit'].findMaxIssue
	res, need, nb = [], F(0), 0
	for okay, lo, hi, Hs in c:
		s = {"betaInf": sollya.SollyaObject(lo), "betaSup": sollya.SollyaObject(hi)}
		issues = [] if okay else [{"H": sollya.Interval(a, b), "specification": s} for a, b in Hs]
		res.append({"okay": okay, "issue": issues, "specification": s})
		if not okay:
			for a, b in Hs:
				m = max(F(b) - F(hi), F(lo) - F(a))
				need = max(need, m)
				nb += m > 0
	got = find({"okay": all(r[0] for r in c), "results": res})
	assert F(float(got)) == need, "the largest excess is %r instead of %r" % (float(got), float(need))
	ctx.nontrivial(nb >= 2)
	ctx.label('%d bands' % len(c))
