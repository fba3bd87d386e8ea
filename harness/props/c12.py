# coding: utf-8
"""C12: filter objects and random generators"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import matF
import systems as sy
from fixif.LTI import *
from fixif.LTI import Filter, dTF, dSS, Butter, Elliptic
from fixif.LTI.Filter import random_Filter, iter_random_Filter
from fixif.LTI.Butter import random_Butter, iter_random_Butter
from fixif.LTI.Elliptic import random_Elliptic, iter_random_Elliptic
from fixif.LTI.dSS import random_dSS, iter_random_dSS
from fixif.LTI.dTF import random_dTF, iter_random_dTF
from fixif.LTI.dSSmp import random_dSSmp, iter_random_dSSmp
from fixif.LTI.dTFmp import random_dTFmp, iter_random_dTFmp
from fixif.LTI.Gabarit import random_Gabarit

check = Check('C12', assumptions=["stability of a generated system is checked through the eigenvalues of A, with a tolerance of 1e-7.|T| for their computation in doubles",
	"the transfer function built from a state-space is compared with a relative tolerance of 1e-8"])


@st.composite
def filters(draw):
	how = draw(st.sampled_from(['numden', 'tf', 'ABCD', 'ss', 'ssmimo', 'ABCDmimo', 'nothing', 'partial']))
	d = dict(how=how, stable=draw(st.sampled_from([None, True, False])), name=draw(st.sampled_from([None, 'a filter'])))
	if how in ('numden', 'tf'):
		d['H'] = draw(sy.transfer_function(n=(1, 5), a0=True))
	else:
		d['S'] = draw(sy.state_space(n=(1, 4), p=(1, 3), q=(1, 3)) if 'mimo' in how else sy.state_space(n=(1, 4), p=(1, 1), q=(1, 1)))
	d['reads'] = draw(st.lists(st.sampled_from(['dSS', 'dTF', 'order', 'p', 'q', 'isSISO']), max_size=4))
	return d

@check.part(filters(), quick=400, thorough=5000, rule="filters given by coefficients, matrices or objects, SISO and MIMO, read in any order; non-trivial: the other representation is asked, or the filter is MIMO")
def filter_object(c, ctx):
	kw = {}
	if c['stable'] is not None:
		kw['stable'] = c['stable']
	if c['name']:
		kw['name'] = c['name']
	how = c['how']
	ctx.label(how)
	if how in ('nothing', 'partial'):
		if how == 'partial':
			kw.update(num=[1, 2])
		try:
			Filter(**kw)
		except ValueError:
			return
		raise AssertionError("Filter without enough arguments is accepted")
	if how == 'numden':
		f = Filter(num=c['H']['num'], den=c['H']['den'], **kw)
	elif how == 'tf':
		f = Filter(tf=sy.mk_dTF(c['H']), **kw)
	elif how.startswith('ABCD'):
		f = Filter(**dict(zip('ABCD', sy.npS(c['S']))), **kw)
	else:
		f = Filter(ss=sy.mk_dSS(c['S']), **kw)
	tf = 'H' in c
	p, q = (1, 1) if tf else (len(c['S']['D']), len(c['S']['D'][0]))
	n = len(c['H']['num']) - 1 if tf else len(c['S']['A'])
	N = 2 * n + 3
	h = [[[x]] for x in sy.imp_tf(c['H']['num'], c['H']['den'], N)] if tf else sy.imp_ss(c['S'], N)
	assert f.name == (c['name'] or 'noname') and repr(f) == f.name
	assert f.isStable() == bool(c['stable'])
	assert not f.isButter()
	for r in c['reads'] + ['p', 'q', 'order', 'isSISO', 'dSS', 'dTF', 'order']:
		if r == 'dTF' and (p, q) != (1, 1):
			try:
				f.dTF
			except ValueError:
				continue
			raise AssertionError("MIMO filter converted in a transfer function")
		v = getattr(f, r)
		if r == 'isSISO':
			assert bool(v()) == ((p, q) == (1, 1)), "isSISO"
		elif r in ('p', 'q', 'order'):
			assert v == dict(p=p, q=q, order=n)[r], "%s is %r instead of %r" % (r, v, dict(p=p, q=q, order=n)[r])
		else:
			assert getattr(f, r) is v, "%s is not the same object the second time" % r
			if r == 'dSS':
				assert isinstance(v, dSS)
				mag = sy.mag_ss(v, N)
				sy.same_response(sy.imp_ss(v, N), h, [m + 1e3 * (1 + max(map(abs, c['H']['num']))) if tf else m for m in mag], 1e-12, 'dSS')
			else:
				assert isinstance(v, dTF)
				nA = 1 if tf else max(sum(abs(x) for x in r_) for r_ in c['S']['A'])
				g = [[[x]] for x in sy.imp_tf(v.num, v.den, N)]
				sy.same_response(g, h, [[[(1 + sum(abs(x) for r_ in (c['S']['B'] + c['S']['C'] + c['S']['D']) for x in r_) ** 2 if not tf else 1e-2 * sum(map(abs, c['H']['num']))) * (1 + nA) ** (max(k, n)) * 4 ** n]] for k in range(N)], 1e-10, 'dTF')
	ctx.nontrivial(p * q > 1 or (tf and 'dSS' in c['reads']) or (not tf and 'dTF' in c['reads']))


seeds = st.one_of(st.just(0), st.integers(0, 10 ** 9))

def same_filter(a, b):
	for k in 'ABCD':
		assert np.array_equal(getattr(a.dSS, k), getattr(b.dSS, k)), "not the same filter (%s)" % k

def stable_matrix(A):
	ev, V = np.linalg.eig(np.array(A))
	r = max(abs(ev))
	assert r < 1 + 1e-6, "unstable: spectral radius %r" % r

def disturb(k):
	np.random.seed(k)
	np.random.rand(k % 7)

@check.part(st.fixed_dictionaries(dict(n=st.integers(1, 14), p=st.integers(1, 12), q=st.integers(1, 12), seed=seeds, junk=st.integers(0, 1000))), quick=300, thorough=4000, rule="random filters with a seed; non-trivial: n >= 2")
def named_filters(c, ctx):
	disturb(c['junk'])
	f = random_Filter(c['n'], c['p'], c['q'], seed=c['seed'])
	assert (f.dSS.n, f.p, f.q) == (c['n'], c['p'], c['q'])
	assert f.isStable()
	stable_matrix(f.dSS.A)
	assert all(np.any(np.array(M)) for M in (f.dSS.B, f.dSS.C)), "B or C is null"
	disturb(c['junk'] + 1)
	same_filter(f, random_Filter(name=f.name))
	disturb(c['junk'] + 2)
	same_filter(f, random_Filter(c['n'], c['p'], c['q'], seed=c['seed']))
	ctx.nontrivial(c['n'] >= 2)
	ctx.label('seed 0' if c['seed'] == 0 else 'seed')


@check.part(st.sampled_from(['', 'x', 'Random', 'RandomFilter', 'RandomFilter-1/2-3', 'RandomFilter-a/1/2-12', 'RandomFilter-3/4/5', 'randomfilter-1/1/1-1', '-RandomFilter-1/1/1-1']), quick=20, thorough=20, rule="names that are not names of random filters; non-trivial: all but the empty one")
def wrong_names(c, ctx):
	if not c:
		return
	ctx.nontrivial()
	try:
		random_Filter(name=c)
	except ValueError:
		return
	raise AssertionError("%r is accepted" % c)


rng = st.tuples(st.integers(1, 6), st.integers(1, 4)).map(lambda t: [t[0], t[0] + t[1]])

@check.part(st.fixed_dictionaries(dict(number=st.integers(0, 4), n=rng, p=rng, q=rng, kind=st.sampled_from(['SISO', 'SIMO', 'MISO', 'MIMO', 'all', 'all']), seeded=st.booleans(), seed=seeds, what=st.sampled_from(['Filter', 'Filter', 'Filter', 'dSS', 'dSSunstable', 'dSSmp', 'dSSmpunstable', 'dTF', 'dTFmp', 'dTF=', 'dTFmp=', 'dSS1', 'Gabarit']))), quick=300, thorough=3000,
	rule="the iterators, with any ranges for the sizes; non-trivial: several systems asked")
def iterators(c, ctx):
	np.random.seed(c['seed'] % 2 ** 31)
	n, p, q = tuple(c['n']), tuple(c['p']), tuple(c['q'])
	w = c['what']
	one = (1, 2)
	if w == 'Filter':
		L = list(iter_random_Filter(c['number'], n, p, q, c['seeded'], c['kind']))
		sizes = {'SISO': (one, one), 'SIMO': (p, one), 'MISO': (one, q), 'MIMO': (p, q)}.get(c['kind'])
		for f in L:
			assert n[0] <= f.dSS.n < n[1], "%d states" % f.dSS.n
			ok = [sizes] if sizes else [(one, one), (p, one), (one, q), (p, q)]
			assert any(a[0] <= f.p < a[1] and b[0] <= f.q < b[1] for a, b in ok), "size (%d, %d)" % (f.p, f.q)
			assert f.isStable()
			stable_matrix(f.dSS.A)
			if c['seeded']:
				same_filter(f, random_Filter(name=f.name))
	elif w in ('dTF', 'dTFmp'):
		L = list((iter_random_dTF if w == 'dTF' else iter_random_dTFmp)(c['number'], n))
		for H in L:
			assert n[0] <= H.order < n[1], "order %d" % H.order
			assert H.den[0, 0] == 1
	elif w in ('dTF=', 'dTFmp='):		# (one order only)
		L = list((iter_random_dTF if w == 'dTF=' else iter_random_dTFmp)(c['number'], (n[0], n[0])))
		for H in L:
			assert H.order == n[0] and H.den[0, 0] == 1, "order %d" % H.order
	elif w == 'Gabarit':
		form = [None, 'lowpass'][c['seeded']]
		L = list(iter_random_Gabarit(c['number'], form))
		for g in L:
			h = random_Gabarit(form, seed=g.seed)
			assert str(g) == str(h) and g.type == 'lowpass', "%s is not reproduced by its seed: %s" % (g, h)
			assert [(b.F1, b.F2, b.passGains, b.stopGain) for b in g.bands] == [(b.F1, b.F2, b.passGains, b.stopGain) for b in h.bands]
	else:
		if w == 'dSS1':
			L = list(iter_random_dSS(c['number'], c['seeded'], n, 1, 1))
			p = q = one
		else:
			L = list((iter_random_dSSmp if 'mp' in w else iter_random_dSS)(c['number'], 'unstable' not in w, n, p, q))
		for S in L:
			assert n[0] <= S.n < n[1] and p[0] <= S.p < p[1] and q[0] <= S.q < q[1], "size %s" % ((S.n, S.p, S.q),)
			if w in ('dSS', 'dSSmp') or (w == 'dSS1' and c['seeded']):
				stable_matrix([[float(x) for x in r] for r in matF(S.A)])
	assert len(L) == c['number']
	ctx.nontrivial(c['number'] >= 2)
	ctx.label(w)


@check.part(st.fixed_dictionaries(dict(n=st.integers(1, 8), p=st.integers(1, 3), q=st.integers(1, 3), pRepeat=st.sampled_from([0.01, 0., 0.5, 1.]), pReal=st.sampled_from([0.5, 0., 1.]), pBC=st.sampled_from([0.9, 0.5, 1., 0.2]), seed=seeds)), quick=200, thorough=3000, rule="random stable systems with any probabilities; non-trivial: extreme probabilities and n >= 2")
def random_systems(c, ctx):
	np.random.seed(c['seed'] % 2 ** 31)
	S = random_dSS(c['n'], c['p'], c['q'], pRepeat=c['pRepeat'], pReal=c['pReal'], pBCmask=c['pBC'])
	assert S.size == (c['n'], c['p'], c['q'])
	if c['pRepeat'] < 0.5:
		stable_matrix(S.A)
		if c['pReal'] == 1. and c['n'] <= 5:
			ev = np.linalg.eigvals(S.A)
			assert max(abs(ev.imag)) < 1e-3, "complex poles: %s" % ev
		if 2 <= c['n'] <= 5:
			# (several systems, so that this is true with a probability higher than 1-1e-12)
			ev = np.concatenate([np.linalg.eigvals(x) for x in [S.A] + [random_dSS(c['n'], 1, 1, pRepeat=c['pRepeat'], pReal=c['pReal']).A for _ in range(4)]])
			assert max(abs(ev.real)) > 1e-4, "the poles have no real part: %s" % ev
			assert c['pReal'] > 0. or max(abs(ev.imag)) > 1e-4, "the poles are real: %s" % ev
	else:
		# repeated poles are ill-conditioned
		assert max(abs(np.linalg.eigvals(S.A))) < 1.2
	assert np.any(S.B) and np.any(S.C), "B or C is null"
	if c['pBC'] == 1.:
		assert np.all(S.B) and np.all(S.C), "masked entries with a probability 1"
	ctx.nontrivial(c['n'] >= 2 and (c['pRepeat'], c['pReal'], c['pBC']) != (0.01, 0.5, 0.9))
	for bad in ((0, 1, 1), (1, 0, 1), (1, 1, 0)):
		try:
			random_dSS(*bad)
		except ValueError:
			continue
		raise AssertionError("size %s is accepted" % (bad,))


rangef = lambda lo, hi, w: st.tuples(st.floats(lo, hi), st.floats(0, w)).map(lambda t: [t[0], t[0] + t[1]])

@st.composite
def designs(draw):
	d = dict(what=draw(st.sampled_from(['Butter', 'Elliptic', 'Elliptic', 'Gabarit'])), seed=draw(st.one_of(st.none(), seeds)), n=draw(st.tuples(st.integers(1, 5), st.integers(1, 3)).map(lambda t: [t[0], t[0] + t[1]])),
		form=draw(st.sampled_from([None, "lowpass", "highpass", "bandpass", "bandstop"])), even=draw(st.booleans()), junk=draw(st.integers(0, 999)), it=draw(st.booleans()),
		Wc=draw(st.tuples(st.floats(0.1, 0.5), st.floats(0.05, 0.3)).map(lambda t: [t[0], t[0] + t[1]])))
	k = draw(st.integers(-2, 3))
	if k > 0:		# other ranges for the two frequencies: disjoint, overlapping, nested, empty
		d['W1'] = draw(rangef(0.1, 0.6, 0.3))
		d['W2'] = draw(rangef(0.1, 0.6, 0.3)) if k < 3 else [d['W1'][0] - 0.05, d['W1'][0] + draw(st.sampled_from([0., -0.01, 0.02]))]
	if d['what'] == 'Elliptic':
		d['rp'] = draw(st.one_of(st.none(), rangef(0.01, 5, 5)))
		d['rs'] = draw(st.one_of(st.none(), rangef(25, 60, 20)))
		d['quant'] = draw(st.sampled_from([None, 100, 64, 1000]))
		if d['quant']:
			d['rp'] = [max(0.02, x) for x in d['rp'] or [0.1, 3.]]		# (a ripple rounded to 0 is not possible)
	return d

@check.part(designs(), quick=300, thorough=3000, rule="random Butterworth and elliptic filters (all the ranges of the parameters) and frequency specifications, with or without seed; non-trivial: with a seed, order >= 2")
def random_designs(c, ctx):
	disturb(c['junk'])
	seed = c['seed'] if c['seed'] is None else c['seed'] % 2 ** 31
	w = c['what']
	ctx.label(w, 'no seed' if seed is None else 'seed', str(c['form']))
	if w == 'Gabarit':
		g = random_Gabarit(seed=seed)
		if seed is not None:
			assert g.seed == seed
		g2 = random_Gabarit(seed=g.seed)
		assert str(g) == str(g2) and g.type == 'lowpass'
		assert [(b.F1, b.F2, b.passGains, b.stopGain) for b in g.bands] == [(b.F1, b.F2, b.passGains, b.stopGain) for b in g2.bands]
		assert 0 <= g.bands[0].F1 < g.bands[0].F2 <= g.bands[1].F1 < g.bands[1].F2
		ctx.nontrivial(seed is not None)
		return
	n = tuple(c['n'])
	kw = dict(n=n, Wc=tuple(c['Wc']), form=c['form'])
	make = random_Butter if w == 'Butter' else random_Elliptic
	if w == 'Butter':
		kw['onlyEven'] = c['even']
	W1, W2 = c.get('W1', [0.1, 0.5]), c.get('W2', [0.5, 0.8])
	if 'W1' in c:
		kw.update(W1=tuple(W1), W2=tuple(W2))
	if c['form'] in ('bandpass', 'bandstop') and W2[1] <= W1[0]:
		ctx.label('empty')
		try:
			make(seed=seed, **kw)
		except ValueError:
			ctx.nontrivial()
			return
		raise AssertionError("the frequencies %s and %s are accepted" % (W1, W2))
	if 0 < W2[1] - W1[0] < 0.01 * (W1[1] - W1[0]):
		raise Invalid()		# (the first frequency is drawn again until it is possible: too long)
	for k in ('rp', 'rs', 'quant'):
		if c.get(k):
			kw[k] = c[k] if k == 'quant' else tuple(c[k])
	if c.get('quant') and W2[0] - W1[1] < 3. / c['quant']:
		del kw['quant']		# (the quantized frequencies may be equal)
	try:
		f = make(seed=seed, **kw)
	except ValueError:
		if c['form'] is None and W2[1] <= W1[0]:
			return
		raise
	assert isinstance(f, Butter if w == 'Butter' else Elliptic) and f.isStable() and f.isSISO()
	assert bool(f.isButter()) == (w == 'Butter')
	form = f.btype if w == 'Butter' else f.etype
	assert c['form'] in (None, form)
	assert n[0] <= f.n < n[1] + (w == 'Butter' and c['even'])
	if w == 'Butter' and c['even']:
		assert f.n % 2 == 0, "odd order %d" % f.n
	quant = kw.get('quant')
	t = 0.5 / quant + 1e-12 if quant else 1e-12
	within = lambda x, r: r[0] - t <= x <= r[1] + t
	if form in ('bandpass', 'bandstop'):
		assert within(f.Wn[0], W1) and within(f.Wn[1], W2) and f.Wn[0] < f.Wn[1] and f.order == 2 * f.n, "frequencies %s, not in %s, %s" % (f.Wn, W1, W2)
	else:
		assert within(f.Wn, c['Wc']) and f.order == f.n
	if w == 'Elliptic':
		rp, rs = c.get('rp') or [0, 10], c.get('rs') or [30, 80]
		assert within(f.rp, rp) and within(f.rs, rs), "rp=%r, rs=%r not in %s, %s" % (f.rp, f.rs, rp, rs)
		if quant:
			ctx.label('quantized')
			for x in [f.rp, f.rs] + (f.Wn if isinstance(f.Wn, list) else []):
				assert abs(x * quant - round(x * quant)) < 1e-6, "%r is not a multiple of 1/%d" % (x, quant)
			if seed is not None:
				# the nearest multiples of what is drawn without quantization
				f0 = make(seed=seed, **{k: v for k, v in kw.items() if k != 'quant'})
				for x, y in zip([f.rp, f.rs] + (f.Wn if isinstance(f.Wn, list) else []), [f0.rp, f0.rs] + (f0.Wn if isinstance(f.Wn, list) else [])):
					assert abs(x - y) <= t, "%r is not the nearest multiple of 1/%d to %r" % (x, quant, y)
	if seed is not None:
		disturb(c['junk'] + 1)
		g = make(seed=seed, **kw)
		assert np.array_equal(f.dTF.num, g.dTF.num) and np.array_equal(f.dTF.den, g.dTF.den) and f.name == g.name and str(seed) in f.name
	if c['form'] is None and W2[1] <= W1[0]:
		return		# (the next ones may be band-pass or band-stop filters: rejected)
	L = list((iter_random_Butter if w == 'Butter' else iter_random_Elliptic)(2, seeded=c['it'], **kw))
	assert len(L) == 2
	for g in L:
		assert n[0] <= g.n < n[1] + (w == 'Butter' and c['even']) and c['form'] in (None, g.btype if w == 'Butter' else g.etype)
		if c['it']:
			s = int(g.name.split('-')[-1])
			assert np.array_equal(g.dTF.num, make(seed=s, **kw).dTF.num), "the seed in the name does not give the same filter"
	ctx.nontrivial(seed is not None and f.n >= 2)
	ctx.label('ranges' if 'W1' in c else '')
